//go:build go1.21

package main

//replay:use fill_test.go ofxmain_test.go

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

// A c28run is one run of the program.
type c28run struct {
	Args   []string
	Status int    // the server's answer, 0 if there is none
	Body   []byte // the answer's
	Cut    bool   // the answer breaks off
	Dir    string
}

type c28cut struct{ io.Reader }

func (c c28cut) Read(p []byte) (int, error) {
	n, err := c.Reader.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

// c28main is the program, with the network replaced.
func c28main(file string) {
	var r c28run
	text, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(text, &r); err != nil {
		panic(err)
	}
	n := 0
	t := answering(func(q *http.Request) (*http.Response, error) {
		n++
		os.WriteFile(filepath.Join(r.Dir, fmt.Sprint("sent", n)), []byte(q.URL.String()+"\n"+sentBodies[len(sentBodies)-1]), 0600)
		if l, _ := filepath.Glob(filepath.Join(r.Dir, "out*")); len(l) > 0 {
			os.WriteFile(filepath.Join(r.Dir, "early"), nil, 0600)
		}
		if r.Status == 0 {
			return nil, errors.New("no route to host")
		}
		b := io.Reader(bytes.NewReader(r.Body))
		if r.Cut {
			b = c28cut{b}
		}
		return &http.Response{StatusCode: r.Status, Status: fmt.Sprint(r.Status, " ", http.StatusText(r.Status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{"Content-Type": {"application/x-ofx"}}, Body: io.NopCloser(b), ContentLength: -1, Request: q}, nil
	})
	http.DefaultTransport = t
	http.DefaultClient = &http.Client{Transport: t}
	os.Args = append([]string{"ofx"}, r.Args...)
	main()
	os.Exit(0)
}

type c28result struct {
	code int
	out  string
	sent []string
	file string
	made []string
}

func c28do(t *testing.T, r c28run) (res c28result) {
	r.Dir = t.TempDir()
	for i, a := range r.Args {
		r.Args[i] = strings.Replace(a, "DIR", r.Dir, 1)
	}
	b, _ := json.Marshal(r)
	run := filepath.Join(t.TempDir(), "run")
	if err := os.WriteFile(run, b, 0600); err != nil {
		t.Fatal(err)
	}
	c := exec.Command(os.Args[0], "-test.run=^TestReplayC28$")
	c.Dir = r.Dir
	c.Env = append(os.Environ(), "VERIF_C28="+run)
	out, err := c.CombinedOutput()
	res.out = string(out)
	if err != nil {
		res.code = c.ProcessState.ExitCode()
	}
	for n := 1; ; n++ {
		b, err := os.ReadFile(filepath.Join(r.Dir, fmt.Sprint("sent", n)))
		if err != nil {
			break
		}
		res.sent = append(res.sent, string(b))
	}
	l, _ := filepath.Glob(filepath.Join(r.Dir, "*"))
	for _, f := range l {
		if !strings.HasPrefix(filepath.Base(f), "sent") {
			res.made = append(res.made, filepath.Base(f))
		}
	}
	if b, err := os.ReadFile(filepath.Join(r.Dir, "out.ofx")); err == nil {
		res.file = string(b)
	}
	return res
}

func TestReplayC28(t *testing.T) {
	if s := os.Getenv("VERIF_C28"); s != "" {
		c28main(s)
	}
	server := []string{"-url", "https://bank.example.com/ofx", "-username", "user<1>", "-password", "secret&2", "-org", "ORG7", "-fid", "7777",
		"-appid", "AP8", "-appver", "2345", "-clientuid", "CLIENT-9"}
	type kind struct {
		name   string
		store  bool
		args   []string
		inside []string
	}
	kinds := []kind{
		{"get-accounts", false, nil, []string{"<ACCTINFORQ>"}},
		{"download-profile", true, nil, []string{"<PROFRQ>"}},
		{"download-bank", true, []string{"-bankid", "B-11", "-acctid", "A-12", "-accttype", "SAVINGS"}, []string{"<STMTRQ>", "<BANKID>B-11", "<ACCTID>A-12", "<ACCTTYPE>SAVINGS"}},
		{"download-cc", true, []string{"-acctid", "A-13"}, []string{"<CCSTMTRQ>", "<ACCTID>A-13"}},
		{"download-inv", true, []string{"-brokerid", "BR-14", "-acctid", "A-15"}, []string{"<INVSTMTRQ>", "<BROKERID>BR-14", "<ACCTID>A-15"}},
		{"transactions-bank", false, []string{"-bankid", "B-16", "-acctid", "A-17", "-accttype", "CHECKING"}, []string{"<STMTRQ>", "<BANKID>B-16", "<ACCTID>A-17", "<ACCTTYPE>CHECKING"}},
		{"transactions-cc", false, []string{"-acctid", "A-18"}, []string{"<CCSTMTRQ>", "<ACCTID>A-18"}},
		{"transactions-inv", false, []string{"-brokerid", "BR-19", "-acctid", "A-20"}, []string{"<INVSTMTRQ>", "<BROKERID>BR-19", "<ACCTID>A-20"}},
	}
	bodies := []string{"", "hello", "line\r\nline\n\x00\xff", strings.Repeat("0123456789abcdef", 9000)}
	for _, k := range kinds {
		args := func(extra ...string) []string {
			l := append([]string{k.name}, server...)
			l = append(l, k.args...)
			if k.store {
				l = append(l, "-filename", "DIR/out.ofx")
			}
			return append(l, extra...)
		}
		fail := func(r c28run, res c28result, what string) {
			failing(t, "%s: ofx %q with answer %d %.60q: exit status %d, printed %.900q, sent %.900q, files %q", what, r.Args, r.Status, r.Body, res.code, res.out, res.sent, res.made)
		}
		carries := func(text string) bool {
			l := append([]string{"<FID>7777", "<ORG>ORG7", "<CLIENTUID>CLIENT-9", "<USERID>user&lt;1&gt;", "<USERPASS>secret&amp;2", "<APPID>AP8", "<APPVER>2345"}, k.inside...)
			for _, s := range l {
				if !strings.Contains(strings.Replace(text, "&#34;", `"`, -1), s) {
					return false
				}
			}
			return true
		}
		// dry runs
		for _, extra := range [][]string{{"-dryrun"}, {"-dryrun", "-carriagereturn"}, {"-dryrun", "-noindent", "-ofxversion", "103"}} {
			r := c28run{Args: args(extra...), Status: 200, Body: []byte("x")}
			res := c28do(t, r)
			switch {
			case res.code != 0 || len(res.sent) > 0 || len(res.made) > 0:
				fail(r, res, "a dry run which does something")
			case !carries(res.out):
				fail(r, res, "a dry run which doesn't print the request")
			}
		}
		// requests
		for i, body := range bodies {
			if !k.store && i > 0 {
				break
			}
			for _, status := range []int{200, 404, 500, 0} {
				r := c28run{Args: args(), Status: status, Body: []byte(body)}
				if i%2 == 1 {
					r.Args = args("-ofxversion", "102")
				}
				res := c28do(t, r)
				switch {
				case len(res.sent) != 1 || !carries(res.sent[0]) || !strings.HasPrefix(res.sent[0], "https://bank.example.com/ofx\n"):
					fail(r, res, "not the one request meant is sent")
				case k.store && status == 200 && (res.code != 0 || res.file != body || len(res.made) != 1):
					fail(r, res, "the answer hasn't been stored")
				case k.store && status != 200 && (res.code == 0 || len(res.made) > 0):
					fail(r, res, "a failing request")
				case !k.store && (res.code == 0 || len(res.made) > 0):
					fail(r, res, "an answer which is no response")
				}
			}
			if k.store {
				r := c28run{Args: args(), Status: 200, Body: []byte(body), Cut: true}
				if res := c28do(t, r); res.code == 0 {
					fail(r, res, "an answer which breaks off")
				}
				r = c28run{Args: args("-filename", "DIR/missing/out.ofx"), Status: 200, Body: []byte(body)}
				if res := c28do(t, r); res.code == 0 || len(res.made) > 0 {
					fail(r, res, "a file which can't be created")
				}
			}
		}
		// options which are missing
		without := []string{"-url", "-username", "-password"}
		if k.store {
			without = append(without, "-filename")
		}
		for _, w := range without {
			if k.name == "download-profile" && w != "-url" && w != "-filename" {
				continue
			}
			r := c28run{Status: 200, Body: []byte("x")}
			l := args()
			for i := 0; i < len(l); i++ {
				if l[i] == w {
					if w == "-filename" { // which has a default
						r.Args = append(r.Args, w, "")
					}
					i++
					continue
				}
				r.Args = append(r.Args, l[i])
			}
			if res := c28do(t, r); res.code == 0 || len(res.sent) > 0 || len(res.made) > 0 {
				fail(r, res, "an option is missing")
			}
		}
		r := c28run{Args: args("-nosuchoption"), Status: 200, Body: []byte("x")}
		if res := c28do(t, r); res.code == 0 || len(res.sent) > 0 || len(res.made) > 0 {
			fail(r, res, "an option which there isn't")
		}
	}
	// no command, or one there isn't
	for _, l := range [][]string{nil, {"nosuchcommand"}, {""}, {"-dryrun"}} {
		r := c28run{Args: append([]string{}, l...), Status: 200, Body: []byte("x")}
		if res := c28do(t, r); res.code == 0 || len(res.sent) > 0 || len(res.made) > 0 || strings.Contains(res.out, "panic:") || strings.Contains(res.out, "runtime error") {
			failing(t, "ofx %q: exit status %d, printed %.900q, sent %.900q", l, res.code, res.out, res.sent)
		}
	}
	// looking for settings
	detect := []string{"detect-settings", "-delay", "0", "-url", "https://bank.example.com/ofx", "-username", "user<1>", "-password", "secret&2", "-org", "ORG7", "-fid", "7777"}
	r := c28run{Args: append([]string{}, detect...), Status: 404}
	res := c28do(t, r)
	named := 0
	for _, q := range res.sent {
		if !strings.HasPrefix(q, "https://bank.example.com/ofx\n") || !strings.Contains(q, "<ORG>ORG7") || !strings.Contains(q, "<FID>7777") || !strings.Contains(q, "<PROFRQ>") {
			failing(t, "ofx %q: sent %.900q", r.Args, q)
		}
		if strings.Contains(q, "<USERID>user&lt;1&gt;") && strings.Contains(q, "<USERPASS>secret&amp;2") {
			named++
		}
	}
	if named == 0 || 2*named != len(res.sent) || len(res.made) > 0 {
		failing(t, "ofx %q: %d requests, %d of them with the user's name and password; printed %.300q", r.Args, len(res.sent), named, res.out)
	}
	for _, w := range []string{"-url", "-username", "-password"} {
		r := c28run{Status: 404}
		for i := 0; i < len(detect); i++ {
			if detect[i] == w {
				i++
				continue
			}
			r.Args = append(r.Args, detect[i])
		}
		if res := c28do(t, r); res.code == 0 || len(res.sent) > 0 || len(res.made) > 0 {
			failing(t, "ofx %q: exit status %d, printed %.900q, %d requests sent", r.Args, res.code, res.out, len(res.sent))
		}
	}
}
