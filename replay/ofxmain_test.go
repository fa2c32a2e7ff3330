package main

import (
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

// sent are the requests the program has sent.
var sent []*http.Request
var sentBodies []string

type answering func(*http.Request) (*http.Response, error)

func (f answering) RoundTrip(r *http.Request) (*http.Response, error) {
	b := ""
	if r.Body != nil {
		x, _ := io.ReadAll(r.Body)
		r.Body.Close()
		b = string(x)
	}
	sent = append(sent, r)
	sentBodies = append(sentBodies, b)
	return f(r)
}

// answer makes all requests be answered with the text.
func answer(code int, text string) {
	t := answering(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: code, Status: http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{"Content-Type": {"application/x-ofx"}}, Body: io.NopCloser(strings.NewReader(text)), ContentLength: int64(len(text)), Request: r}, nil
	})
	http.DefaultTransport = t
	http.DefaultClient = &http.Client{Transport: t}
}

// printed is what f prints.
func printed(f func()) (text string, crash interface{}) {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = w
	done := make(chan string)
	go func() {
		var all strings.Builder
		io.Copy(&all, r)
		r.Close()
		done <- all.String()
	}()
	func() {
		defer func() { crash = recover() }()
		f()
	}()
	os.Stdout = old
	w.Close()
	return <-done, crash
}

// inChild runs the test in a process of its own, so that it is noticed when
// the program ends it; note tells what is being tried.
func inChild(t *testing.T, prop string) bool {
	if os.Getenv("VERIF_CHILD") != "" {
		return true
	}
	dir := t.TempDir()
	c := exec.Command(os.Args[0], "-test.run=^TestReplay"+prop+"$", "-test.v")
	c.Env = append(os.Environ(), "VERIF_CHILD="+filepath.Join(dir, "note"))
	out, err := c.CombinedOutput()
	os.Stdout.Write(out)
	if err != nil && !strings.Contains(string(out), "FAILING-INPUT") {
		b, _ := os.ReadFile(filepath.Join(dir, "note"))
		e := string(out)
		if len(e) > 1500 {
			e = e[len(e)-1500:]
		}
		failing(t, "the program ended (%v) after printing %q: %s", err, e, b)
	} else if err != nil {
		t.Fail()
	}
	return false
}

func note(s string) {
	os.WriteFile(os.Getenv("VERIF_CHILD"), []byte(s), 0600)
}
