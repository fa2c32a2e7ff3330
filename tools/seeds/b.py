HEAD = '''
package main

import (
	"bytes"
	"errors"
	"io"
	"io/ioutil"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

type answering func(*http.Request) (*http.Response, error)

func (f answering) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// broken is a body which breaks off after its text.
type broken struct{ io.Reader }

func (b broken) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

// run runs the program with the arguments in a process of its own, where
// the server's answer is body, or none if it is "none", and breaks off if
// it starts with "broken".
func run(t *testing.T, dir, body string, args ...string) (string, error) {
	c := exec.Command(os.Args[0], "-test.run=^TestSeedDemo$")
	c.Dir = dir
	c.Env = append(os.Environ(), "SEED_ARGS="+strings.Join(args, "\\n"), "SEED_BODY="+body)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err := c.Run()
	return out.String(), err
}

func child() {
	args := os.Getenv("SEED_ARGS")
	if args == "" {
		return
	}
	body := os.Getenv("SEED_BODY")
	http.DefaultTransport = answering(func(r *http.Request) (*http.Response, error) {
		if body == "none" {
			return nil, errors.New("no route to host")
		}
		var b io.Reader = strings.NewReader(body)
		if strings.HasPrefix(body, "broken") {
			b = broken{b}
		}
		return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{"Content-Type": {"application/x-ofx"}}, Body: ioutil.NopCloser(b), ContentLength: -1, Request: r}, nil
	})
	http.DefaultClient = &http.Client{Transport: http.DefaultTransport}
	os.Args = append([]string{"ofx"}, strings.Split(args, "\\n")...)
	main()
	os.Exit(0)
}

var server = []string{"-url", "https://bank.example.com/ofx", "-username", "user", "-password", "secret", "-org", "ORG", "-fid", "77"}

var _ = filepath.Join

'''
SIGNON = '''OFXHEADER:100
DATA:OFXSGML
VERSION:102
SECURITY:NONE
ENCODING:USASCII
CHARSET:1252
COMPRESSION:NONE
OLDFILEUID:NONE
NEWFILEUID:NONE

<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0<SEVERITY>INFO</STATUS><DTSERVER>20200101120000<LANGUAGE>ENG</SONRS></SIGNONMSGSRSV1>'''
BANK = SIGNON + '''<BANKMSGSRSV1><STMTTRNRS><TRNUID>1<STATUS><CODE>0<SEVERITY>INFO</STATUS><STMTRS><CURDEF>USD<BANKACCTFROM><BANKID>1<ACCTID>2<ACCTTYPE>CHECKING</BANKACCTFROM><BANKTRANLIST><DTSTART>20200101<DTEND>20200201%s</BANKTRANLIST><LEDGERBAL><BALAMT>12.5<DTASOF>20200201</LEDGERBAL></STMTRS></STMTTRNRS></BANKMSGSRSV1></OFX>
'''
INV = SIGNON + '''<INVSTMTMSGSRSV1><INVSTMTTRNRS><TRNUID>1<STATUS><CODE>0<SEVERITY>INFO</STATUS><INVSTMTRS><DTASOF>20200201<CURDEF>USD<INVACCTFROM><BROKERID>b<ACCTID>2</INVACCTFROM><INVTRANLIST><DTSTART>20200101<DTEND>20200201%s</INVTRANLIST></INVSTMTRS></INVSTMTTRNRS></INVSTMTMSGSRSV1></OFX>
'''
SEEDS = [
dict(name='c28-early-file', pkg='./cmd/ofx', property='C28', needs='a failing request by download-inv while the file named exists already (or not)',
 breaks='download-inv creates, and so empties, the file before the request has succeeded.',
 edits=[('cmd/ofx/invdownload.go', '''	response, err := client.RequestNoParse(query)

	if err != nil {
		fmt.Println("Error requesting account statement:", err)

		os.Exit(1)
	}
	defer response.Body.Close()

	file, err := os.Create(filename)
	if err != nil {
		fmt.Println("Error creating file to write to:", err)
		os.Exit(1)
	}
	defer file.Close()
''', '''	// Don't bother the server if there's nowhere to put its response
	file, err := os.Create(filename)
	if err != nil {
		fmt.Println("Error creating file to write to:", err)
		os.Exit(1)
	}
	defer file.Close()

	response, err := client.RequestNoParse(query)

	if err != nil {
		fmt.Println("Error requesting account statement:", err)

		os.Exit(1)
	}
	defer response.Body.Close()
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	child()
	dir := t.TempDir()
	file := filepath.Join(dir, "inv.ofx")
	if err := ioutil.WriteFile(file, []byte("last month's statement"), 0600); err != nil {
		t.Fatal(err)
	}
	out, err := run(t, dir, "none", append([]string{"download-inv", "-filename", file, "-acctid", "1", "-brokerid", "2"}, server...)...)
	if err == nil {
		t.Errorf("no failure reported: %s", out)
	}
	if b, err := ioutil.ReadFile(file); err != nil || string(b) != "last month's statement" {
		t.Errorf("the file has been changed: %q, %v", b, err)
	}
}
'''),
dict(name='c28-broken-body', pkg='./cmd/ofx', property='C28', needs='a credit card download whose response breaks off before its end (io.ErrUnexpectedEOF)',
 breaks='download-cc reports success although only a part of the response has been stored.',
 edits=[('cmd/ofx/ccdownload.go', '''	_, err = io.Copy(file, response.Body)
	if err != nil {
''', '''	// some servers announce more than they send
	_, err = io.Copy(file, response.Body)
	if err != nil && err != io.ErrUnexpectedEOF {
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	child()
	dir := t.TempDir()
	file := filepath.Join(dir, "cc.ofx")
	args := append([]string{"download-cc", "-filename", file, "-acctid", "1"}, server...)
	if out, err := run(t, dir, "whole response", args...); err != nil {
		t.Errorf("%v: %s", err, out)
	}
	if b, err := ioutil.ReadFile(file); err != nil || string(b) != "whole response" {
		t.Errorf("stored %q, %v", b, err)
	}
	if out, err := run(t, dir, "broken off", args...); err == nil {
		t.Errorf("no failure reported: %s", out)
	}
}
'''),
dict(name='c28-shared-option', pkg='./cmd/ofx', property='C28', needs='transactions-inv with a broker id',
 breaks="The broker id given to transactions-inv goes into the bank id, so that the request is sent without it.",
 edits=[('cmd/ofx/invtransactions.go', 'Flags.StringVar(&brokerID, "brokerid", "",', 'Flags.StringVar(&bankID, "brokerid", "",')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	child()
	dir := t.TempDir()
	out, err := run(t, dir, "none", append([]string{"transactions-inv", "-dryrun", "-acctid", "1", "-brokerid", "broker.example"}, server...)...)
	if err != nil || !strings.Contains(out, "<BROKERID>broker.example") {
		t.Errorf("%v: %s", err, out)
	}
}
'''),
dict(name='c25-payee-memo', pkg='./cmd/ofx', property='C25', needs='a bank transaction with a payee (instead of a name) and a memo',
 breaks='The name of the payee is not printed for transactions which have a memo.',
 edits=[('cmd/ofx/banktransactions.go', '''	} else if tran.Payee != nil {
		name = string(tran.Payee.Name)
	}

	if len(tran.Memo) > 0 {
		name = name + " - " + string(tran.Memo)
	}
''', '''	} else if len(tran.Memo) == 0 && tran.Payee != nil {
		name = string(tran.Payee.Name)
	}

	if len(tran.Memo) > 0 {
		name = name + " - " + string(tran.Memo)
	}
''')],
 demo=HEAD + '''
const doc = `''' + BANK % '''<STMTTRN><TRNTYPE>DEBIT<DTPOSTED>20200105<TRNAMT>-3.25<FITID>9<PAYEE><NAME>Grocer<ADDR1>1 Road<CITY>Town<STATE>TX<POSTALCODE>1<PHONE>2</PAYEE><MEMO>apples</STMTTRN>''' + '''`

func TestSeedDemo(t *testing.T) {
	child()
	out, err := run(t, t.TempDir(), doc, append([]string{"transactions-bank", "-bankid", "1", "-acctid", "2", "-accttype", "CHECKING"}, server...)...)
	if err != nil || !strings.Contains(out, "apples") || !strings.Contains(out, "Grocer") {
		t.Errorf("%v: %s", err, out)
	}
}
'''),
dict(name='c25-no-balance', pkg='./cmd/ofx', property='C25', needs='an investment statement with transactions but without an INVBAL',
 breaks='transactions-inv prints nothing for investment statements without a balance.',
 edits=[('cmd/ofx/invtransactions.go', '''		if stmt.InvBal != nil && stmt.InvBal.AvailCash.Sign() != 0 {
			fmt.Printf("Balance: %s %s (as of %s)\\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
		}
		if stmt.InvTranList == nil {
			return
		}
''', '''		if stmt.InvTranList == nil || stmt.InvBal == nil {
			return
		}
		if stmt.InvBal.AvailCash.Sign() != 0 {
			fmt.Printf("Balance: %s %s (as of %s)\\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
		}
''')],
 demo=HEAD + '''
const doc = `''' + INV % '''<MARGININTEREST><INVTRAN><FITID>7<DTTRADE>20200107</INVTRAN><TOTAL>-4.75<SUBACCTFUND>CASH</MARGININTEREST>''' + '''`

func TestSeedDemo(t *testing.T) {
	child()
	out, err := run(t, t.TempDir(), doc, append([]string{"transactions-inv", "-brokerid", "1", "-acctid", "2"}, server...)...)
	if err != nil || !strings.Contains(out, "MARGININTEREST") || !strings.Contains(out, "-4.75") {
		t.Errorf("%v: %s", err, out)
	}
}
'''),
]
