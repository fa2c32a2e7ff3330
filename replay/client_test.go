//go:build go1.21

package ofxgo_test

import (
	"encoding/pem"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
)

// The clients' own certificate checks accept the test servers.
func init() {
	s := httptest.NewTLSServer(http.NotFoundHandler())
	defer s.Close()
	f, err := os.CreateTemp("", "cert")
	if err != nil {
		return
	}
	pem.Encode(f, &pem.Block{Type: "CERTIFICATE", Bytes: s.Certificate().Raw})
	f.Close()
	os.Setenv("SSL_CERT_FILE", f.Name())
	os.Setenv("SSL_CERT_DIR", "/nonexistent")
}

type seen struct {
	method, uri, host, body string
	header                  http.Header
	finished                bool
}

// watched is a server which records what it is sent.
type watched struct {
	*httptest.Server
	mu    sync.Mutex
	reqs  []*seen
	conns int
}

func (w *watched) got() []*seen {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]*seen{}, w.reqs...)
}

func (w *watched) connections() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.conns
}

// settled waits until all handlers are done.
func (w *watched) settled() bool {
	for i := 0; i < 150; i++ {
		ok := true
		w.mu.Lock()
		for _, r := range w.reqs {
			ok = ok && r.finished
		}
		w.mu.Unlock()
		if ok {
			return true
		}
		time.Sleep(20 * time.Millisecond)
	}
	return false
}

func watch(useTLS bool, h func(w http.ResponseWriter, r *http.Request, n int)) *watched {
	s := &watched{}
	s.Server = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		s.mu.Lock()
		n := len(s.reqs)
		q := &seen{method: r.Method, uri: r.RequestURI, host: r.Host, body: string(b), header: r.Header.Clone()}
		s.reqs = append(s.reqs, q)
		s.mu.Unlock()
		defer func() {
			s.mu.Lock()
			q.finished = true
			s.mu.Unlock()
		}()
		h(w, r, n)
	}))
	s.Config.ErrorLog = log.New(io.Discard, "", 0)
	s.Config.ConnState = func(c net.Conn, st http.ConnState) {
		if st == http.StateNew {
			s.mu.Lock()
			s.conns++
			s.mu.Unlock()
		}
	}
	if useTLS {
		s.StartTLS()
	} else {
		s.Start()
	}
	return s
}

var clientKinds = []string{"basic", "discover", "vanguard"}

func makeClient(kind string, bc *ofxgo.BasicClient) ofxgo.Client {
	switch kind {
	case "discover":
		return ofxgo.NewDiscoverCardClient(bc)
	case "vanguard":
		return ofxgo.NewVanguardClient(bc)
	}
	return bc
}

func clientRequest(url string) *ofxgo.Request {
	q := &ofxgo.Request{URL: url}
	q.Signon.UserID, q.Signon.UserPass = "user", "pass"
	q.Signon.Org, q.Signon.Fid = "org", "fid"
	q.Prof = append(q.Prof, &ofxgo.ProfileRequest{TrnUID: "123", DtProfUp: *ofxgo.NewDateGMT(2006, 1, 2, 3, 4, 5, 0)})
	return q
}

const answerDoc = `<?xml version="1.0" encoding="UTF-8" standalone="no"?>
<?OFX OFXHEADER="200" VERSION="203" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>
<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><DTSERVER>20060115112303</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1></OFX>`

// counted closes count.
type counted struct {
	io.ReadCloser
	closed *int
}

func (c *counted) Close() error { *c.closed++; return c.ReadCloser.Close() }

// onlyReader hides everything but Read.
type onlyReader struct{ io.Reader }

func guarded(t *testing.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			failing(t, "%s: panic: %v", what, r)
		}
	}()
	f()
}

func short(s string) string {
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return strings.ReplaceAll(s, "\r", "\\r")
}
