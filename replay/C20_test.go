//go:build go1.21

package ofxgo_test

//replay:use client_test.go

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
)

// counting counts bodies handed out and closed.
type counting struct {
	http.RoundTripper
	opened, closed int
	fail           bool
	last           io.ReadCloser
}

func (c *counting) RoundTrip(r *http.Request) (*http.Response, error) {
	if c.fail {
		if r.Body != nil {
			r.Body.Close()
		}
		return nil, errors.New("no network")
	}
	resp, err := c.RoundTripper.RoundTrip(r)
	if err == nil {
		c.opened++
		resp.Body = &counted{resp.Body, &c.closed}
		c.last = resp.Body
	}
	return resp, err
}

func TestReplayC20(t *testing.T) {
	big := strings.Repeat("<A>", 1<<20)
	docs := map[string]string{
		"valid": answerDoc, "empty": "", "garbage": big, "cut": answerDoc[:len(answerDoc)-20],
		"invalid":  strings.Replace(answerDoc, "<LANGUAGE>ENG", "<LANGUAGE>E", 1),
		"trailing": answerDoc + big,
	}
	for _, status := range []int{200, 201, 202, 203, 204, 206, 299, 400, 401, 403, 404, 500, 503, 599} {
		for name, doc := range docs {
			for _, retry := range []bool{false, true} {
				srv := watch(true, func(w http.ResponseWriter, r *http.Request, n int) {
					if retry && r.Header.Get("Cookie") == "" {
						w.Header().Set("Set-Cookie", "a=b")
						w.Header().Set("Content-Type", "application/x-ofx")
						w.WriteHeader(200)
						if name == "garbage" {
							w.(http.Flusher).Flush()
							for i := 0; i < 8; i++ {
								io.WriteString(w, big)
							}
						}
						return
					}
					w.WriteHeader(status)
					io.WriteString(w, doc)
				})
				for _, kind := range clientKinds {
					if retry && kind != "vanguard" {
						continue
					}
					for _, agent := range []string{"", "ofxgo-test/1.0"} {
						for mode := 0; mode < 3; mode++ {
							if retry && mode == 0 {
								continue
							}
							cases++
							ct := &counting{RoundTripper: srv.Client().Transport}
							c := makeClient(kind, &ofxgo.BasicClient{UserAgent: agent, HTTPClient: &http.Client{Transport: ct}})
							what := fmt.Sprintf("%s client, status %d, %s document, call %d, retry %v", kind, status, name, mode, retry)
							n := len(srv.got())
							var resp *http.Response
							var parsed *ofxgo.Response
							var err error
							guarded(t, what, func() {
								switch mode {
								case 0:
									resp, err = c.RawRequest(srv.URL, strings.NewReader("x"))
								case 1:
									resp, err = c.RequestNoParse(clientRequest(srv.URL))
								case 2:
									parsed, err = c.Request(clientRequest(srv.URL))
								}
							})
							if status != 200 && err == nil {
								failing(t, "%s: no error", what)
							}
							if status != 200 && parsed != nil {
								failing(t, "%s: response returned", what)
							}
							if status == 200 && mode < 2 && (err != nil || resp == nil) {
								failing(t, "%s: %v", what, err)
							}
							if status == 200 && mode == 2 {
								if ok := name == "valid" || name == "trailing"; name != "trailing" && (ok && (err != nil || parsed == nil) || !ok && err == nil) {
									failing(t, "%s: error %v", what, err)
								}
							}
							if kind == "basic" {
								want := ct.opened
								if resp != nil {
									want--
								}
								if ct.closed < want {
									failing(t, "%s: %d bodies of %d closed", what, ct.closed, ct.opened)
								}
								if resp != nil && ct.closed > want {
									failing(t, "%s: the returned body is closed", what)
								}
							}
							if resp != nil {
								if status == 200 {
									b, rerr := io.ReadAll(resp.Body)
									if rerr != nil || string(b) != doc {
										failing(t, "%s: the returned body cannot be read", what)
									}
								}
								resp.Body.Close()
							}
							if kind == "vanguard" && len(doc) > 1000 && !srv.settled() {
								failing(t, "%s: a body was not closed", what)
							}
							for _, q := range srv.got()[n:] {
								if kind == "discover" {
									continue
								}
								if ct := q.header.Values("Content-Type"); len(ct) != 1 || ct[0] != "application/x-ofx" {
									failing(t, "%s: content type %q", what, ct)
								}
								if ua := q.header.Values("User-Agent"); agent != "" && (len(ua) != 1 || ua[0] != agent) {
									failing(t, "%s: user agent %q", what, ua)
								}
							}
						}
					}
				}
				srv.CloseClientConnections()
				srv.Close()
			}
		}
	}
	// the server can't finish a large reply which is neither read nor closed
	large := watch(true, func(w http.ResponseWriter, r *http.Request, n int) {
		w.WriteHeader([]int{404, 500, 201, 302}[n%4])
		w.(http.Flusher).Flush()
		for i := 0; i < 10; i++ {
			if _, err := io.WriteString(w, big); err != nil {
				break
			}
		}
	})
	defer large.Close()
	for _, kind := range clientKinds {
		for i := 0; i < 4; i++ {
			cases++
			c := makeClient(kind, &ofxgo.BasicClient{HTTPClient: &http.Client{Transport: large.Client().Transport}})
			what := fmt.Sprintf("%s client, large reply %d", kind, i)
			var resp *http.Response
			guarded(t, what, func() {
				if i%2 == 0 {
					resp, _ = c.RequestNoParse(clientRequest(large.URL))
				} else {
					c.Request(clientRequest(large.URL))
				}
			})
			if resp != nil {
				resp.Body.Close()
			}
			if !large.settled() {
				failing(t, "%s: a body was not closed", what)
				break
			}
		}
	}
	large.CloseClientConnections()
	// exchanges which fail
	dead := watch(true, func(w http.ResponseWriter, r *http.Request, n int) {
		if n%2 == 1 && r.Header.Get("Cookie") == "" {
			w.Header().Set("Set-Cookie", "a=b")
			return
		}
		panic(http.ErrAbortHandler)
	})
	defer dead.Close()
	for _, kind := range clientKinds {
		for i := 0; i < 8; i++ {
			cases++
			ct := &counting{RoundTripper: dead.Client().Transport, fail: i%4 == 3}
			c := makeClient(kind, &ofxgo.BasicClient{HTTPClient: &http.Client{Transport: ct}})
			what := fmt.Sprintf("%s client, failing exchange", kind)
			var parsed *ofxgo.Response
			var err error
			guarded(t, what, func() {
				if i%2 == 0 {
					_, err = c.RequestNoParse(clientRequest(dead.URL))
				} else {
					parsed, err = c.Request(clientRequest(dead.URL))
				}
			})
			if kind == "vanguard" && err == nil || kind != "vanguard" && err == nil && ct.opened == 0 && ct.fail || parsed != nil {
				failing(t, "%s: error %v", what, err)
			}
		}
		for _, u := range []string{"https://127.0.0.1:1/", "https://[::1", "https://127.0.0.1:99999/"} {
			c := makeClient(kind, &ofxgo.BasicClient{})
			guarded(t, kind+" client, URL "+u, func() {
				if r, err := c.Request(clientRequest(u)); err == nil || r != nil {
					failing(t, "%s client, URL %q: no error", kind, u)
				}
			})
		}
	}
}
