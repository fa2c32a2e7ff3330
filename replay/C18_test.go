//go:build go1.21

package ofxgo_test

//replay:use client_test.go

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"strings"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
)

func TestReplayC18(t *testing.T) {
	rnd := newRand()
	answer := func(w http.ResponseWriter, r *http.Request, n int) { w.Write([]byte(answerDoc)) }
	plain := watch(false, answer)
	defer plain.Close()
	safe := watch(true, answer)
	defer safe.Close()
	mk := func(kind string) ofxgo.Client {
		return makeClient(kind, &ofxgo.BasicClient{HTTPClient: safe.Client()})
	}
	ph, sh := strings.TrimPrefix(plain.URL, "http://"), strings.TrimPrefix(safe.URL, "https://")
	bad := []string{"", "/"}
	for _, h := range []string{ph, sh} {
		bad = append(bad, "http://"+h, "http://"+h+"/ofx", "HTTP://"+h, "HTTPS://"+h, "Https://"+h, " https://"+h, "https:/"+h, "https:"+h, "//"+h, h, "ftp://"+h, "httpss://"+h,
			"http://"+h+"?https://", "https+http://"+h, "http://https://"+h, "\nhttps://"+h, "xhttps://"+h, "http://user:pw@"+h, "ws://"+h, "https;//"+h)
	}
	for _, kind := range clientKinds {
		for _, u := range bad {
			for mode := 0; mode < 3; mode++ {
				cases++
				n, m := plain.connections(), safe.connections()
				what := fmt.Sprintf("%s client, URL %q, call %d", kind, u, mode)
				var err error
				guarded(t, what, func() {
					c := mk(kind)
					switch mode {
					case 0:
						_, err = c.RawRequest(u, strings.NewReader("secret"))
					case 1:
						_, err = c.RequestNoParse(clientRequest(u))
					case 2:
						_, err = c.Request(clientRequest(u))
					}
				})
				if err == nil {
					failing(t, "%s: no error", what)
				}
				if plain.connections() != n || safe.connections() != m {
					failing(t, "%s: connected", what)
				}
			}
		}
	}
	// one POST of the body
	paths := []string{"", "/", "/a/b.ofx", "/a?x=1&y=%20z", "/?q", "/%41/b%2Fc", "/a;b,c"}
	for _, kind := range clientKinds {
		for i := 0; i < rounds(60, 600); i++ {
			cases++
			u := safe.URL + paths[rnd.Intn(len(paths))]
			body := make([]byte, rnd.Intn(9)*rnd.Intn(9000))
			for k := range body {
				body[k] = byte(rnd.Intn(256))
			}
			rs := []io.Reader{bytes.NewBuffer(append([]byte{}, body...)), bytes.NewReader(body), strings.NewReader(string(body)), onlyReader{bytes.NewReader(body)}}
			k := rnd.Intn(len(rs))
			n := len(safe.got())
			what := fmt.Sprintf("%s client, URL %q, %d bytes from reader %d", kind, u, len(body), k)
			var resp *http.Response
			var err error
			guarded(t, what, func() { resp, err = mk(kind).RawRequest(u, rs[k]) })
			if err != nil {
				failing(t, "%s: %v", what, err)
				continue
			}
			resp.Body.Close()
			got := safe.got()[n:]
			if len(got) != 1 {
				failing(t, "%s: %d requests", what, len(got))
				continue
			}
			uri := strings.TrimPrefix(u, safe.URL)
			if !strings.HasPrefix(uri, "/") {
				uri = "/" + uri
			}
			if got[0].method != "POST" || got[0].uri != uri || got[0].host != sh {
				failing(t, "%s: %s %s to %s", what, got[0].method, got[0].uri, got[0].host)
			}
			if got[0].body != string(body) {
				failing(t, "%s: other body", what)
			}
		}
	}
	if len(plain.got()) > 0 {
		failing(t, "something was sent in the clear")
	}
	// redirects
	for _, code := range []int{301, 302, 303, 307, 308} {
		for _, hops := range []int{0, 1, 3} {
			for _, first := range []bool{true, false} { // of the first reply, or of the repeated one
				var self *watched
				self = watch(true, func(w http.ResponseWriter, r *http.Request, n int) {
					if !first && r.Header.Get("Cookie") == "" {
						w.Header().Set("Set-Cookie", "a=b")
						return
					}
					if r.URL.Path != fmt.Sprintf("/%d", hops) {
						var k int
						fmt.Sscanf(r.URL.Path, "/%d", &k)
						w.Header().Set("Location", fmt.Sprintf("%s/%d", self.URL, k+1))
					} else {
						w.Header().Set("Location", plain.URL+"/stolen")
					}
					w.WriteHeader(code)
				})
				for _, kind := range clientKinds {
					for _, strict := range []bool{false, true} {
						cases++
						hc := self.Client()
						if strict {
							hc.CheckRedirect = func(*http.Request, []*http.Request) error { return nil }
						}
						bc := &ofxgo.BasicClient{HTTPClient: hc}
						n := len(plain.got())
						what := fmt.Sprintf("%s client, redirect %d after %d hops", kind, code, hops)
						var err error
						guarded(t, what, func() { _, err = makeClient(kind, bc).Request(clientRequest(self.URL + "/0")) })
						if len(plain.got()) != n {
							failing(t, "%s: followed to %s", what, plain.URL)
						}
						_ = err
					}
				}
				self.Close()
			}
		}
	}
	time.Sleep(10 * time.Millisecond)
}
