//go:build go1.21

package ofxgo_test

//replay:use client_test.go

import (
	"fmt"
	"io"
	"net/http"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
)

func TestReplayC21(t *testing.T) {
	const huge = 1 << 24
	for cookies := 0; cookies <= 3; cookies++ {
		for length := 0; length < 4; length++ { // none, unknown, one byte, unknown and long
			for _, st1 := range []int{200, 204, 302, 500} {
				for _, st2 := range []int{200, 404} {
					for _, again := range []bool{false, true} { // the second reply asks for more
						cases++
						if st1 == 204 && length > 0 {
							continue
						}
						srv := watch(true, func(w http.ResponseWriter, r *http.Request, n int) {
							if n == 0 || again {
								for i := 0; i < cookies; i++ {
									c := &http.Cookie{Name: fmt.Sprintf("c%d", i), Value: fmt.Sprintf("v%d", n), Path: "/elsewhere"}
									switch i {
									case 1:
										c.Value = ""
									case 2:
										c.Path, c.Domain, c.Secure, c.HttpOnly = "", "other.example", true, true
									}
									http.SetCookie(w, c)
								}
							}
							st := st1
							if n > 0 {
								st = st2
								if !again {
									w.Header().Set("X-Reply", fmt.Sprint(n))
									w.WriteHeader(st)
									io.WriteString(w, "second")
									return
								}
							}
							w.Header().Set("X-Reply", fmt.Sprint(n))
							switch length {
							case 0:
								w.Header().Set("Content-Length", "0")
								w.WriteHeader(st)
							case 1:
								w.WriteHeader(st)
								w.(http.Flusher).Flush()
								io.WriteString(w, "chunk")
							case 2:
								w.Header().Set("Content-Length", "1")
								w.WriteHeader(st)
								io.WriteString(w, "1")
							case 3:
								w.WriteHeader(st)
								w.(http.Flusher).Flush()
								io.WriteString(w, strings.Repeat("x", huge))
							}
						})
						c := ofxgo.NewVanguardClient(&ofxgo.BasicClient{UserAgent: "ua"})
						what := fmt.Sprintf("%d cookies, length kind %d, status %d then %d, again %v", cookies, length, st1, st2, again)
						var resp *http.Response
						var err error
						q := clientRequest(srv.URL + "/path?q=1")
						guarded(t, what, func() { resp, err = c.RequestNoParse(q) })
						want := 1
						if st1 == 200 && cookies > 0 && length != 2 {
							want = 2
						}
						got := srv.got()
						if len(got) != want {
							failing(t, "%s: %d requests instead of %d", what, len(got), want)
						}
						st := st1
						if want == 2 {
							st = st2
						}
						if (err == nil) != (st == 200) {
							failing(t, "%s: error %v", what, err)
						}
						if err == nil {
							if resp == nil {
								failing(t, "%s: no reply", what)
							} else if resp.Header.Get("X-Reply") != fmt.Sprint(want-1) {
								failing(t, "%s: reply %s returned", what, resp.Header.Get("X-Reply"))
							} else {
								b, rerr := io.ReadAll(resp.Body)
								if rerr != nil || want == 2 && !again && string(b) != "second" {
									failing(t, "%s: body %s, %v", what, short(string(b)), rerr)
								}
							}
						}
						if resp != nil {
							resp.Body.Close()
						}
						if len(got) == 2 {
							if got[0].body != got[1].body || got[0].body == "" {
								failing(t, "%s: the bodies differ: %s and %s", what, short(got[0].body), short(got[1].body))
							}
							if got[0].uri != got[1].uri || got[1].method != "POST" {
								failing(t, "%s: repeated as %s %s", what, got[1].method, got[1].uri)
							}
							var cs []string
							for i := 0; i < cookies; i++ {
								cs = append(cs, fmt.Sprintf("c%d=%s", i, []string{"v0", "", "v0"}[i]))
							}
							if h := strings.Join(got[1].header.Values("Cookie"), "; "); h != strings.Join(cs, "; ") {
								failing(t, "%s: cookies %q", what, h)
							}
						}
						if len(got) > 0 && len(got[0].header.Values("Cookie")) > 0 {
							failing(t, "%s: cookies at first", what)
						}
						if length == 3 && !srv.settled() {
							failing(t, "%s: a reply was not closed", what)
						}
						srv.CloseClientConnections()
						srv.Close()
					}
				}
			}
		}
	}
	// what cannot be marshalled is not sent
	srv := watch(true, func(w http.ResponseWriter, r *http.Request, n int) { w.Header().Set("Set-Cookie", "a=b") })
	defer srv.Close()
	for i := 0; i < 3; i++ {
		cases++
		q := clientRequest(srv.URL)
		switch i {
		case 0:
			q.Signon.UserID = ""
		case 1:
			q.Prof = nil
			q.Bank = append(q.Bank, &ofxgo.ProfileRequest{TrnUID: "1"})
		case 2:
			q.Prof = append(q.Prof, &ofxgo.ProfileRequest{TrnUID: ""})
		}
		guarded(t, "invalid request", func() {
			if _, err := ofxgo.NewVanguardClient(&ofxgo.BasicClient{}).RequestNoParse(q); err == nil || len(srv.got()) > 0 {
				failing(t, "invalid request %d: error %v, %d requests sent", i, err, len(srv.got()))
			}
		})
	}
}
