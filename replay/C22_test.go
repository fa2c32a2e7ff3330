//go:build go1.21

package ofxgo_test

//replay:use client_test.go

import (
	"bytes"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing"
	"testing/iotest"
	"time"

	"github.com/aclindsa/ofxgo"
)

// rawServer records the bytes sent over each connection.
type rawServer struct {
	addr string
	mu   sync.Mutex
	got  []string
	l    io.Closer
}

func newRaw(reply string, stop int) *rawServer {
	s := httptest.NewTLSServer(http.NotFoundHandler())
	cfg := s.TLS.Clone()
	s.Close()
	cfg.NextProtos = nil
	l, err := tls.Listen("tcp", "127.0.0.1:0", cfg)
	if err != nil {
		panic(err)
	}
	r := &rawServer{addr: l.Addr().String(), l: l}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				var b []byte
				p := make([]byte, 1<<16)
				want := -1
				for {
					c.SetReadDeadline(time.Now().Add(1500 * time.Millisecond))
					n, err := c.Read(p)
					b = append(b, p[:n]...)
					if i := bytes.Index(b, []byte("\r\n\r\n")); want < 0 && i >= 0 {
						var k int
						if j := bytes.Index(b, []byte("Content-Length: ")); j >= 0 {
							fmt.Sscanf(string(b[j+16:]), "%d", &k)
						}
						want = i + 4 + k
					}
					if err != nil || want >= 0 && len(b) >= want || stop > 0 && len(b) >= stop {
						break
					}
				}
				if want >= 0 && len(b) >= want && stop == 0 {
					c.SetReadDeadline(time.Now().Add(2 * time.Millisecond))
					n, _ := c.Read(p)
					b = append(b, p[:n]...)
				}
				r.mu.Lock()
				r.got = append(r.got, string(b))
				r.mu.Unlock()
				io.WriteString(c, reply)
				if stop > 0 {
					// let the reply be read before the connection is reset
					time.Sleep(50 * time.Millisecond)
				}
			}()
		}
	}()
	return r
}

func (r *rawServer) take() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	g := r.got
	r.got = nil
	return g
}

type failingReader struct {
	n   int
	err error
}

func (f *failingReader) Read(p []byte) (int, error) {
	if f.n <= 0 {
		return 0, f.err
	}
	k := f.n
	if k > len(p) {
		k = len(p)
	}
	f.n -= k
	return k, nil
}

func TestReplayC22(t *testing.T) {
	rnd := newRand()
	s := newRaw("HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nreply", 0)
	defer s.l.Close()
	c := ofxgo.NewDiscoverCardClient(&ofxgo.BasicClient{UserAgent: "agent"})
	paths := []string{"", "/", "/a/b.ofx", "/a?x=1&y=%20z", "/?q", "?q=1", "/%41/b%2Fc", "/a;b,c", "/a b", "/x#frag", "/%20?x= y", "/a?b?c"}
	sizes := []int{0, 1, 2, 10, 511, 512, 513, 4096, 65536, 70000}
	for i := 0; i < rounds(300, 3000); i++ {
		cases++
		u := "https://" + s.addr + paths[rnd.Intn(len(paths))]
		n := sizes[rnd.Intn(len(sizes))]
		if i < len(sizes) {
			n = sizes[i]
		}
		body := make([]byte, n)
		for k := range body {
			body[k] = byte(rnd.Intn(256))
		}
		read := bytes.NewBuffer(append([]byte("gone"), body...))
		read.Next(4)
		rs := []io.Reader{bytes.NewBuffer(append([]byte{}, body...)), bytes.NewReader(body), strings.NewReader(string(body)), onlyReader{bytes.NewReader(body)}, iotest.OneByteReader(bytes.NewReader(body)), iotest.DataErrReader(bytes.NewReader(body)), read, io.MultiReader(bytes.NewReader(body[:n/2]), bytes.NewReader(body[n/2:]))}
		k := rnd.Intn(len(rs))
		if k == 4 && n > 5000 {
			k = 0
		}
		what := fmt.Sprintf("URL %q, %d bytes from reader %d", u, n, k)
		var resp *http.Response
		var err error
		guarded(t, what, func() { resp, err = c.RawRequest(u, rs[k]) })
		pu, perr := url.Parse(u)
		if perr != nil {
			if err == nil {
				failing(t, "%s: no error", what)
			}
			continue
		}
		if err != nil {
			failing(t, "%s: %v", what, err)
			continue
		}
		b, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		if string(b) != "reply" || resp.StatusCode != 200 {
			failing(t, "%s: reply %d %q", what, resp.StatusCode, b)
		}
		want := "POST " + pu.RequestURI() + " HTTP/1.1\r\nContent-Type: application/x-ofx\r\nHost: " + s.addr + fmt.Sprintf("\r\nContent-Length: %d\r\nConnection: Keep-Alive\r\n\r\n", n) + string(body)
		got := s.take()
		if len(got) != 1 || got[0] != want {
			g := strings.Join(got, "||")
			failing(t, "%s: sent %d times, %s", what, len(got), short(g))
		}
	}
	// failures
	for _, n := range []int{0, 1, 600, 100000} {
		for _, e := range []error{errors.New("broken"), io.ErrUnexpectedEOF} {
			cases++
			var err error
			guarded(t, "failing reader", func() {
				_, err = c.RawRequest("https://"+s.addr+"/", &failingReader{n, e})
			})
			if err == nil {
				failing(t, "reader which fails after %d bytes: no error", n)
			}
			if n > 0 {
				err = nil
				guarded(t, "failing reader", func() {
					_, err = c.RawRequest("https://"+s.addr+"/", io.MultiReader(strings.NewReader("abc"), &failingReader{n, e}))
				})
				if err == nil {
					failing(t, "reader which fails late: no error")
				}
			}
		}
	}
	s.take()
	for _, u := range []string{"https://[::1", "https://127.0.0.1:1/", "https://127.0.0.1:99999/", "https://%zz/", "https://127.0.0.1:" + "x/", "https://", "https://a\x7f/"} {
		cases++
		guarded(t, u, func() {
			if _, err := c.RawRequest(u, strings.NewReader("x")); err == nil {
				failing(t, "URL %q: no error", u)
			}
		})
	}
	// the default port: nothing listens there
	guarded(t, "default port", func() {
		_, err := c.RawRequest("https://127.0.0.1/", strings.NewReader("x"))
		if err == nil || !strings.Contains(err.Error(), "127.0.0.1:443") {
			failing(t, "URL without a port: %v", err)
		}
	})
	// a certificate for somebody else
	_, port, _ := strings.Cut(s.addr, ":")
	guarded(t, "certificate", func() {
		if _, err := c.RawRequest("https://localhost.localdomain:"+port+"/", strings.NewReader("x")); err == nil {
			failing(t, "certificate of another host accepted")
		}
	})
	// the server goes away
	cut := newRaw("HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nreply", 100)
	defer cut.l.Close()
	guarded(t, "cut", func() {
		if _, err := c.RawRequest("https://"+cut.addr+"/", bytes.NewBuffer(make([]byte, 1<<24))); err == nil {
			failing(t, "connection cut while sending: no error")
		}
	})
	// other statuses
	for _, st := range []string{"201 Created", "302 Found", "403 Forbidden", "500 Oops"} {
		r := newRaw("HTTP/1.1 "+st+"\r\nContent-Length: 0\r\n\r\n", 0)
		guarded(t, st, func() {
			if resp, err := c.RawRequest("https://"+r.addr+"/", strings.NewReader("x")); err == nil {
				failing(t, "status %s: no error, %v", st, resp != nil)
			}
		})
		r.l.Close()
	}
}
