//go:build go1.21

package ofxgo

import (
	"bufio"
	"crypto/tls"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
)

// vContent is what is left to read of a reader.
func vContent(r io.Reader) string { return "" }

// vParsedURL is the URL a text denotes.
func vParsedURL(s string) *url.URL { return nil }

// vUnder is what a buffered reader reads from.
func vUnder(r *bufio.Reader) io.Reader { return nil }

// vSent is what was sent over a connection, vBroken whether sending failed.
func vSent(c *tls.Conn) string { return "" }
func vBroken(c *tls.Conn) bool { return false }

var (
	g22URL    string
	g22Body   string
	g22Failed bool // a step failed
	g22Done   bool
	g22Conn   *tls.Conn
	g22Reply  *http.Response
)

func C22__setup__DiscoverCardClient_RawRequest__rec(p1 string, p2 io.Reader) {
	g22URL, g22Body = p1, vContent(p2)
}

func c22address() string {
	u := vParsedURL(g22URL)
	if u.Port() == "" {
		return u.Host + ":443"
	}
	return u.Host
}

func c22message() string {
	u := vParsedURL(g22URL)
	return "POST " + u.RequestURI() + " HTTP/1.1\r\n" +
		"Content-Type: application/x-ofx\r\n" +
		"Host: " + u.Host + "\r\n" +
		"Content-Length: " + strconv.Itoa(len(g22Body)) + "\r\n" +
		"Connection: Keep-Alive\r\n" +
		"\r\n" + g22Body
}

func C22__before__tls_Dial__where(p0, p1 string, p2 *tls.Config) {
	vAssert(p0 == "tcp", "connects by TCP")
	vAssert(p1 == c22address(), "connects to the URL's host and port")
	vAssert(g22Conn == nil, "connects once")
	if p2 != nil {
		vAssert(!p2.InsecureSkipVerify, "certificates are checked")
	}
}

func C22__after__tls_Dial__rec(r0 *tls.Conn, r1 error) {
	g22Failed = g22Failed || r1 != nil
	if r1 == nil {
		g22Conn = r0
	}
}

func C22__after__url_Parse__rec(r1 error)      { g22Failed = g22Failed || r1 != nil }
func C22__after__io_Copy__rec(r1 error)        { g22Failed = g22Failed || r1 != nil }
func C22__after__io_ReadAll__rec(r1 error)     { g22Failed = g22Failed || r1 != nil }
func C22__after__ioutil_ReadAll__rec(r1 error) { g22Failed = g22Failed || r1 != nil }

func C22__before__http_ReadResponse__sent(p0 *bufio.Reader) {
	c, ok := vUnder(p0).(*tls.Conn)
	vAssert(ok && g22Conn != nil && samePtr(c, g22Conn), "the reply is read from the connection")
	if g22Conn == nil {
		return
	}
	vAssert(vBroken(g22Conn) || vSent(g22Conn) == c22message(), "exactly the request is sent")
	vAssert(!vBroken(g22Conn) || g22Body == "", "failing to send the body is an error")
	vAssert(!g22Failed, "failures are reported")
	g22Done = true
}

func C22__after__http_ReadResponse__rec(r0 *http.Response, r1 error) {
	g22Failed = g22Failed || r1 != nil
	if r1 == nil {
		g22Reply = r0
	}
}

func C22__ensures__DiscoverCardClient_RawRequest__reported(r0 *http.Response, r1 error) bool {
	return imp(g22Failed, r1 != nil) && imp(r1 == nil, g22Done && samePtr(r0, g22Reply) && strings.HasPrefix(g22URL, "https://"))
}
