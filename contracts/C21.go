//go:build go1.21

package ofxgo

//govc:use MSG RQM

import (
	"bytes"
	"io"
	"net/http"
)

// vContent is what is left to read of a reader.
func vContent(r io.Reader) string { return "" }

var (
	g21Sent     int
	g21Marsh    int // how often the request was marshalled
	g21BadMarsh bool
	g21Body     [3]string // what it was marshalled to
	g21First    *http.Response
	g21Second   *http.Response
	g21Err1     error
	g21Err2     error
	g21FirstB   io.ReadCloser
	g21Closed   bool // the first reply is closed
	g21Cookies  int  // how many cookies were added
	g21Target   *http.Request
)

func C21__after__Request_Marshal__rec(r0 *bytes.Buffer, r1 error) {
	if r1 != nil {
		g21BadMarsh = true
		return
	}
	if g21Marsh >= 3 {
		vGiveUp("marshalling more than three times")
	}
	g21Body[g21Marsh] = vContent(r0)
	g21Marsh++
}

// c21retry says that the first reply asks for another try.
func c21retry() bool {
	return vPure(func() bool {
		return g21Err1 == nil && g21First != nil && g21First.StatusCode == 200 && g21First.ContentLength <= 0 && len(g21First.Cookies()) > 0
	})
}

func C21__after__http_NewRequest__rec(r0 *http.Request, r1 error) {
	if r1 == nil {
		g21Target, g21Cookies = r0, 0
	}
}

func C21__before__http_Client_Do__sent(p1 *http.Request) {
	vAssert(g21Marsh > 0, "only marshalled requests are sent")
	vAssert(samePtr(p1, g21Target), "the last request made is sent")
	ok := false
	c := vContent(p1.Body)
	for i := 0; i < g21Marsh; i++ {
		ok = ok || c == g21Body[i]
	}
	vAssert(ok, "the marshalled request is sent")
	vAssert(p1.Method == "POST", "requests are POSTed")
	switch g21Sent {
	case 0:
		vAssert(g21Cookies == 0 && p1.Header.Get("Cookie") == "", "no cookies at first")
	case 1:
		vAssert(c21retry(), "repeated only if the first reply asks for it")
		vAssert(g21Closed, "the first reply is closed before the second try")
		vAssert(g21Cookies == len(g21First.Cookies()), "all cookies are sent")
	default:
		vAssert(false, "repeated only once")
	}
	g21Sent++
}

func C21__after__http_Client_Do__rec(r0 *http.Response, r1 error) {
	if g21Sent == 1 {
		g21Err1 = r1
		if r1 == nil {
			g21First, g21FirstB = r0, r0.Body
		}
	} else {
		g21Err2 = r1
		if r1 == nil {
			g21Second = r0
		}
	}
}

func C21__before__io_ReadCloser_Close__rec(p0 io.ReadCloser) {
	if g21Sent == 1 && g21First != nil && samePtr(p0, g21FirstB) {
		g21Closed = true
	}
}

func C21__before__http_Request_AddCookie__all(p0 *http.Request, p1 *http.Cookie) {
	if g21First == nil {
		vAssert(false, "no cookies at first")
		return
	}
	cs := g21First.Cookies()
	vAssert(g21Cookies < len(cs), "cookies are sent once")
	vAssert(samePtr(p1, cs[g21Cookies]), "the cookies are those of the first reply")
	vAssert(samePtr(p0, g21Target), "the cookies are added to the request to be sent")
	g21Cookies++
}

func C21__requires__VanguardClient_RequestNoParse__client(p0 *VanguardClient, p1 *Request) bool {
	return p0.BasicClient != nil && msgRequestNoNil(p1)
}

func C21__ensures__VanguardClient_RequestNoParse__reply(r0 *http.Response, r1 error) bool {
	switch {
	case g21Sent == 0:
		return r0 == nil && r1 != nil
	case g21Sent == 1 && c21retry():
		return r0 == nil && r1 != nil
	case g21Sent == 1:
		if g21Err1 != nil || g21First == nil {
			return r1 != nil
		}
		return samePtr(r0, g21First) && (r1 == nil) == (g21First.StatusCode == 200) && !g21Closed
	}
	if g21Err2 != nil || g21Second == nil {
		return r1 != nil
	}
	if g21Second.StatusCode != 200 {
		return r1 != nil
	}
	return r1 == nil && samePtr(r0, g21Second)
}
