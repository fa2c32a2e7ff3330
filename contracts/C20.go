//go:build go1.21

package ofxgo

//govc:use MSG RQM

import (
	"io"
	"net/http"
)

//govc:trusted ParseResponse may be called with any reader, and does nothing but read from it (that it does not crash is C24, what it returns C08 and C23)

var (
	g20N      int // how many replies were received
	g20Resp   [3]*http.Response
	g20Body   [3]io.ReadCloser
	g20Closed [3]bool
	g20Failed bool // the last exchange failed
	g20Agent  string
	g20Kind   bool // a client which sets headers with net/http
	g20Parsed bool
	g20Answer *Response
	g20Err    error
)

func c20rec(r *http.Response, err error) {
	g20Failed = err != nil
	if err != nil {
		return
	}
	if g20N >= 3 {
		vGiveUp("more than three replies")
	}
	g20Resp[g20N], g20Body[g20N] = r, r.Body
	g20N++
}

func C20__after__http_Client_Do__rec(r0 *http.Response, r1 error)    { c20rec(r0, r1) }
func C20__after__http_ReadResponse__rec(r0 *http.Response, r1 error) { c20rec(r0, r1) }

func c20close(b io.Closer) {
	for i := 0; i < g20N; i++ {
		if samePtr(b, g20Body[i]) {
			g20Closed[i] = true
		}
	}
}

func C20__before__io_ReadCloser_Close__rec(p0 io.ReadCloser) { c20close(p0) }
func C20__before__io_Closer_Close__rec(p0 io.Closer)         { c20close(p0) }

func C20__before__http_Client_Do__headers(p1 *http.Request) {
	vAssert(p1.Header.Get("Content-Type") == "application/x-ofx", "the content type is sent")
	vAssert(g20Agent == "" || p1.Header.Get("User-Agent") == g20Agent, "the user agent is sent")
}

// What ParseResponse means to Request.
func C20__assume__ParseResponse__result(r0 *Response, r1 error) bool {
	return imp(r1 == nil, r0 != nil)
}

func C20__before__ParseResponse__open(p0 io.Reader) {
	vAssert(g20N > 0 && !g20Failed, "a reply was received")
	if g20N == 0 {
		return
	}
	vAssert(samePtr(p0, g20Body[g20N-1]), "the last reply is parsed")
	vAssert(!g20Closed[g20N-1], "the reply is parsed before it is closed")
	vAssert(g20Resp[g20N-1].StatusCode == 200, "only successful replies are parsed")
}

func C20__after__ParseResponse__rec(r0 *Response, r1 error) {
	g20Parsed, g20Answer, g20Err = true, r0, r1
}

func C20__setup__BasicClient_RawRequest__rec(p0 *BasicClient)     { g20Agent = p0.UserAgent }
func C20__setup__BasicClient_RequestNoParse__rec(p0 *BasicClient) { g20Agent = p0.UserAgent }
func C20__setup__BasicClient_Request__rec(p0 *BasicClient)        { g20Agent = p0.UserAgent }
func C20__setup__VanguardClient_RawRequest__rec(p0 *VanguardClient) {
	vAssume(p0.BasicClient != nil)
	g20Agent = p0.UserAgent
}
func C20__setup__VanguardClient_RequestNoParse__rec(p0 *VanguardClient) {
	vAssume(p0.BasicClient != nil)
	g20Agent = p0.UserAgent
}
func C20__setup__VanguardClient_Request__rec(p0 *VanguardClient) {
	vAssume(p0.BasicClient != nil)
	g20Agent = p0.UserAgent
}

// c20settled says that every body was closed or is returned.
func c20settled(r *http.Response) bool {
	ok := true
	for i := 0; i < g20N; i++ {
		ok = ok && (g20Closed[i] || r != nil && samePtr(r.Body, g20Body[i]))
	}
	return ok
}

func c20raw(r *http.Response, err error) bool {
	return c20settled(r) && imp(err == nil, g20N > 0 && !g20Failed && r != nil && samePtr(r, g20Resp[g20N-1]) && r.StatusCode == 200 && !g20Closed[g20N-1])
}

func c20parsed(r *Response, err error) bool {
	return c20settled(nil) && imp(err == nil, g20Parsed && g20Err == nil && r != nil && samePtr(r, g20Answer)) && imp(r != nil, g20Parsed && samePtr(r, g20Answer))
}

func C20__ensures__BasicClient_RawRequest__reply(r0 *http.Response, r1 error) bool {
	return c20raw(r0, r1)
}
func C20__ensures__DiscoverCardClient_RawRequest__reply(r0 *http.Response, r1 error) bool {
	return c20raw(r0, r1)
}
func C20__ensures__VanguardClient_RawRequest__reply(r0 *http.Response, r1 error) bool {
	return c20raw(r0, r1)
}
func C20__ensures__BasicClient_RequestNoParse__reply(r0 *http.Response, r1 error) bool {
	return c20raw(r0, r1)
}
func C20__ensures__DiscoverCardClient_RequestNoParse__reply(r0 *http.Response, r1 error) bool {
	return c20raw(r0, r1)
}
func C20__ensures__VanguardClient_RequestNoParse__reply(r0 *http.Response, r1 error) bool {
	return c20raw(r0, r1)
}
func C20__ensures__BasicClient_Request__reply(r0 *Response, r1 error) bool { return c20parsed(r0, r1) }
func C20__ensures__DiscoverCardClient_Request__reply(r0 *Response, r1 error) bool {
	return c20parsed(r0, r1)
}
func C20__ensures__VanguardClient_Request__reply(r0 *Response, r1 error) bool {
	return c20parsed(r0, r1)
}

func C20__requires__BasicClient_RawRequest__client() bool { return http.DefaultClient != nil }
func C20__requires__BasicClient_RequestNoParse__client(p1 *Request) bool {
	return msgRequestNoNil(p1) && http.DefaultClient != nil
}
func C20__requires__BasicClient_Request__client(p1 *Request) bool {
	return msgRequestNoNil(p1) && http.DefaultClient != nil
}
func C20__requires__DiscoverCardClient_RequestNoParse__client(p0 *DiscoverCardClient, p1 *Request) bool {
	return p0.BasicClient != nil && msgRequestNoNil(p1)
}
func C20__requires__DiscoverCardClient_Request__client(p0 *DiscoverCardClient, p1 *Request) bool {
	return p0.BasicClient != nil && msgRequestNoNil(p1)
}
func C20__requires__VanguardClient_RequestNoParse__client(p1 *Request) bool {
	return msgRequestNoNil(p1)
}
func C20__requires__VanguardClient_Request__client(p1 *Request) bool { return msgRequestNoNil(p1) }
