//go:build go1.21

package ofxgo

//govc:use MSG RQM

import (
	"bytes"
	"crypto/tls"
	"io"
	"net/http"
	"net/url"
	"strings"
)

// vContent is what is left to read of a reader.
func vContent(r io.Reader) string { return "" }

// vParsedURL is the URL a text denotes.
func vParsedURL(s string) *url.URL { return nil }

// vAnyRequest is any request with a URL.
func vAnyRequest() *http.Request { return nil }

var (
	g18URL    string
	g18Body   string
	g18Whole  bool // a whole request operation, which may be sent twice
	g18Sent   int
	g18Marsh  bool
	g18Client BasicClient
)

func c18raw(u string, r io.Reader) { g18URL, g18Body, g18Whole = u, vContent(r), false }

func C18__setup__BasicClient_RawRequest__rec(p1 string, p2 io.Reader)        { c18raw(p1, p2) }
func C18__setup__DiscoverCardClient_RawRequest__rec(p1 string, p2 io.Reader) { c18raw(p1, p2) }
func C18__setup__VanguardClient_RawRequest__rec(p1 string, p2 io.Reader)     { c18raw(p1, p2) }

func c18all(r *Request) { g18URL, g18Whole = r.URL, true }

func C18__setup__BasicClient_RequestNoParse__rec(p1 *Request)        { c18all(p1) }
func C18__setup__DiscoverCardClient_RequestNoParse__rec(p1 *Request) { c18all(p1) }
func C18__setup__VanguardClient_RequestNoParse__rec(p1 *Request)     { c18all(p1) }

func C18__after__Request_Marshal__rec(r0 *bytes.Buffer, r1 error) {
	g18Marsh = r1 == nil
	if r0 != nil {
		g18Body = vContent(r0)
	}
}

func c18https() bool { return strings.HasPrefix(g18URL, "https://") }

func C18__before__http_Client_Do__sent(p0 *http.Client, p1 *http.Request) {
	vAssert(c18https(), "only sent to https URLs")
	if p1 == nil || p1.URL == nil {
		vAssert(false, "requests have a URL")
		return
	}
	vAssert(p1.Method == "POST", "requests are POSTed")
	vAssert(same(*p1.URL, *vParsedURL(g18URL)), "sent to the given URL")
	vAssert(g18Marsh || !g18Whole, "what is sent was marshalled")
	vAssert(vContent(p1.Body) == g18Body, "the given body is sent")
	vAssert(g18Sent == 0 || g18Whole, "sent once")
	g18Sent++
	if p0.CheckRedirect == nil {
		vAssert(false, "redirects are checked")
		return
	}
	vAssert(vPure(func() bool {
		q, v, w := vAnyRequest(), vAnyRequest(), vAnyRequest()
		return q.URL.Scheme == "https" || p0.CheckRedirect(q, []*http.Request{v}) != nil && p0.CheckRedirect(q, []*http.Request{v, w}) != nil
	}), "redirects to other protocols are refused")
}

func C18__before__tls_Dial__https() { vAssert(c18https(), "only sent to https URLs") }

func C18__before__http_ReadResponse__sent() {
	vAssert(g18Sent == 0, "sent once")
	g18Sent++
}

// Other ways to the network.
func C18__before__http_Client_Post__x()         { vGiveUp("http.Client.Post") }
func C18__before__http_Client_Get__x()          { vGiveUp("http.Client.Get") }
func C18__before__http_Client_PostForm__x()     { vGiveUp("http.Client.PostForm") }
func C18__before__http_Client_Head__x()         { vGiveUp("http.Client.Head") }
func C18__before__http_Post__x()                { vGiveUp("http.Post") }
func C18__before__http_PostForm__x()            { vGiveUp("http.PostForm") }
func C18__before__http_Get__x()                 { vGiveUp("http.Get") }
func C18__before__http_Head__x()                { vGiveUp("http.Head") }
func C18__before__http_Transport_RoundTrip__x() { vGiveUp("http.Transport.RoundTrip") }
func C18__before__net_Dial__x()                 { vGiveUp("net.Dial") }
func C18__before__net_DialTimeout__x()          { vGiveUp("net.DialTimeout") }
func C18__before__net_Dialer_Dial__x()          { vGiveUp("net.Dialer.Dial") }
func C18__before__tls_DialWithDialer__x()       { vGiveUp("tls.DialWithDialer") }
func C18__before__tls_Dialer_Dial__x()          { vGiveUp("tls.Dialer.Dial") }
func C18__before__tls_Client__x()               { vGiveUp("tls.Client") }

var _ = tls.Dial

func c18refused(err error) bool {
	return imp(!c18https(), err != nil && g18Sent == 0) && imp(err == nil, g18Sent > 0)
}

func C18__ensures__BasicClient_RawRequest__https(r1 error) bool            { return c18refused(r1) }
func C18__ensures__DiscoverCardClient_RawRequest__https(r1 error) bool     { return c18refused(r1) }
func C18__ensures__VanguardClient_RawRequest__https(r1 error) bool         { return c18refused(r1) }
func C18__ensures__BasicClient_RequestNoParse__https(r1 error) bool        { return c18refused(r1) }
func C18__ensures__DiscoverCardClient_RequestNoParse__https(r1 error) bool { return c18refused(r1) }
func C18__ensures__VanguardClient_RequestNoParse__https(r1 error) bool     { return c18refused(r1) }

func C18__requires__BasicClient_RawRequest__client() bool { return http.DefaultClient != nil }
func C18__requires__BasicClient_RequestNoParse__client(p1 *Request) bool {
	return msgRequestNoNil(p1) && http.DefaultClient != nil
}
func C18__requires__DiscoverCardClient_RequestNoParse__client(p0 *DiscoverCardClient, p1 *Request) bool {
	return p0.BasicClient != nil && msgRequestNoNil(p1)
}
func C18__requires__VanguardClient_RequestNoParse__client(p0 *VanguardClient, p1 *Request) bool {
	return p0.BasicClient != nil && msgRequestNoNil(p1)
}
func C18__requires__VanguardClient_RawRequest__client(p0 *VanguardClient) bool {
	return p0.BasicClient != nil
}
