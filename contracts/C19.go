//go:build go1.21

package ofxgo

//govc:use TAB RQM

import (
	"net/http"
	"strings"
	"time"
)

// When the clock was last read.
var g19Now time.Time

func C19__after__time_Now__rec(r0 time.Time) { g19Now = r0 }

// c19settings says that a request has a client's settings.
func c19settings(r Request, v ofxVersion, id, ver String, indent, cr bool) bool {
	return r.Version == v && r.Signon.AppID == id && r.Signon.AppVer == ver && r.indent == indent && r.carriageReturn == cr
}

// c19rest says that two requests agree in everything clients do not set.
func c19rest(a, b Request) bool {
	b.Version, b.indent, b.carriageReturn = a.Version, a.indent, a.carriageReturn
	b.Signon.AppID, b.Signon.AppVer, b.Signon.DtClient = a.Signon.AppID, a.Signon.AppVer, a.Signon.DtClient
	return same(a, b)
}

func C19__ensures__Request_SetClientFields__all(p0 *Request, o0 Request, p1 Client) bool {
	return c19settings(*p0, p1.OfxVersion(), p1.ID(), p1.Version(), p1.IndentRequests(), p1.CarriageReturnNewLines()) &&
		p0.Signon.DtClient.Time.Equal(g19Now) && c19rest(*p0, o0)
}

// The settings of a basic client.
func c19version(c BasicClient) ofxVersion {
	if c01spellingOfxVersion(c.SpecVersion) != "" {
		return c.SpecVersion
	}
	return OfxVersion203
}

func c19id(c BasicClient) String {
	if c.AppID != "" {
		return String(c.AppID)
	}
	return "OFXGO"
}

func c19ver(c BasicClient) String {
	if c.AppVer != "" {
		return String(c.AppVer)
	}
	return "0001"
}

func C19__ensures__BasicClient_OfxVersion__own(p0 *BasicClient, o0 BasicClient, r0 ofxVersion) bool {
	return r0 == c19version(o0) && same(*p0, o0)
}

func C19__ensures__BasicClient_ID__own(p0 *BasicClient, o0 BasicClient, r0 String) bool {
	return r0 == c19id(o0) && same(*p0, o0)
}

func C19__ensures__BasicClient_Version__own(p0 *BasicClient, o0 BasicClient, r0 String) bool {
	return r0 == c19ver(o0) && same(*p0, o0)
}

func C19__ensures__BasicClient_IndentRequests__own(p0 *BasicClient, o0 BasicClient, r0 bool) bool {
	return r0 == !o0.NoIndent && same(*p0, o0)
}

func C19__ensures__BasicClient_CarriageReturnNewLines__own(p0 *BasicClient, o0 BasicClient, r0 bool) bool {
	return r0 == o0.CarriageReturn && same(*p0, o0)
}

// Requests of the three clients: what is marshalled.
var (
	g19Client  BasicClient
	g19Request *Request
	g19Given   Request
	g19Written bool
)

func C19__setup__BasicClient_RequestNoParse__rec(p0 *BasicClient, p1 *Request) {
	g19Client, g19Request, g19Given = *p0, p1, *p1
}

func C19__requires__DiscoverCardClient_RequestNoParse__client(p0 *DiscoverCardClient, p1 *Request) bool {
	return p0.BasicClient != nil && msgRequestNoNil(p1)
}

func C19__requires__VanguardClient_RequestNoParse__client(p0 *VanguardClient, p1 *Request) bool {
	return p0.BasicClient != nil && msgRequestNoNil(p1)
}

func C19__requires__BasicClient_RequestNoParse__client(p1 *Request) bool {
	return msgRequestNoNil(p1) && http.DefaultClient != nil
}

func C19__setup__DiscoverCardClient_RequestNoParse__rec(p0 *DiscoverCardClient, p1 *Request) {
	vAssume(p0.BasicClient != nil)
	g19Client, g19Request, g19Given = *p0.BasicClient, p1, *p1
}

func C19__setup__VanguardClient_RequestNoParse__rec(p0 *VanguardClient, p1 *Request) {
	vAssume(p0.BasicClient != nil)
	g19Client, g19Request, g19Given = *p0.BasicClient, p1, *p1
}

func C19__before__Request_Marshal__stamped(p0 *Request) {
	vAssert(vPure(func() bool {
		c := g19Client
		return c19settings(*p0, c19version(c), c19id(c), c19ver(c), !c.NoIndent, c.CarriageReturn)
	}), "the request has the client's settings when it is marshalled")
	vAssert(p0.Signon.DtClient.Time.Equal(g19Now), "the request has the current time when it is marshalled")
	vAssert(vPure(func() bool {
		a, b := *p0, g19Given
		if g19Written {
			// marshalling may have completed the language
			b.Signon.Language = a.Signon.Language
		}
		return c19rest(a, b)
	}), "nothing else in the request is changed")
	g19Written = true
}

func c19marshalled(err error) bool { return imp(err == nil, g19Written) }

func C19__ensures__BasicClient_RequestNoParse__marshalled(r1 error) bool { return c19marshalled(r1) }
func C19__ensures__DiscoverCardClient_RequestNoParse__marshalled(r1 error) bool {
	return c19marshalled(r1)
}
func C19__ensures__VanguardClient_RequestNoParse__marshalled(r1 error) bool { return c19marshalled(r1) }

// The client for a URL.
func C19__ensures__GetClient__kind(p0 string, p1 *BasicClient, r0 Client) bool {
	switch strings.Trim(p0, "/") {
	case "https://ofx.discovercard.com":
		c, ok := r0.(*DiscoverCardClient)
		return ok && c != nil && samePtr(c.BasicClient, p1)
	case "https://vesnc.vanguard.com/us/OfxDirectConnectServlet":
		c, ok := r0.(*VanguardClient)
		return ok && c != nil && samePtr(c.BasicClient, p1)
	}
	c, ok := r0.(*BasicClient)
	return ok && samePtr(c, p1)
}

func C19__ensures__NewDiscoverCardClient__wraps(p0 *BasicClient, r0 Client) bool {
	c, ok := r0.(*DiscoverCardClient)
	return ok && c != nil && samePtr(c.BasicClient, p0)
}

func C19__ensures__NewVanguardClient__wraps(p0 *BasicClient, r0 Client) bool {
	c, ok := r0.(*VanguardClient)
	return ok && c != nil && samePtr(c.BasicClient, p0)
}
