//go:build go1.21

package ofxgo_test

//replay:use client_test.go

import (
	"fmt"
	"net/http"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
)

func TestReplayC19(t *testing.T) {
	rnd := newRand()
	// the client for a URL
	const dis, van = "https://ofx.discovercard.com", "https://vesnc.vanguard.com/us/OfxDirectConnectServlet"
	urls := []string{"", "/", dis, van, dis + "/", van + "//", "/" + dis, "//" + van + "/", "https://ofx.discovercard.co", dis + "/x", dis + "?", "http://ofx.discovercard.com", strings.ToUpper(dis), " " + dis,
		"https://vesnc.vanguard.com", "https://vesnc.vanguard.com/us/OfxDirectConnectServlet2", "https://example.com", "ofx.discovercard.com", "https:/ofx.discovercard.com", van + "/#", strings.ToLower(van)}
	for i := 0; i < 3000; i++ {
		u := []byte(urls[rnd.Intn(len(urls))])
		if len(u) > 0 && rnd.Intn(2) == 0 {
			p := rnd.Intn(len(u))
			u = append(append(append([]byte{}, u[:p]...), "/x:"[rnd.Intn(3)]), u[p+rnd.Intn(2):]...)
		}
		urls = append(urls, string(u))
	}
	for _, u := range urls {
		cases++
		bc := &ofxgo.BasicClient{AppID: "x"}
		c := ofxgo.GetClient(u, bc)
		want := "*ofxgo.BasicClient"
		switch strings.Trim(u, "/") {
		case dis:
			want = "*ofxgo.DiscoverCardClient"
		case van:
			want = "*ofxgo.VanguardClient"
		}
		if got := fmt.Sprintf("%T", c); got != want {
			failing(t, "GetClient(%q) is a %s", u, got)
			continue
		}
		var in *ofxgo.BasicClient
		switch x := c.(type) {
		case *ofxgo.BasicClient:
			in = x
		case *ofxgo.DiscoverCardClient:
			in = x.BasicClient
		case *ofxgo.VanguardClient:
			in = x.BasicClient
		}
		if in != bc {
			failing(t, "GetClient(%q) does not wrap the given client", u)
		}
	}
	srv := watch(true, func(w http.ResponseWriter, r *http.Request, n int) {
		if n%3 == 0 && r.Header.Get("Cookie") == "" {
			w.Header().Set("Set-Cookie", "a=b")
			return
		}
		w.Write([]byte(answerDoc))
	})
	defer srv.Close()
	shared := clientRequest(srv.URL) // used with one client after another
	for _, kind := range clientKinds {
		for v := 0; v < 15; v++ {
			for m := 0; m < 16; m++ {
				cases++
				bc := &ofxgo.BasicClient{NoIndent: m&1 != 0, CarriageReturn: m&2 != 0, HTTPClient: srv.Client()}
				wantID, wantVer, wantSpec := "OFXGO", "0001", 8
				if m&4 != 0 {
					bc.AppID, wantID = "QWIN", "QWIN"
				}
				if m&8 != 0 {
					bc.AppVer, wantVer = "2700", "2700"
				}
				reflect.ValueOf(bc).Elem().FieldByName("SpecVersion").SetUint(uint64(v))
				if v >= 1 && v <= 11 {
					wantSpec = v
				}
				c := makeClient(kind, bc)
				q := clientRequest(srv.URL)
				q.Signon.AppID, q.Signon.AppVer = "OLD", "9"
				q.Signon.DtClient = *ofxgo.NewDateGMT(1999, 1, 1, 0, 0, 0, 0)
				before := *clientRequest(srv.URL)
				before.Prof = q.Prof
				n := len(srv.got())
				t0 := time.Now()
				resp, err := c.RequestNoParse(q)
				t1 := time.Now()
				what := fmt.Sprintf("%s client, version %d, settings %d", kind, v, m)
				if err != nil {
					failing(t, "%s: %v", what, err)
					continue
				}
				resp.Body.Close()
				if int(q.Version) != wantSpec || string(q.Signon.AppID) != wantID || string(q.Signon.AppVer) != wantVer {
					failing(t, "%s: request has version %d, application %s %s", what, q.Version, q.Signon.AppID, q.Signon.AppVer)
				}
				if q.Signon.DtClient.Before(t0.Add(-time.Second)) || q.Signon.DtClient.After(t1.Add(time.Second)) {
					failing(t, "%s: client time is %v", what, q.Signon.DtClient)
				}
				b, err := q.Marshal()
				if err != nil {
					failing(t, "%s: %v", what, err)
					continue
				}
				for _, r := range srv.got()[n:] {
					if r.body != b.String() {
						failing(t, "%s: sent %s instead of %s", what, short(r.body), short(b.String()))
					}
					i := strings.Index(r.body, "<OFX>")
					if cr := strings.Contains(r.body, "\r\n"); cr != (m&2 != 0) {
						failing(t, "%s: carriage returns: %v", what, cr)
					}
					if i >= 0 && strings.Contains(r.body[i:], "\n") != (m&1 == 0) {
						failing(t, "%s: indentation is wrong: %s", what, short(r.body))
					}
					if !strings.Contains(r.body, "<APPID>"+wantID) || !strings.Contains(r.body, "<APPVER>"+wantVer) {
						failing(t, "%s: application settings are missing: %s", what, short(r.body))
					}
				}
				if len(srv.got()) == n {
					failing(t, "%s: nothing was sent", what)
				}
				// whatever client the request was used with before
				shared.SetClientFields(c)
				if b, err := shared.Marshal(); err != nil {
					failing(t, "%s: %v", what, err)
				} else if s := b.String(); strings.Contains(s, "\r\n") != (m&2 != 0) || strings.Contains(s[strings.Index(s, "<OFX>"):], "\n") != (m&1 == 0) ||
					int(shared.Version) != wantSpec || !strings.Contains(s, "<APPID>"+wantID) || !strings.Contains(s, "<APPVER>"+wantVer) {
					failing(t, "%s, after other clients: %s", what, short(s))
				}
				// nothing else changes
				a := *q
				before.SetClientFields(c)
				a.Signon.DtClient = before.Signon.DtClient
				a.Signon.Language = before.Signon.Language
				if !reflect.DeepEqual(a, before) {
					failing(t, "%s: the request was changed to %+v", what, *q)
				}
			}
		}
	}
}
