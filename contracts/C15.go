//go:build go1.21

package ofxgo

//govc:use C16

func c15credentials(r SignonRequest) bool {
	return len(r.UserID) >= 1 && len(r.UserID) <= 32 &&
		(len(r.UserPass) == 0) != (len(r.UserKey) == 0) &&
		len(r.UserPass) <= 32 && len(r.UserKey) <= 64
}

func C15__ensures__SignonRequest_Valid__exactly(p0 *SignonRequest, o0 SignonRequest, r0 bool, r1 error) bool {
	want := c15credentials(o0) && (len(o0.Language) == 0 || len(o0.Language) == 3) &&
		len(o0.AppID) >= 1 && len(o0.AppID) <= 5 && len(o0.AppVer) >= 1 && len(o0.AppVer) <= 4
	return r0 == want && r0 == (r1 == nil)
}

func C15__ensures__SignonRequest_Valid__changes(p0 *SignonRequest, o0 SignonRequest) bool {
	w := o0
	if c15credentials(o0) && len(o0.Language) == 0 {
		w.Language = "ENG"
	}
	return same(*p0, w)
}

func C15__ensures__SignonResponse_Valid__exactly(p0 *SignonResponse, o0 SignonResponse, r0 bool, r1 error) bool {
	_, s, _, ok := c16row(o0.Status.Code)
	want := len(o0.Language) == 3 && ok && string(o0.Status.Severity) == s
	return r0 == want && r0 == (r1 == nil) && same(*p0, o0)
}
