package ofxgo_test

//replay:use fill_test.go C16_test.go

import (
	"reflect"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
)

func TestReplayC15(t *testing.T) {
	rnd := newRand()
	str := func(n int) ofxgo.String { return ofxgo.String(strings.Repeat("x", n)) }
	lens := []int{0, 1, 2, 3, 4, 5, 6, 31, 32, 33, 63, 64, 65, 66, 100, 256, 259}
	check := func(r ofxgo.SignonRequest) {
		old := r
		ok, err := r.Valid(ofxgo.OfxVersion203)
		cred := len(old.UserID) >= 1 && len(old.UserID) <= 32 && (len(old.UserPass) == 0) != (len(old.UserKey) == 0) && len(old.UserPass) <= 32 && len(old.UserKey) <= 64
		want := cred && (len(old.Language) == 0 || len(old.Language) == 3) && len(old.AppID) >= 1 && len(old.AppID) <= 5 && len(old.AppVer) >= 1 && len(old.AppVer) <= 4
		if ok != want || ok != (err == nil) {
			failing(t, "SignonRequest %+v: Valid() = %v, %v", old, ok, err)
		}
		w := old
		if cred && len(old.Language) == 0 {
			w.Language = "ENG"
		}
		if !reflect.DeepEqual(r, w) {
			failing(t, "SignonRequest %+v changed by Valid to %+v", old, r)
		}
	}
	base := ofxgo.SignonRequest{UserID: "u", UserPass: "p", AppID: "a", AppVer: "v", Language: "ENG", Org: "o", Fid: "f"}
	for _, n := range lens {
		for _, m := range lens {
			for k := 0; k < 6; k++ {
				r := base
				switch k {
				case 0:
					r.UserID, r.Language = str(n), str(m)
				case 1:
					r.UserPass, r.UserKey = str(n), str(m)
				case 2:
					r.AppID, r.AppVer = str(n), str(m)
				case 3:
					r.UserID, r.UserPass = str(n), str(m)
				case 4:
					r.Language, r.AppID = str(n), str(m)
				case 5:
					r.UserPass = ""
					r.UserKey, r.Language = str(n), str(m)
				}
				check(r)
			}
		}
	}
	for i := 0; i < rounds(20000, 500000); i++ {
		var r ofxgo.SignonRequest
		fill(rnd, &r, i)
		r.UserID, r.UserPass, r.UserKey = str(lens[rnd.Intn(len(lens))]), str(lens[rnd.Intn(len(lens))]), str(lens[rnd.Intn(len(lens))])
		if rnd.Intn(3) > 0 {
			r.UserID = str(1 + rnd.Intn(32))
		}
		if rnd.Intn(3) > 0 {
			r.UserPass = ""
		} else if rnd.Intn(3) > 0 {
			r.UserKey = ""
		}
		r.AppID, r.AppVer = str(rnd.Intn(7)), str(rnd.Intn(6))
		r.Language = []ofxgo.String{"", "ENG", "FRA", "EN", "ENGL", "   "}[rnd.Intn(6)]
		check(r)
	}
	for c := int64(-5); c < 20000; c++ {
		for _, sev := range []string{"INFO", "WARN", "ERROR", "", "X"} {
			for _, lang := range []string{"ENG", "", "EN", "ENGL", "xyz"} {
				var r ofxgo.SignonResponse
				r.Language = ofxgo.String(lang)
				r.Status.Code, r.Status.Severity = ofxgo.Int(c), ofxgo.String(sev)
				old := r
				ok, err := r.Valid(ofxgo.OfxVersion102)
				row, known := c16rows[c]
				if want := len(lang) == 3 && known && row[1] == sev; ok != want || ok != (err == nil) {
					failing(t, "SignonResponse %+v: Valid() = %v, %v", old, ok, err)
				}
				if !reflect.DeepEqual(r, old) {
					failing(t, "SignonResponse %+v changed by Valid to %+v", old, r)
				}
			}
		}
	}
}
