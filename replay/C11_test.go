//go:build go1.21

package ofxgo_test

//replay:use list_test.go fill_test.go valid_test.go C16_test.go

import (
	"reflect"
	"testing"

	"github.com/aclindsa/ofxgo"
)

func TestReplayC11(t *testing.T) {
	rnd := newRand()
	impl := func(p interface{}) []interface{} { return implementations[reflect.TypeOf(p).Elem()] }
	pos, oo, sec := impl((*ofxgo.Position)(nil)), impl((*ofxgo.OpenOrder)(nil)), impl((*ofxgo.Security)(nil))
	for i := 0; i < rounds(600, 20000); i++ {
		var p ofxgo.PositionList
		var o ofxgo.OOList
		var s ofxgo.SecurityList
		pre := rnd.Intn(6) == 0 // what the list already holds stays
		checkList(t, rnd, "INVPOSLIST", func() interface{} {
			var l ofxgo.PositionList
			return &l
		}, func(k int) interface{} { return pos[k] }, len(pos), func(v interface{}) (r []interface{}) {
			for _, e := range *v.(*ofxgo.PositionList) {
				r = append(r, e)
			}
			return
		}, func(es []interface{}) interface{} {
			p = nil
			for _, e := range es {
				p = append(p, e.(ofxgo.Position))
			}
			return p
		}, entryTag)
		checkList(t, rnd, "INVOOLIST", func() interface{} {
			var l ofxgo.OOList
			return &l
		}, func(k int) interface{} { return oo[k] }, len(oo), func(v interface{}) (r []interface{}) {
			for _, e := range *v.(*ofxgo.OOList) {
				r = append(r, e)
			}
			return
		}, func(es []interface{}) interface{} {
			o = nil
			for _, e := range es {
				o = append(o, e.(ofxgo.OpenOrder))
			}
			return o
		}, entryTag)
		checkList(t, rnd, "SECLIST", func() interface{} {
			return &ofxgo.SecurityList{}
		}, func(k int) interface{} { return sec[k] }, len(sec), func(v interface{}) (r []interface{}) {
			for _, e := range v.(*ofxgo.SecurityList).Securities {
				r = append(r, e)
			}
			return
		}, func(es []interface{}) interface{} {
			s.Securities = nil
			for _, e := range es {
				s.Securities = append(s.Securities, e.(ofxgo.Security))
			}
			return &s
		}, entryTag)
		checkBroken(t, rnd, p, "INVPOSLIST")
		checkBroken(t, rnd, o, "INVOOLIST")
		checkBroken(t, rnd, &s, "SECLIST")
		if pre {
			k := rnd.Intn(len(p) + 1)
			p = append(p[:k:k], append(ofxgo.PositionList{fakePos{}}, p[k:]...)...)
			if x, err := encodeAs(p, "INVPOSLIST"); err == nil {
				failing(t, "a position of unknown type is written: %s", x)
			}
			k = rnd.Intn(len(o) + 1)
			o = append(o[:k:k], append(ofxgo.OOList{fakeOO{}}, o[k:]...)...)
			if x, err := encodeAs(o, "INVOOLIST"); err == nil {
				failing(t, "an open order of unknown type is written: %s", x)
			}
			k = rnd.Intn(len(s.Securities) + 1)
			s.Securities = append(s.Securities[:k:k], append([]ofxgo.Security{fakeSec{}}, s.Securities[k:]...)...)
			if x, err := encodeAs(&s, "SECLIST"); err == nil {
				failing(t, "a security of unknown type is written: %s", x)
			}
		}
	}
}
