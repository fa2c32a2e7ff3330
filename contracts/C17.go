//go:build go1.21

package ofxgo

import "fmt"

var (
	g17Reads int
	g17Want  int
	g17N     int
	g17Err   error
	g17Bytes []byte
)

func C17__after__rand_Read__rec(p0 []byte, r0 int, r1 error) {
	g17Reads++
	g17Want, g17N, g17Err = len(p0), r0, r1
	g17Bytes = append([]byte(nil), p0...)
}

func C17__ensures__UID_Valid__length(p0 UID, r0 bool, r1 error) bool {
	return r0 == (len(p0) >= 1 && len(p0) <= 36) && r0 == (r1 == nil)
}

func C17__ensures__UID_RecommendedFormat__hyphens(p0 UID, r0 bool, r1 error) bool {
	want := len(p0) == 36 && p0[8] == '-' && p0[13] == '-' && p0[18] == '-' && p0[23] == '-'
	return r0 == want && r0 == (r1 == nil)
}

func C17__ensures__RandomUID__allBytes(r0 *UID, r1 error) bool {
	if g17Reads != 1 || g17Want != 16 {
		return false
	}
	if g17Err != nil || g17N != 16 {
		return r0 == nil && r1 != nil
	}
	w := ""
	for i := 0; i < 16; i++ {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			w += "-"
		}
		w += fmt.Sprintf("%02x", g17Bytes[i])
	}
	return r0 != nil && r1 == nil && string(*r0) == w
}

func C17__ensures__RandomUID__recommended(r0 *UID, r1 error) bool {
	return imp(r1 == nil, r0 != nil && len(*r0) == 36 && (*r0)[8] == '-' && (*r0)[13] == '-' && (*r0)[18] == '-' && (*r0)[23] == '-')
}
