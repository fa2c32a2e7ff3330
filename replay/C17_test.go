package ofxgo_test

import (
	"crypto/rand"
	"encoding/hex"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
)

type c17source struct {
	b []byte
	i int
}

func (s *c17source) Read(p []byte) (int, error) {
	n := copy(p, s.b[s.i:])
	s.i += n
	return n, nil
}

func TestReplayC17(t *testing.T) {
	rnd := newRand()
	check := func(u string) {
		ok, err := ofxgo.UID(u).Valid()
		if want := len(u) >= 1 && len(u) <= 36; ok != want || ok != (err == nil) {
			failing(t, "UID(%q).Valid() = %v, %v", u, ok, err)
		}
		ok, err = ofxgo.UID(u).RecommendedFormat()
		if want := len(u) == 36 && u[8] == '-' && u[13] == '-' && u[18] == '-' && u[23] == '-'; ok != want || ok != (err == nil) {
			failing(t, "UID(%q).RecommendedFormat() = %v, %v", u, ok, err)
		}
	}
	for n := 0; n <= 600; n++ {
		check(strings.Repeat("a", n))
		check(strings.Repeat("-", n))
	}
	for mask := 0; mask < 16; mask++ {
		for n := 34; n < 39; n++ {
			b := []byte(strings.Repeat("0", n))
			for k, p := range []int{8, 13, 18, 23} {
				if mask>>uint(k)&1 == 1 {
					b[p] = '-'
				}
			}
			check(string(b))
		}
	}
	for i := 0; i < rounds(20000, 300000); i++ {
		b := []byte(strings.Repeat("0", 30+rnd.Intn(9)))
		for k := 0; k < 6; k++ {
			b[rnd.Intn(len(b))] = "-_a"[rnd.Intn(3)]
		}
		for _, p := range []int{8, 13, 18, 23} {
			if rnd.Intn(4) > 0 {
				b[p] = '-'
			}
		}
		check(string(b))
	}
	old := rand.Reader
	defer func() { rand.Reader = old }()
	for i := 0; i < rounds(5000, 200000); i++ {
		src := make([]byte, 64)
		for k := range src {
			src[k] = byte(rnd.Intn(256))
			if rnd.Intn(4) == 0 {
				src[k] = byte(rnd.Intn(16))
			}
		}
		rand.Reader = &c17source{b: src}
		u, err := ofxgo.RandomUID()
		h := hex.EncodeToString(src[:16])
		want := h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
		if err != nil || u == nil || string(*u) != want {
			failing(t, "RandomUID from bytes %x: %v, %v", src[:16], u, err)
			continue
		}
		if ok, _ := u.RecommendedFormat(); !ok {
			failing(t, "RandomUID %q is not in the recommended format", *u)
		}
		if ok, _ := u.Valid(); !ok {
			failing(t, "RandomUID %q is not valid", *u)
		}
	}
}
