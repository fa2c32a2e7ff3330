package main

import (
	"math/rand"
	"regexp"
	"strings"
	"testing"
)

func TestRegexpLang(t *testing.T) {
	for _, e := range []string{`^([+-]?[0-9]+)(\.([0-9]{2}))?(:([A-Z]+))?$`, `a+b`, `^ab*`, `(a|b)c$`, `^$`, ``, `^a|b$`, `x{2,3}$`} {
		l := regexpLang(e)
		if l == nil {
			t.Fatal(e)
		}
		re := regexp.MustCompile(e)
		for i := 0; i < 20000; i++ {
			s := ""
			for n := rand.Intn(7); n > 0; n-- {
				s += string("ab0+-.:Axc1"[rand.Intn(11)])
			}
			if l.has(s) != re.MatchString(s) {
				t.Fatalf("%s on %q", e, s)
			}
		}
	}
	l := smtLang(`(re.++ (re.opt (str.to_re "-")) (re.+ (re.range "0" "9")) (str.to_re ".") (re.+ (re.range "0" "9")))`)
	m := l.trimRight(setOf("0")).trimRight(setOf("."))
	if !m.within(regexpLang(`^-?[0-9]+(\.[0-9]*[1-9])?$`)) {
		t.Fatal("trim")
	}
	for i := 0; i < 20000; i++ {
		s := ""
		for n := rand.Intn(7); n > 0; n-- {
			s += string("0-.1"[rand.Intn(4)])
		}
		if l.has(s) && !m.has(strings.TrimRight(strings.TrimRight(s, "0"), ".")) {
			t.Fatal(s)
		}
		k := l.trimLeft(setOf("-0"))
		if l.has(s) && !k.has(strings.TrimLeft(s, "-0")) {
			t.Fatal(s)
		}
	}
}
