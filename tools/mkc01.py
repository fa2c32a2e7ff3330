#!/usr/bin/env python3
"""Writes contracts/C01.go, contracts/TAB.go (the tables) and replay/C01_test.go from tools/enums.json, the
table of OFX enumerations (type, constants, OFX spellings). The table is
fixed: it is not derived from the code a check runs on."""
import json
T = json.load(open('/verif/tools/enums.json'))
out = ['''//go:build go1.21

package ofxgo

//govc:use XML TAB

// Generated by tools/mkc01.py from tools/enums.json.

import (
	"strings"

	"github.com/aclindsa/xml"
)

''']
tab = []
for e in T:
    t, n, vals = e['type'], e['name'], e['values']
    sp, of = 'spelling' + n, 'value' + n
    tab.append(f'''
func c01{sp}(e {t}) string {{
	switch e {{''')
    for c, s in vals:
        tab.append(f'\tcase {c}:\n\t\treturn "{s}"')
    tab.append(f'''	}}
	return ""
}}

func c01{of}(s string) {t} {{
	switch s {{''')
    for c, s in vals:
        tab.append(f'\tcase "{s}":\n\t\treturn {c}')
    tab.append('''	}
	return 0
}''')
    out.append(f'''

func c01read{n}(text string, e {t}, err error) bool {{
	if w := c01{of}(strings.TrimSpace(text)); w != 0 {{
		return err == nil && e == w
	}}
	return err != nil && c01{sp}(e) == ""
}}

func C01__ensures__{t}_Valid__namedConstants(p0 {t}, r0 bool) bool {{
	return r0 == (c01{sp}(p0) != "")
}}

func C01__ensures__{t}_String__spelling(p0 {t}, r0 string) bool {{
	return imp(c01{sp}(p0) != "", r0 == c01{sp}(p0))
}}

func C01__ensures__{t}_FromString__exactlySpellings(p0 *{t}, p1 string, r0 error) bool {{
	return c01read{n}(p1, *p0, r0)
}}

func C01__ensures__New{n}__exactlySpellings(p0 string, r0 {t}, r1 error) bool {{
	return c01read{n}(p0, r0, r1)
}}

func C01__ensures__{t}_UnmarshalXML__exactlySpellings(p0 *{t}, r0 error) bool {{
	if gDecodes != 1 {{
		return false
	}}
	if gErr != nil {{
		return r0 != nil
	}}
	return c01read{n}(gText, *p0, r0)
}}

func C01__ensures__{t}_MarshalXML__spelling(p0 {t}, p2 xml.StartElement, r0 error) bool {{
	w := c01{sp}(p0)
	if w == "" {{
		return gWrites == 0 && r0 == nil
	}}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}}''')
open('/verif/contracts/TAB.go', 'w').write('''//go:build go1.21

package ofxgo

// The spellings of enumerated values. Generated by tools/mkc01.py from
// tools/enums.json.
''' + '\n'.join(tab) + '\n')
open('/verif/contracts/C01.go', 'w').write('\n'.join(out) + '\n')

r = ['''package ofxgo_test

// Generated by tools/mkc01.py from tools/enums.json.

import (
	"fmt"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

type c01Value interface {
	Valid() bool
	String() string
}

func c01XML(v interface{}) (string, error) {
	b, err := xml.Marshal(v)
	return string(b), err
}

func TestReplayC01(t *testing.T) {
	ws := []string{"", " ", "\\n", "\\t \\r\\n", "  "}
	check := func(name, what string, ok bool) {
		if !ok {
			failing(t, "%s: %s", name, what)
		}
	}
	var texts []string
	seenText := map[string]bool{}
	addText := func(s string) {
		for _, v := range []string{s, strings.ToLower(s), s + "X", "X" + s, s[:len(s)-1], s + " " + s, s[:1] + " " + s[1:], strings.Title(strings.ToLower(s))} {
			if !seenText[v] {
				seenText[v] = true
				texts = append(texts, v)
			}
		}
	}
	_ = fmt.Sprint
''']
allsp = sorted({s for e in T for c, s in e['values']})
r.append('\tfor _, s := range []string{' + ', '.join('"%s"' % s for s in allsp) + '} {\n\t\taddText(s)\n\t}\n\taddText("0")\n\taddText("1")')
for e in T:
    t, n, vals = e['type'], e['name'], e['values']
    c0 = vals[0][0]
    r.append(f'''	// {n}
	{{
		spell := map[int]string{{}}
		value := map[string]int{{}}
''')
    for c, s in vals:
        r.append(f'\t\tspell[int(ofxgo.{c})], value["{s}"] = "{s}", int(ofxgo.{c})')
    r.append(f'''		for i := 0; i <= 70; i++ {{
			e := ofxgo.{c0}
			switch {{
			case i <= 60:
				e = e - e
				for k := 0; k < i; k++ {{
					e++
				}}
			default:
				e = e - e
				e -= ofxgo.{c0} * ofxgo.{c0}
				for k := 60; k < i; k++ {{
					e--
				}}
			}}
			w, ok := spell[int(e)]
			check("{n}", fmt.Sprintf("value %d Valid() = %v, want %v", uint64(e), e.Valid(), ok), e.Valid() == ok)
			x, err := c01XML(e)
			if ok {{
				check("{n}", fmt.Sprintf("value %d String() = %q, want %q", uint64(e), e.String(), w), e.String() == w)
				check("{n}", fmt.Sprintf("value %d marshals to %q, %v", uint64(e), x, err), err == nil && strings.Contains(x, ">"+w+"<"))
			}} else {{
				check("{n}", fmt.Sprintf("invalid value %d marshals to %q, %v", uint64(e), x, err), err == nil && x == "")
			}}
		}}
		for _, s := range texts {{
			for _, a := range ws {{
				w, ok := value[strings.TrimSpace(s)]
				in := a + s + a
				e, err := ofxgo.New{n}(in)
				check("{n}", fmt.Sprintf("New{n}(%q) = %d, %v", in, uint64(e), err), (err == nil) == ok && (!ok || int(e) == w) && (ok || !e.Valid()))
				u := ofxgo.{vals[-1][0]}
				err = u.FromString(in)
				check("{n}", fmt.Sprintf("FromString(%q) = %d, %v", in, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
				if a != "" {{
					continue
				}}
				u = ofxgo.{vals[-1][0]}
				err = xml.Unmarshal([]byte("<A> "+s+"\\n</A>"), &u)
				check("{n}", fmt.Sprintf("reading %q gives %d, %v", s, uint64(u), err), (err == nil) == ok && (!ok || int(u) == w) && (ok || !u.Valid()))
			}}
		}}
	}}''')
r.append('}')
open('/verif/replay/C01_test.go', 'w').write('\n'.join(r) + '\n')
