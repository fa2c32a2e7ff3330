#!/usr/bin/env python3
"""Writes contracts/C16.go and replay/C16_test.go from tools/statuses.json.
With --extract, first writes statuses.json from the current table of /repo
(done once, and the result read through)."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
js = os.path.join(here, 'statuses.json')
if '--extract' in sys.argv:
    rows = []
    for m in re.finditer(r'^\t(\d+): +\{("(?:[^"\\]|\\.)*"), ("(?:[^"\\]|\\.)*"), ("(?:[^"\\]|\\.)*")\},$', open('/repo/common.go').read(), re.M):
        rows.append([int(m[1])] + [json.loads(x) for x in m.groups()[1:]])
    json.dump(rows, open(js, 'w'), indent=0, ensure_ascii=False)
rows = json.load(open(js))
q = lambda s: json.dumps(s, ensure_ascii=False)
out = ['''//go:build go1.21

package ofxgo

// Generated by tools/mkc16.py from tools/statuses.json.

func c16row(code Int) (meaning, severity, conditions string, known bool) {
	switch code {''']
for c, m, s, d in rows:
    out.append(f'\tcase {c}:\n\t\treturn {q(m)}, {q(s)}, {q(d)}, true')
out.append('''	}
	return "", "", "", false
}

func C16__ensures__Status_Valid__listed(p0 *Status, o0 Status, r0 bool, r1 error) bool {
	_, s, _, ok := c16row(o0.Code)
	return r0 == (ok && string(o0.Severity) == s) && r0 == (r1 == nil) && same(*p0, o0)
}

func C16__ensures__Status_CodeMeaning__listed(p0 *Status, o0 Status, r0 string, r1 error) bool {
	m, _, _, ok := c16row(o0.Code)
	return ok == (r1 == nil) && imp(ok, r0 == m) && same(*p0, o0)
}

func C16__ensures__Status_CodeConditions__listed(p0 *Status, o0 Status, r0 string, r1 error) bool {
	_, _, c, ok := c16row(o0.Code)
	return ok == (r1 == nil) && imp(ok, r0 == c) && same(*p0, o0)
}
''')
open(os.path.join(root, 'contracts/C16.go'), 'w').write('\n'.join(out))
t = ['''package ofxgo_test

// Generated by tools/mkc16.py from tools/statuses.json.

import (
	"testing"

	"github.com/aclindsa/ofxgo"
)

var c16rows = map[int64][3]string{''']
for c, m, s, d in rows:
    t.append(f'\t{c}: {{{q(m)}, {q(s)}, {q(d)}}},')
t.append('''}

func TestReplayC16(t *testing.T) {
	rnd := newRand()
	var codes []int64
	for c := int64(-20000); c <= 40000; c++ {
		codes = append(codes, c)
	}
	for c := range c16rows {
		for _, off := range []int64{1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 48, -1 << 63} {
			codes = append(codes, c+off, c-off)
		}
	}
	for i := 0; i < rounds(20000, 2000000); i++ {
		codes = append(codes, int64(rnd.Uint64()))
	}
	sevs := []string{"INFO", "WARN", "ERROR", "", "info", "Info", "WARNING", "ERR", "ERROR ", "INFO\\n", "X"}
	for _, c := range codes {
		row, known := c16rows[c]
		for _, sev := range sevs {
			s := ofxgo.Status{Code: ofxgo.Int(c), Severity: ofxgo.String(sev), Message: "m"}
			ok, err := s.Valid()
			if want := known && row[1] == sev; ok != want || ok != (err == nil) {
				failing(t, "Status{%d, %q} Valid() = %v, %v", c, sev, ok, err)
			}
			if s.Code != ofxgo.Int(c) || string(s.Severity) != sev || s.Message != "m" {
				failing(t, "Status{%d, %q} changed by Valid to %v", c, sev, s)
			}
		}
		s := ofxgo.Status{Code: ofxgo.Int(c)}
		if m, err := s.CodeMeaning(); known != (err == nil) || known && m != row[0] {
			failing(t, "CodeMeaning of %d = %q, %v", c, m, err)
		}
		if m, err := s.CodeConditions(); known != (err == nil) || known && m != row[2] {
			failing(t, "CodeConditions of %d = %q, %v", c, m, err)
		}
	}
}
''')
open(os.path.join(root, 'replay/C16_test.go'), 'w').write('\n'.join(t))
