#!/usr/bin/env python3
"""Writes the first version of contracts/C26.go: for every struct of /repo which
the XML library reads and writes by its tags, which field is which element, in
the order they are written. The table it wrote has been reviewed against the
OFX specification and is what the code is checked against from then on: this is
not part of any check."""
import re, glob, sys
files = [f for f in sorted(glob.glob('/repo/*.go')) if not f.endswith('_test.go')]
src = {f: open(f).read() for f in files}
own = set()
for s in src.values():
    own |= set(re.findall(r'^func \(\w+ \*?(\w+)\) (?:Unm|M)arshalXML', s, re.M))
out = []
for f in files:
    for m in re.finditer(r'^type (\w+) struct \{\n(.*?)^\}', src[f], re.M | re.S):
        name, body = m.groups()
        if name in own or 'xml:"' not in body:
            continue
        el, rows = '', []
        for l in body.split('\n'):
            x = re.match(r'\s*(\w+)\s+(\S+)\s+`xml:"([^"]*)"`', l)
            if not x:
                continue
            fn, ty, tag = x.groups()
            if tag == '-':
                continue
            path, *flags = tag.split(',')
            if fn == 'XMLName':
                el = path
                continue
            matters = ty in ('String', 'UID', 'Int', 'Boolean', 'string', 'int')
            rows.append((path, fn, matters and 'omitempty' in flags))
        out.append((name, el, rows))
print('''//go:build go1.21

package ofxgo

// Which field is which element: for every struct of the package which leaves
// its reading and writing to the XML library. See tools/gen26.py.

// vXMLRead does to what v points to what the XML library does when it reads
// an element into it, by the tags of its type; false if they make it fail.
func vXMLRead(v interface{}) bool { return false }

// vXMLWrite has the XML library write what v points to.
func vXMLWrite(v interface{}) bool { return false }

// vXMLName is the name of the element which a type is.
func vXMLName(v interface{}) string { return "" }

// vElement stores the content of an element, absent or not, in what p points to.
func vElement(path string, p interface{}) {}

// vWritten says whether the next element written is path, with the contents of
// what p points to; vWrittenIfSet that it is left out if that is empty.
func vWritten(path string, p interface{}) bool      { return false }
func vWrittenIfSet(path string, p interface{}) bool { return false }
func vAllWritten() bool                             { return false }
''')
for name, el, rows in out:
    print('func c26%s(w %s) {' % (name, name))
    print('\tvar v, want %s' % name)
    print('\tvAssert(vXMLName(&v) == "%s", "%s is the element %s")' % (el, name, el))
    print('\tvAssert(vXMLRead(&v), "the tags of %s do not conflict")' % name)
    for path, fn, omit in rows:
        print('\tvElement("%s", &want.%s)' % (path, fn))
    for path, fn, omit in rows:
        print('\tvAssert(same(v.%s, want.%s), "%s.%s is read from %s")' % (fn, fn, name, fn, path))
    print('\tvAssert(same(v, want), "%s has no other elements")' % name)
    print('\tvAssert(vXMLWrite(&w), "the tags of %s do not conflict")' % name)
    for path, fn, omit in rows:
        print('\tvAssert(%s("%s", &w.%s), "%s.%s is written to %s")' % ('vWrittenIfSet' if omit else 'vWritten', path, fn, name, fn, path))
    print('\tvAssert(vAllWritten(), "%s has no other elements")' % name)
    print('}\n')
    print('func C26__ensures__c26%s__elements() bool { return true }\n' % name)

with open('/verif/replay/table_test.go', 'w') as t:
    t.write('package ofxgo_test\n\n// The elements of the structs of the package, in order (see tools/gen26.py).\n\n')
    t.write('type elementRow struct {\n\tpath, field string\n\tomit bool // if empty\n}\n\nvar elementTable = map[string]struct {\n\tname string\n\trows []elementRow\n}{\n')
    for name, el, rows in out:
        t.write('\t"%s": {"%s", []elementRow{\n' % (name, el))
        for path, fn, omit in rows:
            t.write('\t\t{"%s", "%s", %s},\n' % (path, fn, str(omit).lower()))
        t.write('\t}},\n')
    t.write('}\n')
