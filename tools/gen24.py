#!/usr/bin/env python3
"""Writes contracts/C24.go: every function which decodes, validates, prints or
marshals a value is put under a contract, whose point is that nothing in it
crashes and that its loops end."""
import re, os, glob
pkg = '/repo'
fns = []
for f in sorted(glob.glob(pkg + '/*.go')):
    if f.endswith('_test.go'): continue
    for m in re.finditer(r'^func (?:\((\w+) (\*?)(\w+)\) )?(\w+)\(([^\n]*)\{$', open(f).read(), re.M):
        recv, star, typ, name, rest = m.groups()
        fns.append((typ, star, name, rest))
METHODS = {'UnmarshalXML', 'MarshalXML', 'Marshal', 'Valid', 'String', 'Error', 'AddErr', 'ErrOrNil', 'Name', 'Type', 'Equal',
           'TransactionType', 'PositionType', 'OrderType', 'SecurityType', 'CodeMeaning', 'CodeConditions', 'RecommendedFormat', 'readSGMLHeaders', 'readXMLHeaders'}
FUNCS = {'nextNonWhitespaceToken', 'guessVersion', 'decodeMessageSet', 'encodeMessageSet', 'ParseResponse', 'DecodeResponse', 'NewCurrSymbol', 'NewDate', 'NewDateGMT'}
out = []
head = open('/verif/tools/c24_head.go.txt').read()
for typ, star, name, rest in fns:
    if typ:
        if typ.endswith('Client') or name not in METHODS: continue
        t = typ + '_' + name
    else:
        if name not in FUNCS and not (name.startswith('New') and 'string' in rest): continue
        t = name
    if re.search(r'^func C24__(contract|ensures)__%s__' % t, head, re.M): continue
    kind = 'contract' if name == 'Valid' and ') bool' not in rest.replace('(bool, error)','') and rest.strip() != ') bool' else 'ensures'
    if name == 'Type':
        out.append('func C24__ensures__%s__known(r0 messageType) bool { return c24known(r0) }' % t)
        continue
    out.append('func C24__%s__%s__ends() bool { return true }' % (kind, t))
open('/verif/contracts/C24.go', 'w').write(head + '\n// ---- The functions\n\n' + '\n'.join(out) + '\n')
print(len(out))
