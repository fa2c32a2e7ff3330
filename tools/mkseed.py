#!/usr/bin/env python3
"""mkseed.py FILE: makes /verif/seeded/<name>/ from a description:
name, property, file, needs, breaks, old/new replacements, demo Go test."""
import sys, os, subprocess, json, shutil, importlib.util
spec = importlib.util.spec_from_file_location('s', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
for s in m.SEEDS:
    if len(sys.argv) > 2 and s['name'] not in sys.argv[2:]: continue
    w = '/tmp/mkseed'; shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    for f, old, new in s['edits']:
        p = os.path.join(w, f); t = open(p).read()
        assert t.count(old) == 1, (s['name'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    d = '/verif/seeded/' + s['name']; os.makedirs(d, exist_ok=True)
    subprocess.run(['gofmt', '-l', '.'], cwd=w)
    diff = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo_test.go', 'w').write(s['demo'].lstrip())
    pkg = s.get('pkg', '.')
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Runs demo_test.go against the code in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -d "$d" ] && PATH="$d:$PATH" && break; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off HOME="${HOME:-/root}"
cp "$here/demo_test.go" "$tmp/demo_test.go"
echo "{\\"Replace\\": {\\"$PWD/%szz_demo_test.go\\": \\"$tmp/demo_test.go\\"}}" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestSeedDemo$' %s
''' % ('' if pkg == '.' else pkg[2:] + '/', pkg))
    shutil.rmtree(w)
    print(s['name'])
