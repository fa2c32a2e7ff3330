#!/usr/bin/env python3
"""combine.py DIR FILE...: a copy of /repo at DIR (under /tmp) with as many of the
behaviour-preserving edits of the files as go together."""
import sys, os, subprocess, shutil, importlib.util
d = sys.argv[1]; assert d.startswith('/tmp/') and '..' not in d
shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo', d, symlinks=True)
for i, f in enumerate(sys.argv[2:]):
    spec = importlib.util.spec_from_file_location('r%d' % i, f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for name, props, edits in m.REFS:
        old = {}
        try:
            for g, fn in edits:
                s = open(d + '/' + g).read(); old.setdefault(g, s); t = fn(s); assert s != t
                open(d + '/' + g, 'w').write(t)
            ok = subprocess.run('gofmt -w %s && go build ./...' % ' '.join(old), shell=True, cwd=d, capture_output=True).returncode == 0
        except (AssertionError, ValueError): ok = False
        if not ok:
            for g, s in old.items(): open(d + '/' + g, 'w').write(s)
        print(name, 'ok' if ok else 'left out', flush=True)
r = subprocess.run('go vet . ./cmd/... ; go test -vet=off -count=1 ./...', shell=True, cwd=d, capture_output=True, text=True); print(r.stdout[-1500:], r.stderr[-500:])
