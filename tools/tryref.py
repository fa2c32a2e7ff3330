#!/usr/bin/env python3
"""tryref.py FILE [-j N] [names]: the checks on copies of /repo with edits that keep
the behaviour. Works under /tmp/verif-ref only."""
import sys, os, subprocess, shutil, importlib.util, concurrent.futures as cf, time
spec = importlib.util.spec_from_file_location('r', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
args = sys.argv[2:]; par = 3
if args[:1] == ['-j']: par = int(args[1]); args = args[2:]
env = dict(os.environ); 
out = subprocess.run(['bash', '-c', '. /verif/env.sh; env -0'], capture_output=True, text=True, cwd='/verif').stdout
for l in out.split('\0'):
    if '=' in l: k, v = l.split('=', 1); env[k] = v
jobs = []
only = [a for a in args if not (a[0] == 'C' and a[1:].isdigit())]; onlyp = [a for a in args if a not in only]
for name, props, edits in m.REFS:
    if only and name not in only: continue
    w = '/tmp/verif-ref/' + name; shutil.rmtree(w, ignore_errors=True); os.makedirs(w + '/verif/replays'); os.makedirs(w + '/verif/evidence')
    shutil.copytree('/repo', w + '/repo', symlinks=True)
    for f, fn in edits:
        p = w + '/repo/' + f; s = open(p).read(); t = fn(s)
        assert s != t, (name, f)
        open(p, 'w').write(t)
    for n in ('contracts', 'replay', 'known-findings.txt'): os.symlink('/verif/' + n, w + '/verif/' + n)
    subprocess.run(['gofmt', '-w'] + [f for f, _ in edits], cwd=w + '/repo', env=env, check=True)
    r = subprocess.run('go build ./... && go test -vet=off -count=1 ./...', shell=True, cwd=w + '/repo', env=env, capture_output=True, text=True)
    if r.returncode: print(name, 'BROKEN', r.stdout[-1500:], r.stderr[-1500:]); continue
    for p in onlyp or props.split() if isinstance(props, str) else onlyp or props:
        if p not in os.environ.get('REF_SKIP', '').split(): jobs.append((name, p))
def run(j):
    name, p = j; w = '/tmp/verif-ref/' + name; t = time.time()
    r = subprocess.run(['timeout', '900', '/verif/bin/govc', 'check', '-prop', p, '-tier', 'quick', '-repo', w + '/repo', '-verif', w + '/verif'], capture_output=True, text=True, env=env, cwd='/verif')
    o = r.stdout + r.stderr; ls = o.strip().split('\n')
    bad = [l[:230] for l in ls if l.startswith(('FAILED', 'NOT PROVED', 'VIOLATION', 'FAILING'))]
    nf = sum('NOT PROVED' in l for l in bad)
    s = '%s %s exit=%d %.0fs notproved=%d %s' % (name, p, r.returncode, time.time() - t, nf, '' if r.returncode == 0 else 'ALARM')
    return s + ''.join('\n    ' + b for b in bad[:3])
with cf.ThreadPoolExecutor(par) as ex:
    for s in ex.map(run, jobs): print(s, flush=True)
shutil.rmtree('/tmp/verif-ref', ignore_errors=True)
