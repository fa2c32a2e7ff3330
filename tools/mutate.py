#!/usr/bin/env python3
"""mutate.py MUTANTS.jsonl [-j N] [-n PER_FILE] [-seed S] [file...]: small changes of /repo
which compile and pass the tests, and whether a check reports them. Works under /tmp/verif-mut."""
import sys, os, json, random, shutil, subprocess, concurrent.futures as cf, argparse
ap = argparse.ArgumentParser(); ap.add_argument('muts'); ap.add_argument('-j', type=int, default=4); ap.add_argument('-n', type=int, default=10)
ap.add_argument('-seed', type=int, default=1); ap.add_argument('files', nargs='*'); a = ap.parse_args()
env = dict(os.environ)
for l in subprocess.run(['bash', '-c', '. /verif/env.sh; env -0'], capture_output=True, text=True, cwd='/verif').stdout.split('\0'):
    if '=' in l: k, v = l.split('=', 1); env[k] = v
CHECKS = {
 'bank.go': 'C13 C14 C29 C26', 'basic_client.go': 'C18 C19 C20 C28', 'client.go': 'C18 C19 C20 C28', 'common.go': 'C16 C27 C14 C29 C26 C13 C05',
 'constants.go': 'C01', 'creditcard.go': 'C13 C29 C26', 'discovercard_client.go': 'C22 C18 C19 C20', 'invstmt.go': 'C13 C29 C26 C10 C11 C01',
 'leaf_elements.go': 'C27 C26', 'profile.go': 'C13 C12 C29 C26', 'request.go': 'C06 C09 C19 C15 C27', 'response.go': 'C08 C23 C09 C06 C27 C07 C24',
 'seclist.go': 'C13 C11 C29 C26', 'signon.go': 'C15 C13 C26 C29', 'signup.go': 'C13 C29 C26', 'types.go': 'C02 C03 C04 C05 C17 C24', 'util.go': 'C20 C17 C07 C24 C08 C06 C09',
 'vanguard_client.go': 'C21 C18 C19 C20', 'cmd': 'C28 C25'}
ms = {}
for l in open(a.muts):
    m = json.loads(l); m['file'] = m['file'].split('/repo/')[1]; f = m['file']
    line = open('/repo/' + f).read().split('\n')[m['line'] - 1]
    if m['kind'] == 'string' and any(w in line for w in ('errors.New', 'Errorf', 'Usage', 'Print', 'Fatal', 'flag')): continue
    if a.files and f not in a.files: continue
    ms.setdefault(f, []).append(m)
todo = []
for f in sorted(ms):
    random.Random(a.seed).shuffle(ms[f]); todo += ms[f][:a.n]
random.Random(a.seed).shuffle(todo)
def run(i):
    m = todo[i]; w = '/tmp/verif-mut/%d' % i; f = m['file']
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w + '/verif/replays'); os.makedirs(w + '/verif/evidence')
    shutil.copytree('/repo', w + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git'))
    for n in ('contracts', 'replay', 'known-findings.txt'): os.symlink('/verif/' + n, w + '/verif/' + n)
    b = open('/repo/' + f, 'rb').read(); open(w + '/repo/' + f, 'wb').write(b[:m['off']] + m['new'].encode() + b[m['end']:])
    old = b[m['off']:m['end']].decode(); what = '%s:%d %s %s: %r -> %r' % (f, m['line'], m['func'], m['kind'], old[:90], m['new'][:90])
    try:
        r = subprocess.run('timeout 120 go build ./... && timeout 120 go test -vet=off -count=1 ./...', shell=True, cwd=w + '/repo', env=env, capture_output=True, text=True)
        if r.returncode: return 'killed', what, ''
        log = ''
        for p in CHECKS['cmd' if f.startswith('cmd') else f].split():
            r = subprocess.run(['timeout', '800', '/verif/bin/govc', 'check', '-prop', p, '-tier', 'quick', '-repo', w + '/repo', '-verif', w + '/verif'], capture_output=True, text=True, env=env, cwd='/verif')
            o = r.stdout + r.stderr; nf = 'no-failing-input' in o
            np = sum(l.startswith('NOT PROVED') for l in o.split('\n'))
            log += ' %s:%d%s%s' % (p, r.returncode, '(nfi)' if nf else '', '(np%d)' % np if np else '')
            if r.returncode == 1: return 'caught', what, log
        return 'MISSED', what, log
    finally: shutil.rmtree(w, ignore_errors=True)
cnt = {}
with cf.ThreadPoolExecutor(a.j) as ex:
    for k, what, log in ex.map(run, range(len(todo))):
        cnt[k] = cnt.get(k, 0) + 1
        if k != 'killed': print(k, what, log, flush=True)
print(cnt)
