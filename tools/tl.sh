cd /verif; . ./env.sh
(GOVC_DEBUG=1 timeout -s QUIT ${2:-100} ./bin/govc check -prop $1 -noreplay -v ${3:+-fn $3} 2>&1 | python3 -c "
import sys,time
t0=time.time()
for l in sys.stdin:
    if l.startswith('loop') and 'round' in l: print('%.1f'%(time.time()-t0), l[:60].strip(), l.count('['))
    if not l.startswith('loop') and not l.startswith('   ok'): print('%.1f'%(time.time()-t0), l.rstrip()[:200])
    if l.startswith('SIGQUIT'): break
")
