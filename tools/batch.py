#!/usr/bin/env python3
"""batch.py [ID ...]: applies every mutation (and harmless edit) of tools/mutants.py to scratch copies of /repo and compares the verdicts of the checks (development aid)."""
import sys, os, subprocess, shutil, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from mutants import M
W = 4
def run(sel, last=int(os.environ.get('LAST', '0'))):
    q = queue.Queue()
    for m in M[-last:]:
        if sel and not (set(m[0].split(',')) & set(sel)): continue
        q.put(m)
    lock = threading.Lock()
    bad = []
    def work(i):
        R = '/tmp/w/b%d' % i
        os.makedirs('/tmp/w', exist_ok=True)
        subprocess.run(['rm', '-rf', R]); subprocess.run(['cp', '-a', os.environ.get('BASE', '/repo'), R], check=True)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            ids, expect, f, old, new = m[:5]; n = m[5] if len(m) > 5 else 0
            p = os.path.join(R, f); s0 = open(p).read(); parts = s0.split(old)
            if len(parts) < 2 + n:
                with lock: print('NOT FOUND', m)
                continue
            open(p, 'w').write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
            for c in ids.split(','):
                r = subprocess.run(['python3', V + '/check.py', c], env=dict(os.environ, KX_REPO=R, KX_CACHE='/tmp/w/cache%d' % i, KX_EVIDENCE='/tmp/w/ev%d' % i), capture_output=True, text=True)
                ok = r.returncode == expect
                with lock:
                    print('%s %s exit %d expected %d  %s: %s -> %s' % ('ok  ' if ok else 'DIFF', c, r.returncode, expect, f, ' '.join(old.split())[:70], ' '.join(new.split())[:70]))
                    if not ok or r.returncode not in (0, 1): print('     ' + '\n     '.join((r.stdout + r.stderr).splitlines()[-6:]))
                    sys.stdout.flush()
            open(p, 'w').write(s0)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(W)]
    for t in ts: t.start()
    for t in ts: t.join()
run(sys.argv[1:])
