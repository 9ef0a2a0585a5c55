#!/usr/bin/env python3
"""mut.py CHECK[,CHECK] FILE OLD NEW [N]: applies a replacement to a scratch copy of /repo and runs checks on it (development aid)."""
import sys, os, subprocess, shutil
R = '/tmp/w/r'
def main():
    ids, f, old, new = sys.argv[1:5]
    n = int(sys.argv[5]) if len(sys.argv) > 5 else 0
    if not os.path.exists(R):
        os.makedirs('/tmp/w', exist_ok=True); subprocess.run(['cp', '-a', '/repo', R], check=True)
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True)
    subprocess.run(['git', '-C', R, 'pull', '-q'], capture_output=True)
    p = os.path.join(R, f); s = open(p).read()
    parts = s.split(old)
    if len(parts) < 2 + n: print('NOT FOUND'); return 1
    s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
    open(p, 'w').write(s)
    for i in ids.split(','):
        r = subprocess.run(['python3', '/verif/check.py', i], env=dict(os.environ, KX_REPO=R, KX_CACHE='/tmp/w/cache'), capture_output=True, text=True)
        print(i, 'exit', r.returncode); print('\n'.join((r.stdout + r.stderr).splitlines()[-8:]))
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True)
main()
