"""Apply each planted change to /repo, run the check of its property, undo.  usage: trybugs.py [ids or C-prefixes]"""
import sys, os, json, subprocess, glob, time
V = '/verif'
sel = sys.argv[1:]
for d in sorted(glob.glob(V + '/seeded/*')):
    i = os.path.basename(d)
    if sel and not any(i == s or i.startswith(s) for s in sel): continue
    m = json.load(open(d + '/meta.json'))
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout.strip(), 'repo not clean'
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    try:
        t = time.time()
        r = subprocess.run(['./check', m['property'], 'quick'], cwd=V, capture_output=True, text=True, timeout=1000)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        print(i, 'rc', r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', 'noinput' if v and 'no-failing' in v[0] else 'input' if v else '', round(time.time() - t, 1), flush=True)
        if not (r.returncode == 1 and v): print(r.stdout[-1200:], r.stderr[-500:])
        elif '-v' in sys.argv: print(r.stdout[:1500])
    finally: subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
