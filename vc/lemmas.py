"""The specification lemmas, proved in Verus (verus/esc.rs)."""
import os, re, subprocess
import build
from mem import ENT

def check():
    """-> (lemmas verified, text of the problem or None)"""
    p = os.path.join(build.VERIF, 'verus', 'esc.rs'); s = open(p).read()
    tab = {int(c): bytes(int(x.replace('u8', '')) for x in b.split(',')) for c, b in re.findall(r'if c == (\d+) \{ seq!\[([0-9u, ]+)\] \}', s)}
    if tab != ENT: return 0, 'the entities of verus/esc.rs and of the verifier differ'
    try: r = subprocess.run(['verus', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200, cwd=build.BUILD)
    except (OSError, subprocess.TimeoutExpired) as e: return 0, f'verus: {e}'
    m = re.search(r'verification results:: (\d+) verified, 0 errors', r.stdout)
    if r.returncode or not m: return 0, 'verus: ' + r.stdout[-400:]
    return int(m.group(1)), None

def job():
    import server
    r = server.Result('specification lemmas (verus/esc.rs)'); r.covers = 1
    n, bad = check()
    if bad: r.unsup.append(bad)
    else: r.obl['specification lemma (Verus)'] = [n, n]
    return r

if __name__ == '__main__': print(check())
