"""Loop annotations: the abstraction and the candidates that survive, recorded per loop so that a later run starts from them.

They are hints only: whatever is loaded here is established on entry and shown to be preserved on every run, exactly like
inferred invariants; a wrong or stale hint can only make the proof fail to find an invariant, never accept a wrong one.
They are used only for functions whose MIR is shaped as it was when they were recorded."""
import os, ast, gzip, hashlib, json, z3
DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hints')

def shape(prog, i):
    """fingerprint of a body: structure, locals, callees; no spans, no ids"""
    b = prog.insts[i]['body']
    if not b: return prog.insts[i]['name']
    ty = lambda t: prog.types[t].s if isinstance(t, int) else t
    def w(x):
        if isinstance(x, list):
            if x and x[0] == 'k': return ['k', ty(x[1]), x[2].get('b') if isinstance(x[2], dict) else None]
            if x and x[0] == 'cast': return [x[0], x[1], w(x[2]), ty(x[3])]
            if x and x[0] == 'adt': return ['adt', ty(x[1]), x[2]]
            return [w(y) for y in x]
        return x if isinstance(x, (str, int, bool, type(None))) else str(type(x))
    out = [b['argc'], [ty(t) for t in b['locals']]]
    for bl in b['blocks']:
        t = bl[1]
        if t[0] == 'call': t = ['call', prog.insts[t[1]]['name'] if t[1] is not None else None, w(t[3]), w(t[4]), t[5]]
        elif t[0] == 'drop': t = ['drop', w(t[1]), t[2]]
        elif t[0] == 'assert': t = ['assert', w(t[1]), t[2], t[4]]
        else: t = w(t)
        out.append([[s if s[0] != '=' else w(s) for s in bl[0]], t])
    return hashlib.sha256(repr(out).encode()).hexdigest()[:20]

def enc(x):
    """z3 constants as tagged tuples, everything else must be a literal"""
    if isinstance(x, z3.ExprRef):
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bv(x): return ('$sym', x.decl().name(), x.size())
        raise ValueError(str(x))
    if isinstance(x, tuple): return tuple(enc(y) for y in x)
    if isinstance(x, (list, set, frozenset)): return ('$' + type(x).__name__, tuple(sorted((enc(y) for y in x), key=repr)))
    if isinstance(x, dict): return ('$dict', tuple((enc(k), enc(v)) for k, v in x.items()))
    if x is None or isinstance(x, (str, int, bool)): return x
    raise ValueError(repr(x))
def dec(x):
    if isinstance(x, tuple):
        if x and x[0] == '$sym': return z3.BitVec(x[1], x[2])
        if x and x[0] == '$dict': return {dec(k): dec(v) for k, v in x[1]}
        if x and x[0] in ('$set', '$frozenset'): return {dec(y) for y in x[1]}
        if x and x[0] == '$list': return [dec(y) for y in x[1]]
        return tuple(dec(y) for y in x)
    return x

def save(ex, name):
    P = ex.prog
    memo = {}
    for k, m in ex.loopmemo.items():
        d = {}
        for a, b in m.items():
            if isinstance(a, tuple) and a[0] == 'killed' and a[1] not in ex.hintused.get(k, ()): continue
            if a == 'ropes': b = {l: t for l, t in b.items() if ok(t)}
            try: d[a] = enc(b)
            except ValueError as e: print('hint not saved', k, a, str(e)[:200])
        memo[k] = tuple(d.items())
    ctxs = tuple((k[0], P.insts[k[1]]['name'], k[2], n) for k, n in ex.ctxs.items())
    names = sorted({P.insts[k[1]]['name']: k[1] for k in ex.ctxs}.items())
    os.makedirs(DIR, exist_ok=True)
    with gzip.GzipFile(os.path.join(DIR, name + '.gz'), 'wb', mtime=0) as h:
        h.write(repr((ctxs, tuple((n, shape(P, i)) for n, i in names), tuple(memo.items()))).encode())
def ok(t):
    try: enc(t); return True
    except ValueError: return False

def load(ex, name):
    """install the recorded annotations; returns whether they fit"""
    p = os.path.join(DIR, name + '.gz')
    if not os.path.exists(p): return False
    try: ctxs, names, memo = ast.literal_eval(gzip.open(p, 'rb').read().decode())
    except (OSError, ValueError, SyntaxError): return False
    P = ex.prog
    by = {}
    for x in P.insts: by.setdefault(x['name'], []).append(x['id'])
    for n, s in names:
        if len(by.get(n, ())) != 1 or shape(P, by[n][0]) != s: return False
    for par, n, bb, num in ctxs: ex.ctxs[(par, by[n][0], bb)] = num
    for k, m in memo: ex.loopmemo[k] = {(a if not isinstance(a, tuple) else a): dec(b) for a, b in m}
    return True
