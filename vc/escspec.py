"""Contract of `escape` and of every implementation behind its function pointer, proved on their real bodies.

`escape(s, buf)`: the committed contents of buf become what they were followed by esc(s), where esc is defined by the
recursive specification in mem.Spec; nothing else is read or written.  Loop invariants are inferred or taken from
vc/hints (re-checked either way).  Buffer operations are used through their contracts (absbuf.Client, proved in server.py)."""
import time, traceback, re, z3
from smt import *
from mem import *
import mir, models, bufspec as B, absbuf, server, hints
from server import Result, string_roles
from exec import Ex, State, Budget
from models import R, sv

MAX = 1 << 60
PROCEED = 'naive::proceed'

def mkex(prog, budget, width):
    ex = Ex(prog, budget_s=budget); ex.named = MODELS; ex.det = True; ex.cpu_ok = models.cpu_obligation; ex.jobs = width
    ex.client = absbuf.Client(ex, string_roles(ex))
    return ex
def mkbuf(ex, st, name='C0'):
    ln = BitVec('len_' + name, 64); cap = BitVec('cap_' + name, 64)
    st.pc += [ULE(ln, cap), ULE(cap, bv(IMAX, 64))]
    b = absbuf.new_buf(ex, st, ln, cap, (('tok', name, ln),))
    st.mem['buf'] = Flat(24, absbuf.value(b))
    return b

def reach(prog, i):
    """instances a body can call (statically)"""
    seen = {i}; todo = [i]
    while todo:
        b = prog.insts[todo.pop()]['body']
        if not b: continue
        for bl in b['blocks']:
            t = bl[1]
            for j in ([t[1]] if t[0] == 'call' else [t[3]] if t[0] == 'drop' else []):
                if isinstance(j, int) and j not in seen: seen.add(j); todo.append(j)
    return seen
def has_indirect(prog, i):
    for j in reach(prog, i):
        b = prog.insts[j]['body']
        if b and any(bl[1][0] == 'call' and bl[1][1] is None for bl in b['blocks']): return True
    return False
def features(prog, i): return {f for j in reach(prog, i) for f in prog.insts[j]['tf']}
def m_from_utf8(ex, st, inst, av, at, dt):
    """valid or not: either may happen (an over-approximation)"""
    from rendspec import enum_blob
    a, b = st.copy(), st.copy()
    return [(a, enum_blob(ex, dt, 0, [av[0]])), (b, enum_blob(ex, dt, 1, [{}]))]
MODELS = models.BASE_MODELS + [(re.compile(r'^(core|std)::str::from_utf8$'), m_from_utf8)]
def find_proceed(prog):
    """the shared scalar scanner, if it still has the signature its contract is written for"""
    for x in prog.insts:
        if x['short'].endswith(PROCEED) and x['body'] and x['body']['argc'] == 4:
            t = [prog.types[k].s for k in x['body']['locals'][:5]]
            if t[0] == '*const u8' and t[2:] == ['*const u8'] * 3 and t[1].startswith('&'): return x['id']
    return None

def use_proceed(ex):
    i = find_proceed(ex.prog)
    if i is None: return False
    def m(ex, st, inst, av, at, dt):
        ex.used_contracts.add(PROCEED)
        b = absbuf.bufid(ex, st, sv(av[0]))
        a, p, e = (ex.checkptr(st, sv(x), 'proceed') for x in av[1:4])
        o = st.mem.get(a.obj)
        if not isinstance(o, Bytes) or p.obj != a.obj or e.obj != a.obj: raise Unsupported('proceed on other memory')
        sp = ex.specs[a.obj]
        A, P, E, N = (bv(x, 64) for x in (a.off, p.off, e.off, o.size))
        lem = ex.lemmas(st, a.obj, [a.off, p.off, e.off])
        ex.oblige(st, norm(And(ULE(A, P), ULE(P, E), ULE(E, N), sp.cnt(A) == sp.cnt(P))), 'proceed: start <= ptr <= end inside the text, nothing special between start and ptr', lem)
        r = ex.fresh('r')
        absbuf.append(ex, st, b, (('esc', a.obj, a.off, r),))
        ex.assume(st, norm(And(ULE(A, r), ULE(r, E), sp.cnt(r) == sp.cnt(E))))
        return R(Ptr(a.obj, r), 8)
    ex.contracts[i] = m
    return True

def job(path, target, lo, hi, budget, width, use_hints=True):
    """target: small | dispatch | proceed | name of an implementation"""
    t0 = time.time()
    prog = mir.Prog(path)
    r = attempt(prog, target, lo, hi, budget, width, use_hints)
    if r.fit and (r.unsup or r.failures) and time.time() - t0 < budget / 2: r = attempt(prog, target, lo, hi, budget - (time.time() - t0), width, False)
    r.secs = time.time() - t0
    return r

def attempt(prog, target, lo, hi, budget, width, use_hints):
    t0 = time.time()
    name = target + ('' if target in ('small', 'dispatch', 'proceed', 'string') else f'[{lo}..{hi if hi < MAX else ""}]')
    res = Result('escape: ' + name)
    ex = mkex(prog, budget, width)
    key = name.replace('::', '_').replace('[', '_').replace(']', '').replace('..', '_')
    fit = res.fit = use_hints and hints.load(ex, key)
    res.notes.append('loop annotations ' + ('loaded' if fit else 'inferred'))
    try: {'small': small, 'dispatch': dispatch, 'proceed': proceed, 'string': string}.get(target, leaf)(ex, prog, res, target, lo, hi)
    except Unsupported as e: res.unsup.append(f'unsupported: {e}')
    except Budget: res.unsup.append('time budget exhausted')
    except Stuck: pass
    except (KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception) as e:
        res.unsup.append(f'engine: {type(e).__name__}: {e} ' + traceback.format_exc().strip().split('\n')[-3].strip())
    res.take(ex); res.secs = time.time() - t0
    if not res.covers and not res.failures and not res.unsup: res.unsup.append('vacuous: no postcondition was reachable')
    res.key = key
    if use_hints == 'record' and target not in ('small', 'dispatch', 'string') and not res.unsup and not res.failures: hints.save(ex, key)
    return res

def whole(ex, prog, inst, lo, hi):
    """run inst(s, &mut buf) with len(s) in lo..=hi against the contract of escape"""
    st = State.new()
    b = mkbuf(ex, st)
    s, oid, n = B.in_text(ex, st, 's', lo, hi)
    pre = absbuf.committed(ex, st, b)
    want = pre + (('esc', oid, 0, n),)
    outs = ex.run([ex.start(st, inst, [s, {0: (8, Ptr('buf', 0))}])])
    for o in server.panics(ex, outs, []):
        B.same_rope(ex, o[1], absbuf.committed(ex, o[1], b), want, 'escaped text')

def small(ex, prog, res, target, lo, hi): whole(ex, prog, prog.roots['vp_escape'], 0, 15)

def leaf(ex, prog, res, target, lo, hi):
    ex.cpu_ok = lambda ex, st, x: None        # the dispatcher is obliged to establish them
    use_proceed(ex)
    inst = [x for x in prog.insts if x['short'] == target][0]['id']
    whole(ex, prog, inst, lo, hi)

def dispatch(ex, prog, res, target, lo, hi):
    """every function the pointer can ever hold is called within its contract; the ones that go through the pointer again are proved here"""
    hit = set()
    def hook(ex, st, inst, av, at):
        if len(av) != 2 or 8 not in av[0] or at[0] is None or at[0].s != '&str': return None
        hit.add(inst)
        ex.oblige(st, ule(16, av[0][8][1]), 'an implementation is called on at least 16 bytes')
        if not has_indirect(prog, inst):
            seen = set()
            for j in reach(prog, inst):
                fs = set(prog.insts[j]['tf']) - seen
                if fs: seen |= fs; models.cpu_obligation(ex, st, dict(prog.insts[j], tf=sorted(fs)))
        t = absbuf.str_rope(ex, st, av[0])
        if len(t) != 1 or t[0][0] != 'src': raise Unsupported('dispatched on something else')
        absbuf.append(ex, st, absbuf.bufid(ex, st, sv(av[1])), (('esc',) + t[0][1:],))
        return {}
    ex.indirect = hook
    for rnd in range(6):
        ex.static_changed = False
        n = len(hit)
        whole(ex, prog, prog.roots['vp_escape'], 16, MAX)
        for i in sorted(hit):
            if has_indirect(prog, i): whole(ex, prog, i, 16, MAX)
        if not ex.static_changed and len(hit) == n: break
    else: raise Unsupported('values of the function pointer do not settle')
    res.targets = [(prog.insts[i]['short'], sorted(features(prog, i))) for i in sorted(hit) if not has_indirect(prog, i)]

def string(ex, prog, res, target, lo, hi):
    """escape_str: a fresh String holding exactly esc(s)"""
    import rendspec
    i = absbuf.first_call(prog, 'vp_escape')
    def m(ex, st, inst, av, at, dt): ex.used_contracts.add('vp_escape'); return rendspec.c_escape(ex, st, inst, av, at, dt)
    ex.contracts[i] = m
    st = State.new()
    s, oid, n = B.in_text(ex, st, 's', 0, MAX)
    sr = string_roles(ex)
    for o in server.panics(ex, ex.run([ex.start(st, prog.roots['vp_escape_str'], [s])]), []):
        S = o[1]
        p, ln, cap = sr.get(o[2])
        B.same_rope(ex, S, () if isc(ln) and ln == 0 else ex.text_of(S, p, ln), (('esc', oid, 0, n),), 'escaped text')
        ex.oblige(S, not [k for k in S.g if isinstance(k, tuple) and k[0] == 'buf'], 'no buffer is leaked')

def proceed(ex, prog, res, target, lo, hi):
    res.weak = True       # an internal contract: code that no longer meets it is not wrong for that
    i = find_proceed(prog)
    if i is None: res.covers = 1; return
    st = State.new()
    b = mkbuf(ex, st)
    s, oid, n = B.in_text(ex, st, 's', 0, MAX)
    a, p, e = BitVec('a', 64), BitVec('p', 64), BitVec('e', 64)
    sp = ex.specs[oid]
    st.pc += [ULE(a, p), ULE(p, e), ULE(e, n), sp.cnt(a) == sp.cnt(p)]
    pre = absbuf.committed(ex, st, b)
    outs = ex.run([ex.start(st, i, [{0: (8, Ptr('buf', 0))}] + [{0: (8, Ptr(oid, x))} for x in (a, p, e)])])
    for o in server.panics(ex, outs, []):
        S = o[1]
        r = ex.checkptr(S, sv(o[2]), 'result of proceed')
        if r.obj != oid: raise Unsupported('proceed returns another pointer')
        R_ = bv(r.off, 64)
        ex.oblige(S, norm(And(ULE(a, R_), ULE(R_, e), sp.cnt(R_) == sp.cnt(e))), 'proceed: everything up to the result is written, nothing special after it', ex.lemmas(S, oid, [a, p, e, r.off]))
        B.same_rope(ex, S, absbuf.committed(ex, S, b), pre + (('esc', oid, a, r.off),), 'escaped text')

def leaf_jobs(targets):
    """(name, lo, hi) parts of the implementations, the costly ones first"""
    out = []
    for t, fs in targets:
        if 'avx2' in fs: out += [(0, t, 32, MAX), (3, t, 16, 31)]
        elif fs: out += [(1, t, 16, MAX)]
        else: out += [(2, t, 16, MAX)]
    return [x[1:] for x in sorted(out)]
