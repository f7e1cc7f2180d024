"""Thin z3 layer: machine integers are python ints or z3 bit-vectors of the exact width."""
import time, z3
z3.set_param("rewriter.bv_le2extract", False)
from z3 import (BitVecVal, BitVec, BoolVal, Bool, And, Or, Not, If, Implies, UGE, UGT, ULE, ULT, URem, UDiv, SRem,
                LShR, Extract, Concat, ZeroExt, SignExt, simplify, is_bv, is_bool, is_bv_value, is_true, is_false)

M64 = (1 << 64) - 1
IMAX = (1 << 63) - 1

_bvcache = {}
def bv(x, w):
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int):
        k = (x & ((1 << w) - 1), w)
        r = _bvcache.get(k)
        if r is None: r = _bvcache[k] = BitVecVal(k[0], w)
        return r
    if is_bool(x): return If(x, BitVecVal(1, w), BitVecVal(0, w))
    return x

def norm(e):
    """python int / bool when e is a literal"""
    if isinstance(e, (int, bool)): return e
    e = simplify(e, bv_le2extract=False)
    if is_bv_value(e): return e.as_long()
    if is_true(e): return True
    if is_false(e): return False
    return e

def lit(e):
    if isinstance(e, (int, bool)): return e
    if is_bv_value(e): return e.as_long()
    if is_true(e): return True
    if is_false(e): return False
    return e

def isc(x): return isinstance(x, int)   # bool included
def sgn(x, w): return x - (1 << w) if x >> (w - 1) & 1 else x
def tobool(x):
    if isinstance(x, bool): return x
    if isinstance(x, int): return x != 0
    if is_bool(x): return x
    return norm(x != 0)
def zb(x): return BoolVal(x) if isinstance(x, bool) else x

def add(a, b, w=64):
    if isc(a) and isc(b): return (a + b) & ((1 << w) - 1)
    if isc(b) and b == 0: return a
    if isc(a) and a == 0: return b
    return norm(bv(a, w) + bv(b, w))
def sub(a, b, w=64):
    if isc(a) and isc(b): return (a - b) & ((1 << w) - 1)
    if isc(b) and b == 0: return a
    return norm(bv(a, w) - bv(b, w))
def mul(a, b, w=64):
    if isc(a) and isc(b): return (a * b) & ((1 << w) - 1)
    return norm(bv(a, w) * bv(b, w))
def eq(a, b, w=64):
    if isc(a) and isc(b): return a == b
    if not isc(a) and not isc(b) and a.eq(b): return True
    return norm(bv(a, w) == bv(b, w))
def ule(a, b, w=64):
    if isc(a) and isc(b): return a <= b
    return norm(ULE(bv(a, w), bv(b, w)))
def ult(a, b, w=64):
    if isc(a) and isc(b): return a < b
    return norm(ULT(bv(a, w), bv(b, w)))
def and_(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs): return False
    if not xs: return True
    return norm(And(*xs)) if len(xs) > 1 else xs[0]
def or_(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs): return True
    if not xs: return False
    return norm(Or(*xs)) if len(xs) > 1 else xs[0]
def not_(x):
    if isinstance(x, bool): return not x
    return norm(Not(x))
def imp(a, b):
    if a is False or b is True: return True
    if a is True: return b
    return norm(Implies(a, zb(b)))
def ite(c, a, b, w):
    if c is True: return a
    if c is False: return b
    return norm(If(c, bv(a, w), bv(b, w)))
def same(a, b):
    """structural equality"""
    if isc(a) or isc(b): return isc(a) and isc(b) and a == b
    return a.eq(b)

class Solver:
    def __init__(self, timeout_ms=8000):
        self.s = z3.Solver()
        self.s.set('timeout', 700)
        self.timeout = timeout_ms
        self.stack = []
        self.n = 0
        self.time = 0.0
        self.unknowns = 0
        self.slow = []
        self.cache = {}
        self.vs = {}
        self.s3 = None
        self.patient = False
    def vars(self, e):
        """names of the uninterpreted symbols of e"""
        r = self.vs.get(e.get_id())
        if r is not None: return r[0]
        out = set(); seen = set(); todo = [e]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            h = self.vs.get(i)
            if h is not None: out |= h[0]; continue
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0: out.add(x.decl().name())
            todo += x.children()
        r = frozenset(out); self.vs[e.get_id()] = (r, e)
        return r
    def slice(self, pc, ex):
        """the constraints of pc connected with ex by shared symbols"""
        want = set()
        for e in ex: want |= self.vars(e)
        rest = [(c, self.vars(c)) for c in pc]; out = []
        n = -1
        while n != len(out):
            n = len(out); keep = []
            for c, v in rest:
                if v & want: out.append(c); want |= v
                else: keep.append((c, v))
            rest = keep
        return out
    def maybe(self, pc, extra):
        """is pc and extra possibly satisfiable? (False only when certainly not)"""
        ex = [e for e in extra if e is not True]
        if any(e is False for e in ex): return False
        sl = self.slice(pc, ex)
        if len(sl) * 2 > len(pc): return self.check(pc, ex, quick=True) != 'unsat'
        key = ('m', tuple([c.get_id() for c in sl]), tuple([e.get_id() for e in ex]))
        hit = self.cache.get(key)
        if hit is not None: return hit[0]
        if self.s3 is None: self.s3 = z3.Solver(); self.s3.set('timeout', 700)
        t = time.time()
        self.s3.push()
        for c in sl: self.s3.add(c)
        for e in ex: self.s3.add(e)
        r = self.s3.check() != z3.unsat
        self.s3.pop()
        self.time += time.time() - t; self.n += 1
        self.cache[key] = (r, None, (sl, ex), True)
        return r
    def _sync(self, pc):
        k = 0
        m = min(len(pc), len(self.stack))
        while k < m and self.stack[k] is pc[k]: k += 1
        d = len(self.stack) - k
        if d: self.s.pop(d); del self.stack[k:]
        for c in pc[k:]:
            self.s.push(); self.s.add(c); self.stack.append(c)
    def check(self, pc, extra=(), quick=False, lem=()):
        """'sat' | 'unsat' | 'unknown' for pc, lem and extra; model kept in self.model (lem: added only as models violate them)"""
        ex = []
        for e in extra:
            if e is True: continue
            if e is False: return 'unsat'
            ex.append(e)
        key = (tuple([c.get_id() for c in pc]), tuple([e.get_id() for e in ex]), tuple([l.get_id() for l in lem if not isinstance(l, bool)]))
        hit = self.cache.get(key)
        if hit is not None and (hit[0] != 'unknown' or hit[3] or quick):
            self.model = hit[1]; return hit[0]
        r = self.check1(pc, ex, quick, [l for l in lem if not isinstance(l, bool)])
        self.cache[key] = (r, self.model, (list(pc), ex, lem), not quick)
        return r
    def lazily(self, s, lem):
        """check with the lemmas that the successive models violate"""
        left = list(lem)
        while True:
            r = s.check()
            self.model = None
            if r != z3.sat: return r
            m = s.model()
            bad = []; keep = []
            for l in left: (keep if len(bad) >= 12 or z3.is_true(m.eval(l, model_completion=True)) else bad).append(l)
            if not bad: self.model = m; return r
            for l in bad: s.add(l)
            left = keep
    def refutes(self, pc, ex, ms=6000):
        """are pc and ex certainly inconsistent? (everything at once, two solvers)"""
        t = time.time(); key = ('r', tuple([c.get_id() for c in pc]), tuple([e.get_id() for e in ex]))
        if key in self.cache: return self.cache[key][0]
        r = z3.unknown
        for mk in (lambda: z3.SolverFor('QF_UFBV'), z3.Solver):
            s = mk(); s.set('timeout', ms)
            for c in list(pc) + list(ex): s.add(c)
            r = s.check()
            if r != z3.unknown: break
        self.time += time.time() - t; self.n += 1
        self.cache[key] = (r == z3.unsat, list(pc), list(ex))
        return r == z3.unsat
    def check1(self, pc, ex, quick, lem=()):
        t = time.time()
        r = z3.unknown
        self.model = None
        if len(ex) <= 3:
            self._sync(pc)
            self.s.push()
            for e in ex: self.s.add(e)
            r = self.lazily(self.s, lem)
            self.s.pop()
        if r == z3.unknown and not quick:
            # fresh solver: much faster on the queries with spec lemmas
            s2 = z3.SolverFor('QF_UFBV'); s2.set('timeout', self.timeout * (5 if self.patient else 1))
            for c in pc: s2.add(c)
            for e in ex: s2.add(e)
            try: r = self.lazily(s2, lem)
            except z3.Z3Exception: r = z3.unknown
            if r == z3.unknown and not self.patient:
                s2 = z3.Solver(); s2.set('timeout', self.timeout)
                for c in pc: s2.add(c)
                for e in ex: s2.add(e)
                r = self.lazily(s2, lem)
            if r == z3.unknown: self.unknowns += 1
        dt = time.time() - t
        self.time += dt; self.n += 1
        if dt > 0.5: self.slow.append((round(dt, 2), str(r), [str(e)[:200] for e in ex[-1:]], len(ex))); self.on_slow(pc, list(lem) + ex, dt)
        return str(r)
    def on_slow(self, pc, ex, dt): pass
    def proves(self, pc, goal, lemmas=()):
        if goal is True: return True
        ng = zb(not_(goal))
        if not lemmas and not self.maybe(pc, [ng]): return True
        return self.check(pc, [ng], lem=list(lemmas)) == 'unsat'
