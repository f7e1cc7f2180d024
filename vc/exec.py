"""Symbolic execution of MIR: one path-condition per path, obligations discharged by z3."""
import z3, time, re
from smt import *
from mem import *
from mir import Prog, strip_generics

class Frame:
    __slots__ = ('inst', 'body', 'ctx', 'bb', 'si', 'dest', 'destty', 'target', 'after')
    def copy(self):
        f = Frame.__new__(Frame)
        f.inst = self.inst; f.body = self.body; f.ctx = self.ctx; f.bb = self.bb; f.si = self.si
        f.dest = self.dest; f.destty = self.destty; f.target = self.target; f.after = self.after
        return f

class State:
    __slots__ = ('pc', 'mem', 'frames', 'g', 'known', 'depth')
    def copy(self):
        s = State.__new__(State)
        s.pc = list(self.pc); s.mem = dict(self.mem); s.frames = [f.copy() for f in self.frames]
        s.g = dict(self.g); s.known = dict(self.known); s.depth = self.depth
        return s
    @staticmethod
    def new():
        s = State.__new__(State); s.pc = []; s.mem = {}; s.frames = []; s.g = {}; s.known = {}; s.depth = 0
        return s

class Failure:
    def __init__(self, what, loc, verdict, model, abstracted): self.what = what; self.loc = loc; self.verdict = verdict; self.model = model; self.abstracted = abstracted
    def key(self): return (self.what, self.loc)
    def __repr__(self): return f"[{self.verdict}] {self.what} @ {self.loc}"

class Budget(Exception): pass

class TrialAbort(Exception): pass

class Ex:
    def __init__(self, prog, timeout_ms=6000, budget_s=600):
        self.prog = prog; self.T = prog.types
        self.smt = Solver(timeout_ms)
        self.rec = True
        self.failures = []
        self.obl = {}            # name -> [discharged, total]
        self.unsup = []
        self.contracts = {}      # inst id -> model
        self.named = []          # (regex, model)
        self.specs = {}
        self.ctxs = {}
        self.nfresh = 0
        self.fn_used = set()     # functions symbolically executed
        self.assumed = set()     # contracts used without proof
        self.used_contracts = set()
        self.static_vals = {}    # static alloc idx -> list of (FnP, [conds])
        self.deadline = time.time() + budget_s
        self.panic_ok = None     # predicate(name, st) -> bool
        self.cpu_ok = None
        self.indirect = None
        self.maxunroll = 70
        self.dstack = []
        self.forked = False; self.jobs = 8
        self.det = False         # fresh names counted per path, so that repeated passes pose identical queries
        self.loopmemo = {}; self.hintused = {}
        self.trial = None
        self.loopinfo = []
        self._mcache = {}
        self.rtchecks = False
        self.debug = False
        self.fmt = {}
        self.boolty = next(t for t in self.T if t.k[0] == 'bool')

    # ---- naming
    def fresh(self, name, w=64):
        self.nfresh += 1
        if w == 0: return Bool(f"{name}!{self.nfresh}")
        return BitVec(f"{name}!{self.nfresh}", w)
    def spec(self, objid): return self.specs[objid]
    def newid(self, kind):
        self.nfresh += 1
        return (kind, self.nfresh)
    def ctx(self, parent, inst, bb):
        k = (parent, inst, bb)
        r = self.ctxs.get(k)
        if r is None: r = self.ctxs[k] = len(self.ctxs) + 1
        return r

    # ---- logic
    def loc(self, st):
        for f in reversed(st.frames):
            sp = f.body['blocks'][f.bb][2]
            if sp: return sp + ' ' + self.prog.insts[f.inst]['short'].split('::')[-1]
        return '?'
    def assume(self, st, c):
        if c is True: return
        if c is False: raise Stuck()
        st.pc.append(c)
    def oblige(self, st, cond, what, lemmas=()):
        cond = norm(cond) if not isinstance(cond, bool) else cond
        if not self.rec:
            self.assume(st, cond); return
        o = self.obl.setdefault(what, [0, 0]); o[1] += 1
        if cond is True: o[0] += 1; return
        if any(c is cond for c in st.pc[-40:]): o[0] += 1; return
        ng = zb(not_(cond))
        if ng is not True and not lemmas and not self.smt.maybe(st.pc, [ng]):
            o[0] += 1; self.assume(st, cond); return
        r = None
        if self.det and not lemmas: r = self.smt.check(st.pc[-3:], [ng], quick=True)
        if r != 'unsat': r = self.smt.check(st.pc, [ng], quick=True, lem=list(lemmas))
        if r != 'unsat':
            lem = self.all_lemmas(st)
            if lem or r == 'unknown': r = self.smt.check(st.pc, [ng], lem=lem + list(lemmas))
            if r == 'unknown' and self.det:
                self.smt.patient = True
                try: r = self.smt.check(st.pc, [ng], lem=lem + list(lemmas))
                finally: self.smt.patient = False
        if r == 'unsat': o[0] += 1
        else: self.fail(st, what, r)
        self.assume(st, cond)
    def fail(self, st, what, verdict):
        m = None
        if verdict == 'sat' and self.smt.model is not None:
            m = {}
            for d in self.smt.model.decls()[:60]:
                try:
                    if d.arity() == 0: m[d.name()] = str(self.smt.model[d])
                except Exception: pass
        if verdict == 'sat' and st.depth == -1: verdict = 'sat'
        f = Failure(what, self.loc(st), verdict, m, st.g.get('abstracted', False))
        if not any(x.key() == f.key() for x in self.failures): self.failures.append(f)
    def proves(self, st, goal, lemmas=()):
        return self.smt.proves(st.pc, goal, lemmas)
    def proves2(self, st, goal):
        if goal is True: return True
        if goal is False: return False
        ng = zb(not_(goal))
        if self.smt.check(st.pc, [ng], quick=True) == 'unsat': return True
        lem = self.all_lemmas(st)
        return bool(lem) and self.smt.check(st.pc, [ng], lem=lem) == 'unsat'
    def all_lemmas(self, st):
        out = []
        for oid in self.specs:
            if st.g.get(('pos', oid)) and oid in st.mem: out += self.lemmas(st, oid)
        return out
    def dead_path(self, st):
        """path condition unsatisfiable once the spec lemmas are taken into account"""
        lem = self.all_lemmas(st)
        return self.smt.check(st.pc, [], lem=lem) == 'unsat'
    def feasible(self, st, cond):
        if cond is True: return True
        if cond is False: return False
        return self.smt.maybe(st.pc, [cond])

    # ---- values
    def wd(self, ty): return ty.size * 8
    def skind(self, ty):
        k = ty.k[0]
        if k == 'bool': return 'bool'
        if k in ('char', 'int', 'uint', 'float'): return 'int'
        if k in ('ptr', 'ref'): return 'ptr' if ty.size == 8 else None
        if k == 'fnptr': return 'ptr'
        if k == 'pat': return self.skind(self.T[ty.k[1]])
        if k == 'adt' and ty.k[5]: return 'int'
        return None
    def signed(self, ty):
        if ty.k[0] == 'pat': return self.signed(self.T[ty.k[1]])
        return ty.k[0] == 'int'
    def addr(self, st, v):
        """integer address of a pointer leaf"""
        if isinstance(v, FnP): return BitVec(f"fnaddr_{v.inst}", 64)
        if not isinstance(v, Ptr): return v
        if v.obj is None: return v.off
        return add(self.base(st, v.obj), v.off)
    def base(self, st, oid):
        o = self.obj(st, oid)
        b = getattr(o, 'base', None)
        if b is None: b = BitVec(f"base_{oid}", 64)
        k = ('based', oid)
        if k not in st.g:
            st.g[k] = True
            sz = bv(o.size, 64)
            for c in (b != 0, ULE(sz, bv(IMAX, 64)), ULE(b, BitVecVal(M64, 64) - sz)): self.assume(st, norm(c))
            if o.align > 1: self.assume(st, norm((b & (o.align - 1)) == 0))
        return b
    def asint(self, st, v, w):
        if isinstance(v, NONINT): return self.addr(st, v)
        if isinstance(v, bool): return int(v)
        if not isc(v) and is_bool(v): return If(v, bv(1, w), bv(0, w))
        return v
    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            if isinstance(oid, tuple) and oid[0] == 'A':
                a = self.prog.allocs[oid[1]]
                if a['k'] in ('mem', 'static') and 'alloc' in a: o = Const(a['alloc'], oid[1])
                else: raise Unsupported(f"alloc {a['k']}")
                st.mem[oid] = o
            else: raise KeyError(oid)
        return o
    def alive(self, st, ptr, what):
        try: o = self.obj(st, ptr.obj)
        except KeyError:
            self.oblige(st, False, f"{what}: dangling pointer"); raise Stuck()
        if isinstance(o, Heap) and not o.alive:
            self.oblige(st, False, f"{what}: use after free"); raise Stuck()
        return o
    def kn(self, st, e):
        """resolve an expression to a known constant"""
        if isc(e): return e
        r = st.known.get(e.get_id())
        return r if r is not None else e
    def need(self, st, e, w=64, limit=24):
        r = self.kn(st, e)
        if isc(r): return r
        raise NeedFork(e, w, limit)

    # ---- const decoding
    def const_leaves(self, alloc, lo=0, n=None):
        b = alloc['b']; n = len(b) // 2 - lo if n is None else n
        out = {}
        rel = {o: p for o, p in alloc['p']}
        i = lo
        while i < lo + n:
            if i in rel and i + 8 <= lo + n:
                addend = int.from_bytes(bytes.fromhex(b[2 * i:2 * i + 16]), 'little')
                out[i - lo] = (8, self.alloc_ptr(rel[i], addend)); i += 8
            else:
                h = b[2 * i:2 * i + 2]
                if h != '??': out[i - lo] = (1, int(h, 16))
                i += 1
        return out
    def alloc_ptr(self, idx, addend=0):
        a = self.prog.allocs[idx]
        if a['k'] == 'fn': return FnP(a['inst'])
        if a['k'] == 'vtable':
            va = a.get('alloc')
            slots = []
            if va is not None:
                m = self.prog.allocs[va]['alloc']
                rel = {o: p for o, p in m['p']}
                for i in range(0, len(m['b']) // 2, 8):
                    p = rel.get(i)
                    slots.append(self.prog.allocs[p]['inst'] if p is not None and self.prog.allocs[p]['k'] == 'fn' else None)
            return VT(a['ty'], slots)
        return Ptr(('A', idx), addend)
    def const_val(self, ty, c):
        """blob of a constant operand"""
        if c is None: return {}
        if isinstance(c, list): raise Unsupported('const ' + str(c))
        key = id(c)
        r = self._mcache.get(key)
        if r is not None: return r[1]
        sk = self.skind(ty)
        lv = self.const_leaves(c)
        if sk: v = {0: (ty.size, self.gather(lv, 0, ty.size, sk))}
        elif self.prog.is_fat(ty): v = {0: (8, self.gather(lv, 0, 8, 'ptr')), 8: (8, self.gather(lv, 8, 8, 'ptr'))}
        else: v = lv
        self._mcache[key] = (c, v)
        return v

    # ---- leaves
    def leaf_byte(self, st, leaf, size, i):
        if isinstance(leaf, NONINT): raise Unsupported('byte of pointer')
        if isinstance(leaf, (int, bool)): return (int(leaf) >> (8 * i)) & 255
        if is_bool(leaf): leaf = If(leaf, bv(1, 8 * size), bv(0, 8 * size))
        if size == 1: return leaf
        return norm(Extract(8 * i + 7, 8 * i, leaf))
    def gather(self, leaves, off, size, kind):
        """value of `size` bytes at off; None if (partly) uninitialised"""
        l = leaves.get(off)
        if l is not None and l[0] == size: return self.cast_leaf(l[1], size, kind)
        if l is not None and l[0] > size and not isinstance(l[1], NONINT):
            v = l[1]
            v = (int(v) & ((1 << 8 * size) - 1)) if isc(v) else norm(Extract(8 * size - 1, 0, v))
            return self.cast_leaf(v, size, kind)
        bs = {}
        for o, (s, v) in leaves.items():
            if o < off + size and off < o + s:
                if isinstance(v, NONINT): raise Unsupported('partial pointer read')
                for i in range(max(o, off), min(o + s, off + size)): bs[i - off] = self.leaf_byte(None, v, s, i - o)
        if len(bs) < size: return None
        if all(isc(x) for x in bs.values()):
            v = sum(bs[i] << (8 * i) for i in range(size))
        else:
            v = norm(Concat(*[bv(bs[i], 8) for i in reversed(range(size))])) if size > 1 else bs[0]
        return self.cast_leaf(v, size, kind)
    def cast_leaf(self, v, size, kind):
        if isinstance(v, NONINT): return v
        if kind == 'bool': return tobool(v)
        if kind is None: return v
        if isinstance(v, bool): return int(v)
        if not isc(v) and is_bool(v): return norm(If(v, bv(1, 8 * size), bv(0, 8 * size)))
        return v
    def flat_write(self, o, off, size, leaf):
        lv = o.leaves
        l = lv.get(off)
        if l is not None and l[0] == size: lv[off] = (size, leaf); return
        self.flat_erase(o, off, size)
        lv[off] = (size, leaf)
    def flat_erase(self, o, off, size):
        lv = o.leaves
        for k in [k for k, (s, v) in lv.items() if k < off + size and off < k + s]:
            s, v = lv.pop(k)
            if k < off or k + s > off + size:
                if isinstance(v, NONINT): continue
                for i in range(k, k + s):
                    if not off <= i < off + size: lv[i] = (1, self.leaf_byte(None, v, s, i - k))

    # ---- memory access
    def bounds(self, st, ptr, o, n, what):
        sz = o.size
        if isc(ptr.off) and isc(n) and isc(sz):
            self.oblige(st, ptr.off + n <= sz, what + ' in bounds'); return
        e = add(ptr.off, n)
        c = and_(ule(ptr.off, sz), ule(n, sub(sz, ptr.off)))
        self.oblige(st, c, what + ' in bounds')
    def aligned(self, st, ptr, align, what):
        if align <= 1: return
        o = self.obj(st, ptr.obj)
        if isc(ptr.off) and o.align % align == 0: self.oblige(st, ptr.off % align == 0, what + ' aligned'); return
        a = self.addr(st, ptr)
        self.oblige(st, norm((bv(a, 64) & (align - 1)) == 0), what + ' aligned')
    def checkptr(self, st, v, what):
        if isinstance(v, Ptr) and v.obj is not None: return v
        if isinstance(v, Ptr): v = v.off
        if isinstance(v, Han): raise Unsupported(f"deref of handle {v}")
        if not isc(v) and is_bv(v):
            # an integer turned back into a pointer
            for oid in list(st.mem):
                k = ('based', oid)
                if k in st.g:
                    d = norm(v - self.base(st, oid))
                    if isc(d) or f"base_" not in str(d): return Ptr(oid, d)
        self.oblige(st, False, f"{what}: pointer to no object"); raise Stuck()
    def load(self, st, p, ty, align=True):
        """blob of type ty at pointer p"""
        if ty.size == 0: return {}
        p = self.checkptr(st, p, 'read')
        o = self.alive(st, p, 'read')
        n = ty.size
        sk = self.skind(ty)
        if isinstance(o, Flat):
            off = p.off if isc(p.off) else self.need(st, p.off)
            if off + n > o.size: self.oblige(st, False, 'read in bounds'); raise Stuck()
            if sk:
                v = self.gather(o.leaves, off, n, sk)
                if v is None: self.oblige(st, False, 'read of initialised memory'); raise Stuck()
                return {0: (n, v)}
            return self.slice_leaves(o.leaves, off, n)
        if isinstance(o, Const):
            off = self.kn(st, p.off)
            if not isc(off):
                self.bounds(st, p, o, n, 'read')
                if n == 1 and not o.alloc['p']: return {0: (1, self.cast_leaf(self.table(o, off), 1, sk))}
                raise NeedFork(p.off, 64)
            if off + n > o.size: self.oblige(st, False, 'read in bounds'); raise Stuck()
            lv = self.const_leaves(o.alloc, off, n)
            if sk: return {0: (n, self.gather(lv, 0, n, sk))}
            return lv
        if isinstance(o, Bytes):
            self.bounds(st, p, o, n, 'read')
            if align: self.aligned(st, p, ty.align, 'read')
            if not sk and ty.k[0] == 'array' and n > 1:
                return {i: (1, self.byte_at(st, p.obj, add(p.off, i))) for i in range(n)}
            if n == 1: return {0: (1, self.cast_leaf(self.byte_at(st, p.obj, p.off), 1, sk))}
            return {0: (n, self.block_at(st, p.obj, p.off, n))}
        if isinstance(o, Heap):
            self.bounds(st, p, o, n, 'read')
            bs = [self.heap_byte(st, o, add(p.off, i)) for i in range(n)]
            if not sk: return {i: (1, b) for i, b in enumerate(bs)}
            if all(isc(x) for x in bs): v = sum(x << (8 * i) for i, x in enumerate(bs))
            else: v = norm(Concat(*[bv(x, 8) for x in reversed(bs)])) if n > 1 else bs[0]
            return {0: (n, self.cast_leaf(v, n, sk))}
        raise Unsupported('load ' + str(type(o)))
    def slice_leaves(self, leaves, off, n):
        out = {}
        for o, (s, v) in leaves.items():
            if off <= o and o + s <= off + n: out[o - off] = (s, v)
            elif o < off + n and off < o + s:
                if isinstance(v, NONINT): continue
                for i in range(max(o, off), min(o + s, off + n)): out[i - off] = (1, self.leaf_byte(None, v, s, i - o))
        return out
    def table(self, o, idx):
        b = bytes.fromhex(o.alloc['b'])
        # most common value as default, chain of exceptions
        import collections
        d = collections.Counter(b).most_common(1)[0][0]
        r = bv(d, 8)
        ex = [(i, v) for i, v in enumerate(b) if v != d]
        if len(ex) > 64: raise Unsupported('large table')
        i64 = bv(idx, 64)
        # if the index is a zero-extended byte compare bytes
        for i, v in ex: r = If(i64 == i, bv(v, 8), r)
        return norm(r)
    def byte_at(self, st, oid, x):
        o = st.mem[oid]; sp = o.spec
        x64 = bv(x, 64)
        v = sp.F(x64)
        key = ('st', oid, x64.get_id())
        if key not in st.g:
            st.g[key] = x64
            x1 = add(x, 1)
            s = special(v)
            self.assume(st, norm(sp.cnt(bv(x1, 64)) == sp.cnt(x64) + If(s, bv(1, 64), bv(0, 64))))
            self.assume(st, norm(sp.elen(bv(x1, 64)) == sp.elen(x64) + ewidth(v)))
            self.pos(st, oid, x); self.pos(st, oid, x1)
            if self.det: self.assume(st, sp.sp(x64) == zb(s))
            for (bo, p, k, S) in st.g.get('blk', ()):
                if bo != oid: continue
                d = sub(x, p)
                self.assume(st, norm(Implies(ULT(bv(d, 64), k), (LShR(S, self.towidth(d, k)) & 1 == 1) == zb(s))))
        return v
    def towidth(self, d, k):
        d = bv(d, 64)
        return Extract(k - 1, 0, d) if k < 64 else d if k == 64 else ZeroExt(k - 64, d)
    def pos(self, st, oid, x):
        k = ('pos', oid)
        cur = st.g.get(k, ())
        if not any(same(c, x) for c in cur): st.g[k] = cur + (x,)
    def block_at(self, st, oid, p, n):
        o = st.mem[oid]; sp = o.spec
        bs = [sp.F(bv(add(p, i), 64)) for i in range(n)]
        blks = st.g.get('blk', ())
        if not any(b[0] == oid and same(b[1], p) and b[2] == n for b in blks):
            S = self.fresh('S', n)
            self.assume(st, S == Concat(*[If(zb(special(b)), bv(1, 1), bv(0, 1)) for b in reversed(bs)]))
            st.g['blk'] = blks + ((oid, p, n, S),)
            self.pos(st, oid, p); self.pos(st, oid, add(p, n))
        return Concat(*reversed(bs))
    def lemmas(self, st, oid, terms=(), near=False):
        """instances of the spec lemmas for the position terms in play (near: only the terms and the bases of masks)"""
        sp = self.specs[oid]
        ts = []
        quant = st.g.get('quant', ())
        for x in list(terms) + ([r for _, r in quant] if near else list(st.g.get(('pos', oid), ()))[-14:]):
            if not any(same(x, y) for y in ts): ts.append(x)
        out = []
        blks = [b for b in st.g.get('blk', ()) if b[0] == oid]
        for a in ts:
            a64 = bv(a, 64)
            if not (isc(a) and a == 0):
                out.append(ULE(sp.cnt(a64), a64))
                out.append(Implies(ULE(a64, bv(1 << 60, 64)), And(ULE(a64, sp.elen(a64)), ULE(sp.elen(a64), a64 * 6))))
        out = [o for o in out]
        z = bv(0, 64)
        out.append(sp.cnt(z) == 0); out.append(sp.elen(z) == 0)
        for a in ts:
            for b in ts:
                if same(a, b): continue
                if isc(a) and isc(b) and a > b: continue
                a64, b64 = bv(a, 64), bv(b, 64)
                le = ULE(a64, b64)
                out.append(Implies(le, And(ULE(sp.cnt(a64), sp.cnt(b64)), ULE(sp.elen(a64), sp.elen(b64)),
                                           Implies(sp.cnt(a64) == sp.cnt(b64), sp.elen(b64) - sp.elen(a64) == b64 - a64))))
        if blks or quant:
            ws = [sp.wit(bv(a, 64), bv(b, 64)) for a in ts for b in ts if not same(a, b) and not (isc(a) and isc(b) and a > b)]
            for w in ws:
                a64, b64 = w.children()
                out.append(Implies(And(ULE(a64, b64), sp.cnt(a64) != sp.cnt(b64)), And(ULE(a64, w), ULT(w, b64), sp.sp(w))))
            def mono(r, w):
                """order of a, w, b in terms of their distances from r (tautologies which save the solver adders)"""
                a64, b64 = w.children()
                return [Implies(And(ULE(r, x), ULE(r, y)), ULT(x, y) == ULT(bv(norm(x - r), 64), bv(norm(y - r), 64))) for x, y in ((a64, w), (w, b64))]
            for w in [ANY] + ws:
                for (_, p, k, S) in blks:
                    d = w - bv(p, 64)
                    out.append(And(Implies(And(ULE(bv(p, 64), w), ULT(w, bv(add(p, k), 64))), (Extract(0, 0, LShR(S, self.towidth(d, k))) == 1) == sp.sp(w)), *([] if w is ANY else mono(bv(p, 64), w))))
                for e, r in quant:
                    if w is ANY: out.append(e); continue
                    d = bv(norm(w - bv(r, 64)), 64)
                    # the lowest set bit is not above any set bit
                    low = [Implies(And(ULT(d, cw), Extract(0, 0, LShR(v, self.towidth(d, cw))) == 1), ULE(ZeroExt(64 - tw, t), d)) for v, t, cw, tw in st.g.get('ctz', ())]
                    out.append(And(z3.substitute(e, (ANY, w)), *mono(bv(r, 64), w), *low))
            for x in [x for x in ts if not isc(x) and any(v.startswith('cttz') for v in self.smt.vars(x))]:
                for e, r in quant: out.append(z3.simplify(z3.substitute(e, (ANY, x))))
        return out
    def heap_byte(self, st, o, off):
        k = sub(off, o.end)
        if isc(k) and k in o.pend: return o.pend[k]
        pos = 0
        for s in o.rope:
            d = sub(off, pos)
            if s[0] == 'const' and isc(d) and d < len(s[1]): return s[1][d]
            if s[0] == 'byte' and isc(d) and d == 0: return s[1]
            if s[0] == 'src':
                n = seg_len(self, s)
                if self.proves(st, ult(d, n)): return self.byte_at(st, s[1], add(s[2], d))
            pos = add(pos, seg_len(self, s))
        self.oblige(st, ult(off, o.end), 'read of initialised memory')
        raise Unsupported('heap byte')
    def store(self, st, p, ty_size, blob, align=1):
        """write a blob (dict of leaves) of ty_size bytes"""
        if ty_size == 0: return
        p = self.checkptr(st, p, 'write')
        o = self.alive(st, p, 'write')
        if isinstance(o, Flat):
            off = p.off if isc(p.off) else self.need(st, p.off)
            if off + ty_size > o.size: self.oblige(st, False, 'write in bounds'); raise Stuck()
            o = o.copy(); st.mem[p.obj] = o
            l = blob.get(0)
            if len(blob) == 1 and l is not None and l[0] == ty_size:
                self.flat_write(o, off, ty_size, l[1]); return
            self.flat_erase(o, off, ty_size)
            for k, v in blob.items(): o.leaves[off + k] = v
            return
        if isinstance(o, Heap):
            self.bounds(st, p, o, ty_size, 'write')
            if align > 1: self.aligned(st, p, align, 'write')
            bs = {}
            for k, (s, v) in blob.items():
                for i in range(s): bs[k + i] = self.leaf_byte(st, v, s, i)
            o = o.copy(); st.mem[p.obj] = o
            self.heap_put(st, o, p.off, bs)
            return
        self.oblige(st, False, 'write to immutable memory'); raise Stuck()
    def heap_put(self, st, o, off, bs):
        """o is a private copy; write byte map bs at off"""
        k = sub(off, o.end)
        if not isc(k):
            if self.proves(st, eq(off, o.end)): k = 0
            else:
                # below the end: only a whole rewrite from a segment boundary is modelled
                l, r = self.rope_split(st, o.rope, off, o.end)
                o.rope = l; o.end = off; o.pend = {}
                k = 0
        elif k >= 1 << 63:
            kk = k - (1 << 64)
            l, r = self.rope_split(st, o.rope, off, o.end)
            keep = {}
            n = rope_len(self, r)
            if isc(n) and all(s[0] in ('const', 'byte') for s in r):
                i = 0
                for s in r:
                    for b in (s[1] if s[0] == 'const' else [s[1]]): keep[i] = b; i += 1
                keep.update({i_ + n: b for i_, b in o.pend.items()})
            o.rope = l; o.end = off; o.pend = keep
            k = 0
        for i, b in bs.items(): o.pend[k + i] = b
        self.heap_flush(o)
    def heap_flush(self, o):
        n = 0
        rope = o.rope
        while n in o.pend:
            rope = rope_push(rope, ('byte', o.pend[n])); n += 1
        if n:
            o.rope = rope; o.end = add(o.end, n)
            o.pend = {i - n: b for i, b in o.pend.items() if i >= n}
    def rope_split(self, st, rope, off, end=None):
        pos = 0
        if isc(off) and off == 0: return (), tuple(rope)
        if end is not None:
            # walk back from the end over pieces of known length
            if same(off, end): return tuple(rope), ()
            k = sub(end, off)
            if isc(k) and k < 4096:
                i = len(rope)
                while i > 0 and k > 0:
                    n = seg_len(self, rope[i - 1])
                    if not isc(n): break
                    if n > k:
                        if rope[i - 1][0] != 'const': break
                        b = rope[i - 1][1]
                        return tuple(rope[:i - 1]) + (('const', b[:n - k]),), (('const', b[n - k:]),) + tuple(rope[i:])
                    k -= n; i -= 1
                if k == 0: return tuple(rope[:i]), tuple(rope[i:])
        bnds = []
        for i, s in enumerate(rope):
            bnds.append(pos)
            pos = add(pos, seg_len(self, s))
        bnds.append(pos)
        for i, b in enumerate(bnds):
            if same(b, off): return tuple(rope[:i]), tuple(rope[i:])
        for i, s in enumerate(rope):
            d = sub(off, bnds[i])
            if isc(d) and s[0] == 'const' and d < len(s[1]): return tuple(rope[:i]) + (('const', s[1][:d]),), (('const', s[1][d:]),) + tuple(rope[i + 1:])
        for i, b in enumerate(bnds):
            if self.proves(st, eq(b, off)): return tuple(rope[:i]), tuple(rope[i:])
        for i, s in enumerate(rope):
            d = sub(off, bnds[i])
            if s[0] == 'src' and self.proves(st, and_(ule(bnds[i], off), ule(d, seg_len(self, s)))):
                m = add(s[2], d)
                return tuple(rope[:i]) + ((s[0], s[1], s[2], m),), ((s[0], s[1], m, s[3]),) + tuple(rope[i + 1:])
        raise Unsupported('rope split')
    def text_of(self, st, p, n):
        """rope describing n bytes at p"""
        n = self.kn(st, n)
        if isc(n) and n == 0: return ()
        if not (isinstance(p, Ptr) and p.obj is not None):
            self.oblige(st, eq(n, 0), 'read: pointer to no object'); return ()
        o = self.alive(st, p, 'read')
        self.bounds(st, p, o, n, 'read')
        if isinstance(o, Bytes): return (('src', p.obj, p.off, add(p.off, n)),)
        if isinstance(o, Const):
            off = self.need(st, p.off); n = self.need(st, n)
            return (('const', bytes.fromhex(o.alloc['b'][2 * off:2 * (off + n)])),) if n else ()
        if isinstance(o, Flat):
            off = self.need(st, p.off); n = self.need(st, n)
            r = ()
            for i in range(n):
                b = self.gather(o.leaves, off + i, 1, 'int')
                if b is None: self.oblige(st, False, 'read of initialised memory'); raise Stuck()
                r = rope_push(r, ('byte', b))
            return r
        if isinstance(o, Heap):
            e = add(p.off, n)
            self.oblige(st, ule(e, o.end), 'read of initialised memory')
            l, r = self.rope_split(st, o.rope, e, o.end)
            return self.rope_split(st, l, p.off, e)[1]
        raise Unsupported('text')
    def memcpy(self, st, dst, src, n, overlap=False):
        n = self.kn(st, n)
        if isc(n) and n == 0: return
        if not isc(n) and not (isinstance(dst, Ptr) and isinstance(src, Ptr) and dst.obj is not None and src.obj is not None):
            self.oblige(st, eq(n, 0), 'copy: pointer to no object'); return
        dst = self.checkptr(st, dst, 'write'); src = self.checkptr(st, src, 'read')
        do = self.alive(st, dst, 'write'); so = self.alive(st, src, 'read')
        if dst.obj == src.obj and not overlap:
            self.oblige(st, or_(ule(add(dst.off, n), src.off), ule(add(src.off, n), dst.off)), 'copy does not overlap')
        if isinstance(do, Flat):
            n = self.need(st, n); doff = self.need(st, dst.off)
            self.bounds(st, dst, do, n, 'write'); self.bounds(st, src, so, n, 'read')
            if isinstance(so, Flat): lv = self.slice_leaves(so.leaves, self.need(st, src.off), n)
            elif isinstance(so, Const): lv = self.const_leaves(so.alloc, self.need(st, src.off), n)
            elif isinstance(so, Bytes):
                if n == 1: lv = {0: (1, self.byte_at(st, src.obj, src.off))}
                elif n in (2, 4, 8, 16, 32, 64): lv = {0: (n, self.block_at(st, src.obj, src.off, n))}
                else: lv = {i: (1, self.byte_at(st, src.obj, add(src.off, i))) for i in range(n)}
            else:
                lv = {i: (1, self.heap_byte(st, so, add(src.off, i))) for i in range(n)}
            o = do.copy(); st.mem[dst.obj] = o
            self.flat_erase(o, doff, n)
            for k, v in lv.items(): o.leaves[doff + k] = v
            return
        if isinstance(do, Heap):
            self.bounds(st, dst, do, n, 'write')
            if isc(n) and isinstance(so, (Flat, Const)):
                off = self.need(st, src.off)
                self.bounds(st, src, so, n, 'read')
                lv = self.slice_leaves(so.leaves, off, n) if isinstance(so, Flat) else self.const_leaves(so.alloc, off, n)
                bs = {}
                for k, (s, v) in lv.items():
                    for i in range(s): bs[k + i] = self.leaf_byte(st, v, s, i)
                o = st.mem[dst.obj].copy(); st.mem[dst.obj] = o
                self.heap_put(st, o, dst.off, bs)
                return
            t = self.text_of(st, src, n)
            o = st.mem[dst.obj].copy(); st.mem[dst.obj] = o
            self.heap_append(st, o, dst.off, t)
            return
        self.oblige(st, False, 'write to immutable memory'); raise Stuck()
    def heap_append(self, st, o, off, segs):
        if same(off, o.end) or self.proves(st, eq(off, o.end)): pass
        else:
            k = sub(off, o.end)
            if isc(k) and 0 < k < 4096: raise Unsupported('gap in buffer')
            l, r = self.rope_split(st, o.rope, off, o.end)
            o.rope = l
        o.pend = {}
        n = 0
        for s in segs:
            o.rope = rope_push(o.rope, s); n = add(n, seg_len(self, s))
        o.end = add(off, n)

    # ---- places and operands
    def local(self, st, f, n):
        oid = ('L', f.ctx, n)
        if oid not in st.mem:
            ty = self.T[f.body['locals'][n]]
            st.mem[oid] = Flat(ty.size if ty.size is not None else 0, {}, 16)
        return oid
    def place(self, st, pl):
        """-> (Ptr|None base leaf, ty, meta)"""
        f = st.frames[-1]
        ty = self.T[f.body['locals'][pl[0]]]
        p = Ptr(self.local(st, f, pl[0]), 0)
        meta = None; var = None
        for e in pl[1]:
            k = e[0]
            if k == 'd':
                if ty.k[0] == 'adt' and not ty.k[4]: raise Unsupported('deref adt')
                pt = self.prog.pointee(ty)
                b = self.load(st, p, ty)
                p = b[0][1]
                meta = b[8][1] if 8 in b else None
                if not isinstance(p, Ptr):
                    p = Ptr(None, p) if not isinstance(p, NONINT) else p
                ty = pt; var = None
            elif k == 'f':
                if var is not None and ty.var and ty.var['k'] == 'multi': off = ty.var['variants'][var][e[1]]
                else: off = ty.offs[e[1]] if ty.offs else (0 if self.T[e[2]].size == 0 or True else 0)
                nt = self.T[e[2]]
                p = self.padd(p, off)
                ty = nt; var = None
            elif k == 'v': var = e[1]
            elif k == 'i':
                idx = self.opval(st, ['c', [e[1], []]])
                et = self.T[ty.k[1]]
                n = ty.k[2] if ty.k[0] == 'array' else meta
                self.oblige(st, ult(idx, n), 'index in bounds')
                p = self.padd(p, mul(idx, et.size)); ty = et; meta = None
            elif k == 'ci':
                et = self.T[ty.k[1]]
                n = ty.k[2] if ty.k[0] == 'array' else meta
                i = sub(n, e[1]) if e[3] else e[1]
                p = self.padd(p, mul(i, et.size)); ty = et; meta = None
            elif k == 's':
                et = self.T[ty.k[1]]
                n = ty.k[2] if ty.k[0] == 'array' else meta
                p = self.padd(p, mul(e[1], et.size))
                if ty.k[0] == 'slice': meta = sub(sub(n, e[2]), e[1]) if e[3] else sub(e[2], e[1])
                else: raise Unsupported('array subslice')
            elif k == 'o': pass
            else: raise Unsupported('place ' + k)
        return p, ty, meta
    def padd(self, p, off):
        if isc(off) and off == 0: return p
        if not isinstance(p, Ptr): raise Unsupported('field of non-pointer')
        return Ptr(p.obj, add(p.off, off), p.wild)
    def operand(self, st, o):
        """-> (blob, ty)"""
        k = o[0]
        if k == 'k':
            ty = self.T[o[1]]
            return self.const_val(ty, o[2]), ty
        if k == 'rc': return {0: (1, self.rtchecks and 'Overflow' in o[1])}, self.boolty
        f = st.frames[-1]
        pl = o[1]
        if not pl[1]:
            # fast path: whole local
            ty = self.T[f.body['locals'][pl[0]]]
            ob = st.mem.get(('L', f.ctx, pl[0]))
            if ty.size == 0: return {}, ty
            if ob is not None:
                if self.skind(ty) is None: return ob.leaves, ty
                l = ob.leaves.get(0)
                if l is not None and l[0] == ty.size: return {0: l}, ty
        p, ty, _ = self.place(st, pl)
        return self.load(st, p, ty), ty
    def opval(self, st, o):
        b, ty = self.operand(st, o)
        return b[0][1]
    def scal(self, b):
        l = b.get(0)
        return l[1] if l is not None else 0

    # ---- rvalues
    def binop(self, st, op, a, b, ta, tb):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and ta is not None and ta.k[0] == 'float': return self.fcmp(op, a, b, ta)
        if ta is not None and ta.k[0] == 'float': raise Unsupported('float arithmetic')
        if op == 'Offset': return self.ptr_offset(st, a, b, self.prog.pointee(ta).size, self.signed(tb))
        if isinstance(a, NONINT) or isinstance(b, NONINT):
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'): return self.pcmp(st, op, a, b)
            a = self.asint(st, a, 64); b = self.asint(st, b, 64)
        if ta is None: w, sg = 8, False
        else: w, sg = self.wd(ta), self.signed(ta)
        if ta is not None and ta.k[0] == 'bool':
            a, b = tobool(a), tobool(b)
            if op == 'BitAnd': return and_(a, b)
            if op == 'BitOr': return or_(a, b)
            if op in ('BitXor', 'Ne'): return norm(z3.Xor(zb(a), zb(b))) if not (isc(a) and isc(b)) else (a != b)
            if op == 'Eq': return (a == b) if isc(a) and isc(b) else norm(zb(a) == zb(b))
            a = ite(a, 1, 0, 8); b = ite(b, 1, 0, 8); w = 8
        return arith(op, a, b, w, sg, tb.size * 8 if tb is not None and tb.size else w)
    def pcmp(self, st, op, a, b):
        if isinstance(a, (VT, FnP, Han)) or isinstance(b, (VT, FnP, Han)):
            if op == 'Eq': return leaf_same(a, b) if type(a) == type(b) else False
            if op == 'Ne': return not leaf_same(a, b) if type(a) == type(b) else True
            raise Unsupported('fn ptr order')
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj is not None and not a.wild and not b.wild:
            return arith(op, a.off, b.off, 64, False, 64)
        # null comparison
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ptr) and x.obj is not None and not x.wild and isc(self.addr(st, y)) and self.addr(st, y) == 0 and op in ('Eq', 'Ne'):
                return op == 'Ne'
        return arith(op, self.asint(st, a, 64), self.asint(st, b, 64), 64, False, 64)
    def fcmp(self, op, a, b, ty):
        w = ty.size * 8; m = (1 << (w - 1)) - 1; inf = 0x7f800000 if w == 32 else 0x7ff0000000000000
        A, B = bv(a, w), bv(b, w)
        nan = Or(UGT(A & m, bv(inf, w)), UGT(B & m, bv(inf, w)))
        zero = And((A & m) == 0, (B & m) == 0)
        e = Or(A == B, zero)
        na, nb = A < 0, B < 0          # sign bits
        lt = And(Not(zero), If(na, If(nb, UGT(A, B), BoolVal(True)), If(nb, BoolVal(False), ULT(A, B))))
        gt = And(Not(zero), Not(A == B), Not(lt))
        r = {'Eq': And(Not(nan), e), 'Ne': Or(nan, Not(e)), 'Lt': And(Not(nan), lt), 'Le': And(Not(nan), Or(lt, e)), 'Gt': And(Not(nan), gt), 'Ge': And(Not(nan), Or(gt, e))}[op]
        return norm(r)
    def ptr_offset(self, st, p, n, sz, signed):
        if sz == 0: return p
        if isinstance(p, Ptr) and p.obj is not None:
            o = self.alive(st, p, 'offset') if p.obj in st.mem or p.obj[0] == 'A' else None
            d = mul(n, sz)
            no = add(p.off, d)
            if isc(n) and n == 0: return p
            if o is None: self.oblige(st, False, 'pointer offset of dead object'); raise Stuck()
            if not isc(n) and sz > 1:
                self.oblige(st, norm(And(bv(n, 64) <= bv(IMAX // sz, 64), bv(n, 64) >= bv(-(IMAX // sz), 64))), 'pointer offset does not overflow')
            if self.det and not signed:
                # off <= size and d <= size - off, from which off + d <= size follows; the same form as a bounds check
                self.oblige(st, and_(ule(p.off, o.size), ule(d, sub(o.size, p.off))), 'pointer offset stays in its object')
                self.assume(st, ule(no, o.size))
                return Ptr(p.obj, no)
            c = ule(no, o.size)
            if not signed: c = and_(c, ule(d, sub(o.size, p.off)))
            self.oblige(st, c, 'pointer offset stays in its object')
            return Ptr(p.obj, no)
        a = p.off if isinstance(p, Ptr) else p
        self.oblige(st, eq(n, 0), 'offset of a pointer to no object')
        return p
    def cbin(self, st, op, a, b, ta):
        w, sg = self.wd(ta), self.signed(ta)
        a = self.asint(st, a, w); b = self.asint(st, b, w)
        r = arith(op, a, b, w, sg, w)
        if op in ('Shl', 'Shr'):
            o = not_(ult(b, w, w)) if not isc(b) else b >= w
            return r, o
        if isc(a) and isc(b):
            x, y = (sgn(a, w), sgn(b, w)) if sg else (a, b)
            t = {'Add': x + y, 'Sub': x - y, 'Mul': x * y}[op]
            ov = t != (sgn(r, w) if sg else r)
            return r, ov
        A, B = bv(a, w), bv(b, w)
        if op == 'Add': c = And(z3.BVAddNoOverflow(A, B, sg), z3.BVAddNoUnderflow(A, B) if sg else True)
        elif op == 'Sub': c = And(z3.BVSubNoUnderflow(A, B, sg), z3.BVSubNoOverflow(A, B) if sg else True)
        else: c = And(z3.BVMulNoOverflow(A, B, sg), z3.BVMulNoUnderflow(A, B) if sg else True)
        return r, norm(Not(c))
    def cast(self, st, kind, b, src, dst, extra):
        v = self.scal(b)
        if kind in ('IntToInt',):
            return {0: (dst.size, self.int_cast(st, v, src, dst))}
        if kind in ('PtrToPtr', 'FnPtrToPtr', 'MutToConstPointer', 'ArrayToPointer', 'UnsafeFnPointer'):
            if self.prog.is_fat(src) and not self.prog.is_fat(dst): return {0: b[0]}
            return b
        if kind == 'ReifyFnPointer' or kind == 'ClosureFnPointer': return {0: (8, FnP(extra))}
        if kind in ('Transmute', 'BoxDerefTransmute', 'Subtype'):
            sk = self.skind(dst)
            if sk:
                g = self.gather(b, 0, dst.size, sk)
                if g is None: raise Unsupported('transmute of uninit')
                return {0: (dst.size, g)}
            return b
        if kind == 'PointerExposeAddress':
            return {0: (8, self.addr(st, v))}
        if kind == 'PointerWithExposedProvenance':
            if isc(v): return {0: (8, Ptr(None, v))}
            return {0: (8, self.checkptr(st, v, 'cast'))}
        if kind == 'IntToFloat' and isc(v):
            import struct
            x = sgn(v, src.size * 8) if self.signed(src) else v
            if abs(x) <= 1 << (24 if dst.size == 4 else 53): return {0: (dst.size, int.from_bytes(struct.pack('<f' if dst.size == 4 else '<d', float(x)), 'little'))}
        if kind == 'Unsize':
            if extra is None:
                n = self.tail_len(src, dst)
                return b if n is None else {0: (8, v), 8: (8, n)}
            if extra[0] == 'len': return {0: (8, v), 8: (8, extra[1])}
            if extra[0] == 'vtable': return {0: (8, v), 8: (8, VT(extra[1], extra[2] or []))}
        raise Unsupported('cast ' + kind)
    def tail_len(self, src, dst):
        """element count when the tail of a struct is unsized from array to slice"""
        a, b = self.prog.pointee(src), self.prog.pointee(dst)
        for _ in range(8):
            if a is None or b is None: return None
            if a.k[0] == 'array' and b.k[0] == 'slice': return a.k[2]
            if a.k[0] != 'adt' or b.k[0] != 'adt' or not a.k[3] or not b.k[3]: return None
            fa, fb = a.k[3][0]['fields'], b.k[3][0]['fields']
            if not fa or not fb: return None
            a, b = self.T[fa[-1][1]], self.T[fb[-1][1]]
        return None
    def int_cast(self, st, v, src, dst):
        ws, wdst = src.size * 8, dst.size * 8
        if src.k[0] == 'bool':
            return int(v) if isinstance(v, (bool, int)) else norm(If(v, bv(1, wdst), bv(0, wdst)))
        v = self.asint(st, v, ws)
        if isc(v):
            x = sgn(v, ws) if self.signed(src) else v
            return x & ((1 << wdst) - 1)
        if wdst == ws: return v
        if wdst < ws: return norm(Extract(wdst - 1, 0, v))
        return norm(SignExt(wdst - ws, v) if self.signed(src) else ZeroExt(wdst - ws, v))
    def discr(self, st, p, ty, wdst):
        """value of the discriminant as an integer of wdst bits"""
        va = ty.var
        m = (1 << wdst) - 1
        if va is None or va['k'] == 'single':
            i = va['index'] if va else 0
            return (self.prog.discr_of(ty, i) if ty.k[0] == 'adt' and ty.k[2] == 'Enum' and ty.k[3] else i) & m
        ts, sg = self.prog.tag_info(ty)
        tp = self.padd(p, va['tagoff'])
        o = self.alive(st, tp, 'discriminant')
        if isinstance(o, Const):
            off = self.need(st, tp.off)
            if off + ts > o.size: self.oblige(st, False, 'read in bounds'); raise Stuck()
            v = self.gather(self.const_leaves(o.alloc, off, ts), 0, ts, None)
        elif not isinstance(o, Flat): raise Unsupported('discr in ' + type(o).__name__)
        else: v = self.gather(o.leaves, self.need(st, tp.off), ts, None)
        if v is None: self.oblige(st, False, 'read of initialised memory'); raise Stuck()
        return self.tag_to_discr(ty, v, wdst)
    def tag_to_discr(self, ty, v, wdst):
        va = ty.var; m = (1 << wdst) - 1
        ts, sg = self.prog.tag_info(ty)
        w = ts * 8
        if va['enc'][0] == 'direct':
            if isinstance(v, bool): v = int(v)
            if not isc(v) and is_bool(v): v = If(v, bv(1, w), bv(0, w))
            if isc(v): return (sgn(v, w) if sg else v) & m
            if w == wdst: return v
            if w > wdst: return norm(Extract(wdst - 1, 0, v))
            return norm(SignExt(wdst - w, v) if sg else ZeroExt(wdst - w, v))
        _, unt, lo, hi, start = va['enc']; start = int(start)
        du = self.prog.discr_of(ty, unt) & m
        if isinstance(v, NONINT):
            if isinstance(v, Ptr) and v.obj is None: v = v.off
            else: return du        # pointers into objects are never niche values (0..align)
        if isinstance(v, bool): v = int(v)
        if not isc(v) and is_bool(v): v = If(v, bv(1, w), bv(0, w))
        r = du if isc(v) else bv(du, wdst)
        for x in range(lo, hi + 1):
            t = (start + x - lo) & ((1 << w) - 1)
            d = self.prog.discr_of(ty, x) & m
            if isc(v):
                if v == t: return d
            else: r = If(v == bv(t, w), bv(d, wdst), r)
        return r if isc(v) else norm(r)
    def set_discr(self, st, p, ty, v):
        va = ty.var
        if va is None or va['k'] == 'single': return
        ts, _ = self.prog.tag_info(ty)
        if va['enc'][0] == 'direct': t = self.prog.discr_of(ty, v) & ((1 << ts * 8) - 1)
        else:
            _, unt, lo, hi, start = va['enc']
            if v == unt: return
            t = (int(start) + v - lo) & ((1 << ts * 8) - 1)
        self.store(st, self.padd(p, va['tagoff']), ts, {0: (ts, t)})
    def aggregate(self, st, k, ops, dty):
        vals = [self.operand(st, o) for o in ops]
        kind = k[0]
        out = {}
        def put(off, b):
            for o, v in b.items(): out[off + o] = v
        if kind == 'array':
            et = self.T[k[1]]
            for i, (b, _) in enumerate(vals): put(i * et.size, b)
            return out
        if kind == 'rawptr':
            pb, _ = vals[0]; mb, mt = vals[1]
            out = {0: (8, pb[0][1])}
            if mt.size: out[8] = (8, mb[0][1])
            return out
        if kind in ('tuple', 'closure'):
            offs = dty.offs or []
            for i, (b, _) in enumerate(vals): put(offs[i] if i < len(offs) else 0, b)
            return out
        if kind == 'adt':
            ty = self.T[k[1]]; v = k[2]
            if ty.k[5]:        # simd: one wide integer
                if len(vals) == 1:
                    g = self.gather(vals[0][0], 0, ty.size, 'int')
                    return {0: (ty.size, g)}
                lv = {}; o = 0
                for b, t in vals:
                    for q, x in b.items(): lv[o + q] = x
                    o += t.size
                return {0: (ty.size, self.gather(lv, 0, ty.size, 'int'))}
            if k[3] is not None:  # union: active field
                put(ty.offs[k[3]] if ty.offs else 0, vals[0][0]); return out
            if ty.var and ty.var['k'] == 'multi':
                offs = ty.var['variants'][v]
                for i, (b, _) in enumerate(vals): put(offs[i], b)
                va = ty.var; ts, _ = self.prog.tag_info(ty)
                t = None
                if va['enc'][0] == 'direct': t = self.prog.discr_of(ty, v) & ((1 << ts * 8) - 1)
                else:
                    _, unt, lo, hi, start = va['enc']
                    if v != unt: t = (int(start) + v - lo) & ((1 << ts * 8) - 1)
                if t is not None: out[va['tagoff']] = (ts, t)
                return out
            offs = ty.offs or []
            for i, (b, _) in enumerate(vals): put(offs[i] if i < len(offs) else 0, b)
            return out
        raise Unsupported('aggregate ' + kind)
    def rvalue(self, st, rv, dty):
        k = rv[0]
        if k == 'use': return self.operand(st, rv[1])[0]
        if k in ('ref', 'addr', 'reborrow'):
            p, ty, meta = self.place(st, rv[1])
            b = {0: (8, p)}
            if meta is not None and dty.size == 16: b[8] = (8, meta)
            return b
        if k == 'bin':
            a, ta = self.operand(st, rv[2]); b, tb = self.operand(st, rv[3])
            r = self.binop(st, rv[1].replace('Unchecked', ''), self.scal(a), self.scal(b), ta, tb)
            if rv[1] == 'Cmp': pass
            return {0: (dty.size, r)}
        if k == 'cbin':
            a, ta = self.operand(st, rv[2]); b, tb = self.operand(st, rv[3])
            x, y = self.scal(a), self.scal(b)
            if rv[1] in ('Shl', 'Shr'):
                wb = self.wd(tb)
                r = arith(rv[1], self.asint(st, x, 8), self.asint(st, y, 8), self.wd(ta), self.signed(ta), wb)
                o = (y >= self.wd(ta)) if isc(y) else norm(Not(ULT(y, self.wd(ta))))
            else: r, o = self.cbin(st, rv[1], x, y, ta)
            return {dty.offs[0]: (ta.size, r), dty.offs[1]: (1, o)}
        if k == 'un':
            b, t = self.operand(st, rv[2])
            v = self.scal(b)
            if rv[1] == 'Not':
                if t.k[0] == 'bool': return {0: (1, not_(tobool(v)))}
                w = self.wd(t); v = self.asint(st, v, w)
                return {0: (t.size, (~v) & ((1 << w) - 1) if isc(v) else norm(~v))}
            if rv[1] == 'Neg':
                w = self.wd(t)
                if t.k[0] == 'float': return {0: (t.size, norm(bv(v, w) ^ (1 << (w - 1))))}
                return {0: (t.size, (-v) & ((1 << w) - 1) if isc(v) else norm(-v))}
            if rv[1] == 'PtrMetadata':
                if 8 in b: return {0: (8, b[8][1])}
                return {}
            raise Unsupported('unop ' + rv[1])
        if k == 'cast':
            b, _ = self.operand(st, rv[2])
            return self.cast(st, rv[1], b, self.T[rv[3]], self.T[rv[4]], rv[5])
        if k == 'agg': return self.aggregate(st, rv[1], rv[2], dty)
        if k == 'discr':
            p, ty, _ = self.place(st, rv[1])
            return {0: (dty.size, self.discr(st, p, ty, dty.size * 8))}
        if k == 'len':
            p, ty, meta = self.place(st, rv[1])
            return {0: (8, ty.k[2] if ty.k[0] == 'array' else meta)}
        if k == 'repeat':
            b, t = self.operand(st, rv[1])
            if rv[2] > 4096: raise Unsupported('big array')
            out = {}
            for i in range(rv[2]):
                for o, v in b.items(): out[i * t.size + o] = v
            return out
        raise Unsupported('rvalue ' + k)

    # ---- execution
    def push_frame(self, st, inst, args, argtys, dest, destty, target, after=None):
        x = self.prog.insts[inst]
        body = x['body']
        if body is None: raise Unsupported('no body: ' + x['name'])
        if len(st.frames) > 60: raise Unsupported('call depth')
        self.fn_used.add(inst)
        f = Frame.__new__(Frame)
        f.inst = inst; f.body = body; f.bb = 0; f.si = 0; f.dest = dest; f.destty = destty; f.target = target; f.after = after
        par = st.frames[-1] if st.frames else None
        f.ctx = self.ctx(par.ctx if par else 0, inst, par.bb if par else -1)
        argc = body['argc']
        # closures are called with their arguments packed in a tuple
        if len(args) != argc and len(args) == 2 and argtys[1] is not None and argtys[1].k[0] == 'tuple':
            tt = argtys[1]
            na, nt = [args[0]], [argtys[0]]
            for i, ti in enumerate(tt.k[1]):
                t = self.T[ti]
                na.append(self.slice_leaves(args[1], tt.offs[i], t.size)); nt.append(t)
            args, argtys = na, nt
        elif len(args) == 2 and argc == 2 and argtys[1] is not None and argtys[1].k[0] == 'tuple' and '{closure#' in x['short'].split('::')[-1] and len(argtys[1].k[1]) == 1 and self.T[body['locals'][2]].id != argtys[1].id:
            args = [args[0], args[1]]
        if len(args) != argc: raise Unsupported(f"arity {x['name']} {len(args)} vs {argc}")
        st.frames.append(f)
        for i, b in enumerate(args):
            ty = self.T[body['locals'][i + 1]]
            o = Flat(ty.size or 0, dict(b), 16)
            st.mem[('L', f.ctx, i + 1)] = o
    def start(self, st, inst, args):
        st.frames = []
        self.push_frame(st, inst, args, [None] * len(args), None, None, None)
        return st
    def branch(self, st, conds):
        """fork on a list of conditions, keeping the feasible ones"""
        out = []
        for c in conds:
            if c is False: continue
            if c is True: out.append(st); return out
        live = [c for c in conds if c is not False]
        for i, c in enumerate(live):
            if self.feasible(st, c):
                s = st.copy(); s.pc.append(c); out.append(s)
        return out
    def exec_block(self, st):
        """run the current block; returns states / terminal tuples"""
        if time.time() > self.deadline: raise Budget()
        f = st.frames[-1]
        stmts, term, _ = f.body['blocks'][f.bb]
        T = self.T
        try:
            while f.si < len(stmts):
                s = stmts[f.si]
                k = s[0]
                if k == '=':
                    pl = s[1]
                    if not pl[1]:
                        n = pl[0]; dty = T[f.body['locals'][n]]
                        b = self.rvalue(st, s[2], dty)
                        st.mem[('L', f.ctx, n)] = Flat(dty.size or 0, dict(b), 16)
                    else:
                        p, dty, _ = self.place(st, pl)
                        b = self.rvalue(st, s[2], dty)
                        self.store(st, p, dty.size, b, dty.align)
                elif k == 'dead':
                    st.mem.pop(('L', f.ctx, s[1]), None)
                elif k == 'live':
                    st.mem.pop(('L', f.ctx, s[1]), None)
                elif k == 'setd':
                    p, ty, _ = self.place(st, s[1])
                    self.set_discr(st, p, ty, s[2])
                elif k == 'assume':
                    c = tobool(self.opval(st, s[1]))
                    self.oblige(st, c, 'assume holds')
                elif k == 'copy':
                    sb, sty = self.operand(st, s[1]); db, _ = self.operand(st, s[2]); n = self.opval(st, s[3])
                    self.memcpy(st, self.scal(db), self.scal(sb), mul(n, self.prog.pointee(sty).size))
                else: raise Unsupported('stmt ' + k)
                f.si += 1
            return self.terminator(st, f, term)
        except NeedFork as e:
            return self.refork(st, e)
        except Stuck:
            if self.debug:
                import traceback; traceback.print_exc(); print('STUCK at', self.loc(st), self.prog.insts[f.inst]['name'], f.bb)
            return []
    def refork(self, st, e):
        """split the state so that e.expr is a known constant in each"""
        if e.conds is not None: return self.branch(st, e.conds)
        out = []
        ex = []
        for _ in range(e.limit + 1):
            r = self.smt.check(st.pc, ex)
            if r == 'unsat': return out
            if r != 'sat': raise Unsupported('undecided value split')
            v = self.smt.model.eval(bv(e.expr, e.width), model_completion=True).as_long()
            s = st.copy()
            s.pc.append(bv(e.expr, e.width) == v)
            s.known[e.expr.get_id()] = v
            s.g[('keep', e.expr.get_id())] = e.expr
            out.append(s)
            ex.append(bv(e.expr, e.width) != v)
        raise Unsupported('value split too wide')
    def goto(self, st, bb):
        f = st.frames[-1]; f.bb = bb; f.si = 0
    def terminator(self, st, f, t):
        k = t[0]
        if k == 'goto': self.goto(st, t[1]); return [st]
        if k == 'switch':
            b, ty = self.operand(st, t[1])
            v = self.scal(b)
            w = ty.size * 8
            if ty.k[0] == 'bool': v = ite(tobool(v), 1, 0, 8) if not isc(tobool(v)) else int(tobool(v))
            if isinstance(v, NONINT): v = self.addr(st, v)
            if isc(v):
                for val, bb in t[2]:
                    if int(val) & ((1 << w) - 1) == v: self.goto(st, bb); return [st]
                self.goto(st, t[3]); return [st]
            out = []
            rest = []
            blocks = f.body['blocks']
            conds = []
            for val, bb in t[2]:
                c = norm(v == bv(int(val), w)) if not (ty.k[0] == 'bool') else None
                if c is None:
                    tb = tobool(self.scal(b)); c = tb if int(val) else not_(tb)
                conds.append((c, bb)); rest.append(not_(c))
            conds.append((and_(*rest), t[3]))
            n = 0
            feas = []
            for c, bb in conds:
                if c is False: continue
                if blocks[bb][1][0] == 'unreachable' and not blocks[bb][0]:
                    self.oblige(st, not_(c), 'unreachable is not reached') if self.rec else None
                    continue
                if c is True or self.feasible(st, c): feas.append((c, bb))
            for i, (c, bb) in enumerate(feas):
                s = st if i == len(feas) - 1 else st.copy()
                if c is not True: s.pc.append(c)
                self.goto(s, bb); out.append(s)
            return out
        if k == 'return': return self.do_return(st)
        if k == 'call': return self.call(st, f, t)
        if k == 'assert':
            c = tobool(self.opval(st, t[1]))
            if not t[2]: c = not_(c)
            out = []
            if c is True: self.goto(st, t[4]); return [st]
            ok = self.feasible(st, c)
            bad = self.feasible(st, not_(c))
            if bad:
                s = st.copy(); self.assume(s, not_(c)); out.append(('panic', s, 'assert ' + t[3], self.loc(st)))
            if ok:
                self.assume(st, c) if c is not False else None
                if c is not False:
                    self.goto(st, t[4]); out.append(st)
            return out
        if k == 'drop':
            if t[3] is None: self.goto(st, t[2]); return [st]
            p, ty, meta = self.place(st, t[1])
            return self.do_drop(st, t[3], p, meta, ty, t[2])
        if k == 'unreachable':
            self.oblige(st, False, 'unreachable is not reached'); return []
        if k == 'resume' or k == 'abort': return [('panic', st, k, self.loc(st))]
        raise Unsupported('terminator ' + k)
    def do_drop(self, st, inst, p, meta, ty, target):
        m = self.model_for(inst)
        b = {0: (8, p)}
        if meta is not None: b[8] = (8, meta)
        if m is not None:
            return self.finish_call(st, m(self, st, inst, [b], [None], None), None, None, target)
        if ty.k[0] == 'dyn':
            if not isinstance(meta, VT): raise Unsupported('drop dyn')
            i = meta.slots[0] if meta.slots else None
            if i is None: self.goto(st, target); return [st]
            self.push_frame(st, i, [{0: (8, p)}], [None], None, None, target); return [st]
        self.push_frame(st, inst, [b], [None], None, None, target)
        return [st]
    def do_return(self, st):
        f = st.frames.pop()
        r0 = st.mem.get(('L', f.ctx, 0))
        rty = self.T[f.body['locals'][0]]
        blob = r0.leaves if r0 is not None else {}
        for n in range(len(f.body['locals'])): st.mem.pop(('L', f.ctx, n), None)
        if f.after is not None:
            return f.after(self, st, blob)
        if not st.frames: return [('return', st, blob, rty)]
        if f.dest is not None and rty.size: self.store(st, f.dest, rty.size, blob)
        if f.target is None: return [('panic', st, 'return from diverging call', '')]
        self.goto(st, f.target)
        return [st]
    def model_for(self, inst):
        m = self.contracts.get(inst)
        if m is not None: return m
        x = self.prog.insts[inst]
        r = x.get('_m', 0)
        if r == 0:
            r = None
            for rx, fn in self.named:
                if rx.search(x['short']): r = fn; break
            x['_m'] = r
        return r
    def call(self, st, f, t):
        inst, fop, args, dest, target, argtys, dty = t[1], t[2], t[3], t[4], t[5], t[6], t[7]
        av = [dict(self.operand(st, a)[0]) for a in args]
        at = [self.T[a] if a is not None else None for a in argtys]
        if inst is None:
            fv = self.scal(self.operand(st, fop)[0])
            if not isinstance(fv, FnP): raise Unsupported(f'indirect call {fv}')
            inst = fv.inst
            if self.indirect is not None:
                r = self.indirect(self, st, inst, av, at)
                if r is not None:
                    if self.prog.insts[inst]['tf'] and self.cpu_ok is not None: self.cpu_ok(self, st, self.prog.insts[inst])
                    dt = self.T[dty] if dty is not None else None
                    return self.finish_call(st, r, self.place(st, dest)[0] if dt is not None and dt.size else None, dt, target)
        dp = None; dt = self.T[dty] if dty is not None else None
        if dt is not None and dt.size: dp, _, _ = self.place(st, dest)
        return self.invoke(st, inst, av, at, dp, dt, target)
    def invoke(self, st, inst, av, at, dp, dt, target):
        x = self.prog.insts[inst]
        if x['kind'].startswith('virtual:'):
            idx = int(x['kind'].split(':')[1])
            vt = av[0][8][1]
            if isinstance(vt, Han): 
                m = self.model_for(('vt', vt.kind))
            if not isinstance(vt, VT): raise Unsupported(f'virtual call on {vt} {x["name"]}')
            i2 = vt.slots[idx] if idx < len(vt.slots) else None
            if i2 is None: raise Unsupported('vtable slot')
            av = [{0: av[0][0]}] + av[1:]
            return self.invoke(st, i2, av, [None] + at[1:], dp, dt, target)
        if x['tf'] and self.cpu_ok is not None: self.cpu_ok(self, st, x)
        m = self.model_for(inst)
        if m is not None:
            return self.finish_call(st, m(self, st, inst, av, at, dt), dp, dt, target)
        if x['kind'] == 'intrinsic':
            import models
            return self.finish_call(st, models.intrinsic(self, st, x, av, at, dt), dp, dt, target)
        if x['body'] is None: raise Unsupported('no body: ' + x['name'])
        self.push_frame(st, inst, av, at, dp, dt, target)
        return [st]
    def finish_call(self, st, r, dp, dt, target):
        """r: blob | None(unit) | list of (state, blob) / terminal tuples / ('frame',)"""
        if isinstance(r, dict) or r is None: r = [(st, r or {})]
        out = []
        for e in r:
            if isinstance(e[0], str): out.append(e); continue
            s, b = e
            if b == 'running': out.append(s); continue
            if target is None: out.append(('panic', s, 'diverges', self.loc(s))); continue
            if dp is not None and dt.size: self.store(s, dp, dt.size, b)
            self.goto(s, target); out.append(s)
        return out

    # ---- driver
    def run(self, states, active=None, trial=False):
        """explore; with `active`=(ctx, header, blocks, depth) stop at back edges and exits of that loop"""
        work = list(states); outs = []
        first = set(id(s) for s in work) if active else ()
        def left(st):
            f = st.frames[-1]; d = active[3]
            return len(st.frames) < d or (len(st.frames) == d and f.ctx == active[0] and f.bb not in active[2])
        def num(rs):
            if self.det:
                for r in rs: (r if isinstance(r, State) else r[1]).g['nf'] = self.nfresh
        while work:
            st = work.pop()
            f = st.frames[-1]
            if active is not None:
                d = active[3]
                if left(st):
                    outs.append(('exit', st)); continue
                if len(st.frames) == d and f.ctx == active[0] and f.bb == active[1] and f.si == 0 and id(st) not in first:
                    outs.append(('back', st)); continue
            if self.det: self.nfresh = st.g.setdefault('nf', self.nfresh)
            if f.si == 0 and id(st) not in first:
                lp = self.prog.loops(f.inst)[0].get(f.bb)
                if lp is not None:
                    if trial and (any(o[0] == 'exit' for o in outs) or any(left(s) for s in work)): raise TrialAbort()
                    for r in self.do_loop(st, f, lp):
                        if isinstance(r, State): work.append(r)
                        else: outs.append(r)
                    continue
            if first: first.discard(id(st))
            try: rs = self.exec_block(st)
            except NeedFork as e: rs = self.refork(st, e)
            num(rs)
            for r in rs:
                if isinstance(r, State): work.append(r)
                else: outs.append(r)
        return outs

    def do_loop(self, st, f, blocks):
        import loops
        return loops.do_loop(self, st, f, blocks)

def arith(op, a, b, w, sg, wb):
    m = (1 << w) - 1
    if isc(a) and isc(b):
        a = int(a); b = int(b)
        x, y = (sgn(a, w), sgn(b, w)) if sg else (a, b)
        if op == 'Add': return (a + b) & m
        if op == 'Sub': return (a - b) & m
        if op == 'Mul': return (a * b) & m
        if op == 'BitAnd': return a & b
        if op == 'BitOr': return a | b
        if op == 'BitXor': return a ^ b
        if op == 'Shl': return (a << (b % w)) & m
        if op == 'Shr': return (x >> (b % w)) & m
        if op == 'Eq': return a == b
        if op == 'Ne': return a != b
        if op == 'Lt': return x < y
        if op == 'Le': return x <= y
        if op == 'Gt': return x > y
        if op == 'Ge': return x >= y
        if op == 'Cmp': return (-1 if x < y else 0 if x == y else 1) & 255
        if op == 'Div':
            if y == 0: raise Stuck()
            q = abs(x) // abs(y); return (q if (x < 0) == (y < 0) else -q) & m
        if op == 'Rem':
            if y == 0: raise Stuck()
            r = abs(x) % abs(y); return (r if x >= 0 else -r) & m
        raise Unsupported('op ' + op)
    if op in ('Add',): return add(a, b, w)
    if op == 'Sub': return sub(a, b, w)
    if op == 'Mul': return mul(a, b, w)
    if op in ('Shl', 'Shr'):
        B = bv(b, wb)
        B = Extract(w - 1, 0, B) if wb > w else ZeroExt(w - wb, B) if wb < w else B
        B = B & (w - 1)
        A = bv(a, w)
        return norm(A << B if op == 'Shl' else (A >> B if sg else LShR(A, B)))
    A, B = bv(a, w), bv(b, w)
    if op == 'BitAnd': return norm(A & B)
    if op == 'BitOr': return norm(A | B)
    if op == 'BitXor': return norm(A ^ B)
    if op == 'Eq': return eq(a, b, w)
    if op == 'Ne': return not_(eq(a, b, w))
    if op == 'Lt': return norm(A < B if sg else ULT(A, B))
    if op == 'Le': return norm(A <= B if sg else ULE(A, B))
    if op == 'Gt': return norm(A > B if sg else UGT(A, B))
    if op == 'Ge': return norm(A >= B if sg else UGE(A, B))
    if op == 'Div': return norm(A / B if sg else UDiv(A, B))
    if op == 'Rem': return norm(SRem(A, B) if sg else URem(A, B))
    if op == 'Cmp': return norm(If(A < B if sg else ULT(A, B), bv(255, 8), If(A == B, bv(0, 8), bv(1, 8))))
    raise Unsupported('op ' + op)
