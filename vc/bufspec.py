"""Contracts of the Buffer API: representation invariant, operations, and the proofs against the real bodies."""
import re, z3
from smt import *
from mem import *
from exec import State, Ex
from models import R, sv, PANICS
import models

def scalar_leaves(ex, ty, off=0):
    """(offset, type) of every scalar inside a type with a single layout"""
    if ex.skind(ty): return [(off, ty)]
    if ty.size == 0: return []
    k = ty.k[0]
    if k in ('ptr', 'ref'): return [(off, ty), (off + 8, None)]
    if k == 'adt':
        out = []
        if ty.k[2] == 'Enum': raise Unsupported('enum in Buffer')
        fs = ty.k[3][0]['fields']
        if ty.k[2] == 'Union':
            return scalar_leaves(ex, ex.T[fs[-1][1]], off)
        for i, (n, t) in enumerate(fs): out += scalar_leaves(ex, ex.T[t], off + (ty.offs[i] if ty.offs else 0))
        return out
    if k == 'tuple':
        out = []
        for i, t in enumerate(ty.k[1]): out += scalar_leaves(ex, ex.T[t], off + ty.offs[i])
        return out
    raise Unsupported('leaf ' + ty.s)

class Roles:
    """where a 3-word string-like type keeps its pointer, length and capacity (found by running its accessors)"""
    def __init__(self, ex, ty, ptr_root, len_root, cap_root):
        self.ty = ty
        lv = scalar_leaves(ex, ty)
        syms = {}
        blob = {}
        st = State.new()
        hid = ex.newid('H'); st.mem[hid] = Heap(BitVec('role_sz', 64), 1)
        ints = []
        for off, t in lv:
            if t.k[0] in ('ptr', 'ref') or (t.k[0] == 'pat' and ex.T[t.k[1]].k[0] in ('ptr', 'ref')): blob[off] = (8, Ptr(hid, 0)); self.data = off
            else:
                s = BitVec(f'role_{off}', t.size * 8); blob[off] = (t.size, s); ints.append((off, s))
        if len(ints) != 2: raise Unsupported('buffer representation')
        oid = ex.newid('R'); st.mem[oid] = Flat(ty.size, blob)
        st.pc.append(ULE(ints[0][1], bv(IMAX, 64))); st.pc.append(ULE(ints[1][1], bv(IMAX, 64)))
        def run(root):
            s = st.copy()
            ex.start(s, ex.prog.roots[root], [{0: (8, Ptr(oid, 0))}])
            rs = [r for r in ex.run([s]) if r[0] == 'return']
            return rs
        def pick(root):
            rs = run(root)
            if len(rs) == 0: raise Unsupported('role')
            for off, s in ints:
                if all(not isc(r[2][0][1]) and r[2][0][1].eq(s) for r in rs[-1:]): return off
            raise Unsupported('role of ' + root)
        self.len = pick(len_root); 
        self.cap = [o for o, _ in ints if o != self.len][0]
        r = run(cap_root)
    def get(self, leaves):
        d, l, c = leaves.get(self.data), leaves.get(self.len), leaves.get(self.cap)
        if d is None or l is None or c is None: return None
        p = d[1] if isinstance(d[1], Ptr) else Ptr(None, d[1])
        return p, l[1], c[1]
    def make(self, p, l, c): return {self.data: (8, p), self.len: (8, l), self.cap: (8, c)}

def in_text(ex, st, name, minlen=0, maxlen=1 << 60):
    """an arbitrary immutable string argument: blob of a &str"""
    oid = ('T', name)
    n = BitVec('n_' + name, 64)
    st.mem[oid] = Bytes(name, n)
    ex.specs[oid] = st.mem[oid].spec
    st.pc.append(ULE(n, bv(maxlen, 64)))
    if minlen: st.pc.append(UGE(n, bv(minlen, 64)))
    return {0: (8, Ptr(oid, 0)), 8: (8, n)}, oid, n

def mk_buffer(ex, st, roles, variant, name='C0'):
    """an arbitrary buffer satisfying the representation invariant, as a concrete struct"""
    if variant == 'empty':
        d = BitVec('dangling_' + name, 64); st.pc.append(d != 0)
        return roles.make(Ptr(None, d), 0, 0), (), None, 0, 0
    cap = BitVec('cap_' + name, 64); ln = BitVec('len_' + name, 64)
    st.pc += [ULE(cap, bv(IMAX, 64)), cap != 0, ULE(ln, cap)]
    hid = ('H', 'pre_' + name)
    rope = (('tok', name, ln),)
    st.mem[hid] = Heap(cap, 1, rope, ln)
    return roles.make(Ptr(hid, 0), ln, cap), rope, hid, ln, cap

def buffer_of(ex, st, roles, leaves):
    """check the representation invariant of a concrete buffer; -> (rope, len, cap, owned heap id | None)"""
    g = roles.get(leaves)
    if g is None: ex.oblige(st, False, 'buffer fully initialised'); raise Stuck()
    p, ln, cap = g
    ex.oblige(st, ule(ln, cap), 'buffer invariant: len <= capacity')
    ex.oblige(st, ule(cap, IMAX), 'buffer invariant: capacity <= isize::MAX')
    c0 = norm(eq(cap, 0))
    if not isc(c0):
        if ex.proves(st, c0): c0 = True
        elif ex.proves(st, not_(c0)): c0 = False
        else: raise NeedFork(None, 0, 0, [c0, not_(c0)])
    if c0:
        ex.oblige(st, eq(ln, 0), 'buffer invariant: len <= capacity')
        if isinstance(p, Ptr) and p.obj is None: ex.oblige(st, not_(eq(p.off, 0)), 'buffer invariant: data is not null')
        return (), 0, 0, None
    if p.obj is None:
        ex.oblige(st, False, 'buffer invariant: data points to its allocation'); raise Stuck()
    o = ex.alive(st, p, 'buffer data')
    if not isinstance(o, Heap): ex.oblige(st, False, 'buffer invariant: data points to its allocation'); raise Stuck()
    ex.oblige(st, eq(p.off, 0), 'buffer invariant: data points to its allocation')
    ex.oblige(st, o.alloced, 'buffer invariant: data points to its allocation')
    ex.oblige(st, eq(o.size, cap), 'buffer invariant: capacity is the size of the allocation')
    ex.oblige(st, ule(ln, o.end), 'buffer contents initialised')
    try: l, _ = ex.rope_split(st, o.rope, ln, o.end)
    except Unsupported:
        if len(o.rope) == 0: ex.oblige(st, eq(ln, 0), 'buffer contents initialised'); l = ()
        else: raise
    return l, ln, cap, p.obj

def same_rope(ex, st, got, want, what):
    """obligation: two ropes denote the same bytes"""
    ok, conds, lem = rope_eq(ex, st, got, want)
    if not ok:
        if any(s[0] in ('src', 'tok') and not isc(seg_len(ex, s)) for s in got + want):
            # segments of possibly zero length may be dropped
            g2 = tuple(s for s in got if not ex.proves(st, eq(seg_len(ex, s), 0)))
            w2 = tuple(s for s in want if not ex.proves(st, eq(seg_len(ex, s), 0)))
            ok, conds, lem = rope_eq(ex, st, g2, w2)
    if not ok:
        if ex.rec:
            try: ex.oblige(st, False, what)
            except Stuck: pass
            if ex.failures: ex.failures[-1].model = {'got': str(got)[:400], 'want': str(want)[:400]}
        return False
    ex.oblige(st, and_(*conds), what, lem)
    return True
def rope_eq(ex, st, got, want):
    g, w = coalesce(ex, st, got), coalesce(ex, st, want)
    # an escaped piece may have been written in several parts
    import loops
    i = 0
    while i < len(g) and i < len(w) and seg_same(g[i], w[i]): i += 1
    if i < len(w) and w[i][0] in ('esc', 'src'):
        for j in range(len(g), i, -1):
            if len(w) == i + 1 and j != len(g): break
            c = loops.rope_cursor(ex, st, g[i:j], w[i][:3])
            if c is not None and ex.proves2(st, eq(c, w[i][3])):
                g = g[:i] + (w[i],) + g[j:]; break
    if len(g) != len(w): return False, [], []
    conds = []; lem = []
    for a, b in zip(g, w):
        if seg_same(a, b): continue
        if a[0] != b[0]: return False, [], []
        if a[0] in ('src', 'esc') and a[1] == b[1]:
            conds += [eq(a[2], b[2]), eq(a[3], b[3])]
        elif a[0] == 'byte': conds.append(eq(a[1], b[1], 8))
        elif a[0] == 'tok' and a[1] == b[1]: conds.append(eq(a[2], b[2]))
        elif a[0] in ('dec', 'ryu', 'utf8', 'escc') and a[1] == b[1]:
            if isinstance(a[2], NONINT) or isinstance(b[2], NONINT): return False, [], []
            w_ = a[2].size() if not isc(a[2]) else b[2].size() if not isc(b[2]) else 64
            conds.append(eq(a[2], b[2], w_))
        else: return False, [], []
    return True, conds, lem
def coalesce(ex, st, rope):
    """merge adjacent src/esc pieces whose ends provably meet"""
    out = []
    for s in rope:
        if out and s[0] in ('src', 'esc') and out[-1][0] == s[0] and out[-1][1] == s[1]:
            if same(out[-1][3], s[2]) or ex.proves(st, eq(out[-1][3], s[2])):
                out[-1] = (s[0], s[1], out[-1][2], s[3]); continue
        if s[0] == 'byte' and isc(s[1]): s = ('const', bytes([s[1]]))
        if s[0] == 'const' and out and out[-1][0] == 'const': out[-1] = ('const', out[-1][1] + s[1]); continue
        out.append(s)
    return tuple(out)
