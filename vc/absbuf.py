"""Client side of the Buffer contracts: a Buffer value is one opaque handle, its contents a rope.

Every contract here is proved against the real body in bufspec.py (server side)."""
import z3
from smt import *
from mem import *
from exec import State
from models import R, sv
import bufspec

def first_call(prog, root):
    """the instance called by a thin root wrapper"""
    x = prog.insts[prog.roots[root]]
    for b in x['body']['blocks']:
        t = b[1]
        if t[0] == 'call' and t[1] is not None: return t[1]
        if t[0] == 'drop' and t[3] is not None: return t[3]
    raise Unsupported('no call in ' + root)

def new_buf(ex, st, ln, cap, rope):
    bid = ex.newid('B')
    hid = ex.newid('D')
    st.mem[hid] = Heap(cap, 1, rope, ln, alloced=False)
    st.g[('buf', bid)] = (hid, ln, cap)
    return bid
def value(bid): return {0: (24, Han('BUF', bid))}
def bufid(ex, st, p):
    """handle of the buffer a reference points to"""
    p = ex.checkptr(st, p, 'buffer')
    o = ex.alive(st, p, 'buffer')
    if not isinstance(o, Flat): raise Unsupported('buffer in ' + type(o).__name__)
    l = o.leaves.get(ex.need(st, p.off))
    if l is None: ex.oblige(st, False, 'buffer is initialised'); raise Stuck()
    h = l[1]
    if not isinstance(h, Han) or h.kind != 'BUF': raise Unsupported('concrete buffer')
    if ('buf', h.id) not in st.g: ex.oblige(st, False, 'buffer used after it was moved or dropped'); raise Stuck()
    return h.id
def byval(ex, st, b):
    h = sv(b)
    if not isinstance(h, Han) or h.kind != 'BUF': raise Unsupported('concrete buffer')
    if ('buf', h.id) not in st.g: ex.oblige(st, False, 'buffer used after it was moved or dropped'); raise Stuck()
    return h.id
def state(st, bid): return st.g[('buf', bid)]
def committed(ex, st, bid):
    hid, ln, cap = st.g[('buf', bid)]
    h = st.mem[hid]
    if same(ln, h.end): return h.rope
    return ex.rope_split(st, h.rope, ln, h.end)[0]
def regrow(ex, st, bid, need_len, rope, ln):
    """contents become `rope` of length ln inside a possibly new block with room for need_len bytes"""
    hid, _, _ = st.g[('buf', bid)]
    o = st.mem[hid].copy(); o.alive = False; st.mem[hid] = o
    cap = ex.fresh('cap')
    nh = ex.newid('D')
    st.mem[nh] = Heap(cap, 1, rope, ln, alloced=False)
    ex.assume(st, norm(And(ULE(bv(need_len, 64), cap), ULE(cap, bv(IMAX, 64)))))
    st.g[('buf', bid)] = (nh, ln, cap)
def grow_len(ex, st, ln, n):
    nl = add(ln, n)
    if isc(nl): return nl
    r = ex.fresh('L'); st.pc.append(r == bv(nl, 64))
    return r
def append(ex, st, bid, segs):
    rope = committed(ex, st, bid)
    ln = state(st, bid)[1]
    n = 0
    for s in segs:
        rope = rope_push(rope, s); n = add(n, seg_len(ex, s))
    nl = grow_len(ex, st, ln, n)
    # no wrap: the operation panics instead (contract of the callee)
    ex.assume(st, norm(And(ULE(bv(ln, 64), bv(nl, 64)), ULE(bv(nl, 64), bv(IMAX, 64)), ULE(bv(n, 64), bv(IMAX, 64)))))
    regrow(ex, st, bid, nl, rope, nl)

def str_rope(ex, st, b):
    return ex.text_of(st, sv(b), b[8][1])

class Client:
    """installs the client contracts on an executor"""
    def __init__(self, ex, string_roles=None):
        self.ex = ex; self.sr = string_roles
        C = ex.contracts; P = ex.prog
        def on(root, fn):
            if root in P.roots:
                i = first_call(P, root)
                def m(ex, st, inst, av, at, dt, fn=fn, root=root):
                    ex.used_contracts.add(root); return fn(ex, st, inst, av, at, dt)
                C[i] = m
        on('vp_buf_new', self.new); on('vp_buf_default', self.new); on('vp_buf_with_capacity', self.with_capacity)
        on('vp_buf_as_str', self.as_str); on('vp_buf_as_mut_ptr', self.as_mut_ptr); on('vp_buf_len', self.len)
        on('vp_buf_capacity', self.capacity); on('vp_buf_is_empty', self.is_empty); on('vp_buf_set_len', self.set_len)
        on('vp_buf_advance', self.advance); on('vp_buf_reserve', self.reserve); on('vp_buf_reserve_small', self.reserve_small)
        bt = P.pointee(P.types[P.insts[P.roots['vp_buf_len']]['body']['locals'][1]])
        self.bt = bt
        for x in P.insts:
            if x['name'].endswith('::drop_glue::<' + bt.s + '>') or x['name'].endswith('::drop_in_place::<' + bt.s + '>'):
                C[x['id']] = self.drop
        on('vp_buf_clear', self.clear); on('vp_buf_into_string', self.into_string); on('vp_buf_push_str', self.push_str)
        on('vp_buf_push', self.push); on('vp_buf_clone', self.clone)
        on('vp_buf_write_str', self.write_str); on('vp_buf_write_char', self.write_char)
        on('vp_buf_from_str', self.from_str); on('vp_buf_add', self.add); on('vp_buf_add_assign', self.push_str)
    def new(self, ex, st, inst, av, at, dt): return value(new_buf(ex, st, 0, 0, ()))
    def with_capacity(self, ex, st, inst, av, at, dt):
        cap = ex.fresh('cap'); n = sv(av[0])
        ex.assume(st, norm(And(ULE(bv(n, 64), cap), ULE(cap, bv(IMAX, 64)))))
        return value(new_buf(ex, st, 0, cap, ()))
    def as_mut_ptr(self, ex, st, inst, av, at, dt):
        hid, ln, cap = state(st, bufid(ex, st, sv(av[0]))); return R(Ptr(hid, 0), 8)
    def as_str(self, ex, st, inst, av, at, dt):
        hid, ln, cap = state(st, bufid(ex, st, sv(av[0]))); return {0: (8, Ptr(hid, 0)), 8: (8, ln)}
    def len(self, ex, st, inst, av, at, dt): return R(state(st, bufid(ex, st, sv(av[0])))[1], 8)
    def capacity(self, ex, st, inst, av, at, dt): return R(state(st, bufid(ex, st, sv(av[0])))[2], 8)
    def is_empty(self, ex, st, inst, av, at, dt): return R(eq(state(st, bufid(ex, st, sv(av[0])))[1], 0), 1)
    def set_to(self, ex, st, b, n, what):
        hid, ln, cap = state(st, b)
        ex.oblige(st, ule(n, cap), what + ': length within capacity')
        ex.oblige(st, ule(n, st.mem[hid].end), what + ': length within the written bytes')
        st.g[('buf', b)] = (hid, n, cap)
    def set_len(self, ex, st, inst, av, at, dt):
        self.set_to(ex, st, bufid(ex, st, sv(av[0])), sv(av[1]), 'set_len')
    def advance(self, ex, st, inst, av, at, dt):
        b = bufid(ex, st, sv(av[0])); ln = state(st, b)[1]
        n = add(ln, sv(av[1]))
        ex.oblige(st, ule(ln, n), 'advance: length does not overflow')
        self.set_to(ex, st, b, n, 'advance')
    def reserve(self, ex, st, inst, av, at, dt):
        b = bufid(ex, st, sv(av[0])); hid, ln, cap = state(st, b)
        n = sv(av[1]); nl = add(ln, n)
        rope = committed(ex, st, b)
        ex.assume(st, norm(And(ULE(bv(n, 64), bv(IMAX, 64)), ULE(bv(ln, 64), bv(nl, 64)), ULE(bv(nl, 64), bv(IMAX, 64)))))
        regrow(ex, st, b, nl, rope, ln)
    def reserve_small(self, ex, st, inst, av, at, dt):
        ex.oblige(st, ule(sv(av[1]), IMAX), 'reserve_small: size at most isize::MAX')
        return self.reserve(ex, st, inst, av, at, dt)
    def clear(self, ex, st, inst, av, at, dt):
        b = bufid(ex, st, sv(av[0])); hid, ln, cap = state(st, b)
        st.g[('buf', b)] = (hid, 0, cap)
    def push_str(self, ex, st, inst, av, at, dt):
        t = str_rope(ex, st, av[1])
        append(ex, st, bufid(ex, st, sv(av[0])), t)
    def write_str(self, ex, st, inst, av, at, dt):
        self.push_str(ex, st, inst, av, at, dt); return R(0, 1)
    def push(self, ex, st, inst, av, at, dt):
        append(ex, st, bufid(ex, st, sv(av[0])), utf8_rope(ex, st, sv(av[1])))
    def write_char(self, ex, st, inst, av, at, dt):
        self.push(ex, st, inst, av, at, dt); return R(0, 1)
    def kill(self, ex, st, b):
        hid, ln, cap = st.g.pop(('buf', b))
        o = st.mem[hid].copy(); o.alive = False; st.mem[hid] = o
    def drop(self, ex, st, inst, av, at, dt):
        self.kill(ex, st, bufid(ex, st, sv(av[0])))
    def clone(self, ex, st, inst, av, at, dt):
        b = bufid(ex, st, sv(av[0])); hid, ln, cap = state(st, b)
        c = ex.fresh('cap'); ex.assume(st, norm(And(ULE(bv(ln, 64), c), ULE(c, bv(IMAX, 64)))))
        return value(new_buf(ex, st, ln, c, committed(ex, st, b)))
    def from_str(self, ex, st, inst, av, at, dt):
        b = new_buf(ex, st, 0, 0, ()); append(ex, st, b, str_rope(ex, st, av[0])); return value(b)
    def add(self, ex, st, inst, av, at, dt):
        b = byval(ex, st, av[0]); append(ex, st, b, str_rope(ex, st, av[1])); return value(b)
    def into_string(self, ex, st, inst, av, at, dt):
        b = byval(ex, st, av[0])
        rope = committed(ex, st, b)
        hid, ln, cap = st.g.pop(('buf', b))
        o = st.mem[hid].copy(); o.alive = False; st.mem[hid] = o
        nh = ex.newid('H')
        st.mem[nh] = Heap(cap, 1, rope, ln)
        return self.sr.make(Ptr(nh, 0), ln, cap)

def utf8_len(c):
    return ite(ult(c, 0x80, 32), 1, ite(ult(c, 0x800, 32), 2, ite(ult(c, 0x10000, 32), 3, 4, 64), 64), 64)
def utf8_rope(ex, st, c):
    c = ex.kn(st, c)
    if isc(c): return (('const', chr(c).encode('utf8', 'surrogatepass')),)
    return (('utf8', '', c, utf8_len(c)),)
