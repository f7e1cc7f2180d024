"""Proof jobs for the Buffer operations: every contract used by absbuf.Client is proved here on the real bodies."""
import time, traceback, re, z3
from smt import *
from mem import *
import mir, models, bufspec as B, absbuf
from exec import Ex, State, Budget

BIG = 1 << 47       # no x86-64 user-space allocation is larger (address space); see assumptions
HUGE = 1 << 62

def mkex(prog, budget=400):
    ex = Ex(prog, budget_s=budget); ex.named = models.BASE_MODELS; ex.cpu_ok = models.cpu_obligation
    return ex

class Result:
    def __init__(self, name): self.name = name; self.obl = {}; self.failures = []; self.unsup = []; self.fns = set(); self.secs = 0; self.queries = 0; self.unknowns = 0; self.loops = []; self.contracts = set(); self.notes = []; self.weak = False; self.covers = 0
    def take(self, ex):
        for k, (d, t) in ex.obl.items():
            o = self.obl.setdefault(k, [0, 0]); o[0] += d; o[1] += t
        for f in ex.failures: self.failures.append(dict(what=f.what, loc=f.loc, verdict=f.verdict, model=f.model, abstracted=bool(f.abstracted)))
        self.fns |= {ex.prog.insts[i]['name'] for i in ex.fn_used}
        self.queries += ex.smt.n; self.unknowns += ex.smt.unknowns; self.loops += ex.loopinfo; self.contracts |= ex.used_contracts
        self.covers += getattr(ex, 'covers', 0)
        self.solver_s = getattr(self, 'solver_s', 0) + ex.smt.time
        return self

def live_heap(st):
    return {oid for oid, o in st.mem.items() if isinstance(o, Heap) and o.alive and o.alloced is True}

def has(prog, root): return root in prog.roots

def buffer_type(prog):
    t = prog.types[prog.insts[prog.roots['vp_buf_len']]['body']['locals'][1]]
    return prog.pointee(t)
def string_roles(ex):
    """layout of String found by running String's own accessors"""
    prog = ex.prog
    ty = prog.types[prog.insts[prog.roots['vp_buf_from_string']]['body']['locals'][1]]
    return B.Roles(ex, ty, 'vp_string_ptr', 'vp_string_len', 'vp_string_cap')

def mkpre(ex, st, roles, variant, name='C0'):
    """arbitrary valid buffer; 'room' additionally has written bytes past its length"""
    if variant == 'room':
        cap = BitVec('cap_' + name, 64); ln = BitVec('len_' + name, 64); end = BitVec('end_' + name, 64)
        st.pc += [ULE(cap, bv(BIG, 64)), cap != 0, ULE(ln, end), ULE(end, cap)]
        hid = ('H', 'pre_' + name)
        rope = (('tok', name, ln), ('tok', name + 'x', norm(end - ln)))
        st.mem[hid] = Heap(cap, 1, rope, end)
        return roles.make(Ptr(hid, 0), ln, cap), rope[:1], hid, ln, cap
    r = B.mk_buffer(ex, st, roles, variant, name)
    if variant == 'alloc': st.pc.append(ULE(r[4], bv(BIG, 64)))
    return r

def panic_allowed(ex, st, o, sizes):
    """a panic is part of the contract only when memory ran out or the requested size cannot exist"""
    if st.g.get('oom'): return True
    conds = [UGE(bv(s, 64), bv(HUGE, 64)) for s in sizes if not (isc(s) and s < HUGE)]
    if any(isc(s) and s >= HUGE for s in sizes): return True
    if not conds: return ex.dead_path(st)
    return ex.smt.check(st.pc, ex.all_lemmas(st) + [Not(Or(*conds))]) == 'unsat'

def panics(ex, outs, sizes):
    rets = []
    for o in outs:
        if o[0] == 'return':
            rets.append(o)
            if ex.smt.check(o[1].pc, []) == 'sat': ex.covers = getattr(ex, 'covers', 0) + 1
            continue
        if o[0] == 'panic':
            st = o[1]
            what = 'no panic in a call that can be satisfied'
            c = ex.obl.setdefault(what, [0, 0]); c[1] += 1
            if panic_allowed(ex, st, o, sizes): c[0] += 1
            else:
                r = ex.smt.check(st.pc, ex.all_lemmas(st) + [ULT(bv(s, 64), bv(HUGE, 64)) for s in sizes if not isc(s)])
                if r == 'unsat': c[0] += 1
                else: ex.fail(st, what + f' ({o[2].split("::")[-1]} at {o[3]})', r)
    return rets

def check_self(ex, st, roles, oid, want, own_extra=(), what='contents', room=None, same_cap=None):
    """the buffer at object oid is valid, holds `want`, and nothing else is alive"""
    rope, ln, cap, hid = B.buffer_of(ex, st, roles, st.mem[oid].leaves)
    B.same_rope(ex, st, rope, want, what)
    if room is not None:
        ex.oblige(st, ule(room, sub(cap, ln)), 'reserved room is available')
    leak(ex, st, {hid} | set(own_extra))
    return rope, ln, cap, hid
def leak(ex, st, owned):
    extra = live_heap(st) - {h for h in owned if h is not None}
    ex.oblige(st, not extra, 'no heap block is leaked')

def ref(p): return {0: (8, Ptr(p, 0))}

def pre_variants(op):
    if op in ('new', 'default', 'with_capacity', 'from_str', 'from_string'): return ['-']
    if op in ('set_len', 'advance'): return ['room', 'empty']
    if op in ('push', 'write_char'): return [v + f'/{k}' for v in ('empty', 'alloc') for k in (1, 2, 3, 4)]
    return ['empty', 'alloc']

OPS = ['new', 'default', 'with_capacity', 'as_str', 'as_mut_ptr', 'len', 'capacity', 'is_empty', 'set_len', 'advance', 'reserve',
       'reserve_small', 'clear', 'into_string', 'push_str', 'push', 'clone', 'drop', 'write_str', 'write_char', 'from_string', 'from_str', 'add', 'add_assign']

def job(path, op, variant, budget=300):
    t0 = time.time()
    prog = mir.Prog(path)
    res = Result(f'Buffer::{op}[{variant}]')
    ex = mkex(prog, budget)
    try:
        run_op(ex, prog, op, variant)
    except Unsupported as e: res.unsup.append(f'unsupported: {e}')
    except Budget: res.unsup.append('time budget exhausted')
    except Stuck: pass
    except (KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception) as e:
        res.unsup.append(f'engine: {type(e).__name__}: {e} ' + traceback.format_exc().strip().split('\n')[-3].strip())
    res.take(ex); res.secs = time.time() - t0
    if not res.covers and not res.failures and not res.unsup: res.unsup.append('vacuous: no postcondition was reachable')
    return res

def run_op(ex, prog, op, variant):
    root = prog.roots['vp_buf_' + op]
    bt = buffer_type(prog)
    roles = B.Roles(ex, bt, 'vp_buf_as_mut_ptr', 'vp_buf_len', 'vp_buf_capacity')
    ex.fn_used.clear()
    st = State.new()
    var, _, extra = variant.partition('/')
    go = lambda args: ex.run([ex.start(st, root, args)])
    def owned(blob, want, sizes=(), room=None):
        """result is a buffer by value"""
        pass
    if var == '-':
        if op in ('new', 'default'):
            for _, s, blob, _ in panics(ex, go([]), []):
                s.mem['out'] = Flat(bt.size, dict(blob))
                check_self(ex, s, roles, 'out', ())
        elif op == 'with_capacity':
            n = BitVec('n', 64)
            for _, s, blob, _ in panics(ex, go([{0: (8, n)}]), [n]):
                s.mem['out'] = Flat(bt.size, dict(blob))
                check_self(ex, s, roles, 'out', (), room=n)
        elif op == 'from_str':
            a, oid, n = B.in_text(ex, st, 's')
            for _, s, blob, _ in panics(ex, go([a]), []):
                s.mem['out'] = Flat(bt.size, dict(blob))
                check_self(ex, s, roles, 'out', (('src', oid, 0, n),))
        elif op == 'from_string':
            sr = string_roles(ex)
            for v in ('empty', 'alloc'):
                st = State.new()
                leaves, rope, hid, ln, cap = mkpre(ex, st, sr, v, 'S0')
                if v == 'empty': leaves = sr.make(Ptr(None, 1), 0, 0)
                for _, s, blob, _ in panics(ex, ex.run([ex.start(st, root, [leaves])]), []):
                    s.mem['out'] = Flat(bt.size, dict(blob))
                    check_self(ex, s, roles, 'out', rope)
        return
    leaves, rope, hid, ln, cap = mkpre(ex, st, roles, var)
    byval = op in ('into_string', 'drop', 'add')
    st.mem['buf'] = Flat(bt.size, dict(leaves))
    b = dict(leaves) if byval else ref('buf')
    if byval: del st.mem['buf']
    if op == 'as_str':
        for _, s, r, _ in panics(ex, go([b]), []):
            got = ex.text_of(s, r[0][1], r[8][1])
            B.same_rope(ex, s, got, rope, 'returned text is the contents')
            p = r[0][1]
            if isinstance(p, Ptr) and p.obj is not None: ex.oblige(s, and_(eq(p.off, 0), p.obj == hid), 'returned text lives in the buffer')
            check_self(ex, s, roles, 'buf', rope)
    elif op == 'as_mut_ptr':
        for _, s, r, _ in panics(ex, go([b]), []):
            p = r[0][1]
            ex.oblige(s, leaf_same(p, leaves[roles.data][1]), 'returned pointer is the start of the storage')
            check_self(ex, s, roles, 'buf', rope)
    elif op in ('len', 'capacity', 'is_empty'):
        for _, s, r, _ in panics(ex, go([b]), []):
            v = r[0][1]
            if op == 'is_empty': ex.oblige(s, norm(zb(tobool(v)) == zb(eq(ln, 0))), 'is_empty is exact')
            else: ex.oblige(s, eq(v, ln if op == 'len' else cap), op + ' is exact')
            check_self(ex, s, roles, 'buf', rope)
    elif op in ('set_len', 'advance'):
        n = BitVec('n', 64)
        if hid is None: st.pc.append(n == 0)
        else:
            end = st.mem[hid].end
            st.pc.append(ULE(n, end) if op == 'set_len' else ULE(n, end - ln))
        for _, s, r, _ in panics(ex, go([b, {0: (8, n)}]), []):
            g = roles.get(s.mem['buf'].leaves)
            ex.oblige(s, eq(g[1], n if op == 'set_len' else add(ln, n)), op + ' sets the length')
            ex.oblige(s, and_(leaf_same(g[0], leaves[roles.data][1]), eq(g[2], cap)), op + ' keeps the storage')
            leak(ex, s, {hid})
    elif op in ('reserve', 'reserve_small'):
        n = BitVec('n', 64)
        if op == 'reserve_small': st.pc.append(ULE(n, bv(IMAX, 64)))
        for _, s, r, _ in panics(ex, go([b, {0: (8, n)}]), [n]):
            check_self(ex, s, roles, 'buf', rope, room=n)
    elif op == 'clear':
        for _, s, r, _ in panics(ex, go([b]), []): check_self(ex, s, roles, 'buf', ())
    elif op == 'drop':
        for _, s, r, _ in panics(ex, go([b]), []): leak(ex, s, set())
    elif op == 'into_string':
        sr = string_roles(ex)
        for _, s, r, _ in panics(ex, go([b]), []):
            s.mem['out'] = Flat(sr.ty.size, dict(r))
            check_self(ex, s, sr, 'out', rope)
    elif op in ('push_str', 'write_str', 'add', 'add_assign'):
        a, oid, n = B.in_text(ex, st, 's')
        for _, s, r, rty in panics(ex, go([b, a]), []):
            if op == 'write_str': okresult(ex, s, r, rty)
            if op == 'add': s.mem['buf'] = Flat(bt.size, dict(r))
            check_self(ex, s, roles, 'buf', rope + (('src', oid, 0, n),), what='text is appended exactly')
    elif op in ('push', 'write_char'):
        c = BitVec('c', 32); k = int(extra)
        lo, hi = {1: (0, 0x7f), 2: (0x80, 0x7ff), 3: (0x800, 0xffff), 4: (0x10000, 0x10ffff)}[k]
        st.pc += [ULE(bv(lo, 32), c), ULE(c, bv(hi, 32)), norm(Not(And(UGE(c, 0xd800), ULE(c, 0xdfff))))]
        enc = utf8_bytes(c, k)
        for _, s, r, rty in panics(ex, go([b, {0: (4, c)}]), []):
            if op == 'write_char': okresult(ex, s, r, rty)
            want = rope
            for e in enc: want = rope_push(want, ('byte', e))
            check_self(ex, s, roles, 'buf', want, what='character is appended as its UTF-8 bytes')
    elif op == 'clone':
        for _, s, r, _ in panics(ex, go([b]), []):
            s.mem['out'] = Flat(bt.size, dict(r))
            r2, l2, c2, h2 = B.buffer_of(ex, s, roles, s.mem['out'].leaves)
            B.same_rope(ex, s, r2, rope, 'clone has the same contents')
            if h2 is not None: ex.oblige(s, h2 != hid, 'clone owns its own storage')
            check_self(ex, s, roles, 'buf', rope, own_extra={h2})
    else: raise Unsupported(op)

def okresult(ex, st, r, rty):
    if r:
        v = r[0][1]
        ex.oblige(st, eq(ex.asint(st, v, 8), 0, 8), 'write never fails')
def utf8_bytes(c, k):
    x = lambda hi, lo: Extract(hi, lo, c)
    def cont(lo): return norm(Concat(bv(2, 2), x(lo + 5, lo)))
    if k == 1: return [norm(x(7, 0))]
    if k == 2: return [norm(Concat(bv(6, 3), x(10, 6))), cont(0)]
    if k == 3: return [norm(Concat(bv(14, 4), x(15, 12))), cont(6), cont(0)]
    return [norm(Concat(bv(30, 5), x(20, 18))), cont(12), cont(6), cont(0)]

def jobs(path, ops=OPS): return [(path, op, v) for op in ops for v in pre_variants(op)]
