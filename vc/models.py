"""Intrinsics and the (assumed) contracts of the run-time system."""
import re, z3
from smt import *
from mem import *
from exec import State, Ex, arith

def R(v, size): return {0: (size, v)}
def sv(b): return b[0][1]

def lanes(ex, ty):
    """(lane type, lane count) of a simd type"""
    f = ex.T[ty.k[3][0]['fields'][0][1]]
    if f.k[0] == 'array': return ex.T[f.k[1]], f.k[2]
    return f, len(ty.k[3][0]['fields'])
def split(v, n, w):
    if isc(v): return [(v >> (i * w)) & ((1 << w) - 1) for i in range(n)]
    return [norm(Extract(i * w + w - 1, i * w, v)) for i in range(n)]
def join(ls, w):
    if all(isc(x) for x in ls): return sum(int(x) << (i * w) for i, x in enumerate(ls))
    return Concat(*[bv(x, w) for x in reversed(ls)]) if len(ls) > 1 else ls[0]

def static_of(ex, p):
    if isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == 'A' and ex.prog.allocs[p.obj[1]]['k'] == 'static': return p.obj[1]
    return None
def static_values(ex, idx, size):
    r = ex.static_vals.get(idx)
    if r is None:
        a = ex.prog.allocs[idx]
        lv = ex.const_leaves(a['alloc'])
        v = ex.gather(lv, 0, size, None)
        r = ex.static_vals[idx] = [(v, [])]
    return r
def cpu_conds(pc):
    out = []
    for c in pc:
        names = set(); st = [c]; seen = set()
        while st:
            e = st.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: names.add(e.decl().name())
            st.extend(e.children())
        if names and all(n.startswith('cpuid_') for n in names): out.append(c)
    return out

def intrinsic(ex, st, x, av, at, dt):
    n = x['intr']
    T = ex.T
    ta = [T[t] if isinstance(t, int) else t for t in x['targs']]
    if n.startswith('atomic_'):
        p = sv(av[0]); idx = static_of(ex, p)
        if n == 'atomic_load':
            if idx is None: return ex.load(st, p, dt)
            out = []
            for v, conds in static_values(ex, idx, dt.size):
                s = st.copy()
                s.pc.extend(conds)
                if conds and ex.smt.check(s.pc) == 'unsat': continue
                out.append((s, R(v, dt.size)))
            return out
        if n == 'atomic_store':
            v = sv(av[1]); size = at[1].size if at[1] is not None else 8
            if idx is None: ex.store(st, p, size, av[1]); return None
            vs = static_values(ex, idx, size)
            cs = cpu_conds(st.pc)
            for w, c in vs:
                if leaf_same(w, v):
                    if c and {str(q) for q in c} != {str(q) for q in cs}:
                        alt = norm(Or(zb(And(*c)), zb(And(*cs)) if cs else BoolVal(True)))
                        if str(alt) != str(norm(And(*c))):
                            c[:] = [] if alt is True else [alt]; ex.static_changed = True
                    break
            else:
                vs.append((v, cs)); ex.static_changed = True
            return None
        if idx is None and n in ('atomic_xadd', 'atomic_fetch_add'):
            o = ex.load(st, p, dt); ex.store(st, p, dt.size, R(add(sv(o), sv(av[1]), dt.size * 8), dt.size)); return o
        raise Unsupported(n)
    if n.startswith('simd_'):
        if n == 'simd_splat':
            lt, c = lanes(ex, dt)
            return R(join([sv(av[0])] * c, lt.size * 8), dt.size)
        if n in ('simd_or', 'simd_and', 'simd_xor'):
            return R(arith({'simd_or': 'BitOr', 'simd_and': 'BitAnd', 'simd_xor': 'BitXor'}[n], sv(av[0]), sv(av[1]), dt.size * 8, False, dt.size * 8), dt.size)
        if n in ('simd_eq', 'simd_ne', 'simd_lt', 'simd_le', 'simd_gt', 'simd_ge', 'simd_add', 'simd_sub', 'simd_mul', 'simd_shl', 'simd_shr'):
            st_, c = lanes(ex, ta[0]); w = st_.size * 8
            a, b = split(sv(av[0]), c, w), split(sv(av[1]), c, w)
            if n[5:] in ('add', 'sub', 'mul', 'shl', 'shr'):
                return R(join([arith(n[5:].capitalize(), p, q, w, ex.signed(st_), w) for p, q in zip(a, b)], w), dt.size)
            op = n[5:].capitalize()
            lt, c2 = lanes(ex, dt); w2 = lt.size * 8
            return R(join([ite(arith(op, p, q, w, ex.signed(st_), w), (1 << w2) - 1, 0, w2) for p, q in zip(a, b)], w2), dt.size)
        if n == 'simd_bitmask':
            st_, c = lanes(ex, ta[0]); w = st_.size * 8
            bits = [ (p >> (w - 1)) & 1 if isc(p) else norm(Extract(w - 1, w - 1, p)) for p in split(sv(av[0]), c, w)]
            v = join(bits, 1)
            if dt.size * 8 > c: v = v if isc(v) else ZeroExt(dt.size * 8 - c, v)
            return R(norm(v), dt.size)
        if n == 'simd_cast' or n == 'simd_as':
            a, c = lanes(ex, ta[0]); b, _ = lanes(ex, dt)
            return R(join([ex.int_cast(st, p, a, b) for p in split(sv(av[0]), c, a.size * 8)], b.size * 8), dt.size)
        if n == 'simd_reduce_or' or n == 'simd_reduce_and':
            a, c = lanes(ex, ta[0]); r = None
            for p in split(sv(av[0]), c, a.size * 8): r = p if r is None else arith('BitOr' if n.endswith('or') else 'BitAnd', r, p, a.size * 8, False, a.size * 8)
            return R(r, dt.size)
        if n == 'simd_select':
            m, c = lanes(ex, ta[0]); b, _ = lanes(ex, ta[1]); w = b.size * 8
            return R(join([ite(arith('Ne', k, 0, m.size * 8, False, 8), p, q, w) for k, p, q in zip(split(sv(av[0]), c, m.size * 8), split(sv(av[1]), c, w), split(sv(av[2]), c, w))], w), dt.size)
        raise Unsupported(n)
    if n in ('cttz', 'ctlz', 'ctpop', 'cttz_nonzero', 'ctlz_nonzero'):
        w = ta[0].size * 8; v = sv(av[0])
        if n.endswith('nonzero'): ex.oblige(st, not_(eq(v, 0, w)), 'nonzero argument of ' + n)
        if isc(v):
            r = bin(v).count('1') if n == 'ctpop' else w if v == 0 else ((v & -v).bit_length() - 1 if n.startswith('cttz') else w - v.bit_length())
        elif n == 'ctpop':
            e = bv(0, dt.size * 8)
            for i in range(w): e = e + ZeroExt(dt.size * 8 - 1, Extract(i, i, v))
            r = norm(e)
        else:
            # result as a fresh value with its defining property
            t = ex.fresh(n, dt.size * 8)
            tw = dt.size * 8
            tt = ZeroExt(w - tw, t) if w > tw else Extract(w - 1, 0, t) if w < tw else t
            if n.startswith('cttz'):
                st.g['ctz'] = st.g.get('ctz', ())[-1:] + ((v, t, w, tw),)
                ex.assume(st, norm(If(v == 0, t == w, And(ULT(t, w), (v & ((bv(1, w) << tt) - 1)) == 0, (LShR(v, tt) & 1) == 1))))
            else:
                ex.assume(st, norm(If(v == 0, t == w, And(ULT(t, w), LShR(v, bv(w - 1, w) - tt) == 1))))
            r = t
        return R(r, dt.size)
    if n == 'fabs' or n in ('fabsf32', 'fabsf64'):
        w = dt.size * 8; v = sv(av[0])
        return R(arith('BitAnd', v, (1 << (w - 1)) - 1, w, False, w), dt.size)
    if n in ('copy', 'copy_nonoverlapping'):
        ex.memcpy(st, sv(av[0 if n == 'x' else 1]), sv(av[0]), mul(sv(av[2]), ta[0].size), n == 'copy'); return None
    if n in ('write_bytes',):
        c = ex.need(st, mul(sv(av[2]), ta[0].size)); v = sv(av[1])
        if c: ex.store(st, sv(av[0]), c, {i: (1, v) for i in range(c)})
        return None
    if n == 'compare_bytes':
        return compare_bytes(ex, st, sv(av[0]), sv(av[1]), sv(av[2]))
    if n == 'raw_eq':
        sz = ta[0].size
        a = ex.load(st, sv(av[0]), ta[0]); b = ex.load(st, sv(av[1]), ta[0])
        r = True
        for i in range(sz): r = and_(r, eq(ex.gather(a, i, 1, 'int'), ex.gather(b, i, 1, 'int'), 8))
        return R(r, 1)
    if n in ('offset', 'arith_offset'):
        p, c = sv(av[0]), sv(av[1])
        sz = ex.prog.pointee(at[0]).size
        if n == 'offset': return R(ex.ptr_offset(st, p, c, sz, at[1].k[0] == 'int'), 8)
        if isinstance(p, Ptr): return R(Ptr(p.obj, add(p.off, mul(c, sz)), True), 8)
        return R(add(p, mul(c, sz)), 8)
    if n in ('ptr_offset_from', 'ptr_offset_from_unsigned'):
        a, b = sv(av[0]), sv(av[1]); sz = ta[0].size
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            if n.endswith('unsigned'): ex.oblige(st, ule(b.off, a.off), 'offset_from is not negative')
            d = sub(a.off, b.off)
            return R(d if sz == 1 else arith('Div', d, sz, 64, n == 'ptr_offset_from', 64), 8)
        ex.oblige(st, False, 'offset_from within one object'); raise Stuck()
    if n in ('size_of', 'size_of_val') and (n == 'size_of' or ta[0].size is not None): return R(ta[0].size, 8)
    if n in ('min_align_of', 'align_of', 'pref_align_of', 'align_of_val') and ta[0].align: return R(ta[0].align, 8)
    if n == 'size_of_val':
        if ta[0].k[0] in ('str', 'slice'):
            e = 1 if ta[0].k[0] == 'str' else ex.T[ta[0].k[1]].size
            return R(mul(av[0][8][1], e), 8)
    if n == 'align_of_val' and ta[0].k[0] in ('str', 'slice'): return R(1 if ta[0].k[0] == 'str' else ex.T[ta[0].k[1]].align, 8)
    if n in ('needs_drop',): return R(True, 1)
    if n in ('likely', 'unlikely', 'black_box'): return av[0]
    if n == 'select_unpredictable':
        c = tobool(sv(av[0]))
        if isc(c): return av[1] if c else av[2]
        raise NeedFork(None, 0, 0, [c, not_(c)])
    if n == 'is_val_statically_known': return R(False, 1)
    if n in ('ub_checks', 'contract_checks', 'overflow_checks'): return R(False, 1)
    if n in ('cold_path', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'forget'): return None
    if n == 'assume': ex.oblige(st, tobool(sv(av[0])), 'assume holds'); return None
    if n in ('integer_max', 'integer_min'):
        t = ta[0]; w = t.size * 8; a, b = sv(av[0]), sv(av[1])
        c = arith('Ge' if n.endswith('max') else 'Le', a, b, w, ex.signed(t), w)
        return R(ite(c, a, b, w), t.size)
    if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'unchecked_add', 'unchecked_sub', 'unchecked_mul', 'unchecked_div', 'unchecked_rem', 'unchecked_shl', 'unchecked_shr', 'exact_div'):
        op = {'div': 'Div', 'rem': 'Rem', 'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'shl': 'Shl', 'shr': 'Shr'}[n.split('_')[1]]
        t = ta[0]
        return R(arith(op, ex.asint(st, sv(av[0]), t.size * 8), ex.asint(st, sv(av[1]), t.size * 8), t.size * 8, ex.signed(t), (ta[1].size if len(ta) > 1 else t.size) * 8), dt.size)
    if n in ('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow'):
        r, o = ex.cbin(st, n.split('_')[0].capitalize(), sv(av[0]), sv(av[1]), ta[0])
        return {dt.offs[0]: (ta[0].size, r), dt.offs[1]: (1, o)}
    if n in ('saturating_add', 'saturating_sub'):
        t = ta[0]; w = t.size * 8
        if ex.signed(t): raise Unsupported(n)
        r, o = ex.cbin(st, n.split('_')[1].capitalize(), sv(av[0]), sv(av[1]), t)
        return R(ite(o, (1 << w) - 1 if n.endswith('add') else 0, r, w), t.size)
    if n in ('rotate_left', 'rotate_right'):
        w = ta[0].size * 8; s = sv(av[1]); v = sv(av[0])
        if isc(s) and isc(v):
            s %= w; s = s if n.endswith('left') else w - s
            return R(((v << s) | (v >> (w - s))) & ((1 << w) - 1), dt.size)
        if isc(s): return R(norm(z3.RotateLeft(v, s % w) if n.endswith('left') else z3.RotateRight(v, s % w)), dt.size)
    if n == 'bswap':
        v = sv(av[0]); k = ta[0].size
        if isc(v): return R(int.from_bytes(v.to_bytes(k, 'little'), 'big'), k)
        return R(norm(Concat(*[Extract(8 * i + 7, 8 * i, v) for i in range(k)])), k)
    if n == 'discriminant_value':
        p = sv(av[0]); return R(ex.discr(st, p, ta[0], dt.size * 8), dt.size)
    if n in ('read_via_copy', 'volatile_load', 'unaligned_volatile_load'): return ex.load(st, sv(av[0]), ta[0], n != 'unaligned_volatile_load')
    if n in ('write_via_move', 'volatile_store', 'unaligned_volatile_store'): ex.store(st, sv(av[0]), ta[0].size, av[1], ta[0].align); return None
    if n == 'unreachable': ex.oblige(st, False, 'unreachable is not reached'); raise Stuck()
    if n == 'abort': return [('panic', st, 'abort', ex.loc(st))]
    if n == 'three_way_compare':
        t = ta[0]; return R(arith('Cmp', sv(av[0]), sv(av[1]), t.size * 8, ex.signed(t), t.size * 8), 1)
    if n == 'const_eval_select':
        # run the run-time arm: FnDef type args: <ARG, F, G, RET>
        g = ta[2]
        if g.k[0] == 'fndef' and g.k[2] is not None:
            tt = at[0]; args = []; ats = []
            for i, ti in enumerate(tt.k[1]):
                args.append(ex.slice_leaves(av[0], tt.offs[i], ex.T[ti].size)); ats.append(ex.T[ti])
            return ('const_eval', g.k[2], args, ats)
    raise Unsupported('intrinsic ' + n)

def compare_bytes(ex, st, a, b, n):
    ta, tb = ex.text_of(st, a, n), ex.text_of(st, b, n)
    n = ex.kn(st, n)
    if rope_same(ta, tb): return R(0, 4)
    if isc(n) and n <= 64:
        def bytes_(t):
            out = []
            for s in t:
                if s[0] == 'const': out += list(s[1])
                elif s[0] == 'byte': out.append(s[1])
                elif s[0] == 'src': out += [ex.byte_at(st, s[1], add(s[2], i)) for i in range(seg_len(ex, s))]
                else: raise Unsupported('compare')
            return out
        x, y = bytes_(ta), bytes_(tb)
        r = bv(0, 32)
        for p, q in reversed(list(zip(x, y))): r = If(zb(eq(p, q, 8)), r, If(ULT(bv(p, 8), bv(q, 8)), bv(-1, 32), bv(1, 32)))
        return R(norm(r), 4)
    raise Unsupported('compare of symbolic length')

# ---- run-time system ---------------------------------------------------------------------------
def m_panic(ex, st, inst, av, at, dt):
    return [('panic', st, ex.prog.insts[inst]['short'], ex.loc(st))]

def new_heap(ex, st, size, align):
    oid = ex.newid('H')
    sz = ex.kn(st, size)
    if isc(sz) and not (align == 1): st.mem[oid] = Flat(sz, {}, align, True)
    else: st.mem[oid] = Heap(size, align)
    return oid
def heap_size_ok(ex, st, size, align, what):
    ex.oblige(st, not_(eq(size, 0)), what + ' of non-zero size')
    ex.oblige(st, ule(size, IMAX), what + ' size at most isize::MAX')
def m_alloc(ex, st, inst, av, at, dt):
    size, align = sv(av[0]), ex.kn(st, sv(av[1]))
    if not isc(align): raise Unsupported('alloc align')
    heap_size_ok(ex, st, size, align, 'allocation')
    s0 = st.copy()
    oid = new_heap(ex, st, size, align)
    if 'zeroed' in ex.prog.insts[inst]['short']: raise Unsupported('alloc_zeroed')
    st.g['allocs'] = st.g.get('allocs', ()) + (oid,)
    out = [(st, R(Ptr(oid, 0), 8))]
    s0.g['oom'] = True
    out.append((s0, R(Ptr(None, 0), 8)))
    return out
def heap_block(ex, st, p, what):
    p = p if isinstance(p, Ptr) else Ptr(None, p)
    if p.obj is None: ex.oblige(st, False, what + ' of a live heap block'); raise Stuck()
    o = ex.alive(st, p, what)
    ok = o.heap and (not isinstance(o, Heap) or o.alloced)
    if isinstance(o, Heap) and not isinstance(o.alloced, bool): ok = and_(o.heap, o.alloced)
    ex.oblige(st, ok, what + ' of a live heap block')
    ex.oblige(st, eq(p.off, 0), what + ' with the address of the block')
    return p, o
def m_dealloc(ex, st, inst, av, at, dt):
    p, o = heap_block(ex, st, sv(av[0]), 'dealloc')
    ex.oblige(st, eq(sv(av[1]), o.size), 'dealloc with the size of the block')
    ex.oblige(st, eq(sv(av[2]), o.align), 'dealloc with the alignment of the block')
    if isinstance(o, Heap): o = o.copy(); o.alive = False; st.mem[p.obj] = o
    else: st.mem.pop(p.obj, None)
    return None
def m_realloc(ex, st, inst, av, at, dt):
    p, o = heap_block(ex, st, sv(av[0]), 'realloc')
    old, align, new = sv(av[1]), sv(av[2]), sv(av[3])
    ex.oblige(st, eq(old, o.size), 'realloc with the size of the block')
    ex.oblige(st, eq(align, o.align), 'realloc with the alignment of the block')
    heap_size_ok(ex, st, new, align, 'reallocation')
    s0 = st.copy()
    oid = ex.newid('H')
    if isinstance(o, Heap):
        h = Heap(new, o.align, o.rope, o.end)
        if not ex.proves(st, ule(o.end, new)):
            # contents are cut at the new size
            if ex.proves(st, ule(new, o.end)):
                l, _ = ex.rope_split(st, o.rope, new); h.rope = l; h.end = new
            else: raise NeedFork(None, 0, 0, [norm(ule(o.end, new)), not_(ule(o.end, new))])
        o = o.copy(); o.alive = False; st.mem[p.obj] = o
        st.mem[oid] = h
    else:
        n = ex.need(st, new)
        st.mem[oid] = Flat(n, {k: v for k, v in o.leaves.items() if k + v[0] <= n}, o.align, True); st.mem.pop(p.obj)
    st.g['allocs'] = st.g.get('allocs', ()) + (oid,)
    s0.g['oom'] = True
    return [(st, R(Ptr(oid, 0), 8)), (s0, R(Ptr(None, 0), 8))]
def m_noop(ex, st, inst, av, at, dt): return None

CPU = {n: z3.Function('cpuid_' + n, z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(32)) for n in ('eax', 'ebx', 'ecx', 'edx')}
def cpu_bit(reg, leaf, sub, bit):
    return norm(Extract(bit, bit, CPU[reg](bv(leaf, 32), bv(sub, 32))) == 1)
FEATURE = {'sse3': ('ecx', 1, 0), 'ssse3': ('ecx', 1, 9), 'sse4.1': ('ecx', 1, 19), 'sse4.2': ('ecx', 1, 20), 'popcnt': ('ecx', 1, 23), 'avx': ('ecx', 1, 28), 'avx2': ('ebx', 7, 5),
           'bmi1': ('ebx', 7, 3), 'bmi2': ('ebx', 7, 8), 'lzcnt': ('ecx', 0x80000001, 5), 'fma': ('ecx', 1, 12), 'pclmulqdq': ('ecx', 1, 1),
           'avx512f': ('ebx', 7, 16), 'avx512bw': ('ebx', 7, 30), 'avx512vl': ('ebx', 7, 31)}
BASE = {'sse', 'sse2', 'fxsr', 'x87', 'cmpxchg8b'}
IMPL = {'avx512bw': ['avx512f'], 'avx512vl': ['avx512f'], 'avx512f': ['avx2'], 'avx2': ['avx'], 'fma': ['avx'], 'avx': ['sse4.2'], 'sse4.2': ['sse4.1'], 'sse4.1': ['ssse3'], 'ssse3': ['sse3'], 'sse3': []}
def implied(f):
    out = set()
    for g in IMPL.get(f, []): out |= {g} | implied(g)
    return out
def cpu_obligation(ex, st, x):
    fs = {f for f in x['tf'] if f not in BASE}
    for f in list(fs): fs -= implied(f)
    for f in fs:
        if f not in FEATURE: raise Unsupported('cpu feature ' + f)
        reg, leaf, bit = FEATURE[f]
        c = cpu_bit(reg, leaf, 0, bit)
        if leaf == 7: c = and_(c, norm(UGE(CPU['eax'](bv(0, 32), bv(0, 32)), 7)))
        # the processor's features are architecturally closed under implication
        ex.oblige(st, c, f'processor supports {f} where it is used')
def m_cpuid(ex, st, inst, av, at, dt):
    leaf = sv(av[0]); sub_ = sv(av[1]) if len(av) > 1 else 0
    out = {}
    for i, n in enumerate(('eax', 'ebx', 'ecx', 'edx')):
        out[dt.offs[i]] = (4, norm(CPU[n](bv(leaf, 32), bv(sub_, 32))))
    return out

PANICS = re.compile(r'^(core|std)::panicking::|^(core|std)::rt::panic|^std::rt::(begin_panic|panic)|handle_alloc_error$|raw_vec::(handle_error|capacity_overflow)|unwrap_failed|slice_error_fail|slice_.*_fail|^core::str::slice_error|^core::(option|result)::.*(unwrap|expect)_failed|panic_nounwind|panic_const|panic_bounds_check|slice_start_index_len_fail|slice_end_index_len_fail|slice_index_order_fail')
def m_fmt_opaque(ex, st, inst, av, at, dt):
    ex.nfresh += 1
    ex.fmt[ex.nfresh] = (ex.prog.insts[inst]['short'], inst, av, at)
    return {0: (dt.size, Han('fmt', ex.nfresh))}
BASE_MODELS = [
    (re.compile(r"^std::fmt::Arguments(::<'_>)?::(new|from_str|new_const|new_v1|new_v1_formatted|from_str_nonconst)$|^core::fmt::rt::(Argument|<impl)"), m_fmt_opaque),
    (PANICS, m_panic),
    (re.compile(r'^alloc::alloc::__rust_alloc(_zeroed)?$'), m_alloc),
    (re.compile(r'^alloc::alloc::__rust_dealloc$'), m_dealloc),
    (re.compile(r'^alloc::alloc::__rust_realloc$'), m_realloc),
    (re.compile(r'__rust_no_alloc_shim_is_unstable'), m_noop),
    (re.compile(r'^std::arch::x86_64::__cpuid(_count)?$|^core::core_arch::x86::cpuid::__cpuid(_count)?$'), m_cpuid),
]
