"""Contracts of the Render implementations and helper types, proved on their real bodies.

A root takes symbolic arguments and a `&mut Buffer` (or returns a String).  The Buffer operations and `escape` are used
through their contracts only (absbuf.Client, proved in server.py / escspec.py).  The wanted text is a rope over the
symbolic arguments; each path's final rope has to be the wanted one."""
import time, traceback, re, z3
from smt import *
from mem import *
import mir, models, bufspec as B, absbuf, server
from server import Result, mkex, string_roles, okresult, leak
from exec import Ex, State, Budget
from models import R, sv

I64 = z3.BitVecSort(64)
ABSLEN = z3.Function('len_render', I64, I64)
ITEM = z3.Function('item', I64, I64, I64)
FMTLEN = z3.Function('len_fmt', I64, I64)

MAXDEC = {'u8': 3, 'u16': 5, 'u32': 10, 'u64': 20, 'u128': 39, 'usize': 20, 'i8': 4, 'i16': 6, 'i32': 11, 'i64': 20, 'i128': 40, 'isize': 20}
MAXRYU = {'32': 16, '64': 24}

def enum_blob(ex, ty, v, fields):
    """blob of enum value: variant v with field blobs"""
    va = ty.var; out = {}
    def put(off, b):
        for o, l in b.items(): out[off + o] = l
    if va and va['k'] == 'multi':
        offs = va['variants'][v]
        for i, b in enumerate(fields): put(offs[i], b)
        ts, _ = ex.prog.tag_info(ty)
        if va['enc'][0] == 'direct': out[va['tagoff']] = (ts, ex.prog.discr_of(ty, v) & ((1 << ts * 8) - 1))
        else:
            _, unt, lo, hi, start = va['enc']
            if v != unt: out[va['tagoff']] = (ts, (int(start) + v - lo) & ((1 << ts * 8) - 1))
        return out
    for i, b in enumerate(fields): put(ty.offs[i] if ty.offs else 0, b)
    return out

# ---- segments ---------------------------------------------------------------------------------
def seg_abs(v): return ('abs', 'render', v, ABSLEN(bv(v, 64)))
_dl = {}
def declen(ty, v):
    w = {'8': 8, '16': 16, '32': 32, '64': 64, '128': 128}.get(ty[1:], 64)
    f = _dl.get(ty)
    if f is None: f = _dl[ty] = z3.Function('declen_' + ty, z3.BitVecSort(w), I64)
    return f(bv(v, w))
def seg_dec(ty, v):
    if isc(v):
        w = {'8': 8, '16': 16, '32': 32, '64': 64, '128': 128}.get(ty[1:], 64)
        return ('const', str(sgn(v, w) if ty[0] == 'i' else v).encode())
    return ('dec', ty, v, declen(ty, v))
def ryulen(k, v):
    f = _dl.get('ryu' + k)
    if f is None: f = _dl['ryu' + k] = z3.Function('ryulen_' + k, z3.BitVecSort(int(k)), I64)
    return f(bv(v, int(k)))
def ryu_text(k, v):
    """the text the ryu crate gives a finite value: shortest digits, its own layout"""
    import struct, numpy
    if k == '32': x = numpy.frombuffer(struct.pack('<I', v), dtype=numpy.float32)[0]; sc = numpy.format_float_scientific(abs(x), unique=True, trim='-')
    else: sc = numpy.format_float_scientific(abs(struct.unpack('<d', struct.pack('<Q', v))[0]), unique=True, trim='-')
    sign = '-' if v >> (int(k) - 1) else ''
    m, e = sc.split('e')
    i, _, f = m.partition('.')
    d = (i + f).lstrip('0').rstrip('0')
    if not d: return sign + '0.0'
    kk = int(e) + 1; n = len(d); kx = kk - n
    hi, lo = (13, -6) if k == '32' else (16, -5)
    if 0 <= kx and kk <= hi: t = d + '0' * kx + '.0'
    elif 0 < kk <= hi: t = d[:kk] + '.' + d[kk:]
    elif lo < kk <= 0: t = '0.' + '0' * -kk + d
    elif n == 1: t = d + 'e' + str(kk - 1)
    else: t = d[0] + '.' + d[1:] + 'e' + str(kk - 1)
    return sign + t
def seg_ryu(k, v):
    if isc(v) and v & expmask(int(k)) != expmask(int(k)): return ('const', ryu_text(k, v).encode())
    return ('ryu', k, v, ryulen(k, v))
def esc_rope(ex, st, rope):
    """escaped form of a rope"""
    out = ()
    for s in rope:
        if s[0] == 'const': out = rope_push(out, ('const', esc_bytes(s[1])))
        elif s[0] == 'src': out = rope_push(out, ('esc',) + s[1:])
        elif s[0] == 'utf8': raise NeedChar(s[2])
        elif s[0] == 'byte': raise Unsupported('escape of a computed byte')
        elif s[0] in ('dec',): out = out + (s,)
        else: raise Unsupported('escape of ' + s[0])
    return out
class NeedChar(Exception): pass

# ---- contracts of the environment ---------------------------------------------------------------
def c_escape(ex, st, inst, av, at, dt):
    t = absbuf.str_rope(ex, st, av[0])
    b = absbuf.bufid(ex, st, sv(av[1]))
    absbuf.append(ex, st, b, esc_rope(ex, st, t))
def c_escape_str(ex, st, inst, av, at, dt): raise Unsupported('escape_str')

def write_raw(ex, st, p, seg, maxlen, what):
    """an external function writes seg (at most maxlen bytes) at p"""
    p = ex.checkptr(st, p, what)
    o = ex.alive(st, p, what)
    if not isinstance(o, Heap): raise Unsupported(what + ' outside a buffer')
    ex.oblige(st, and_(ule(p.off, o.size), ule(maxlen, sub(o.size, p.off))), what + ': room for the longest output')
    n = seg_len(ex, seg)
    if not isc(n): ex.assume(st, norm(And(UGE(n, 1), ULE(n, bv(maxlen, 64)))))
    o = o.copy(); st.mem[p.obj] = o
    ex.heap_append(st, o, p.off, [seg])
    return n

def int_ty(t):
    n = t.s.split('::')[-1]
    return n if n in MAXDEC else None
def m_itoap(ex, st, inst, av, at, dt):
    x = ex.prog.insts[inst]
    t = int_ty(at[1])
    if t is None: raise Unsupported('itoap ' + at[1].s)
    ex.assumed.add('itoap::write_to_ptr')
    n = write_raw(ex, st, sv(av[0]), seg_dec(t, ex.asint(st, sv(av[1]), at[1].size * 8)), MAXDEC[t], 'itoap::write_to_ptr')
    return R(n, 8)
def m_ryu(ex, st, inst, av, at, dt):
    k = '32' if ex.prog.insts[inst]['short'].endswith('32') else '64'
    v = sv(av[0]); w = int(k)
    ex.assumed.add('ryu::raw::format' + k)
    ex.oblige(st, fin(v, w), f'ryu::raw::format{k} is called with a finite value')
    n = write_raw(ex, st, sv(av[1]), seg_ryu(k, v), MAXRYU[k], 'ryu::raw::format' + k)
    return R(n, 8)
def expmask(w): return 0x7f800000 if w == 32 else 0x7ff0000000000000
def fin(v, w):
    m = expmask(w)
    if isc(v): return v & m != m
    return norm((v & bv(m, w)) != bv(m, w))
def isnan(v, w):
    m = expmask(w); a = (1 << (w - 1)) - 1
    if isc(v): return (v & a) > m
    return norm(UGT(v & bv(a, w), bv(m, w)))

def log(st, *e): st.g['log'] = st.g.get('log', ()) + (e,)
def x_render(ex, st, inst, av, at, dt):
    absbuf.append(ex, st, absbuf.bufid(ex, st, sv(av[1])), [seg_abs(sv(av[0]))])
def x_render_ref(ex, st, inst, av, at, dt):
    v = ex.load(st, sv(av[0]), ex.prog.pointee(at[0])) if at[0] is not None else None
    absbuf.append(ex, st, absbuf.bufid(ex, st, sv(av[1])), [seg_abs(sv(v))])
ABSL = z3.Function('abs_large', *([I64] * 6))
ABSZ = 0x5a5a5a5a
def large_id(b):
    vs = [b[k][1] if k in b else None for k in range(0, 40, 8)]
    if any(v is None or isinstance(v, NONINT) for v in vs): raise Unsupported('large abstract value')
    return ABSL(*[bv(v, 64) for v in vs])
def x_render_z(ex, st, inst, av, at, dt): absbuf.append(ex, st, absbuf.bufid(ex, st, sv(av[1])), [seg_abs(ABSZ)])
def x_render_l(ex, st, inst, av, at, dt): absbuf.append(ex, st, absbuf.bufid(ex, st, sv(av[1])), [seg_abs(large_id(av[0]))])
def x_render_lref(ex, st, inst, av, at, dt):
    absbuf.append(ex, st, absbuf.bufid(ex, st, sv(av[1])), [seg_abs(large_id(ex.load(st, sv(av[0]), ex.prog.pointee(at[0]))))])
def item_blob(kind, it, k):
    if kind == 'AbsIterZ': return {}
    if kind == 'AbsIterL': return {8 * i: (8, ITEM(it + i, bv(k, 64))) for i in range(5)}
    return {0: (8, ITEM(it, bv(k, 64)))}
def item_id(kind, it, k):
    return ABSZ if kind == 'AbsIterZ' else large_id(item_blob(kind, it, k)) if kind == 'AbsIterL' else ITEM(it, bv(k, 64))
def x_next(ex, st, inst, av, at, dt):
    it = sv(ex.load(st, sv(av[0]), ex.prog.pointee(at[0])))
    if isinstance(it, NONINT) or isc(it): raise Unsupported('iterator identity')
    key = ('J', it.get_id()); st.g[('keepit', it.get_id())] = it
    ended = ('ended', it.get_id())
    if st.g.get(ended): ex.oblige(st, False, 'iterator is not polled after its end'); raise Stuck()
    k = st.g.get(key, 0)
    n = z3.BitVec('count_' + str(it), 64)
    ex.assume(st, ULE(n, bv(1 << 56, 64)))
    s1 = st.copy()
    out = []
    c = norm(ULT(bv(k, 64), n))
    if ex.feasible(st, c):
        if c is not True: st.pc.append(c)
        st.g[key] = add(k, 1)
        out.append((st, enum_blob(ex, dt, 1, [item_blob(ex.prog.pointee(at[0]).s.split('::')[-1], it, k)])))
    c = not_(c)
    if ex.feasible(s1, c):
        if c is not True: s1.pc.append(c)
        s1.pc.append(bv(k, 64) == n)
        s1.g[ended] = True
        out.append((s1, enum_blob(ex, dt, 0, [])))
    return out
def x_size_hint(ex, st, inst, av, at, dt):
    """an honest hint: lower bound <= items left <= upper bound, if there is one"""
    it = sv(av[0])
    if isinstance(it, NONINT) or isc(it): raise Unsupported('iterator identity')
    n = z3.BitVec('count_' + str(it), 64); k = st.g.get(('J', it.get_id()), 0)
    lo, hi = ex.fresh('hintlo'), ex.fresh('hinthi'); left = sub(n, k)
    st.pc += [ULE(n, bv(1 << 56, 64)), ULE(bv(k, 64), n), ULE(lo, left), ULE(left, hi)]
    ot = next(t for t in ex.prog.types if t.s.endswith('Option<usize>') and t.size == 16)
    out = []
    offs = dt.offs
    for v, fs in ((0, []), (1, [{0: (8, hi)}])):
        s = st.copy(); b = {offs[0]: (8, lo)}
        for o, l in enum_blob(ex, ot, v, fs).items(): b[offs[1] + o] = l
        out.append((s, b))
    return out
def x_text(ex, st, inst, av, at, dt):
    v = sv(ex.load(st, sv(av[0]), ex.prog.pointee(at[0])))
    oid = text_obj(ex, st, f'text_{v}')
    return {0: (8, Ptr(oid, 0)), 8: (8, st.mem[oid].size)}
def text_obj(ex, st, name):
    oid = ('T', name)
    if oid not in st.mem: B.in_text(ex, st, name)
    return oid
def x_eval(ex, st, inst, av, at, dt):
    """a side-effecting expression: logs its number, yields a fresh value named after it"""
    i = sv(av[0])
    n = sum(1 for e in st.g.get('log', ()) if e == ('eval', i))
    log(st, 'eval', i)
    return {0: (8, BitVec(f'ev_{i}_{n}', 64))}
def x_evalb(ex, st, inst, av, at, dt):
    i = sv(av[0]); log(st, 'eval', i)
    return R(Bool(f'evb_{i}'), 1)
def x_evals(ex, st, inst, av, at, dt):
    i = sv(av[0]); log(st, 'eval', i)
    oid = text_obj(ex, st, f'evs_{i}')
    return {0: (8, Ptr(oid, 0)), 8: (8, st.mem[oid].size)}
def x_evaln(ex, st, inst, av, at, dt):
    i = sv(av[0]); log(st, 'eval', i)
    return R(BitVec(f'evn_{i}', 32), 4)
def x_mark(ex, st, inst, av, at, dt): log(st, 'mark', sv(av[0]))

def describe_fmt(ex, st, h):
    """structural description of an opaque Arguments value"""
    short, inst, av, at, snap = ex.fmt[h.id]
    x = ex.prog.insts[inst]
    out = [re.sub(r'\d+_usize|, \d+', '', short)]
    for b, t in zip(av, at):
        out.append(desc_val(ex, st, snap, b, t))
    return tuple(out)
def desc_val(ex, st, snap, b, t):
    if t is None: return '?'
    if t.k[0] in ('ref', 'ptr'):
        p = b[0][1]
        if isinstance(p, Ptr) and p.obj is not None:
            if isinstance(p.obj, tuple) and p.obj[0] == 'A':
                o = ex.obj(st, p.obj)
                n = b[8][1] if 8 in b else (ex.prog.pointee(t).size)
                if isc(n) and isc(p.off): return ('const', o.alloc['b'][2 * p.off:2 * (p.off + n)])
            o = snap.get(p.obj)
            pt = ex.prog.pointee(t)
            if isinstance(o, Flat) and pt.size is not None and isc(p.off):
                lv = ex.slice_leaves(o.leaves, p.off, pt.size)
                return tuple((k, desc_leaf(ex, st, snap, l)) for k, l in sorted(lv.items()))
        return str(p)
    return tuple((k, desc_leaf(ex, st, snap, l)) for k, l in sorted(b.items()))
def desc_leaf(ex, st, snap, l):
    v = l[1]
    if isinstance(v, Han) and v.kind == 'fmt':
        short, inst, av, at, sn = ex.fmt[v.id]
        return ('arg', ex.prog.insts[inst]['name'].split('core::fmt::rt::')[-1], tuple(desc_val(ex, st, sn, b, t) for b, t in zip(av, at)))
    if isinstance(v, Ptr) and v.obj is not None:
        o = snap.get(v.obj)
        if isinstance(o, Flat): return ('&', tuple((k, str(x[1])) for k, x in sorted(o.leaves.items())))
    return str(v)
def m_fmt(ex, st, inst, av, at, dt):
    ex.nfresh += 1
    ex.fmt[ex.nfresh] = (ex.prog.insts[inst]['short'], inst, av, at, dict(st.mem))
    return {0: (dt.size, Han('fmt', ex.nfresh))}

def m_as_str(ex, st, inst, av, at, dt):
    """Arguments::as_str: nothing, or the whole formatted text"""
    b = ex.load(st, sv(av[0]), ex.prog.pointee(at[0])) if at[0].k[0] in ('ref', 'ptr') else av[0]
    h = b[0][1] if 0 in b else None
    if not isinstance(h, Han): raise Unsupported('as_str of format arguments')
    ex.assumed.add('Arguments::as_str gives None or the formatted text')
    s1 = st.copy()
    oid = text_obj(ex, s1, f'text_fmt{h.id}'); s1.g[('asstr', h.id)] = oid
    some = {0: (8, Ptr(oid, 0)), 8: (8, s1.mem[oid].size)}
    return [(st, enum_blob(ex, dt, 0, [])), (s1, enum_blob(ex, dt, 1, [some]))]
def m_fmt_write(ex, st, inst, av, at, dt):
    """core::fmt::write(writer, args): an arbitrary sequence of write_str/write_char calls whose pieces concatenate to the
    formatted text.  Both methods are proved here, on the actual writer, to append the escaped piece and return Ok, from
    any buffer contents; then the whole appends the escaped formatted text."""
    w, vt = av[0][0][1], av[0][8][1]
    args = sv(av[1]) if 0 in av[1] else None
    if not isinstance(vt, VT): raise Unsupported('fmt::write writer')
    bufs = [k for k in st.g if isinstance(k, tuple) and k[0] == 'buf']
    if len(bufs) != 1: raise Unsupported('fmt::write with several buffers')
    k = bufs[0]
    strm, chrm = vt.slots[3], vt.slots[4]
    orec = ex.rec
    if orec:
        for what in ('str', 'char'):
            s = st.copy()
            ex.nfresh += 1
            bid = k[1]
            ln = ex.fresh('ln'); cap = ex.fresh('cap')
            nh = ex.newid('D'); base = (('tok', f'fw{ex.nfresh}', ln),)
            s.pc += [ULE(ln, cap), ULE(cap, bv(IMAX, 64))]
            s.mem[nh] = Heap(cap, 1, base, ln, alloced=False)
            s.g[k] = (nh, ln, cap)
            if what == 'str':
                oid = text_obj(ex, s, 'piece'); n = s.mem[oid].size
                arg = {0: (8, Ptr(oid, 0)), 8: (8, n)}; want = [(True, base + (('esc', oid, 0, n),))]
            else:
                c = BitVec('piece_c', 32); s.pc += char_ok(c)
                arg = {0: (4, c)}; want = [(q, base + r) for q, r in esc_char(c)]
            before = dict(s.mem)
            frames = s.frames
            ex.start(s, strm if what == 'str' else chrm, [{0: (8, w)}, arg])
            for o in ex.run([s]):
                if o[0] == 'panic':
                    panic_out(ex, o); continue
                s2, r, rty = o[1], o[2], o[3]
                okresult(ex, s2, r, rty)
                got = absbuf.committed(ex, s2, k[1]) if k in s2.g else None
                if got is None: ex.oblige(s2, False, 'writer keeps the buffer'); continue
                same_cases(ex, s2, got, want, f'write_{what} appends exactly the escaped piece')
                ok = True
                for oid, ob in before.items():
                    if oid in (nh, s.g[k][0]) or isinstance(ob, (Bytes, Const)): continue
                    n_ = s2.mem.get(oid)
                    if isinstance(ob, Flat) and (not isinstance(n_, Flat) or any(q not in n_.leaves or not leaf_same(n_.leaves[q][1], l[1]) for q, l in ob.leaves.items())): ok = False
                ex.oblige(s2, ok, f'write_{what} changes nothing but the buffer')
    if isinstance(args, Han): name = 'fmt%d' % args.id
    else: raise Unsupported('fmt::write arguments')
    ex.assumed.add('core::fmt::write calls write_str/write_char with consecutive pieces of the formatted text')
    n = BitVec('len_' + name, 64)
    absbuf.append(ex, st, k[1], [('escfmt', args, n)])
    return R(0, 1)

def char_ok(c): return [ULE(c, 0x10ffff), norm(Not(And(UGE(c, 0xd800), ULE(c, 0xdfff))))]
def esc_char(c):
    """cases of the escaped form of character c"""
    out = [(norm(c == k), (('const', e),)) for k, e in ENT.items()]
    out.append((norm(And(*[c != k for k in ENT])), (('utf8', '', c, absbuf.utf8_len(c)),)))
    return out

def panic_out(ex, o):
    """rendering panics only when the text cannot exist (contract of the callees) - any panic reached here is a violation"""
    st = o[1]
    what = 'rendering does not panic'
    c = ex.obl.setdefault(what, [0, 0]); c[1] += 1
    if ex.dead_path(st) or st.g.get('oom'): c[0] += 1
    else: ex.fail(st, what + f' ({str(o[2]).split("::")[-1]} at {o[3]})', ex.smt.check(st.pc, ex.all_lemmas(st)))

def same_cases(ex, st, got, cases, what):
    """for every feasible case, got equals its rope"""
    for c, rope in cases:
        s = st
        if c is not True:
            if c is False or not ex.feasible(st, c): continue
            s = st.copy(); s.pc.append(c)
            if ex.smt.check(s.pc, []) == 'unsat': continue
        try: B.same_rope(ex, s, ex_norm(ex, s, got), ex_norm(ex, s, rope), what)
        except Unsupported as e: raise
def ex_norm(ex, st, rope):
    """rewrite ropes under the path condition: characters of known value become constants"""
    out = ()
    for s in rope:
        if s[0] == 'utf8' and not isc(s[2]):
            v = forced(ex, st, s[2], 32)
            if v is not None and v < 0x110000 and not 0xd800 <= v < 0xe000: s = ('const', chr(v).encode())
        if s[0] == 'escfmt' and isinstance(s[1], Han) and ('asstr', s[1].id) in st.g:
            oid = st.g[('asstr', s[1].id)]; s = ('esc', oid, 0, st.mem[oid].size)
        out = rope_push(out, s)
    return out
def forced(ex, st, e, w):
    if ex.smt.check(st.pc, []) != 'sat': return None
    v = ex.smt.model.eval(bv(e, w), model_completion=True)
    if not z3.is_bv_value(v): return None
    v = v.as_long()
    return v if ex.smt.check(st.pc, [bv(e, w) != v]) == 'unsat' else None

MODELS = [
    (re.compile(r'^itoap::write_to_ptr$|^itoap::.*::write_to_ptr$'), m_itoap),
    (re.compile(r'^ryu::(\w+::)*format(32|64)$'), m_ryu),
    (re.compile(r'(^|::)vpx_render(_b)?$'), x_render), (re.compile(r'(^|::)vpx_render_bref$'), x_render_ref),
    (re.compile(r'(^|::)vpx_render_z(ref)?$'), x_render_z), (re.compile(r'(^|::)vpx_render_l$'), x_render_l), (re.compile(r'(^|::)vpx_render_lref$'), x_render_lref),
    (re.compile(r'(^|::)vpx_next(_z|_l)?$'), x_next), (re.compile(r'(^|::)vpx_text$'), x_text), (re.compile(r'(^|::)vpx_size_hint$'), x_size_hint),
    (re.compile(r'(^|::)vpx_eval$'), x_eval), (re.compile(r'(^|::)vpx_evalb$'), x_evalb), (re.compile(r'(^|::)vpx_evals$'), x_evals), (re.compile(r'(^|::)vpx_evaln$'), x_evaln), (re.compile(r'(^|::)vpx_mark$'), x_mark),
    (re.compile(r'^(std|core)::fmt::write$'), m_fmt_write),
    (re.compile(r"^(std|core)::fmt::Arguments(::<'_>)?::as_(statically_known_)?str$"), m_as_str),
    (re.compile(r"^(std|core)::fmt::Arguments(::<'_>)?::(new|from_str|new_const|new_v1|new_v1_formatted|from_str_nonconst)$|^core::fmt::rt::(Argument|<impl)"), m_fmt),
]

def client_ex(prog, budget):
    ex = mkex(prog, budget)
    ex.named = MODELS + models.BASE_MODELS
    sr = string_roles(ex)
    ex.cl = absbuf.Client(ex, sr)
    ex.sr = sr
    i = absbuf.first_call(prog, 'vp_escape')
    def esc(ex, st, inst, av, at, dt):
        ex.used_contracts.add('vp_escape'); return c_escape(ex, st, inst, av, at, dt)
    ex.contracts[i] = esc
    ex.fn_used.clear(); ex.used_contracts.clear()
    return ex

# ---- arbitrary arguments ------------------------------------------------------------------------
class Arg:
    """one way an argument can look: blob, wanted cases of its rendered text, heap blocks it owns"""
    def __init__(self, blob, cases, note=''): self.blob = blob; self.cases = cases; self.note = note

def arbitrary(ex, st, ty, name):
    """all shapes of an arbitrary value of ty: list of functions st -> Arg"""
    s = ty.s; prog = ex.prog; last = s.split('::')[-1]
    if s == '()': return [lambda st: Arg({}, [(True, ())])]
    if s == 'bool':
        def f(st):
            b = Bool(name); return Arg({0: (1, b)}, [(b, (('const', b'true'),)), (norm(Not(b)), (('const', b'false'),))])
        return [f]
    if s == 'char':
        def f(st):
            c = BitVec(name, 32); st.pc += char_ok(c); return Arg({0: (4, c)}, esc_char(c))
        return [f]
    if last in MAXDEC and ty.k[0] in ('int', 'uint'):
        def f(st):
            v = BitVec(name, ty.size * 8); return Arg({0: (ty.size, v)}, [(True, (seg_dec(last, v),))])
        return [f]
    m = re.match(r'std::num::NonZero<(\w+)>|std::num::NonZero(\w+)', s)
    if m:
        t = (m.group(1) or m.group(2)).lower()
        def f(st):
            v = BitVec(name, ty.size * 8); st.pc.append(v != 0); return Arg({0: (ty.size, v)}, [(True, (seg_dec(t, v),))])
        return [f]
    if s in ('f32', 'f64'):
        w = int(s[1:]); m_ = expmask(w)
        def f(st):
            v = BitVec(name, w)
            return Arg({0: (w // 8, v)}, [(fin(v, w), (seg_ryu(s[1:], v),)), (isnan(v, w), (('const', b'NaN'),)), (norm(v == m_), (('const', b'inf'),)), (norm(v == bv(m_ | 1 << (w - 1), w)), (('const', b'-inf'),))])
        return [f]
    if ty.k[0] == 'ref' and prog.pointee(ty).s == 'str':
        def f(st):
            b, oid, n = B.in_text(ex, st, name, maxlen=1 << 56); return Arg(b, [(True, (('esc', oid, 0, n),))])
        return [f]
    if last == 'String':
        def f(st):
            b, oid, n = B.in_text(ex, st, name, maxlen=1 << 56)
            cap = BitVec('cap_' + name, 64); st.pc += [ULE(n, cap), ULE(cap, bv(server.BIG, 64)), cap != 0]
            hid = ('H', 'arg_' + name)
            st.mem[hid] = Heap(cap, 1, (('src', oid, 0, n),), n)
            return Arg(dict(ex.sr.make(Ptr(hid, 0), n, cap)), [(True, (('esc', oid, 0, n),))], 'heap')
        def e(st): return Arg(dict(ex.sr.make(Ptr(None, 1), 0, 0)), [(True, ())], 'empty')
        return [f, e]
    if last in ('Abs', 'AbsB'):
        def f(st):
            v = BitVec(name, 64); return Arg({0: (8, v)}, [(True, (seg_abs(v),))])
        return [f]
    if last == 'AbsZ': return [lambda st: Arg({}, [(True, (seg_abs(ABSZ),))])]
    if last == 'AbsL':
        def f(st):
            vs = [BitVec(f'{name}_{i}', 64) for i in range(5)]; b = {8 * i: (8, v) for i, v in enumerate(vs)}
            return Arg(b, [(True, (seg_abs(large_id(b)),))])
        return [f]
    if ty.k[0] == 'ref' and prog.pointee(ty).s.split('::')[-1] in ('AbsZ', 'AbsL'):
        def f(st, pt=prog.pointee(ty)):
            a = arbitrary(ex, st, pt, name)[0](st); st.mem[('R', name)] = Flat(pt.size, dict(a.blob))
            return Arg({0: (8, Ptr(('R', name), 0))}, a.cases)
        return [f]
    if ty.k[0] == 'ref':
        pt = prog.pointee(ty)
        if pt.s.split('::')[-1] in ('AbsB', 'Abs', 'AbsText', 'AbsDisplay'):
            def f(st):
                v = BitVec(name, 64); st.mem[('R', name)] = Flat(8, {0: (8, v)})
                return Arg({0: (8, Ptr(('R', name), 0))}, [(True, (seg_abs(v),))])
            return [f]
    if re.search(r'(^|::)Option<', s):
        inner = arbitrary(ex, st, [prog.types[f[1]] for f in ty.k[3][1]['fields']][0], name)
        def wrap(g):
            def f(st):
                a = g(st); return Arg(enum_blob(ex, ty, 1, [a.blob]), a.cases, 'Some ' + a.note)
            return f
        return [lambda st: Arg(enum_blob(ex, ty, 0, []), [(True, ())], 'None')] + [wrap(g) for g in inner]
    if re.search(r'(^|::)Cow<', s):
        out = []
        for v in (0, 1):
            ft = prog.types[ty.k[3][v]['fields'][0][1]]
            for g in arbitrary(ex, st, ft, name):
                def f(st, g=g, v=v):
                    a = g(st); return Arg(enum_blob(ex, ty, v, [a.blob]), a.cases, ty.k[3][v]['name'] + ' ' + a.note if 'name' in ty.k[3][v] else f'variant {v} ' + a.note)
                out.append(f)
        return out
    if last in ('AbsText', 'AbsIter', 'AbsIterZ', 'AbsIterL', 'AbsDisplay'):
        def f(st):
            v = BitVec(name, 64); a = Arg({0: (8, v)}, None); a.v = v; return [a][0]
        return [f]
    if re.search(r'(^|::)Arguments', s):
        def f(st):
            h = Han('fmt', 0)
            return Arg({0: (ty.size, h)}, [(True, (('escfmt', h, BitVec('len_fmt0', 64)),))])
        return [f]
    if ty.size == 0: return [lambda st: Arg({}, None)]
    raise Unsupported('argument type ' + s)

def zlen(ex, st, oid): return st.mem[oid].size

def wanted(ex, st, root, args):
    """cases of the wanted appended text for the special roots; None: concatenation of the arguments"""
    if root in ('vp_raw', 'vp_raw_from'):
        oid = text_obj(ex, st, f'text_{args[0].v}'); return [(True, (('src', oid, 0, zlen(ex, st, oid)),))]
    if root in ('vp_raw_str', 'vp_raw_string'):
        return [(c, tuple(('src',) + x[1:] if x[0] == 'esc' else x for x in r)) for c, r in args[0].cases]
    if root == 'vp_r_doctype': return [(True, (('const', b'<!DOCTYPE html>'),))]
    return None

def stream_setup(ex, st, it, delim, kind='AbsIter'):
    """register the item stream of iterator `it` (delim: rope between items)"""
    key = ('stream', str(it))
    sl = z3.Function(f'streamlen_{it}', I64, I64)
    def seg(G): return (('stream', key, G, sl(bv(G, 64))),) if not (isc(G) and G == 0) else ()
    def cursor(ex, S, rest):
        c = 0; i = 0
        rest = tuple(x for x in rest if not (x[0] == 'src' and ex.proves(S, eq(seg_len(ex, x), 0)))) if not d_nonempty(delim) else tuple(rest)
        if rest and rest[0][0] == 'stream':
            if rest[0][1] != key: return None
            c = rest[0][2]; i = 1
        while i < len(rest):
            d = delim
            nz = (c != 0) if isc(c) else (True if ex.proves(S, c != 0) else False if ex.proves(S, c == 0) else None)
            if nz is None and d: return None
            if nz and d:
                if len(rest) - i < len(d): return None
                # the delimiter may have been merged with nothing else: segments must match
                for x, y in zip(rest[i:i + len(d)], d):
                    if not seg_same(x, y):
                        return None
                i += len(d)
            # an empty delimiter text leaves no segment; handled by the caller's case split
            if i >= len(rest) or rest[i][0] != 'abs': return None
            v = rest[i][2]
            if not ex.proves(S, eq(v, item_id(kind, it, c))): return None
            c = add(c, 1); i += 1
        return c
    st.g[key] = (seg, cursor)
    return key, seg

def d_nonempty(d): return bool(d)
def check_end(ex, st, args):
    """nothing the root owned is leaked"""
    leak(ex, st, set())

def job(path, root, budget=240):
    t0 = time.time()
    prog = mir.Prog(path)
    res = Result(root)
    ex = client_ex(prog, budget)
    try: run_root(ex, prog, root)
    except (Unsupported, NeedChar) as e: res.unsup.append(f'unsupported: {e}')
    except Budget: res.unsup.append('time budget exhausted')
    except Stuck: pass
    except (KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception) as e:
        res.unsup.append(f'engine: {type(e).__name__}: {e} ' + ' / '.join(l.strip() for l in traceback.format_exc().strip().split('\n')[-6:]))
    res.take(ex); res.secs = time.time() - t0; res.assumed = set(ex.assumed)
    if not res.covers and not res.failures and not res.unsup: res.unsup.append('vacuous: no postcondition was reachable')
    return res

def product(lists):
    out = [()]
    for l in lists: out = [o + (x,) for o in out for x in l]
    return out

def arg_shapes(ex, prog, root):
    body = prog.insts[prog.roots[root]]['body']
    tys = [prog.types[t] for t in body['locals'][1:1 + body['argc']]]
    names = [chr(97 + i) for i in range(len(tys))]
    isbuf = lambda t: t.k[0] in ('ref', 'ptr') and prog.pointee(t) is ex.cl.bt
    plain = [(n, t) for n, t in zip(names, tys) if not isbuf(t)]
    return tys, names, isbuf, product([arbitrary(ex, None, t, n) for n, t in plain])

def setup(ex, prog, st, tys, names, isbuf, shape):
    it = iter(shape); blobs = []; args = []; bid = None; base = ()
    for n, t in zip(names, tys):
        if isbuf(t):
            ln = BitVec('len0', 64); cap = BitVec('cap0', 64)
            st.pc += [ULE(ln, cap), ULE(cap, bv(IMAX, 64))]
            base = (('tok', 'C0', ln),)
            bid = absbuf.new_buf(ex, st, ln, cap, base)
            st.mem['buf'] = Flat(ex.cl.bt.size, absbuf.value(bid))
            blobs.append({0: (8, Ptr('buf', 0))})
        else:
            a = next(it)(st); args.append(a); blobs.append(dict(a.blob))
    return blobs, args, bid, base

def concat_cases(cases):
    out = [(True, ())]
    for cs in cases: out = [(and_(c, d), r + s) for c, r in out for d, s in cs]
    return out

def finish(ex, s, o, bid, base, want, prog, what):
    """final contents of the buffer (or returned String) of a returned path"""
    if ex.smt.check(s.pc, []) == 'sat': ex.covers = getattr(ex, 'covers', 0) + 1
    own = set()
    if bid is not None:
        if ('buf', bid) not in s.g: ex.oblige(s, False, 'the buffer stays with the caller'); return
        got = absbuf.committed(ex, s, bid)
        hid = s.g[('buf', bid)][0]
        others = [k for k in s.g if isinstance(k, tuple) and k[0] == 'buf' and k[1] != bid]
        ex.oblige(s, not others, 'no other buffer is leaked')
    else:
        rty = o[3]
        p, ln, cap = ex.sr.get(o[2])
        got = () if isc(ln) and ln == 0 else ex.text_of(s, p, ln)
        if isinstance(p, Ptr) and p.obj is not None: own.add(p.obj)
        ex.oblige(s, not [k for k in s.g if isinstance(k, tuple) and k[0] == 'buf'], 'no buffer is leaked')
    same_cases(ex, s, got, [(c, base + r) for c, r in want], what)
    leak(ex, s, own)

def run_root(ex, prog, root):
    if root not in prog.roots: raise Unsupported('no root ' + root)
    tys, names, isbuf, shapes = arg_shapes(ex, prog, root)
    for shape in shapes:
        st = State.new()
        blobs, args, bid, base = setup(ex, prog, st, tys, names, isbuf, shape)
        if root.startswith('vp_iter'): run_iter(ex, prog, root, st, blobs, args, bid, base); continue
        want = wanted(ex, st, root, args)
        if want is None and root == 'vp_disp': want = 'disp'
        if want is None: want = concat_cases([a.cases for a in args])
        for o in ex.run([ex.start(st, prog.roots[root], blobs)]):
            if o[0] == 'panic': panic_out(ex, o); continue
            s = o[1]
            if want == 'disp': want_ = disp_want(ex, s, args, absbuf.committed(ex, s, bid)[len(base):])
            else: want_ = want
            finish(ex, s, o, bid, base, want_, prog, 'exactly the specified text is appended')

def disp_want(ex, s, args, got):
    """format_args!("{}", x) of this very value: compared with the reference compiled from harness/core"""
    h = fmt_segs(s, got)
    if len(h) != 1: return [(True, (('escfmt', Han('fmt', -1), BitVec('len_ref', 64)),))]
    d = describe_fmt(ex, s, h[0][0])
    root = 'vp_fmt_ref'
    st = State.new()
    st.mem[('R', 'x')] = Flat(8, {0: (8, args[0].v)})
    refs = []
    ln = BitVec('len0', 64); cap = BitVec('cap0', 64)
    bid = absbuf.new_buf(ex, st, ln, cap, (('tok', 'C0', ln),)); st.mem['buf'] = Flat(ex.cl.bt.size, absbuf.value(bid))
    ex.start(st, ex.prog.roots[root], [{0: (8, Ptr(('R', 'x'), 0))}, {0: (8, Ptr('buf', 0))}])
    orec = ex.rec; ex.rec = False
    try:
        for o in ex.run([st]):
            if o[0] == 'return':
                r = fmt_segs(o[1], absbuf.committed(ex, o[1], bid))
                if len(r) != 1: raise Unsupported('reference of disp')
                refs.append(describe_fmt(ex, o[1], r[0][0]))
    finally: ex.rec = orec
    ex.oblige(s, bool(refs) and all(strip_refs(r) == strip_refs(d) for r in refs), 'the formatted text is the plain Display form of the value')
    return [(True, (h[0][1],))]
def fmt_segs(st, rope):
    """(format arguments, segment) of the segments that are the whole escaped text of format arguments"""
    ids = {oid: h for k, oid in st.g.items() if isinstance(k, tuple) and k[0] == 'asstr' for h in [Han('fmt', k[1])]}
    return [(x[1], x) if x[0] == 'escfmt' else (ids[x[1]], x) for x in rope if x[0] == 'escfmt' or x[0] == 'esc' and x[1] in ids and isc(x[2]) and x[2] == 0 and same(x[3], st.mem[x[1]].size)]
def strip_refs(d):
    return re.sub(r"new_display::<&?[^>]*>|::<&?'?_? ?[\w:]*AbsDisplay>|&'?_? ?", '', str(d))

def run_iter(ex, prog, root, st, blobs, args, bid, base):
    it = args[0].v
    kind = prog.types[prog.insts[prog.roots[root]]['body']['locals'][1]].s.split('::')[-1]
    if root in ('vp_iter', 'vp_iter_from', 'vp_iter_z', 'vp_iter_l'): delims = [()]
    elif root in ('vp_iter_lines', 'vp_iter_lines_z'): delims = [(('const', b'\n'),)]
    elif root in ('vp_iter_del', 'vp_iter_del_z', 'vp_iter_del_l'):
        oid = text_obj(ex, st, f'text_{args[1].v}'); delims = [(('src', oid, 0, st.mem[oid].size),), ()]
    else:
        r = args[1].cases[0][1]; delims = [(('src',) + r[0][1:],), ()] if r else [()]
    for d in delims:
        s0 = st.copy()
        if len(delims) > 1:
            n = (delims[0][0][3])
            s0.pc.append(n != 0 if d else n == 0)
        key, seg = stream_setup(ex, s0, it, d, kind)
        s0.g[('J', it.get_id())] = 0
        N = z3.BitVec('count_' + str(it), 64)
        for o in ex.run([ex.start(s0, prog.roots[root], [dict(b) for b in blobs])]):
            if o[0] == 'panic': panic_out(ex, o); continue
            s = o[1]
            if ex.smt.check(s.pc, []) == 'sat': ex.covers = getattr(ex, 'covers', 0) + 1
            k = s.g.get(('J', it.get_id()), 0)
            ex.oblige(s, eq(k, N), 'every item up to the end is taken')
            got = absbuf.committed(ex, s, bid)
            ok = len(got) >= len(base) and all(seg_same(x, y) for x, y in zip(got, base))
            c = s.g[key][1](ex, s, tuple(x for x in got[len(base):] if not zero(ex, s, x))) if ok else None
            if c is None: ex.oblige(s, False, 'items are rendered in order with the delimiter exactly between them')
            else: ex.oblige(s, eq(c, N), 'items are rendered in order with the delimiter exactly between them')
            leak(ex, s, set())
def zero(ex, s, x):
    n = seg_len(ex, x)
    return (isc(n) and n == 0) or (x[0] in ('src',) and ex.proves(s, eq(n, 0)))

ROOTS = {
 'C06': ['vp_r_' + t for t in MAXDEC] + ['vp_r_nz' + t for t in MAXDEC],
 'C07': ['vp_r_f32', 'vp_r_f64'],
 'C08': ['vp_r_unit', 'vp_r_char', 'vp_r_bool', 'vp_r_str', 'vp_r_string', 'vp_r_option', 'vp_r_option2', 'vp_r_cow_str', 'vp_r_cow_abs', 'vp_r_doctype', 'vp_render1', 'vp_render2', 'vp_render3', 'vp_r_option_z', 'vp_r_option_l', 'vp_r_option_ref', 'vp_r_option_zref', 'vp_r_option_str', 'vp_r_option_string', 'vp_r_option_bool', 'vp_r_option_char', 'vp_r_option3', 'vp_r_cow_z', 'vp_r_cow_l', 'vp_r_option_cow'],
 'C09': ['vp_r_arguments', 'vp_disp'],
 'C10': ['vp_iter', 'vp_iter_from', 'vp_iter_del', 'vp_iter_del_str', 'vp_iter_del_string', 'vp_iter_lines', 'vp_iter_z', 'vp_iter_l', 'vp_iter_del_z', 'vp_iter_del_l', 'vp_iter_lines_z'],
 'C11': ['vp_raw', 'vp_raw_str', 'vp_raw_string', 'vp_raw_from', 'vp_iter_del', 'vp_iter_del_str'],
}

# ---- pairs of a macro and its documented meaning -------------------------------------------------
def norm_log(mode, lg):
    v = list(lg); key = lambda e: e[1]
    if mode == 'group':
        a = 0
        while a < len(v):
            b = a
            while b < len(v) and v[b][0] == v[a][0] and v[b][1] // 100 == v[a][1] // 100: b += 1
            v[a:b] = sorted(v[a:b], key=key); a = b
    elif mode in ('unordered', 'restorder'):
        a = 0
        while a < len(v):
            if v[a][0] == 'mark': a += 1; continue
            b = a
            while b < len(v) and v[b][0] == 'eval': b += 1
            rest = [e for e in v[a:b] if mode == 'restorder' and 20 <= e[1] < 50]
            v[a:b] = sorted([e for e in v[a:b] if e not in rest], key=key) + rest; a = b
    elif mode == 'sorted': v.sort(key=lambda e: (e[0], e[1]))
    return v

TEXT = 'the macro renders exactly the text of the plain reference code'
LOG = 'the macro evaluates the same expressions, as often and in the specified order'
PANIC = 'the macro does not panic where the reference does not'
def pair(ex, prog, i, mode):
    """both functions of pair i, for all arguments and all results of the evaluated expressions"""
    m, q = f'vp_m_{i}', f'vp_q_{i}'
    if m not in prog.roots or q not in prog.roots: raise Unsupported('no such pair')
    tys, names, isbuf, shapes = arg_shapes(ex, prog, m)
    for shape in shapes:
        st0 = State.new()
        blobs, args, bid, base = setup(ex, prog, st0, tys, names, isbuf, shape)
        def outs(root):
            return ex.run([ex.start(st0.copy(), prog.roots[root], [dict(b) for b in blobs])])
        rec = ex.rec
        ex.rec = False
        try: Q = outs(q)
        finally: ex.rec = rec
        M = outs(m)
        n0 = len(st0.pc)
        for o in M:
            s = o[1]
            for p in Q:
                t = p[1]
                cs = [c for c in t.pc[n0:] if not any(c is d for d in s.pc[n0:])]
                js = s.copy(); js.pc = list(s.pc) + cs
                if cs and ex.smt.check(branch_conds(ex, s.pc + cs), [], quick=True) == 'unsat': continue
                for k, ob in t.mem.items():
                    if k not in js.mem: js.mem[k] = ob
                if o[0] == 'panic' or p[0] == 'panic':
                    if p[0] != 'panic': ex.oblige(js, False, PANIC)
                    continue
                if not getattr(ex, 'covers', 0) and ex.smt.check(js.pc, [], quick=True) != 'unsat': ex.covers = 1
                if ('buf', bid) not in s.g: ex.oblige(js, False, 'the buffer stays with the caller'); continue
                want = absbuf.committed(ex, t, bid)
                same_cases(ex, js, absbuf.committed(ex, s, bid), [(True, want)], TEXT)
                a, b = norm_log(mode, s.g.get('log', ())), norm_log(mode, t.g.get('log', ()))
                ex.oblige(js, a == b, LOG)
            if o[0] == 'return': leak(ex, s, set())

def branch_conds(ex, cs):
    """the conditions that do not only bound lengths and capacities"""
    return [c for c in cs if not any('!' in v or v.startswith(('len', 'cap')) for v in ex.smt.vars(c))]

def pairs(path, todo, budget=240, each=20):
    """todo: list of (index, mode) -> Result; per pair verdicts in .pairs {index: (verdict, text)}"""
    t0 = time.time()
    prog = mir.Prog(path)
    res = Result('pairs'); res.pairs = {}
    for i, mode in todo:
        t1 = time.time()
        if t1 - t0 > budget: res.pairs[i] = ('undecided', 'time budget exhausted'); continue
        if sum(v == 'violated' for v, _ in res.pairs.values()) >= 2: res.pairs[i] = ('undecided', 'not examined after violations'); continue
        ex = client_ex(prog, each)
        err = None
        try: pair(ex, prog, i, mode)
        except (Unsupported, NeedChar) as e: err = f'unsupported: {e}'
        except Budget: err = 'time budget exhausted'
        except Stuck: err = 'stuck'
        except (KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception, RecursionError) as e:
            err = f'engine: {type(e).__name__}: {e} ' + ' / '.join(l.strip() for l in traceback.format_exc().strip().split('\n')[-6:])
        if not err and not getattr(ex, 'covers', 0) and not ex.failures: err = 'vacuous'
        bad = [f for f in ex.failures if f.verdict == 'sat' and not f.abstracted and f.what in (TEXT, LOG, PANIC)]
        if bad: res.pairs[i] = ('violated', f'{bad[0].what} @ {bad[0].loc} model={str(bad[0].model)[:300]}')
        elif err or ex.failures: res.pairs[i] = ('undecided', err or f'{ex.failures[0].verdict}: {ex.failures[0].what}')
        else: res.pairs[i] = ('proved', '')
        res.take(ex); res.assumed = getattr(res, 'assumed', set()) | set(ex.assumed)
        res.slow = max(getattr(res, 'slow', 0), time.time() - t1)
    res.failures = []; res.secs = time.time() - t0
    return res
