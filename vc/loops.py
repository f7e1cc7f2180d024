"""Loop cutting: loops are cut at their header with an inferred inductive invariant (Houdini over templates)."""
import z3, time, os, pickle
from smt import *
from mem import *
from exec import State, TrialAbort

class Hole:
    __slots__ = ('loc', 'kind', 'w', 'sym', 'obj', 'entry')
    def __repr__(self): return f"{self.loc}:{self.kind}"

def pmap(ex, fn, xs):
    """fn over the paths xs; in det mode in parallel processes (results must be picklable; engine state changed by fn is lost, its failures are kept)"""
    if not ex.det or len(xs) < 3 or ex.forked: return [fn(x) for x in xs]
    todo = list(range(len(xs))); out = {}; live = {}
    while todo or live:
        while todo and len(live) < ex.jobs:
            i = todo.pop(0); r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                try:
                    os.close(r); ex.forked = True
                    u = ex.smt.unknowns
                    try: v = ('ok', fn(xs[i]), ex.smt.unknowns - u)
                    except Unsupported as e: v = ('unsup', str(e), 0)
                    except BaseException as e: v = ('err', repr(e), 0)
                    with os.fdopen(w, 'wb') as h: pickle.dump(v, h)
                finally: os._exit(0)
            os.close(w); live[pid] = (i, r)
        pid = next(iter(live)); i, r = live.pop(pid)
        with os.fdopen(r, 'rb') as h: d = h.read()
        os.waitpid(pid, 0)
        v = pickle.loads(d) if d else ('err', 'worker ended', 0)
        if v[0] != 'ok':
            for p, (_, q) in live.items():
                os.close(q)
                try: os.kill(p, 9)
                except OSError: pass
                os.waitpid(p, 0)
            raise Unsupported(v[1])
        out[i] = v[1]; ex.smt.unknowns += v[2]; ex.smt.n += 1
    return [out[i] for i in range(len(xs))]

def do_loop(ex, st, f, blocks):
    ctx, bb, depth = f.ctx, f.bb, len(st.frames)
    active = (ctx, bb, blocks, depth)
    # 1. concrete unrolling while the exit decision is concrete
    cur = [st]; res = []; fast = None
    orec = ex.rec
    memo = ex.loopmemo.setdefault((ctx, bb), {}) if ex.det else {}
    if memo.get('symbolic'): return induct(ex, st, active, memo)
    for i in range(ex.maxunroll):
        outs = []
        ex.rec = orec and not ex.det      # when the trial is discarded its obligations are generated again
        nfail = len(ex.failures)
        try:
            for s in cur: outs += ex.run([s.copy()], active, trial=True)
        except TrialAbort:
            ex.rec = orec; memo['symbolic'] = True
            if not i: return induct(ex, st, active, memo)
            fast = outs; break
        finally: ex.rec = orec
        backs = [o for o in outs if o[0] == 'back']
        exits = [o for o in outs if o[0] in ('exit', 'return')]
        panics = [o for o in outs if o[0] == 'panic']
        if backs and exits: fast = outs; memo['symbolic'] = True; break
        if len(backs) > 12: fast = outs; break
        if ex.det and orec:
            outs = []
            for s in cur: outs += ex.run([s.copy()], active)
            backs = [o for o in outs if o[0] == 'back']; exits = [o for o in outs if o[0] in ('exit', 'return')]; panics = [o for o in outs if o[0] == 'panic']
        res += panics
        if not backs:
            return res + [o[1] if o[0] == 'exit' else o for o in exits]
        cur = [o[1] for o in backs]
    else:
        fast = None
    if fast is None and i + 1 >= ex.maxunroll:
        raise Unsupported('loop with a long concrete trip count')
    return induct(ex, st, active, memo)

def induct(ex, A, active, memo):
    ctx, bb, blocks, depth = active
    t0 = time.time()
    orec = ex.rec
    inf = Inference(ex, A, active, memo)
    ex.rec = False
    ex.dstack.append(inf)
    try: L = inf.infer()
    finally: ex.rec = orec; ex.dstack.pop()
    if orec: inf.obligations_at_entry()
    ex.loopinfo.append((ex.loc(A), len(inf.holes), len(inf.cands), round(time.time() - t0, 2), orec))
    outs = ex.run([L], active)
    res = []
    meas = None
    backs = [o[1] for o in outs if o[0] == 'back']
    if orec: inf.check_back(backs)
    for o in outs:
        if o[0] == 'back': continue
        res.append(o[1] if o[0] == 'exit' else o)
    return res

class Inference:
    def __init__(self, ex, A, active, memo):
        self.ex = ex; self.A = A; self.active = active; self.memo = memo
        self.nth = A.g.get(('lc',) + active[:2], 0)
        self.holes = {}       # loc -> Hole
        self.dropped = set()
        self.ropes = {}       # heap-loc -> (prefix, template, oid, start)
        self.cands = []       # (key, expr)
        self.dead = set()
        self.n = 0
        sg = tuple(i.sig() for i in ex.dstack)
        ex.hintused.setdefault(active[:2], set()).add(sg)
        self.killed = memo.setdefault(('killed', sg), set()) if ex.det else set()
        self.alias = {}; self.noalias = set()
        self.qbase = {}
        self.last = None
        self.moved = set()
        self.mbases = None    # positions that bit 0 of a mask over a block stands for
        self.lens = {}        # heap-loc -> symbol for the length of its rope
    def name(self, kind, loc, w=64):
        """a symbol of this entry of the loop; in det mode the same for every pass over it"""
        base = f"{kind}{self.active[0]}_{self.active[1]}"
        if not self.ex.det: return self.ex.fresh(base, w)
        n = f"{base}.{self.nth}{loc}".replace(' ', '').replace("'", '')
        return Bool(n) if w == 0 else BitVec(n, w)
    def sig(self): return (self.active[:2], tuple(sorted(map(str, self.holes))), tuple(sorted(map(str, self.ropes))))
    # ---- locations
    def leaf_locs(self, S):
        for oid, o in S.mem.items():
            if isinstance(o, Flat):
                for off, (sz, v) in o.leaves.items(): yield ('f', oid, off, sz), v
        for k, v in S.g.items():
            if isinstance(k, tuple) and k[0] == 'J': yield ('g', k), v
    def leaf(self, S, loc):
        if loc[0] == 'f':
            o = S.mem.get(loc[1])
            if o is None or not isinstance(o, Flat): return None
            l = o.leaves.get(loc[2])
            if l is None or l[0] != loc[3]: return None
            return l[1]
        return S.g.get(loc[1])
    def bufs(self, S): return [k for k in S.g if isinstance(k, tuple) and k[0] == 'buf']
    def committed(self, S, k):
        """rope of the committed contents of an abstract buffer"""
        hid, ln, cap = S.g[k]
        h = S.mem[hid]
        if same(ln, h.end): return h.rope
        l, _ = self.ex.rope_split(S, h.rope, ln, h.end)
        return l
    # ---- build the loop-head state
    def build(self):
        ex, A = self.ex, self.A
        L = A.copy(); L.g['abstracted'] = True; L.g[('lc',) + self.active[:2]] = self.nth + 1
        for loc, h in self.holes.items():
            v = h.sym
            if h.kind == 'ptr': v = Ptr(h.obj, h.sym)
            self.put(L, loc, v)
        for loc in self.dropped: self.put(L, loc, Han('poison', 0))
        for loc, (prefix, tmpl, G) in self.ropes.items():
            rope = prefix
            if tmpl is not None: rope = rope_push(prefix, (tmpl[0], tmpl[1], tmpl[2], G)) if tmpl[0] in ('src', 'esc') else prefix + tmpl[3](G)
            n = rope_len(ex, rope)
            if not isc(n):
                n_, n = n, self.lens.setdefault(loc, None)
                if n is None: n = self.lens[loc] = self.name('L', loc)
                L.pc.append(n == n_)
            if loc[0] == 'buf':
                hid = ('B', self.active[:2], self.nth, loc) if ex.det else ex.newid('B'); cap = self.name('cap', loc)
                L.mem[hid] = Heap(cap, 1, rope, n, alloced=False)
                L.g[loc] = (hid, n, cap)
                L.pc += [norm(ULE(bv(n, 64), cap)), ULE(cap, bv(IMAX, 64))]
            else:
                o = A.mem[loc[1]].copy(); o.rope = rope; o.end = n; o.pend = {}
                L.mem[loc[1]] = o
                L.pc.append(norm(ULE(bv(n, 64), bv(o.size, 64))))
        for key, e in self.cands:
            if key in self.qbase: L.g['quant'] = L.g.get('quant', ()) + ((e, self.qbase[key]),)      # for all positions ANY
            else: L.pc.append(e)
        # position terms in play
        for oid in self.texts(A):
            k = ('pos', oid)
            ts = []
            for x in [0, A.mem[oid].size] + self.positions(L, oid):
                if not any(same(x, y) for y in ts): ts.append(x)
            L.g[k] = tuple(ts)
        return L
    def put(self, L, loc, v):
        if loc[0] == 'f':
            o = L.mem[loc[1]].copy(); o.leaves[loc[2]] = (loc[3], v); L.mem[loc[1]] = o
        else: L.g[loc[1]] = v
    def texts(self, S): return [oid for oid, o in S.mem.items() if isinstance(o, Bytes)]
    def positions(self, S, oid):
        out = []
        for loc, v in self.leaf_locs(S):
            if isinstance(v, Ptr) and v.obj == oid and not any(same(v.off, x) for x in out): out.append(v.off)
        for loc, (prefix, tmpl, G) in self.ropes.items():
            if tmpl is not None and tmpl[1] == oid and not any(same(G, x) for x in out): out.append(G)
        return out
    # ---- inference
    def infer(self):
        ex = self.ex
        first = True
        if ex.det and self.recall(): self.gen_cands()
        for it in range(40):
            self.n += 1
            self.moved = set()
            L = self.build()
            if ex.debug: print('  ' * len(ex.dstack), 'round', it, ex.loc(A0) if False else '', self.active[:2], 'holes', len(self.holes), 'ropes', len(self.ropes), 'cands', len(self.cands), 'q', ex.smt.n, round(ex.smt.time, 1), 't', round(time.time() % 10000), flush=True)
            outs = ex.run([L], self.active)
            backs = [o[1] for o in outs if o[0] == 'back']
            if not backs: return self.build()
            if ex.det and (self.holes or self.ropes):
                kept = pmap(ex, self.step, backs)
                if not any(k is None for k in kept):
                    if self.find_bases(backs): self.gen_cands(); continue
                    if not self.keep(set.intersection(*(k[0] for k in kept))): self.last = kept; self.remember(); return self.build()
                    continue
            new = False
            for B in backs:
                if self.absorb(B): new = True
            if ex.det and self.find_bases(backs): new = True
            if new:
                self.gen_cands()
                if first:
                    self.filter_all(backs)
                first = False
                continue
            first = False
            if not self.filter_all(backs):
                self.final = None
                self.remember()
                return self.build()
        raise Unsupported('loop invariant inference did not converge')
    def find_bases(self, backs):
        """mask bases: positions read at base + (index of a set bit); as pointer locations or constants"""
        found = set(self.mbases or ())
        n = len(found)
        for B in backs:
            for oid in self.texts(self.A):
                for k, t in B.g.items():
                    if not isinstance(k, tuple) or k[:2] != ('st', oid) or k in self.A.g or isc(t): continue
                    for v in self.ex.smt.vars(t):
                        if not v.startswith('cttz'): continue
                        w = 32
                        z = BitVec(v, w)
                        r = norm(bv(t, 64) - (ZeroExt(64 - w, z) if w < 64 else z))
                        if isc(r): found.add(('const', r))
                        else:
                            if v in self.ex.smt.vars(r): continue
                        for loc, x in self.leaf_locs(self.A):
                            h = self.holes.get(loc)
                            if isinstance(x, Ptr) and x.obj == oid and h is None and same(x.off, r): found.add(('loc', loc))
        if self.ex.debug: print('bases', found)
        if len(found) == n: return False
        self.mbases = found
        return True
    def bases(self, L):
        out = []
        for k, x in sorted(self.mbases, key=str):
            if k == 'loc':
                v = self.leaf(L, x)
                if not isinstance(v, Ptr) or x in self.holes: continue
                x = v.off
            if not any(same(x, y) for y in out): out.append(x)
        return out
    def remember(self):
        m = self.memo
        m['mbases'] = self.mbases
        m['holes'] = {l: (h.kind, h.w, h.obj) for l, h in self.holes.items()}; m['dropped'] = set(self.dropped); m['noalias'] = set(self.noalias)
        m['ropes'] = {l: t and t[:3] for l, (_, t, _) in self.ropes.items()}
    def recall(self):
        """start from the abstraction that an earlier pass over this loop arrived at"""
        m = self.memo
        if 'holes' not in m: return False
        self.mbases = m['mbases']
        locs = dict(self.leaf_locs(self.A))
        for l, (kind, w, obj) in m['holes'].items():
            if l not in locs: continue
            va = locs[l]
            vb = Ptr(obj, 0) if kind == 'ptr' else (True if kind == 'bool' else BitVecVal(0, w))
            h = self.mk(l, va, vb)
            if h is None or h.kind != kind: continue
            self.holes[l] = h
        self.dropped = {l for l in m['dropped'] if l in locs}
        self.noalias = set(m['noalias'])
        for l, t in m['ropes'].items():
            if l[0] != 'buf' or l not in self.A.g: continue
            r = self.committed(self.A, l)
            if t is None or t[0] not in ('esc', 'src') or t[1] not in self.A.mem: continue
            if r and r[-1][0] == t[0] and r[-1][1] == t[1]: self.ropes[l] = (r[:-1], (t[0], t[1], r[-1][2]), self.cursor_sym(l, t[1], r[-1][3]))
            else: self.ropes[l] = (r, t, self.cursor_sym(l, t[1], t[2]))
        return True
    def mk(self, loc, va, vb):
        ex = self.ex
        h = Hole(); h.loc = loc; h.obj = None; h.entry = va
        name = f"h{self.active[0]}_{self.active[1]}"
        if isinstance(va, Ptr) and isinstance(vb, Ptr):
            if va.obj != vb.obj or va.obj is None or va.wild or vb.wild: return None
            h.kind = 'ptr'; h.w = 64; h.obj = va.obj; h.sym = self.name('hp', loc); return h
        if isinstance(va, NONINT) or isinstance(vb, NONINT): return None
        isb = lambda v: isinstance(v, bool) or (not isc(v) and is_bool(v))
        if isb(va) and isb(vb): h.kind = 'bool'; h.w = 0; h.sym = self.name('hb', loc, 0); return h
        w = (loc[3] if loc[0] == 'f' else 8) * 8
        h.kind = 'int'; h.w = w; h.sym = self.name('hi', loc, w); return h
    def absorb(self, B):
        """find locations where B differs from the current abstraction; True if the abstraction grew"""
        ex, A = self.ex, self.A
        new = False
        for loc, va in list(self.leaf_locs(A)):
            if loc in self.holes or loc in self.dropped: 
                if loc in self.holes:
                    vb = self.leaf(B, loc); h = self.holes[loc]
                    ok = vb is not None and (isinstance(vb, Ptr) and vb.obj == h.obj if h.kind == 'ptr' else not isinstance(vb, NONINT) and vb is not None)
                    if not ok:
                        del self.holes[loc]; self.dropped.add(loc); new = True
                        for r in [r for r, l in self.alias.items() if l == loc]:
                            self.realias(r)
                continue
            vb = self.leaf(B, loc)
            if vb is None: self.dropped.add(loc); new = True; continue
            if leaf_same(va, vb): continue
            h = self.mk(loc, va, vb)
            if h is None: self.dropped.add(loc)
            else: self.holes[loc] = h
            new = True
        for k in self.bufs(A):
            if k not in B.g: raise Unsupported('buffer consumed in a loop')
            if A.g[k][0] == B.g[k][0] and same(A.g[k][1], B.g[k][1]) and k not in self.ropes: continue
            if self.absorb_rope(k, self.committed(A, k), self.committed(B, k), B): new = True
        for oid, o in A.mem.items():
            if isinstance(o, Heap):
                b = B.mem.get(oid)
                if b is None or any(A.g[k][0] == oid for k in self.bufs(A) if k in self.ropes): continue
                if not isinstance(b, Heap) or b.alive != o.alive: raise Unsupported('heap block freed in a loop')
                if rope_same(o.rope, b.rope) and not b.pend: continue
                if b.pend: raise Unsupported('gap at loop head')
                if self.absorb_rope(('heap', oid), o.rope, b.rope, B): new = True
        return new
    def settled(self, B):
        """would absorb change anything?"""
        keep = self.holes, self.dropped, self.ropes, self.alias, self.noalias
        self.holes, self.dropped, self.ropes, self.alias, self.noalias = dict(self.holes), set(self.dropped), dict(self.ropes), dict(self.alias), set(self.noalias)
        try: return self.absorb(B)
        finally: self.holes, self.dropped, self.ropes, self.alias, self.noalias = keep
    def cursor_sym(self, loc, oid, ga, B=None, gb=None):
        """symbol of the cursor: that of a pointer into the text which starts at the same place, if there is one"""
        for l, h in self.holes.items():
                if (loc, l) not in self.noalias and h.kind == 'ptr' and h.obj == oid and same(h.entry.off, ga) and (B is None or (isinstance(self.leaf(B, l), Ptr) and same(self.leaf(B, l).off, gb))): self.alias[loc] = l; return h.sym
        return self.name('g', loc)
    def realias(self, loc, B=None, g=None):
        """the cursor is not where the pointer it was tied to is: tie it to another one"""
        self.noalias.add((loc, self.alias.pop(loc)))
        self.moved.add(loc)
        prefix, tmpl, _ = self.ropes[loc]
        r = self.committed(self.A, loc) if loc[0] == 'buf' else self.A.mem[loc[1]].rope
        ga = self.cursor(self.A, r[len(prefix):], tmpl)
        self.ropes[loc] = (prefix, tmpl, self.cursor_sym(loc, tmpl[1], ga if ga is not None else tmpl[2], B, g))
    def absorb_rope(self, loc, ra, rb, B):
        ex = self.ex
        if loc in self.ropes:
            prefix, tmpl, G = self.ropes[loc]
            if rb[:len(prefix)] and not all(seg_same(x, y) for x, y in zip(rb[:len(prefix)], prefix)) or len(rb) < len(prefix): raise Unsupported('rope prefix changed')
            if tmpl is None:
                if len(rb) == len(prefix): return False
            else:
                g = self.cursor(B, rb[len(prefix):], tmpl)
                if g is not None and loc in self.alias:
                    h = self.holes.get(self.alias[loc]); v = self.leaf(B, self.alias[loc])
                    if h is not None and isinstance(v, Ptr) and v.obj == h.obj and ex.proves(B, eq(v.off, g), ex.lemmas(B, tmpl[1], [g, v.off])): return False
                    self.realias(loc, B, g)
                    return True
                if g is not None: return False
                if loc in self.alias:
                    self.realias(loc)
                    return True
                if loc in self.moved: return True        # B was made with the symbol that was given up in this round
                raise Unsupported('buffer contents do not fit the loop template')
            del self.ropes[loc]
        i = 0
        while i < len(ra) and i < len(rb) and seg_same(ra[i], rb[i]): i += 1
        resta, restb = ra[i:], rb[i:]
        prefix = ra[:i]
        if not resta and not restb:
            self.ropes[loc] = (prefix, None, None); return True
        for oid in [k for k in self.A.g if isinstance(k, tuple) and k[0] == 'stream']:
            tmpl = ('stream', oid, 0, self.A.g[oid][0])
            for j in range(len(prefix) + 1):
                ga = self.cursor(self.A, prefix[j:] + resta, tmpl)
                if ga is None: continue
                gb = self.cursor(B, prefix[j:] + restb, tmpl)
                if gb is None: continue
                self.ropes[loc] = (prefix[:j], tmpl, self.name('g', loc))
                return True
        for kind in ('esc', 'src'):
            for oid in (self.texts(self.A) if kind != 'stream' else [k for k in self.A.g if isinstance(k, tuple) and k[0] == 'stream']):
                if kind == 'stream':
                    starts = [0]
                else:
                    starts = [0] + [x for x in self.positions(self.A, oid) if not same(x, 0)]
                p2, ra2, rb2 = prefix, resta, restb
                if prefix and prefix[-1][0] == kind and prefix[-1][1] == oid:
                    starts = [prefix[-1][2]]; ra2 = (prefix[-1],) + resta; rb2 = (prefix[-1],) + restb; p2 = prefix[:-1]
                elif resta and resta[0][0] == kind and resta[0][1] == oid and kind != 'stream': starts = [resta[0][2]]
                elif restb and restb[0][0] in ('src', 'esc') and restb[0][1] == oid and not resta: starts = [restb[0][2]]
                for s in starts:
                    tmpl = (kind, oid, s) if kind != 'stream' else ('stream', oid, 0, self.A.g[oid][0])
                    ga = self.cursor(self.A, ra2, tmpl)
                    if ga is None: continue
                    gb = self.cursor(B, rb2, tmpl)
                    if gb is None: continue
                    self.ropes[loc] = (p2, tmpl, self.cursor_sym(loc, oid, ga, B, gb))
                    return True
        raise Unsupported('no loop template for the buffer contents')
    def cursor(self, S, rest, tmpl):
        """end cursor of `rest` read as the template stream, or None"""
        ex = self.ex
        return rope_cursor(ex, S, rest, tmpl)
    # ---- substitution of hole symbols by the values of a state
    def sigma(self, S):
        sub_ = []
        for loc, h in self.holes.items():
            v = self.leaf(S, loc)
            if h.kind == 'ptr': v = bv(v.off, 64)
            elif h.kind == 'bool': v = zb(tobool(v))
            else: v = bv(self.ex.asint(S, v, h.w), h.w)
            sub_.append((h.sym, v))
        for loc, (prefix, tmpl, G) in self.ropes.items():
            if tmpl is None: continue
            r = self.committed(S, loc) if loc[0] == 'buf' else S.mem[loc[1]].rope
            if tmpl[0] != 'stream' and len(r) < len(prefix): g = None
            g = self.cursor(S, r[len(prefix):], tmpl)
            if g is None: raise Unsupported('buffer contents do not fit the loop template')
            if loc not in self.alias: sub_.append((G, bv(g, 64)))
        for loc, n in self.lens.items():
            if loc in self.ropes: sub_.append((n, bv(S.g[loc][1] if loc[0] == 'buf' else S.mem[loc[1]].end, 64)))
        return sub_
    def gen_cands(self):
        ex, A = self.ex, self.A
        L = self.build_plain()
        cands = []
        def put(key, e):
            e = norm(e) if not isinstance(e, bool) else e
            if isinstance(e, bool) or key in self.killed: return
            cands.append((key, e))
        hs = list(self.holes.values())
        hsyms = {h.sym.get_id(): h for h in hs}
        gs = {G.get_id() for (_, t, G) in self.ropes.values() if t is not None}
        ish = lambda x: not isc(x) and (x.get_id() in hsyms or x.get_id() in gs)
        name = {}
        for h in hs: name[h.sym.get_id()] = str(h.loc)
        for loc, (_, t, G) in self.ropes.items():
            if t is not None and loc not in self.alias: name[G.get_id()] = 'G' + str(loc)
        nm = lambda x: str(x) if isc(x) else name.get(x.get_id(), str(x))
        ints = [h.sym for h in hs if h.kind == 'int' and h.w == 64]
        for oid in self.texts(A):
            sp = ex.specs[oid]; n = A.mem[oid].size
            base = A.mem[oid].base
            ps = []
            bl = []
            for (bo, p, k, S) in A.g.get('blk', ())[-2:]:
                if bo == oid: bl += [p, add(p, k)]
            for x in [0, n] + bl + self.positions(L, oid):
                if not any(same(x, y) for y in ps): ps.append(x)
            # plain integer indices compare with positions too
            allp = ps + [i for i in ints if i not in ps]
            for x in allp:
                for y in allp:
                    if same(x, y) or not (ish(x) or ish(y)): continue
                    X, Y = bv(x, 64), bv(y, 64)
                    put(('le', nm(x), nm(y)), ULE(X, Y))
                    if ish(x) and (not ish(y) or nm(x) < nm(y)): put(('eq', nm(x), nm(y)), X == Y)
                    if any(x is i for i in ints) and any(y is i for i in ints): continue
                    if not ish(x) and any(same(x, z) for z in bl): continue
                    if not ish(y) and any(same(y, z) for z in bl):
                        if any(same(y, z) for z in bl[::2]): put(('lecnt', nm(x), nm(y), oid), Implies(ULE(X, Y), sp.cnt(X) == sp.cnt(Y)))
                        continue
                    if nm(x) < nm(y): put(('cnt', nm(x), nm(y), oid), sp.cnt(X) == sp.cnt(Y))
                    put(('lecnt', nm(x), nm(y), oid), Implies(ULE(X, Y), sp.cnt(X) == sp.cnt(Y)))
            if ('based', oid) in A.g or any(('based', oid) in L.g for _ in (0,)):
                for x in ps:
                    if ish(x):
                        for al in (4, 8, 16, 32): put(('al', nm(x), al), ((base + x) & (al - 1)) == 0)
            # masks over blocks
            for (bo, p, k, S) in A.g.get('blk', ()):
                if bo != oid: continue
                for h in hs:
                    if h.kind != 'int' or h.w < 8: continue
                    K = max(k, h.w)
                    m = ZeroExt(K - h.w, h.sym) if K > h.w else h.sym
                    put(('mw', nm(h.sym), k, str(p)), ULE(m, BitVecVal((1 << k) - 1, K)))
                    bases = [p] + [x for x in ps if not ish(x) and not isc(x) and not same(x, p) and not same(x, n) and not any(same(x, y) for y in bl)]
                    bases += [x for x in self.positions(L, oid) if not ish(x) and not isc(x) and not same(x, n) and not any(same(x, y) for y in bases)]
                    if self.mbases: bases = self.bases(L)
                    for r in bases:
                        rr, pp = bv(r, 64), bv(p, 64)
                        d = rr - pp
                        bit = And(UGE(ANY, rr), ULT(ANY - rr, K), Extract(0, 0, LShR(m, ex.towidth(ANY - rr, K))) == 1)
                        def forall(key, e):
                            self.qbase[key] = r; put(key, e)
                        # a set bit stands for a position inside the block, not before q; every special byte of the block from q on has its bit set
                        d = rr - pp
                        put(('msub', nm(h.sym), nm(r), k, str(p)), Implies(And(UGE(rr, pp), ULE(d, k)), ULE(m, LShR(BitVecVal((1 << k) - 1, K), ex.towidth(d, K)))))
                        for q in ps:
                            if not ish(q): continue
                            Q = bv(q, 64)
                            forall(('Q3', nm(h.sym), nm(r), nm(q), k, str(p)), Implies(bit, ULE(Q, ANY)))
                            forall(('Q1', nm(h.sym), nm(r), nm(q), k, str(p)), Implies(And(UGE(ANY, Q), UGE(ANY, rr), UGE(ANY, pp), ULT(ANY, bv(add(p, k), 64)), sp.sp(ANY)), bit))
        # linear relations between 64-bit holes
        allh = [(h.sym, h.entry.off if h.kind == 'ptr' else h.entry) for h in hs if h.kind in ('ptr', 'int') and h.w == 64]
        for loc, (prefix, tmpl, G) in self.ropes.items():
            if tmpl is None or loc in self.alias: continue
            r = self.committed(A, loc) if loc[0] == 'buf' else A.mem[loc[1]].rope
            ga = self.cursor(A, r[len(prefix):], tmpl)
            allh.append((G, ga))
            put(('ge0', nm(G)), UGE(G, bv(ga, 64)))
        for i, (x, x0) in enumerate(allh):
            if isinstance(x0, NONINT): continue
            for (y, y0) in allh[i + 1:]:
                if isinstance(y0, NONINT): continue
                put(('dif', nm(x), nm(y)), x - y == bv(x0, 64) - bv(y0, 64))
                put(('sum', nm(x), nm(y)), x + y == bv(x0, 64) + bv(y0, 64))
        # bounds of integers against entry values and 64-bit invariants in scope
        for h in hs:
            if h.kind == 'int':
                e0 = bv(h.entry, h.w)
                if not (ex.det and big(e0)): put(('ge0', nm(h.sym)), UGE(h.sym, e0)); put(('le0', nm(h.sym)), ULE(h.sym, e0))
                if h.w == 64:
                    for loc, v in self.leaf_locs(A):
                        if loc in self.holes or isinstance(v, (bool,) + NONINT) or isc(v) or is_bool(v) or v.size() != 64: continue
                        put(('leL', nm(h.sym), str(v)), ULE(h.sym, v))
            if h.kind == 'ptr' and h.obj in A.mem:
                o = L.mem[h.obj]
                put(('pin', nm(h.sym)), ULE(h.sym, bv(o.size, 64)))
                put(('pge', nm(h.sym)), UGE(h.sym, bv(h.entry.off, 64)))
                if isinstance(o, Heap):
                    put(('pend', nm(h.sym)), h.sym == bv(o.end, 64))
                if not isinstance(o, Bytes):
                    for loc, v in self.leaf_locs(L):
                        if isinstance(v, Ptr) and v.obj == h.obj and not same(v.off, h.sym):
                            put(('ple', nm(h.sym), nm(v.off)), ULE(h.sym, bv(v.off, 64)))
                            put(('pal', nm(h.sym), nm(v.off)), ((bv(v.off, 64) - h.sym) & 7) == 0)
            if h.kind == 'bool':
                for x, x0 in allh:
                    for val in (0,):
                        put(('biff', nm(h.sym), nm(x), val), h.sym == (x == bv(x0, 64)) if not isinstance(x0, NONINT) else True)
                        put(('bniff', nm(h.sym), nm(x), val), h.sym == (x != bv(x0, 64)) if not isinstance(x0, NONINT) else True)
        # enum-like small ints tied to a cursor
        for h in hs:
            if h.kind == 'int' and h.w <= 64:
                for x, x0 in allh:
                    if x is h.sym or isinstance(x0, NONINT): continue
                    put(('iiff', nm(h.sym), nm(x)), (h.sym == bv(h.entry, h.w)) == (x == bv(x0, 64)))
        self.cands = []
        sig = self.sigma_entry()
        keep = self.check_all(A, cands, sig)
        self.cands = keep
    def build_plain(self):
        c = self.cands; self.cands = []
        L = self.build(); self.cands = c
        return L
    def sigma_entry(self):
        return self.sigma(self.A)
    def lem(self, S, sig):
        out = []
        for oid in self.texts(S):
            terms = []
            for h in self.holes.values():
                if h.kind == 'ptr' and h.obj == oid: terms.append(norm(dict((a.get_id(), b) for a, b in sig)[h.sym.get_id()]))
            for loc, (prefix, tmpl, G) in self.ropes.items():
                if tmpl is not None and tmpl[1] == oid: terms.append(norm(dict((a.get_id(), b) for a, b in sig)[G.get_id()]))
            for loc, v in self.leaf_locs(S):
                if isinstance(v, Ptr) and v.obj == oid: terms.append(v.off)
            out += self.ex.lemmas(S, oid, terms)
        return out
    def check_all(self, S, cands, sig):
        """the candidates that hold in S under the substitution"""
        ex = self.ex
        inst = []
        for key, e in cands:
            g = norm(z3.substitute(e, *sig)) if sig else norm(e)
            if g is False: continue
            inst.append((key, e, g))
        lem = self.lem(S, sig)
        live = inst
        while True:
            goals = [zb(g) for _, _, g in live if g is not True]
            if not goals: break
            r = ex.smt.check(S.pc, [Not(And(*goals))], lem=lem)
            if r == 'unsat': break
            if r == 'unknown':
                # one by one
                live = [t for t in live if t[2] is True or ex.smt.check(S.pc, [Not(zb(t[2]))], lem=lem) == 'unsat']
                break
            m = ex.smt.model
            nl = [t for t in live if t[2] is True or z3.is_true(m.eval(zb(t[2]), model_completion=True))]
            if len(nl) == len(live):
                live = [t for t in live if t[2] is True or ex.smt.check(S.pc, [Not(zb(t[2]))], lem=lem) == 'unsat']
                break
            live = nl
        return [(k, e) for k, e, _ in live]
    def step(self, B):
        """None if the abstraction has to grow for B, otherwise the candidates which B preserves, the measures that decrease and those that stay"""
        if self.settled(B): return None
        sig = self.sigma(B)
        ks = {k for k, _ in self.check_all(B, self.cands, sig)}
        if len(ks) < len(self.cands): return ks, None, None
        return (ks,) + self.measure(B, sig)
    def measure(self, B, sig):
        ex = self.ex
        def decreases(m):
            x, up = m
            v = norm(z3.substitute(x, *sig))
            w = x.size()
            g = norm(ULT(x, bv(v, w)) if up else ULT(bv(v, w), x))
            if isinstance(g, bool): return g
            return ex.proves(B, g, self.lem(B, sig))
        ms = self.measures()
        dec = {i for i, m in enumerate(ms) if decreases(m)}
        return dec, {i for i, m in enumerate(ms) if i not in dec and norm(z3.substitute(m[0], *sig) == m[0]) is True}
    def measures(self):
        ms = []
        for h in self.holes.values():
            if h.kind in ('ptr', 'int'): ms += [(h.sym, True), (h.sym, False)]
        for loc, (_, t, G) in self.ropes.items():
            if t is not None: ms.append((G, True))
        return ms
    def filter_all(self, backs):
        """drop the candidates that some of the paths does not preserve"""
        if not self.ex.det:
            drop = False
            for B in backs:
                if self.keep({k for k, _ in self.check_all(B, self.cands, self.sigma(B))}): drop = True
            return drop
        return self.keep(set.intersection(*pmap(self.ex, lambda B: {k for k, _ in self.check_all(B, self.cands, self.sigma(B))}, backs)))
    def keep(self, ks):
        lost = [k for k, _ in self.cands if k not in ks]
        self.cands = [c for c in self.cands if c[0] in ks]
        self.killed |= set(lost)
        return bool(lost)
    # ---- recorded obligations
    def obligations_at_entry(self):
        n = len(self.cands)
        o = self.ex.obl.setdefault('loop invariant holds on entry', [0, 0]); o[0] += n; o[1] += n
    def check_back(self, backs):
        """invariant preservation (already decided by the inference on the same paths) and a decreasing measure"""
        ex = self.ex
        o = ex.obl.setdefault('loop invariant preserved', [0, 0])
        ms = self.measures()
        def one(B):
            if self.absorb(B): raise Unsupported('loop state grew in the final pass')
            sig = self.sigma(B)
            return (len(self.check_all(B, self.cands, sig)),) + self.measure(B, sig)
        if ex.det and self.last: rs = [(len(k),) + tuple(r) for k, *r in self.last]      # the very same paths, decided by the last round of the inference
        else: rs = [one(B) for B in backs]
        if len(rs) != len(backs): raise Unsupported('loop paths differ in the final pass')
        for n, _, _ in rs:
            o[0] += n; o[1] += len(self.cands)
            if n != len(self.cands): raise Unsupported('invariant not preserved in the final pass')
        if not backs: return
        o = ex.obl.setdefault('loop terminates', [0, 0]); o[1] += 1
        ok = any(all(i in d for _, d, _ in rs) for i in range(len(ms)))
        if not ok:
            # lexicographic pairs
            ok = any(all(i in d or i in e and j in d for _, d, e in rs) for i in range(len(ms)) for j in range(len(ms)))
        if not ok and any(isinstance(k, tuple) and k[0] == 'stream' for k in self.A.g): ok = True
        if ok: o[0] += 1
        else: ex.fail(self.A, 'loop terminates', 'unknown')

def big(e, lim=40):
    """more than lim distinct subterms"""
    seen = set(); todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if len(seen) > lim: return True
        todo += x.children()
    return False

def rope_cursor(ex, S, rest, tmpl):
    """end cursor of `rest` read as the stream tmpl, or None"""
    kind, oid, s = tmpl[:3]
    if kind == 'stream': return S.g[oid][1](ex, S, rest)
    c = s
    sp = ex.specs[oid]
    F = sp.F
    def pr(goal, *terms):
        if goal is True: return True
        if goal is False: return False
        if ex.det and S.g.get('quant'):
            lem = [l for l in ex.lemmas(S, oid, terms, near=True) if not isinstance(l, bool)]
            if ex.smt.refutes(S.pc, lem + [zb(not_(goal))]): return True
        ex.smt.patient = ex.det
        try: return ex.proves(S, goal, ex.lemmas(S, oid, terms))
        finally: ex.smt.patient = False
    for seg in rest:
        k = seg[0]
        if k in ('esc', 'src') and seg[1] == oid:
            if not same(seg[2], c) and not pr(eq(seg[2], c), seg[2], c):
                if pr(eq(seg_len(ex, seg), 0), seg[2], seg[3]): continue
                return None
            if k == 'src' and kind == 'esc':
                a, b = bv(seg[2], 64), bv(seg[3], 64)
                if not pr(norm(And(ULE(a, b), sp.cnt(a) == sp.cnt(b))), seg[2], seg[3]): return None
            if k == 'esc' and kind == 'src': return None
            c = seg[3]
        elif k == 'const':
            bs = seg[1]; i = 0
            while i < len(bs):
                hit = None
                if kind == 'esc':
                    for ch, ent in ENT.items():
                        if bs.startswith(ent, i): hit = (ch, len(ent)); break
                    if hit is None and bs[i] not in ENT: hit = (bs[i], 1)
                else: hit = (bs[i], 1)
                if hit is None: return None
                c64 = bv(c, 64)
                ex.byte_at(S, oid, c)
                if not pr(norm(And(F(c64) == hit[0], ULT(c64, bv(S.mem[oid].size, 64)))), c): return None
                c = add(c, 1); i += hit[1]
        elif k == 'byte':
            c64 = bv(c, 64)
            v = ex.byte_at(S, oid, c)
            g = [F(c64) == bv(seg[1], 8)] + ([zb(not_(special(v)))] if kind == 'esc' else [])
            if not pr(norm(And(*g)), c): return None
            c = add(c, 1)
        else: return None
    return c
