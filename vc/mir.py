"""Loader for the JSON MIR dumps written by /verif/driver (mirdump)."""
import json, re

class Ty:
    __slots__ = ('id', 's', 'size', 'align', 'offs', 'var', 'k', 'prog', '_pointee', '_tag')
    def __repr__(self): return f"<{self.s}>"
    @property
    def kind(self): return self.k[0]

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = []
        for i, t in enumerate(d['types']):
            x = Ty(); x.id = i; x.s = t['s']; x.size = t.get('size'); x.align = t.get('align')
            x.offs = t.get('offs'); x.var = t.get('var'); x.k = t['k']; x.prog = self; x._tag = None
            self.types.append(x)
        self.insts = d['insts']
        self.allocs = d['allocs']
        self.roots = {}
        for n, i in d['roots']:
            self.roots[n.split('::')[-1]] = i
        for i, x in enumerate(self.insts):
            x['id'] = i
            x['short'] = strip_generics(x['name'])
        self._loops = {}

    def ty(self, i): return self.types[i]

    def pointee(self, t):
        """pointee type of a ref/ptr/Box type"""
        k = t.k
        if k[0] in ('ref', 'ptr'): return self.types[k[1]]
        if k[0] == 'adt' and k[4]:
            return self.types[k[6][0][1]]
        raise KeyError(t.s)

    def is_unsized(self, t):
        if t.size is not None: return False
        return True

    def is_fat(self, t):
        return t.k[0] in ('ref', 'ptr') and t.size == 16

    def tag_info(self, t):
        """(size, signed) of the tag scalar"""
        if t._tag is None:
            s = t.var['tag']
            m = re.search(r'length: I(\d+), signed: (\w+)', s)
            if m: t._tag = (int(m.group(1)) // 8, m.group(2) == 'true')
            elif 'Pointer' in s: t._tag = (8, False)
            else: raise Exception('tag ' + s)
        return t._tag

    def discr_of(self, t, v):
        if t.k[0] == 'adt':
            d = t.k[3][v]['discr']
            if d is not None: return int(d)
        return v

    def variant_fields(self, t, v):
        return [self.types[f[1]] for f in t.k[3][v]['fields']]

    def loops(self, inst):
        """natural loops of the body: {header: set(blocks)}, plus reverse postorder"""
        if inst in self._loops: return self._loops[inst]
        body = self.insts[inst]['body']
        n = len(body['blocks'])
        succ = [succs(b[1]) for b in body['blocks']]
        order, seen, onst = [], set(), set()
        back = []
        st = [(0, iter(succ[0]))]; seen.add(0); onst.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v in onst: back.append((u, v))
                if v not in seen:
                    seen.add(v); onst.add(v); st.append((v, iter(succ[v]))); break
            else:
                order.append(u); onst.discard(u); st.pop()
        pred = [[] for _ in range(n)]
        for u in seen:
            for v in succ[u]: pred[v].append(u)
        loops = {}
        for u, h in back:
            s = loops.setdefault(h, {h})
            w = [u]
            while w:
                x = w.pop()
                if x in s: continue
                s.add(x); w.extend(pred[x])
        r = (loops, {b: i for i, b in enumerate(reversed(order))})
        self._loops[inst] = r
        return r

def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [b for _, b in t[2]] + [t[3]]
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[5]] if t[5] is not None else []
    if k == 'assert': return [t[4]]
    return []

def strip_generics(s):
    """drop `::<...>` turbofish groups, keep `<impl X for Y>` and `<T as Trait>` heads"""
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith('::<', i):
            d, j = 0, i + 2
            while j < n:
                if s[j] == '<': d += 1
                elif s[j] == '>' and s[j - 1] != '-':
                    d -= 1
                    if d == 0: break
                j += 1
            i = j + 1
            continue
        out.append(s[i]); i += 1
    return ''.join(out)
