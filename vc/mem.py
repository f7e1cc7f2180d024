"""Memory model: byte-addressed objects, pointers are (object, offset)."""
import z3
from smt import *

class Unsupported(Exception): pass
class Stuck(Exception):
    """the path ends here (obligation failed outright)"""
class NeedFork(Exception):
    def __init__(self, expr, width, limit=24, conds=None): self.expr = expr; self.width = width; self.limit = limit; self.conds = conds

class Ptr:
    __slots__ = ('obj', 'off', 'wild')
    def __init__(self, obj, off=0, wild=False): self.obj = obj; self.off = off; self.wild = wild
    def __repr__(self): return f"&{self.obj}+{self.off}"
class VT:
    """vtable pointer: slots are instance ids (or None)"""
    __slots__ = ('ty', 'slots')
    def __init__(self, ty, slots): self.ty = ty; self.slots = tuple(slots)
    def __repr__(self): return f"VT{self.ty}"
class Han:
    """opaque handle leaf (abstract Buffer value, abstract formatter, ...)"""
    __slots__ = ('kind', 'id')
    def __init__(self, kind, id): self.kind = kind; self.id = id
    def __repr__(self): return f"{self.kind}#{self.id}"
class FnP:
    __slots__ = ('inst',)
    def __init__(self, inst): self.inst = inst
    def __repr__(self): return f"fn{self.inst}"

NONINT = (Ptr, VT, Han, FnP)

def leaf_same(a, b):
    if type(a) is not type(b):
        if isinstance(a, NONINT) or isinstance(b, NONINT): return False
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return int(a) == int(b)
        if isc(a) or isc(b): return False
        return a.eq(b)
    if isinstance(a, Ptr): return a.obj == b.obj and same(a.off, b.off)
    if isinstance(a, VT): return a.ty == b.ty
    if isinstance(a, Han): return a.kind == b.kind and a.id == b.id
    if isinstance(a, FnP): return a.inst == b.inst
    if isinstance(a, (int, bool)): return a == b
    return a.eq(b)

class Flat:
    """object with concrete layout: {offset: (size, leaf)}"""
    __slots__ = ('size', 'leaves', 'align', 'heap')
    def __init__(self, size, leaves=None, align=16, heap=False): self.size = size; self.leaves = leaves if leaves is not None else {}; self.align = align; self.heap = heap
    def copy(self): return Flat(self.size, dict(self.leaves), self.align, self.heap)

class Spec:
    """spec functions over one immutable byte string"""
    def __init__(self, name):
        I = z3.BitVecSort(64)
        self.F = z3.Function('F_' + name, I, z3.BitVecSort(8))
        self.cnt = z3.Function('cnt_' + name, I, I)
        self.elen = z3.Function('elen_' + name, I, I)
        self.sp = z3.Function('sp_' + name, I, z3.BoolSort())     # is the byte special
        self.wit = z3.Function('wit_' + name, I, I, I)     # a special position in [a, b), if there is one

def special(b):
    return or_(*[eq(b, c, 8) for c in (0x22, 0x26, 0x27, 0x3c, 0x3e)])
def ewidth(b):
    """escaped width of byte b (64-bit)"""
    if isc(b): return {0x22: 6, 0x26: 5, 0x27: 5, 0x3c: 4, 0x3e: 4}.get(b, 1)
    return norm(If(Or(b == 0x26, b == 0x27), bv(5, 64), If(Or(b == 0x3c, b == 0x3e), bv(4, 64), If(b == 0x22, bv(6, 64), bv(1, 64)))))
ENT = {0x22: b'&quot;', 0x26: b'&amp;', 0x27: b'&#39;', 0x3c: b'&lt;', 0x3e: b'&gt;'}
def esc_bytes(bs): return b''.join(ENT.get(c, bytes([c])) for c in bs)

ANY = BitVec('any!', 64)        # a position about which a fact is stated for all positions

class Bytes:
    """immutable byte string of symbolic content: [0,size)"""
    __slots__ = ('size', 'name', 'spec', 'base', 'align', 'heap')
    def __init__(self, name, size):
        self.size = size; self.name = name; self.spec = Spec(name); self.base = BitVec('base_' + name, 64); self.align = 1; self.heap = False

class Const:
    __slots__ = ('alloc', 'size', 'align', 'idx')
    def __init__(self, alloc, idx):
        self.alloc = alloc; self.size = len(alloc['b']) // 2; self.align = alloc.get('align', 1); self.idx = idx
    heap = False

class Heap:
    """heap block / byte buffer of symbolic size whose initialised prefix is a rope"""
    __slots__ = ('size', 'align', 'rope', 'end', 'pend', 'alive', 'alloced', 'base', 'heap')
    def __init__(self, size, align=1, rope=(), end=0, pend=None, alive=True, alloced=True, base=None):
        self.size = size; self.align = align; self.rope = tuple(rope); self.end = end; self.pend = pend or {}; self.alive = alive; self.alloced = alloced; self.base = base; self.heap = True
    def copy(self): return Heap(self.size, self.align, self.rope, self.end, dict(self.pend), self.alive, self.alloced, self.base)

_toklen = {}
def seg_len(st_ex, s):
    k = s[0]
    if k == 'const': return len(s[1])
    if k == 'byte': return 1
    if k == 'src': return sub(s[3], s[2])
    if k == 'esc':
        sp = st_ex.spec(s[1])
        if same(s[2], s[3]): return 0
        if isc(s[2]) and s[2] == 0: return sp.elen(bv(s[3], 64))
        return norm(sp.elen(bv(s[3], 64)) - sp.elen(bv(s[2], 64)))
    return s[-1]          # every other segment carries its length last

def rope_len(ex, rope):
    n = 0
    for s in rope: n = add(n, seg_len(ex, s))
    return n

def seg_same(a, b):
    if a[0] != b[0] or len(a) != len(b): return False
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, (str, bytes, tuple)) or isinstance(y, (str, bytes, tuple)) or x is None or y is None:
            if isinstance(x, tuple) and isinstance(y, tuple) and x and isinstance(x[0], tuple):
                if len(x) != len(y) or not all(seg_same(p, q) for p, q in zip(x, y)): return False
            elif x != y: return False
        elif isinstance(x, NONINT) or isinstance(y, NONINT):
            if not leaf_same(x, y): return False
        elif not same(x, y): return False
    return True
def rope_same(a, b): return len(a) == len(b) and all(seg_same(x, y) for x, y in zip(a, b))

def rope_push(rope, seg):
    """append with cheap merging"""
    if seg[0] == 'byte' and isc(seg[1]): seg = ('const', bytes([seg[1]]))
    if seg[0] == 'const' and seg[1] == b'': return rope
    if seg[0] in ('src', 'esc') and same(seg[2], seg[3]): return rope
    if rope:
        l = rope[-1]
        if l[0] == 'const' and seg[0] == 'const': return rope[:-1] + (('const', l[1] + seg[1]),)
        if l[0] == seg[0] and l[0] in ('src', 'esc') and l[1] == seg[1] and same(l[3], seg[2]): return rope[:-1] + ((l[0], l[1], l[2], seg[3]),)
    return rope + (seg,)
