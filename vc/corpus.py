"""Macro corpora: programs using laby's macros (m) paired with plain reference code (r) that renders the documented text.

Each pair is compiled twice: into a crate whose MIR is compared symbolically for all run-time values (rendspec.pairs), and into
a program that runs both on generated values.  The programs are generated here from the properties' statements."""
import os, random, re, json, hashlib, time
import build

NORMAL = '''a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul var video'''.split()
VOID = 'area base br col embed hr img input link meta param source track wbr'.split()
KINDS = {'A': 'Abs', 'S': "&'static str", 'B': 'bool', 'O': 'Option<Abs>', 'C': 'char', 'N': 'u32', 'I': 'i64'}

def esc(s): return ''.join({'"': '&quot;', '&': '&amp;', "'": '&#39;', '<': '&lt;', '>': '&gt;'}.get(c, c) for c in s)
def rstr(s):
    """a Rust string literal"""
    out = '"'
    for c in s:
        if c in '"\\': out += '\\' + c
        elif c == '\n': out += '\\n'
        elif c == '\t': out += '\\t'
        elif c == '\r': out += '\\r'
        elif ord(c) < 32 or ord(c) == 127: out += '\\u{%x}' % ord(c)
        else: out += c
    return out + '"'

class Shape:
    def __init__(self, m, r, params=(), pre='', mode='exact', post='', tag=''): self.m = m; self.r = r; self.params = list(params); self.pre = pre; self.mode = mode; self.tag = tag
    def key(self): return hashlib.md5((self.m + self.r + self.pre + str(self.params)).encode()).hexdigest()

class G:
    """generator state of one shape"""
    def __init__(self, rng, names=None):
        self.rng = rng; self.params = []; self.lets = []; self.nev = 0; self.pool = list(names or []); self.logged = False; self.caseparams = 0
    def fresh(self):
        if self.pool and self.rng.random() < .7: return self.pool.pop(self.rng.randrange(len(self.pool)))
        return 'v%d' % len(self.params)
    def par(self, kind):
        n = self.fresh(); self.params.append((n, kind)); return n
    def pick(self, *xs): return self.rng.choice(xs)
    def chance(self, p): return self.rng.random() < p

def out(segs):
    """reference code for a list of segments: str = text, ('x', expr) = render expr, ('if', cond, segs)"""
    r = ''; buf = ''
    def flush():
        nonlocal r, buf
        if buf: r += f'out_.push_str({rstr(buf)}); '
        buf = ''
    for s in segs:
        if isinstance(s, str): buf += s
        else:
            flush()
            if s[0] == 'x': r += f'Render::render({s[1]}, out_); '
            elif s[0] == 'raw': r += f'out_.push_str({s[1]}); '
            else: r += f'if {s[1]} {{ {out(s[2])}}} '
    flush()
    return r

WORDS = ['x', 'hello', 'a b', '', '<', 'a&b', "it's", '"q"', '>=', 'é', '日本', '😀', '&amp;', '&lt;b&gt;', 'tab\there', 'nl\nx', '\\', '\0', '{}', '{x}', '%s', '</div>', '-->', ' ', '0', 'long ' * 9]
def word(g): return g.rng.choice(WORDS)
def lit(g):
    """(source, text) of a simple literal"""
    k = g.rng.randrange(8)
    if k < 5:
        w = word(g)
        if '"' not in w and '\\' not in w and '\n' not in w and '\0' not in w and g.chance(.1): return f'r"{w}"', esc(w)
        return rstr(w), esc(w)
    if k == 5: n = g.pick(0, 1, 42, 255, 65536, 2147483647); return g.pick(str(n), hex(n), f'{n}u32' ), str(n)
    if k == 6: c = g.pick('a', '<', '&', '"', '>', 'é', '\u22e6'); return f"'{c}'", esc(c)
    b = g.pick('true', 'false'); return b, b
def dyn(g, noflat=False):
    """(source, segs) of a run-time value"""
    ks = ['A'] * 6 + ['S'] * 2 + ['N', 'I']
    if g.caseparams < 3: ks += ['C', 'O', 'O', 'B']
    k = g.rng.choice(ks)
    if k in 'COB': g.caseparams += 2 if k == 'C' else 1
    p = g.par(k)
    f = g.rng.randrange(26)
    src = p
    if f == 0: src = f'{{ let q = {p}; q }}'
    elif f == 1: src = f'id({p})'
    elif f == 2: src = f'({p})'
    elif f == 3: src = f'{{ {p} }}'
    elif f == 4: src = f'Some({p})'
    elif f == 5: src = f'(|| {p})()'
    elif f == 6 and k == 'S': return f'raw!({p})', [('raw', p)]
    elif f == 7: src = f'[{p}].into_iter().next()' if k in 'SNIB' else f'id(id({p}))'
    elif f == 8: src = f'({p}, 1).0'
    elif f == 10: src = f'if true {{ {p} }} else {{ unreachable!() }}'
    elif f == 11: src = f'match () {{ () => {p} }}'
    elif f == 12: src = f'unsafe {{ {p} }}'
    elif f == 13 and k in 'SNIBC': src = f'*&{p}'
    elif f == 14: src = f'One {{ it: {p} }}.it'
    elif f == 15 and k in 'SNIBC': src = f'[{p}][0]'
    elif f == 16: src = f'{p}.pipe()'
    elif f == 17: src = f'id::<_>({p})'
    elif f == 18: src = f'{{ {p}.pipe() }}'
    elif f == 19: src = f'same!({p})'
    elif f == 20: src = f'loop {{ break {p} }}'
    elif f == 21 and k == 'N': src = f'{p} as u32'
    return src, [('x', p)]
IDENTS = ['class', 'id', 'href', 'data_x', 'value', 'style', 'title', 'x', 'onclick', 'Src', 'aria_label']
RAWID = ['r#type', 'r#for', 'r#loop', 'r#async', 'r#in', 'r#as', 'r#class']
def name(g):
    """(source, segs) of an attribute name"""
    k = g.rng.randrange(10)
    if k < 5: n = g.rng.choice(IDENTS); return n, [n]
    if k == 5: n = g.rng.choice(RAWID); return n, [n[2:]]
    if k < 8:
        w = g.rng.choice(['data-x', 'aria-label', 'x<y', 'a"b', '@click', ':k', 'v.m', 'é', '', 'xml:lang', "o'n"])
        return rstr(w), [esc(w)]
    k = g.rng.randrange(3)
    if k == 0: p = g.par('A'); return f'{{ {p} }}', [('x', p)]
    if k == 1: p = g.par('S'); return f'id({p})', [('x', p)]
    p = g.par('N'); return f'({p})', [('x', p)]
def value(g, depth):
    r = g.rng.random()
    if r < .4:
        s, t = lit(g); return s, [t]
    if r < .9 or depth <= 0: return dyn(g)
    if r < .95:
        s, segs = classes(g, depth - 1); return s, segs
    s, segs = elem(g, depth - 1); return s, segs
def cond(g):
    """(source, cond expression or bool) of a boolean attribute"""
    k = g.rng.randrange(12)
    if k < 3: return g.pick('true', 'true', '(true)', '{ true }', '((true))'), True
    if k < 6: return g.pick('false', 'false', '(false)', '{ false }', '{ (false) }'), False
    g.caseparams += 1
    p = g.par('B')
    if k < 9: return p, p
    if k == 9: return f'!{p}', f'!{p}'
    if k == 10 and g.caseparams < 4:
        q = g.par('B'); g.caseparams += 1; o = g.pick('&&', '||', '!='); return f'{p} {o} {q}', f'{p} {o} {q}'
    return f'{{ let c = {p}; c }}', p
def attr(g, depth, pbool=.25):
    n, ns = name(g)
    if g.chance(pbool) and g.caseparams < 4:
        c, v = cond(g)
        if v is True: return f'{n} = bool!({c})', [' '] + ns
        if v is False: return f'{n} = bool!({c})', []
        return f'{n} = bool!({c})', [('if', v, [' '] + ns)]
    v, vs = value(g, depth)
    return f'{n} = {v}', [' '] + ns + ['="'] + vs + ['"']
def child(g, depth):
    r = g.rng.random()
    if r < .25: s, t = lit(g); return s, [t]
    if r < .6 or depth <= 0: return dyn(g)
    if r < .85: return elem(g, depth - 1)
    if r < .92: return frag(g, depth - 1)
    return classes(g, depth - 1)
def args(g, items):
    return ', '.join(items) + (',' if items and g.chance(.3) else '')
def mac(g, n):
    r = g.rng.random()
    return n + '!' if r < .93 else f'laby::{n}!' if r < .97 else f'::laby::{n}!'
def call(g, n, items):
    o, c = g.pick('()', '()', '()', '()', '[]', '{}')
    return mac(g, n) + o + args(g, items) + c
def elem(g, depth, tag=None, nattr=None, nchild=None, pbool=.2):
    void = False
    if tag is None: tag = g.rng.choice(VOID) if g.chance(.2) else g.rng.choice(NORMAL)
    void = tag in VOID
    nattr = g.rng.choice([0, 0, 1, 1, 2, 3]) if nattr is None else nattr
    nchild = 0 if void else g.rng.choice([0, 1, 1, 2, 3]) if nchild is None else nchild
    kinds = ['a'] * nattr + ['c'] * nchild
    g.rng.shuffle(kinds)
    src = []; a = []; c = []
    for k in kinds:
        if k == 'a': s, t = attr(g, depth, pbool); a += t
        else: s, t = child(g, depth); c += t
        src.append(s)
    return call(g, tag, src), [f'<{tag}'] + a + ['>'] + ([] if void else c + [f'</{tag}>'])
def frag(g, depth, n=None):
    n = g.rng.randrange(4) if n is None else n
    src = []; c = []
    for _ in range(n): s, t = child(g, depth); src.append(s); c += t
    return call(g, 'frag', src), c
def classes(g, depth, n=None):
    n = g.rng.randrange(5) if n is None else n
    src = []; c = []
    for i in range(n):
        s, t = child(g, depth); src.append(s)
        if i: c.append(' ')
        c += t
    return call(g, 'classes', src), c

HOSTILE = ['buffer', 't1', 't2', 't3', 'T1', 'value', 'node', 'name', 'render', 'item', 'self_', '_t1']

def shape(g, src, segs, **kw): return Shape(src, out(segs or []) + 'mark(0); ', g.params, **kw)

# child forms for exhaustive short sequences: (source, segments)
FORMS = [('""', []), ('"a"', ['a']), ('" "', [' ']), ('frag!()', []), ('classes!()', []), ('frag!("x", V)', ['x', 'V']), ('classes!("x", V)', ['x ', 'V']), ('V', ['V']), ('b!()', ['<b></b>']), ('br!()', ['<br>']), ('()', []), ('frag!("")', []), ('classes!("", "")', [' ']), ('classes!(V)', ['V']), ('p!(V, "<")', ['<p>', 'V', '&lt;</p>']), ('{ V }', ['V'])]
def forms(g, f):
    src, segs = f; out_ = []
    if 'V' in src:
        p = g.par('A'); src = src.replace('V', p); segs = [('x', p) if x == 'V' else x for x in segs]
    return src, list(segs)
def seqs(rng, m, extra):
    """every pair of child forms, and some longer sequences"""
    import itertools
    todo = [(f,) for f in FORMS] + list(itertools.product(FORMS, repeat=2)) + [tuple(rng.choice(FORMS) for _ in range(rng.choice([3, 3, 4, 5, 6]))) for _ in range(extra)]
    for t in todo:
        g = G(rng); yield g, [forms(g, f) for f in t]
def ladder(n):
    """an element with n attributes and n children of each sort in turn"""
    for k in range(1, n + 1):
        for sort in range(4):
            yield k, sort
def rungs(g, k, sort, tag):
    src = []; A = []; C = []; void = tag in VOID
    for i in range(k):
        d = sort == 1 or (sort == 2 and i % 2) or (sort == 3 and i == k - 1)
        nm = f'a{i}'
        if d: p = g.par('A'); src.append(f'{nm} = {p}'); A += [f' {nm}="', ('x', p), '"']
        else: src.append(f'{nm} = "{i}"'); A += [f' {nm}="{i}"']
        if not void:
            if d: p = g.par('A'); src.append(p); C += [('x', p)]
            else: src.append(f'"c{i}"'); C += [f'c{i}']
    return src, A, C
HTMLATTRS = """accept accept_charset accesskey action align alt r#async autocapitalize autocomplete autofocus autoplay bgcolor border charset checked cite class color cols colspan content contenteditable controls coords crossorigin data datetime decoding default defer dir dirname disabled download draggable enctype enterkeyhint r#for form formaction formmethod formnovalidate formtarget headers height hidden high href hreflang http_equiv id integrity inputmode ismap itemid itemprop kind label lang language list r#loop low max maxlength media method min minlength multiple muted name nonce novalidate onabort onblur onchange onclick onload open optimum pattern placeholder poster preload property readonly referrerpolicy rel required reversed role rows rowspan sandbox scope selected shape size sizes slot span spellcheck src srcdoc srclang srcset start step style summary tabindex target title translate r#type usemap value width wrap xmlns rest bool render frag classes iter T1 t1 t_1 buffer self_ tag _x x_ __y _div""".split()
def html(prop):
    """every HTML attribute name, on void and ordinary elements, with every kind of value"""
    S = []; H = HTMLATTRS; P = [('v0', 'A'), ('v1', 'S'), ('b0', 'B'), ('v2', 'A')]; d = lambda n: n[2:] if n.startswith('r#') else n
    for i in range(0, len(H), 6):
        a = H[i:i + 6]
        for j, (o, c, ch, cs) in enumerate((('div', '</div>', ', v1', [('x', 'v1')]), ('input', '', '', []))):
            if prop == 'C13':
                vals = [('v0', [('x', 'v0')]), ('"l<"', ['l&lt;']), ('{ v1 }', [('x', 'v1')]), ('""', [''])]
                src = []; t = [f'<{o}']
                for k, n in enumerate(a): v, g = vals[(k + i + j) % 4]; v, g = ('v2', [('x', 'v2')]) if v == 'v0' and k >= 4 else (v, g); src.append(f'{n} = {v}'); t += [f' {d(n)}="'] + g + ['"']
            else:
                conds = ['b0', 'true', '!b0', 'false']; src = []; t = [f'<{o}']
                for k, n in enumerate(a): v = conds[(k + i + j) % 4]; src.append(f'{n} = bool!({v})'); t += [('if', v, [f' {d(n)}'])] if 'b' in v else [f' {d(n)}'] if v == 'true' else []
            S.append(Shape(f'{o}!({", ".join(src)}{ch})', out([x for x in t + ['>'] + cs + [c] if x != '']) + 'mark(0); ', P))
    return S
def c13(rng, n):
    S = html('C13')
    for k, sort in ladder(10):
        for tag in ('div', 'input'):
            g = G(rng); src, A, C = rungs(g, k, sort, tag)
            S.append(shape(g, f'{tag}!({", ".join(src)})', [f'<{tag}'] + A + ['>'] + C + ([] if tag == 'input' else [f'</{tag}>'])))
    for g, t in seqs(rng, 'div', 20):
        if len(t) == 2 and rng.random() < .7: continue
        S.append(shape(g, f'td!({", ".join(x for x, _ in t)})', ['<td>'] + [y for _, z in t for y in z] + ['</td>']))
    for i in range(n):
        g = G(rng)
        S.append(shape(g, *elem(g, rng.choice([0, 1, 1, 2, 3]), nattr=rng.choice([0, 1, 2, 2, 3, 4, 6]), pbool=.1)))
    # many attributes and children at once
    for k in (12, 27):
        g = G(rng); s, t = elem(g, 0, tag='div', nattr=k, nchild=k, pbool=0); S.append(shape(g, s, t))
    return S
def c14(rng, n):
    S = html('C14')
    # every kind of name with every kind of condition
    for nm in range(5):
        for c in range(8):
            g = G(rng)
            ns, nt = [('disabled', ['disabled']), ('r#async', ['async']), ('"da-ta<"', ['da-ta&lt;']), None, None][nm] or (None, None)
            p = None
            if nm == 3: p = g.par('A'); ns, nt = f'{{ {p} }}', [('x', p)]
            if nm == 4: p = g.par('S'); ns, nt = f'id({p})', [('x', p)]
            b = g.par('B')
            cs, cv = [('true', True), ('false', False), ('(true)', True), ('{ false }', False), (b, b), (f'!{b}', '!' + b), (f'{{ let q = {b}; q }}', b), (f'{{ {b} }}', b)][c]
            w = [' '] + nt
            a = w if cv is True else [] if cv is False else [('if', cv, w)]
            x = g.par('A'); y = g.par('A')
            S.append(shape(g, f'button!(id = {x}, {ns} = bool!({cs}), title = {y}, "t")', ['<button id="', ('x', x), '"'] + a + [' title="', ('x', y), '">t</button>']))
    for i in range(n):
        g = G(rng); S.append(shape(g, *elem(g, rng.choice([0, 0, 1]), nattr=rng.choice([1, 2, 3, 4]), nchild=rng.choice([0, 1, 2]), pbool=.75)))
    # runs of boolean attributes: all literal, all run-time, one run-time among literals
    for k in range(1, 11):
        for sort in range(4):
            g = G(rng); src = []; A = []
            for i in range(k):
                if (sort == 1 and i < 5) or (sort == 2 and i == k // 2) or (sort == 3 and i in (0, k - 1)):
                    b = g.par('B'); src.append(f'b{i} = bool!({b})'); A.append(('if', b, [f' b{i}']))
                else:
                    v = (i + sort) % 3 != 0; src.append(f'b{i} = bool!({str(v).lower()})'); A += [f' b{i}'] if v else []
            S.append(shape(g, f'{rng.choice(["div", "input"])}!({", ".join(src)})', None)); t = S[-1].m.split('!')[0]
            S[-1].r = out([f'<{t}'] + A + ['>'] + ([] if t == 'input' else [f'</{t}>'])) + 'mark(0); '
    return S

LITS = [('"plain"', None), ('""', None), ('"<a href=\'x\'>&\\"</a>"', None), ('"\\n\\t\\r\\0\\\\"', None), ('"\\x41\\x7f"', None), ('"\\u{1F600}\\u{e9}"', None), ('r"raw\\n<"', None), ('r#"a"b"#', None), ('r##"a"#b"##', None), ('"line \\\n        cont"', None),
 ('"multi\n   line"', None), ("'a'", None), ("'<'", None), ("'\"'", None), ("'\\''", None), ("'&'", None), ("'>'", None), ("'\\n'", None), ("'\\u{10ffff}'", None), ("'\\x3c'", None), ("'é'", None),
 ("b'a'", None), ("b'\\''", None), ("b'\\xff'", None), ("b'\\\\'", None), ("b'<'", None), ("b'\\0'", None), ('true', None), ('false', None),
 ('0', None), ('7', None), ('2147483647', None), ('1_000_000', None), ('0xff', None), ('0xdead_beef', 'u64'), ('0o17', None), ('0b1010_1', None), ('0b1111_0000u8', None), ('255u8', None), ('127i8', None), ('0x7fi8', None), ('65535u16', None), ('1i16', None), ('4294967295u32', None), ('9i32', None), ('18446744073709551615u64', None), ('9223372036854775807i64', None), ('340282366920938463463374607431768211455u128', None), ('170141183460469231731687303715884105727i128', None), ('5usize', None), ('6isize', None), ('1_u8', None), ('0xAB_u16', None), ('18446744073709551616', 'u128'), ('0b11', None), ('00012', None), ('0x1f32', None), ('0o7_7usize', None), ('0xF64u64', None), ('0xe1', None),
 ('1.0', None), ('0.1', None), ('1.', None), ('1e5', None), ('1E+3', None), ('2.5e-3', None), ('1_0.0_1', None), ('1e16', None), ('1e15', None), ('123456789.125', None), ('0.3f64', None), ('1f32', None), ('1f64', None), ('0.1f32', None), ('1e2f32', None), ('1e-7f32', None), ('16777217f32', None), ('16777216.0f32', None), ('3.4028235e38f32', None), ('1.17549435e-38f32', None), ('1e-45f32', None), ('0.30000001192092896f32', None), ('5e-324', None), ('1.7976931348623157e308', None), ('9007199254740993.0', None), ('9007199254740993f64', None), ('0.0', None), ('0.0f32', None), ('1e23', None), ('100000000000000000000.0', None), ('3.14159274101257324f32', None), ('1_000f32', None), ('8_388_608.5_f32', None), ('0e0', None), ('1e1_0', None), ('2e0f64', None), ('33554435f32', None), ('0.00001', None), ('1e-5f32', None), ('1e13f32', None), ('1_e3', None)]
def c15(rng, n):
    S = []
    def both(l, ty):
        t = f': {ty}' if ty else ''
        return f'let q{t} = {l}; Render::render(q, out_); '
    lits = list(LITS)
    for i in range(n):
        # random literals
        k = rng.randrange(5)
        if k == 0: v = rng.getrandbits(rng.choice([4, 8, 16, 31])); l = rng.choice([str(v), hex(v), oct(v), bin(v)])
        elif k == 1:
            t = rng.choice(['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'usize', 'isize']); b = {'size': 64}.get(t[1:], None) or int(t[1:]); v = rng.getrandbits(b - (t[0] == 'i'))
            l = rng.choice([str(v), hex(v), '0b' + bin(v)[2:]]) + rng.choice(['', '_']) + t
        elif k == 2: l = f'{rng.randrange(10 ** rng.randrange(1, 18))}.{rng.randrange(10 ** rng.randrange(1, 18))}' + rng.choice(['', 'e%d' % rng.randrange(-20, 20)]) + rng.choice(['', '', 'f32', 'f64', '_f32'])
        elif k == 3: l = f'{rng.randrange(10 ** rng.randrange(1, 9))}' + rng.choice(['e%d' % rng.randrange(0, 20), '.0', 'e-3']) + rng.choice(['', 'f32', 'f64'])
        else: l = rstr(''.join(rng.choice(WORDS + list('<>&"\'')) for _ in range(rng.randrange(1, 5))))
        lits.append((l, None))
    for l, ty in lits:
        suff = f': {ty}' if ty else ''
        b = both(l, ty)
        wr = l
        S.append(Shape(f'div!({l} = {wr}, x = ({l}), y = {{ {l} }}, {l}, (({l})), {{ {l} }}, {{ ({l}) }}, span!({l}), classes!({l}, {l}), frag!({l}))',
            f'out_.push_str("<div "); {b}out_.push_str("=\\""); {b}out_.push_str("\\" x=\\""); {b}out_.push_str("\\" y=\\""); {b}out_.push_str("\\">"); {b}{b}{b}{b}out_.push_str("<span>"); {b}out_.push_str("</span>"); {b}out_.push_str(" "); {b}{b}out_.push_str("</div>"); mark(0); ', []))
        S.append(Shape(f'img!({l} = bool!(true), ({l}) = "", {{ {l} }} = bool!(v0), alt = bool!(false))', f'out_.push_str("<img "); {b}out_.push_str(" "); {b}out_.push_str("=\\"\\""); if v0 {{ out_.push_str(" "); {b}}} out_.push_str(">"); mark(0); ', [('v0', 'B')]))
        S.append(Shape(f'frag!({l})', b + 'mark(0); ', []))
    # negated literals and arithmetic are expressions
    for e in ['-1', '-1.5', '-0.0', '!0u8', '1 + 2', '-5i8', '0 - 1', '!true', '- 1f32', '-128i8', '1 as f64', '"a".len()', 'b\'a\' + 1', '{ 1; 2 }', '{ let x = 3; x }', '(1, 2).0', '[4, 5][1]', 'true & false', '{ "s"; }']:
        S.append(Shape(f'div!({e}, id = {{ {e} }})', f'let q = {e}; let p = {e}; out_.push_str("<div id=\\""); Render::render(p, out_); out_.push_str("\\">"); Render::render(q, out_); out_.push_str("</div>"); mark(0); '))
    return S
def nestpair(g, depth):
    """(direct source, separate source, lets) of a macro with nested macros inside"""
    tag = g.pick('frag', 'classes', *[g.rng.choice(NORMAL) for _ in range(5)], g.rng.choice(VOID))
    direct = []; sep = []; lets = []
    def name_():
        n = f'n{len(lets)}_{g.rng.randrange(10 ** 9)}'
        return n
    if tag not in ('frag', 'classes'):
        for _ in range(g.rng.randrange(3)):
            s, t = attr(g, 0, .3)
            direct.append(s); sep.append(s)
    if tag not in VOID:
        for _ in range(g.rng.choice([1, 1, 2, 2, 3])):
            if depth > 0 and g.chance(.7):
                d, s, l = nestpair(g, depth - 1)
                n = name_(); lets += l; lets.append(f'let {n} = {s};')
                direct.append(d); sep.append(n)
            else:
                s, t = child(g, 0); direct.append(s); sep.append(s)
    o = list(range(len(direct))); g.rng.shuffle(o)
    m = tag + '!'
    return f'{m}({", ".join(direct[i] for i in o)})', f'{m}({", ".join(sep[i] for i in o)})', lets
def c16(rng, n):
    S = []
    # every pair outer/inner of macro kinds, the inner at each position
    for outer in ['div', 'frag', 'classes', 'ul']:
        for inner in ['span', 'br', 'frag', 'classes', 'a', 'img', 'option', 'style', 'var', 'main']:
            for pos in range(3):
                ks = [('v0', 'A'), ('v1', 'A'), ('v2', 'A')]
                iargs = {'br': '', 'frag': 'v2, "z"', 'classes': '"y", v2', 'img': 'src = v2'}.get(inner, 'id = "i", v2, ";"')
                i = f'{inner}!({iargs})'
                a = ['v0', '"lit<"']; b = list(a); a.insert(pos, i); b.insert(pos, 'inner')
                if outer in ('div', 'ul'): a.append('id = v1'); b.append('id = v1')
                S.append(Shape(f'{outer}!({", ".join(a)})', f'let inner = {i}; let n = {outer}!({", ".join(b)}); Render::render(n, out_); mark(0); ', ks))
    for t in NORMAL:
        S.append(Shape(f'section!("a", {t}!(id = v0, v1, "k"), v2)', f'let inner = {t}!(id = v0, v1, "k"); let n = section!("a", inner, v2); Render::render(n, out_); mark(0); ', [('v0', 'A'), ('v1', 'A'), ('v2', 'A')]))
    for t in VOID:
        S.append(Shape(f'section!("a", {t}!(id = v0, x = bool!(v1)), v2)', f'let inner = {t}!(id = v0, x = bool!(v1)); let n = section!("a", inner, v2); Render::render(n, out_); mark(0); ', [('v0', 'A'), ('v1', 'B'), ('v2', 'A')]))
    for outer in ('div', 'frag', 'classes'):
        for g, t in seqs(rng, outer, 20):
            if not any('!' in x for x, _ in t): continue
            if outer == 'div' and rng.random() < .5: continue
            sep = []; lets = []
            for x, _ in t:
                if '!' in x: lets.append(f'let n{len(lets)}_ = {x};'); sep.append(f'n{len(lets) - 1}_')
                else: sep.append(x)
            S.append(Shape(f'{outer}!({", ".join(x for x, _ in t)})', ' '.join(lets) + f' let n = {outer}!({", ".join(sep)}); Render::render(n, out_); mark(0); ', g.params))
    # macros that are not laby's, with names like its own
    PRE = 'mod mine { macro_rules! span_ { ($($x:tt)*) => { laby::b!($($x)*) } } macro_rules! frag_ { ($($x:tt)*) => { laby::classes!($($x)*) } } pub(crate) use span_ as span; pub(crate) use frag_ as frag; } macro_rules! DIV { ($($x:tt)*) => { laby::i!("up", $($x)*) } } macro_rules! div_ { ($($x:tt)*) => { laby::u!($($x)*, "us") } } macro_rules! h7 { ($x:expr) => { $x } } macro_rules! fragment { ($($x:tt)*) => { laby::s!($($x)*) } } macro_rules! class { ($($x:tt)*) => { laby::em!($($x)*) } } macro_rules! bra { ($($x:tt)*) => { laby::tt_!($($x)*) } }'.replace('macro_rules! bra { ($($x:tt)*) => { laby::tt_!($($x)*) } }', '')
    for outer in ('div', 'frag', 'classes'):
        for u in ('mine::span!(v0, "k")', 'mine::frag!(v0, "k")', 'DIV!(v0)', 'div_!(v0)', 'h7!(v0)', 'h7!(br!())', 'fragment!(v0, "k")', 'class!("k", v0)', 'self::mine::span!(v0)', 'laby::frag!(v0, "k")', '::laby::classes!(v0, "k")', 'laby::br!()', 'laby::img!(src = v0)', 'r#span!(v0)', 'r#br!()', 'r#classes!(v0, "k")', 'raw!(v1)', 'iter!([v1, "<"])', 'iter!(", ", [v1, "<"])', 'iter_lines!([v1, "<"])'):
            S.append(Shape(f'{outer}!("a", {u}, v2)', f'let inner = {u}; let n = {outer}!("a", inner, v2); Render::render(n, out_); mark(0); ', [('v0', 'A'), ('v1', 'S'), ('v2', 'A')], pre=PRE))
    for i in range(n):
        g = G(rng); d, s, l = nestpair(g, rng.choice([1, 2, 2, 3, 4]))
        S.append(Shape(d, ' '.join(l) + f' let n = {s}; Render::render(n, out_); mark(0); ', g.params))
    return S
# ---- C17 --------------------------------------------------------------------------------------
class L(G):
    """every dynamic expression is an event"""
    def __init__(self, rng): super().__init__(rng); self.lets = []; self.grp = 0
    def ev(self, kind):
        self.nev += 1; i = self.grp * 100 + self.nev
        f = {'A': 'ev', 'S': 'evs', 'B': 'evb', 'N': 'evn'}[kind]
        v = f'e{i}'; e = f'{f}({i})'
        self.lets.append(f'let {v} = {e};')
        if self.chance(.3): e = self.pick(f'{{ {e} }}', f'({e})', f'{{ let z = {e}; z }}', f'id({e})', f'(|| {e})()')
        return e, v
    def lasts(self): self.grp += 1
def l_val(g): 
    e, v = g.ev(g.pick('A', 'A', 'S', 'N')); return e, [('x', v)]
def l_elem(g, depth):
    tag = g.rng.choice(NORMAL + VOID[:4]); void = tag in VOID
    items = []; A = []; C = []
    na = g.rng.randrange(4); nc = 0 if void else g.rng.randrange(4)
    for _ in range(na):
        g.lasts()
        n = g.rng.choice(IDENTS); ns = [n]
        dynname = g.chance(.3)
        if dynname:
            e, v = g.ev(g.pick('A', 'S')); n, ns = (e if e.startswith(('{', '(', 'id')) and not e.startswith('(||') else f'{{ {e} }}'), [('x', v)]
        k = g.rng.randrange(6)
        if k == 0: s, t = f'{n} = "l<it"', [' '] + ns + ['="l&lt;it"']
        elif k == 1: s, t = f'{n} = bool!({g.pick("true", "(true)")})', [' '] + ns
        elif k == 2: s, t = f'{n} = bool!(false)', []
        elif k == 3: e, v = g.ev('B'); s, t = f'{n} = bool!({e})', [('if', v, [' '] + ns)]
        else: e, v = l_val(g); s, t = f'{n} = {e}', [' '] + ns + ['="'] + v + ['"']
        items.append(('a', s)); A += t
    g.lasts()
    for _ in range(nc):
        g.lasts()
        r = g.rng.random()
        if r < .2: s, t = g.pick('"t"', '1', "'<'"), None; t = {'"t"': ['t'], '1': ['1'], "'<'": ['&lt;']}[s]
        elif r < .6 or depth == 0: s, t = l_val(g)
        elif r < .85: s, t = l_elem(g, depth - 1)
        else: s, t = l_frag(g, depth - 1)
        items.append(('c', s)); C += t
    g.lasts()
    # interleave: relative order of attributes and of children stays
    a = [s for k, s in items if k == 'a']; c = [s for k, s in items if k == 'c']; o = []
    while a or c:
        if a and (not c or g.chance(.5)): o.append(a.pop(0))
        else: o.append(c.pop(0))
    return f'{tag}!({", ".join(o)})', [f'<{tag}'] + A + ['>'] + ([] if void else C + [f'</{tag}>'])
def l_frag(g, depth):
    d = g.pick('frag', 'classes'); src = []; C = []
    for i in range(g.rng.randrange(4)):
        g.lasts(); r = g.rng.random()
        if r < .6 or depth == 0: s, t = l_val(g)
        else: s, t = l_elem(g, depth - 1)
        if i and d == 'classes': C.append(' ')
        src.append(s); C += t
    g.lasts()
    return f'{d}!({", ".join(src)})', C
def c17(rng, n):
    S = []
    for i in range(n):
        g = L(rng); s, t = (l_elem if rng.random() < .8 else l_frag)(g, rng.choice([0, 1, 1, 2, 3]))
        S.append(Shape(s, ' '.join(g.lets) + ' mark(0); ' + out(t), [], mode='group'))
    for k in range(4, 13):
        for sort in range(3):
            g = L(rng); src = []; A = []; C = []
            for i in range(k):
                g.lasts()
                if sort == 0 or (sort == 2 and i % 2):
                    e, v = l_val(g); src.append(f'a{i} = {e}'); A += [f' a{i}="'] + v + ['"']
                elif sort == 1 or i % 4 == 0:
                    if len(g.lets) < 4 or sort == 2: e, v = g.ev('B') if sort == 2 and i < 9 else l_val(g)
                    else: e, v = l_val(g)
                    if isinstance(v, str): src.append(f'a{i} = bool!({e})'); A.append(('if', v, [f' a{i}']))
                    else: src.append(f'a{i} = {e}'); A += [f' a{i}="'] + v + ['"']
            for i in range(k):
                g.lasts(); e, v = l_val(g); src.append(e); C += v
            S.append(Shape(f'div!({", ".join(src)})', ' '.join(g.lets) + ' mark(0); ' + out(['<div'] + A + ['>'] + C + ['</div>']), [], mode='group'))
    # the surrounding variables keep their meaning
    for i in range(n // 3):
        g = G(rng, names=HOSTILE)
        s, t = elem(g, rng.choice([0, 1, 2]), nattr=rng.choice([1, 2, 3]), nchild=rng.choice([1, 2, 3]))
        S.append(shape(g, s, t))
    for v in HOSTILE:
        for w in HOSTILE[:6]:
            if v != w: S.append(Shape(f'div!({{ {w} }} = {v}, c = bool!(cc), span!(u), {{ u2 }} = bool!(cc))', f'out_.push_str("<div "); Render::render({w}, out_); out_.push_str("=\\""); Render::render({v}, out_); out_.push_str("\\""); if cc {{ out_.push_str(" c "); Render::render(u2, out_); }} out_.push_str("><span>"); Render::render(u, out_); out_.push_str("</span></div>"); mark(0); ', [(v, 'A'), (w, 'S'), ('u', 'A'), ('u2', 'A'), ('cc', 'B')]))
    # values are captured when constructed: later changes to the variable are not seen; moves, early return, shadowing
    S.append(Shape('{ let mut k = v0; let n = div!(id = k, k, bool_ = bool!(k > 3)); k = v1; let _ = k; n }', 'out_.push_str("<div id=\\""); Render::render(v0, out_); out_.push_str("\\""); if v0 > 3 { out_.push_str(" bool_"); } out_.push_str(">"); Render::render(v0, out_); out_.push_str("</div>"); mark(0); ', [('v0', 'N'), ('v1', 'N')]))
    S.append(Shape('{ let mut k = 1u32; div!(x = { k = k.wrapping_add(v0); k }, { k = k.wrapping_add(v0); k }, y = { k = k.wrapping_add(v0); k }, span!({ k = k.wrapping_add(v0); k })) }', 'let a = 1u32.wrapping_add(v0); let b = a.wrapping_add(v0); let c = b.wrapping_add(v0); let d = c.wrapping_add(v0); out_.push_str("<div x=\\""); Render::render(a, out_); out_.push_str("\\" y=\\""); Render::render(b, out_); out_.push_str("\\">"); Render::render(c, out_); out_.push_str("<span>"); Render::render(d, out_); out_.push_str("</span></div>"); mark(0); ', [('v0', 'N')]))
    S.append(Shape('{ let mut f = || -> Option<&\'static str> { let n = div!(match v0 { true => v1, false => return None }); let _ = n; Some(v1) }; f() }', 'if v0 { Render::render(v1, out_); } mark(0); ', [('v0', 'B'), ('v1', 'S')]))
    S.append(Shape('loop { let n = div!(if v0 { v1 } else { break "out" }); let _ = n; break "in<" }', 'out_.push_str(if v0 { "in&lt;" } else { "out" }); mark(0); ', [('v0', 'B'), ('v1', 'S')]))
    return S
def c18(rng, n):
    S = []
    for k in range(0, 9):
        for m, d in (('frag', ''), ('classes', ' ')):
            g = G(rng); ps = [g.par('A') for _ in range(k)]
            segs = []
            for i, p in enumerate(ps): segs += ([d] if i and d else []) + [('x', p)]
            S.append(shape(g, f'{m}!({", ".join(ps)})', segs))
            g = G(rng); ws = [rng.choice(WORDS) for _ in range(k)]
            S.append(shape(g, f'{m}!({", ".join(rstr(w) for w in ws)})', [d.join(esc(w) for w in ws)]))
            g = G(rng); ps = [g.par('O') for _ in range(min(k, 4))]
            segs = []
            for i, p in enumerate(ps): segs += ([d] if i and d else []) + [('x', p)]
            S.append(shape(g, f'{m}!({", ".join(ps)})', segs))
    for k in (10, 12, 16, 20):
        for m, d in (('frag', ''), ('classes', ' ')):
            for sort in range(3):
                g = G(rng); src = []; segs = []
                for i in range(k):
                    if i and d: segs.append(d)
                    if sort == 0 or (sort == 2 and i % 2): p = g.par('A'); src.append(p); segs.append(('x', p))
                    else: src.append(f'"{i}"'); segs.append(str(i))
                S.append(shape(g, f'{m}!({", ".join(src)})', segs))
    for m, d in (('frag', ''), ('classes', ' ')):
        for g, t in seqs(rng, m, 30):
            segs = []
            for i, (x, y) in enumerate(t): segs += ([d] if i and d else []) + y
            S.append(shape(g, f'{m}!({", ".join(x for x, _ in t)})', segs))
    for i in range(n):
        g = G(rng); S.append(shape(g, *(frag if i % 2 else classes)(g, rng.choice([0, 1, 2, 3]), n=rng.choice([0, 1, 2, 3, 4, 5]))))
        g = G(rng); cs, ct = classes(g, 1, n=rng.choice([1, 2, 3, 4])); x = g.par('A')
        S.append(shape(g, f'div!(class = {cs}, {x})', ['<div class="'] + ct + ['">', ('x', x), '</div>']))
    return S
# ---- components -------------------------------------------------------------------------------
PT = ['impl Render', "&'static str", 'u32', 'T', 'Option<u32>', 'bool', '(u32, u32)']
def comp(g, n, cname, defaults=False, rest=False):
    """a component and its calls"""
    names = g.rng.sample(['x', 'y', 'title', 'r#type', 'kind', 'a', 'node', 'value', 'buf', 'sig', 'args', 'func', 'f', 'name', 'children_', 'self_', 'wrapper', '_x', '_y', 'X', 'r#in', 'x1', 'x_'], n)
    restpos = g.rng.randrange(n) if rest else None
    ps = []; body = ''; gen = ''
    for i, nm in enumerate(names):
        if i == restpos: ps.append(dict(name=nm, ty='impl Render', rest=True, pat='')); continue
        ty = g.rng.choice(PT)
        if ty == 'T': gen = '<T: Render>' ; ty = 'T' if not any(p['ty'] == 'T' for p in ps) else 'impl Render'
        d = None
        if defaults and g.chance(.6): d = True
        ps.append(dict(name=nm, ty=ty, rest=False, d=d, pat=g.pick('', '', 'mut ')))
    if not any(p['ty'] == 'T' for p in ps): gen = ''
    return ps, gen
def cargval(g, ty, i):
    """(macro source, reference source) of an argument of type ty with event number i"""
    if g.chance(.55):
        if ty == "&'static str": return f'evs({i})'
        if ty == 'u32': return f'evn({i})'
        if ty == 'bool': return f'evb({i})'
        if ty == 'Option<u32>': return g.pick(f'Some(evn({i}))', f'{{ evn({i}); None }}')
        if ty == '(u32, u32)': return f'(evn({i}), 7)'
        return g.pick(f'ev({i})', f'ev({i})', f'evs({i})', f'div!(ev({i}))', f'Some(ev({i}))', f'span!(id = evn({i}), "k")')
    # other forms of expression: literals, names, paths, operators, blocks, macros
    def var(k):
        old = [n for n, t in g.params if t == k] if k in 'SNB' else []
        if old and g.chance(.5): return g.rng.choice(old)
        if k == 'B' and g.caseparams > 2: return 'true'
        if k == 'B': g.caseparams += 1
        return g.par(k)
    c = {"&'static str": ['"given<"', '""', ('S', '{}'), f'{{ let q = evs({i}); q }}', ('B', f'if {{}} {{{{ evs({i}) }}}} else {{{{ "no" }}}}'), f'(|| evs({i}))()', f'id(evs({i}))', f'["a", evs({i})][1]', f'match evn({i}) {{ 0 => "z", _ => "nz" }}', 'r#"ra"w"#', 'concat!("c", "d")', '("t", 0).0', 'stringify!(x)', 'TEXT'],
         'u32': ['7', '0', '0xff', '1_0u32', ('N', '{}'), ('N', '({})'), f'evn({i}) ^ 1', f'{{ evn({i}) }}', 'u32::MAX', f'(evn({i}), 1).0', f'!evn({i})', f'evn({i}) as u32', f'*&evn({i})', f'evo({i}).unwrap_or(4)', 'u32::default()', "'c' as u32", f'unsafe {{ evn({i}) }}', ('B', '{} as u32'), 'NUMBER'],
         'bool': ['true', 'false', ('B', '{}'), ('B', '!{}'), f'!evb({i})', f'evb({i}) && true', f'evn({i}) > 3', f'matches!(evn({i}), 0 | 2)', f'{{ evb({i}) }}', f'(evb({i}))', 'bool::default()', f'evb({i}) == false'],
         'Option<u32>': ['None', 'None', 'Option::None', 'None::<u32>', 'Some(3)', f'evo({i})', f'Some({i}).filter(|_| evb({i}))', ('N', 'Some({})'), f'{{ None }}', f'(None)', 'Default::default()', 'Option::Some(0)'],
         '(u32, u32)': ['(1, 2)', ('N', '({}, 3)'), '((4, 5))', '{ (6, 7) }', f'{{ let q = evn({i}); (q, q) }}', '(u32::MIN, 1)', 'Default::default()']}.get(ty) or \
        ['"lit<"', '""', "'c'", '1u8', '-3', '1.5', 'true', '()', ('A', '{}'), ('A', '{}'), ('A', '({})'), ('A', '{{ {} }}'), ('S', '{}'), ('N', '{}'), 'None::<()>', 'raw!("<")', ('S', 'raw!({})'), 'frag!()', f'frag!(ev({i}), "k")', f'classes!(ev({i}), "k")', f'br!(id = ev({i}))', f'frag_match!(if evb({i}) {{ "yes" }} else {{ div!() }})', ('A', f'frag_match!(if evb({i}) {{{{ {{}} }}}})'), f'iter!([evn({i}), 1])', f'id(ev({i}))', f'(|| ev({i}))()', f'{{ let q = ev({i}); q }}', f'Box::new(()) == Box::new(())'.replace('Box::new(()) == Box::new(())', '() == ()'), f'Cat(ev({i}), ev({i}))', f'ev({i}).pipe()', 'TEXT', 'NUMBER', f'html!(body!(ev({i})))', f'evn({i}) as u8', f'!evb({i})', f'&*evs({i})', 'DocType::HTML5']
    e = g.rng.choice(c)
    if isinstance(e, tuple): return e[1].format(var(e[0]))
    return e
def compdef(g, cname, ps, gen):
    sig = []
    for p in ps:
        a = ''
        if p['rest']: a = '#[rest] '
        elif p.get('d') is not None: a = '#[default] ' if p['d'] == '' else f'#[default({p["d"]})] '
        sig.append(f'{a}{p["pat"]}{p["name"]}: {p["ty"]}')
    parts = []
    for p in ps:
        n = p['name']
        parts += ['"|"', f'{n}.0, "/", {n}.1' if p['ty'].startswith('(') else n]
    vis = g.pick('', '', 'pub ', 'pub(crate) ')
    muts = ''.join(f'let _ = &mut {p["name"]}; ' for p in ps if p['pat'])
    return f'#[laby] {vis}fn {cname}{gen}({", ".join(sig)}{"," if sig and g.chance(.3) else ""}) -> impl Render {{ {muts}mark(1); frag!({", ".join(parts)}) }}'
def c19(rng, n):
    S = []
    for i in range(n):
        g = G(rng); k = i // 2 if 8 <= i < 26 else rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 7])
        ps, gen = comp(g, k, 'comp')
        d = compdef(g, 'comp', ps, gen)
        vals = {p['name']: cargval(g, p['ty'], j + 1) for j, p in enumerate(ps)}
        order = [p['name'] for p in ps]; rng.shuffle(order)
        call_ = 'comp!(' + args(g, [f'{o} = {vals[o]}' for o in order]) + ')'
        plain = 'comp(' + ', '.join(vals[p['name']] for p in ps) + ')'
        if g.chance(.3): call_, plain = f'div!(id = "k", {call_})', f'{{ let q = {plain}; div!(id = "k", q) }}'
        S.append(Shape(call_, f'let n = {plain}; mark(0); Render::render(n, out_); ', g.params, pre=d, mode='unordered'))
    # local variables named like parameters, passed to other parameters
    D = '#[laby] fn comp(x: impl Render, y: impl Render, z: u32) -> impl Render { mark(1); frag!(x, "|", y, "|", z) }'
    for a in ['x = y, y = x, z = z', 'z = z, y = x, x = y', 'y = { let x = x; x }, x = y, z = { let y = z; y }']:
        S.append(Shape(f'comp!({a})', 'let n = comp(y, x, z); mark(0); Render::render(n, out_); ', [('x', 'A'), ('y', 'A'), ('z', 'N')], pre=D, mode='unordered'))
    S.append(Shape('comp!(z = 3, x = comp!(y = v1, x = v0, z = 1), y = v2)', 'let i = comp(v0, v1, 1); let n = comp(i, v2, 3); mark(0); Render::render(n, out_); ', [('v0', 'A'), ('v1', 'A'), ('v2', 'A')], pre=D, mode='unordered'))
    S.append(Shape('comp!(z = v1, y = frag_match!(if v0 { "yes" } else { "no" }), x = div!(comp!(x = "q", y = (), z = 2)))', 'let n = comp(div!(comp("q", (), 2)), if v0 { "yes" } else { "no" }, v1); mark(0); Render::render(n, out_); ', [('v0', 'B'), ('v1', 'N')], pre=D, mode='sorted'))
    S.append(Shape('{ use md::comp; comp!(y = v1, x = v0) }', 'let n = md::comp(v0, v1); mark(0); Render::render(n, out_); ', [('v0', 'A'), ('v1', 'A')], pre='mod md { use super::*; #[laby::laby] pub fn comp(x: impl Render, y: impl Render) -> impl Render { mark(1); frag!(x, "|", y) } }', mode='unordered'))
    S.append(Shape('comp!(b = v1, a = v0)', 'let n = comp(v0, v1); mark(0); Render::render(n, out_); ', [('v0', 'A'), ('v1', 'A')], pre="#[laby] fn comp<'q, T, U>(a: T, b: U) -> (impl Render + 'q) where T: Render + 'q, U: Render + 'q { mark(1); frag!(a, \"|\", b) }".replace("(impl Render + 'q)", "impl Render + 'q"), mode='unordered'))
    S.append(Shape('comp!(b = v1, a = v0, c = v2)', 'let n = comp(v0, v1, v2); mark(0); Render::render(n, out_); ', [('v0', 'A'), ('v1', 'A'), ('v2', 'A')], pre='#[laby] unsafe fn comp0(a: impl Render) -> impl Render { a }  #[laby] #[inline(always)] #[allow(clippy::all)] fn comp(a: impl Render, b: impl Render, c: impl Render) -> impl Render { mark(1); frag!(c, "|", b, "|", a) }', mode='unordered'))
    return S
def c20(rng, n):
    S = []
    for i in range(n):
        g = G(rng); k = i // 2 if 8 <= i < 20 else rng.choice([1, 2, 2, 3, 3, 4, 5]); rest = g.chance(.7)
        ps, gen = comp(g, k, 'comp', defaults=True, rest=rest)
        for j, p in enumerate(ps):
            if p.get('d'):
                # a default of a type the macro can infer
                t = p['ty']; e = 50 + j
                opts = {"&'static str": ['', '"df<"', f'evs({e})'], 'u32': ['', '9', f'evn({e})', f'evn({e}) / 2'], 'bool': ['', 'true', f'evb({e})'], 'Option<u32>': ['', 'None', f'Some(evn({e}))'], '(u32, u32)': ['', '(3, 4)', f'(evn({e}), 1)']}.get(t, ['()', '"df"', f'ev({e})', 'div!("d")', f'Some(ev({e}))', 'None::<()>', '((), 1).1'])
                p['d'] = rng.choice(opts)
            elif 'd' in p: p['d'] = None
        d = compdef(g, 'comp', ps, gen)
        given = [p for p in ps if not p['rest'] and (p.get('d') is None or g.chance(.5))]
        items = [('n', p['name'], cargval(g, p['ty'], j + 1)) for j, p in enumerate(given)]
        rng.shuffle(items)
        rs = []
        if rest:
            for j in range(i - 18 if 20 <= i < 34 else rng.choice([0, 1, 1, 2, 3, 5])):
                e = 20 + j
                s = g.pick(f'ev({e})', f'ev({e})', f'p!(ev({e}))', f'evs({e})', '"li<t"', f'frag!(ev({e}), "x")', f'Some(ev({e}))', f'br!(id = evn({e}))', f'classes!("a", ev({e}))', '()', "'c'", '7')
                if g.chance(.3): s = cargval(g, 'impl Render', e)
                rs.append(s)
        lst = [f'{a} = {b}' for _, a, b in items]
        pos = sorted(rng.randrange(len(lst) + 1) for _ in rs)
        full = []; ri = 0
        for x in range(len(lst) + 1):
            while ri < len(rs) and pos[ri] == x: full.append(rs[ri]); ri += 1
            if x < len(lst): full.append(lst[x])
        V = {a: b for _, a, b in items}
        def cat(xs):
            r = '()'
            for x in reversed(xs): r = f'Cat({x}, {r})'
            return r
        def dv(p):
            if p['d'] == '': return 'Default::default()'
            return p['d']
        plain = 'comp(' + ', '.join(cat(rs) if p['rest'] else V.get(p['name'], None) or dv(p) for p in ps) + ')'
        S.append(Shape('comp!(' + args(g, full) + ')', f'let n = {plain}; mark(0); Render::render(n, out_); ', g.params, pre=d, mode='restorder'))
    # defaults next to each other, rest first / last, defaulted rest neighbours
    D = '#[laby] fn comp(#[default] a: u32, #[default(evn(60))] b: u32, #[rest] c: impl Render, #[default("k")] d: &\'static str) -> impl Render { mark(1); frag!(a, "|", b, "|", c, "|", d) }'
    import itertools
    for sub in itertools.product([0, 1], repeat=3):
        for nr in (0, 1, 2):
            it = [f'{n} = {v}' for n, v, s in zip('abd', ['evn(1)', 'evn(2)', 'evs(3)'], sub) if s]
            rs = [f'ev({20 + j})' for j in range(nr)]
            lst = it[:1] + rs[:1] + it[1:] + rs[1:]
            r = '()'
            for x in reversed(rs): r = f'Cat({x}, {r})'
            S.append(Shape(f'comp!({", ".join(lst)})', f'let n = comp({"evn(1)" if sub[0] else "0"}, {"evn(2)" if sub[1] else "evn(60)"}, {r}, {"evs(3)" if sub[2] else chr(34) + "k" + chr(34)}); mark(0); Render::render(n, out_); ', [], pre=D, mode='restorder'))
    return S
def armbody(g, vars_, depth):
    k = g.rng.randrange(9)
    g.nev += 1; e = g.nev
    if k == 0: return f'ev({e})'
    if k == 1: return f'div!(ev({e}))'
    if k == 2: return '"lit<"'
    if k == 3: return f'{{ let q = ev({e}); q }}'
    if k == 4 and vars_: return g.rng.choice(vars_)
    if k == 5: return f'Some(ev({e}))'
    if k == 6 and vars_: v = g.rng.choice(vars_); return f'span!({v}, ev({e}))'
    if k == 7: return f'classes!(ev({e}), "b")'
    if k == 8: return '()'
    return f'evn({e})'
def plaincond(g, c):
    """conditions in other forms, over variables"""
    def b():
        old = [n for n, t in g.params if t == 'B']
        if old and (len(old) > 2 or g.chance(.5)): return g.rng.choice(old)
        return g.par('B')
    def n():
        old = [n for n, t in g.params if t == 'N']
        return g.rng.choice(old) if old else g.par('N')
    k = g.rng.randrange(16)
    if k < 3: return b()
    if k < 6: return '!' + b()
    if k == 6: return f'({b()})'
    if k == 7: return f'{b()} && {b()}'
    if k == 8: return f'!({b()} || {b()})'
    if k == 9: return f'{n()} {g.pick("==", "<", ">=", "!=")} {g.rng.randrange(5)}'
    if k == 10: return f'matches!({n()}, 1 | 3..=9)'
    if k == 11: return f'{{ let q = {b()}; !q }}'
    if k == 12: return g.pick('true', 'false')
    if k == 13: return f'if {b()} {{ {b()} }} else {{ evb({c}) }}'
    if k == 14: return f'{b()} == evb({c})'
    return f'let 2..=7 = {n()}'
def c21(rng, n):
    S = []
    def ifchain(g, depth):
        k = depth or rng.choice([1, 2, 2, 3, 4]); parts = []; els = rng.random() < .6
        for i in range(k):
            g.nev += 1; c = g.nev; vs = []
            r = rng.randrange(12)
            if r >= 6: cs = plaincond(g, c)
            elif r < 3: cs = f'evb({c})'
            elif r == 3: cs = f'evn({c}) > {rng.randrange(5)} && evb({c + 1})'; g.nev += 1
            elif r == 4: cs = f'let Some(w) = evo({c})'; vs = ['w']
            else: cs = f'!evb({c}) || evb({c + 1})'; g.nev += 1
            parts.append((cs, armbody(g, vs, depth)))
        eb = armbody(g, [], depth) if els else None
        return parts, eb
    def ifsrc(parts, eb, f):
        s = ' else '.join(f'if {c} {{ {f(b)} }}' for c, b in parts)
        return s + (f' else {{ {f(eb)} }}' if eb is not None else '')
    REN = lambda b: f'let q = {b}; Render::render(q, out_)'
    RENX = lambda b: f'{{ let q = {b}; Render::render(q, out_) }}'
    def wrap(g, s):
        r = rng.random()
        if r < .6: return s, '', ''
        if r < .8: return f'div!({s})', '<div>', '</div>'
        return f'frag!("a", {s}, "b")', 'a', 'b'
    for i in range(n):
        g = G(rng); parts, eb = ifchain(g, i // 2 if 8 <= i < 18 else 0)
        s, a, b = wrap(g, 'frag_match!(' + ifsrc(parts, eb, lambda x: x) + ')')
        S.append(Shape(s, (f'out_.push_str({rstr(a)}); ' if a else '') + ifsrc(parts, eb, REN) + '; ' + (f'out_.push_str({rstr(b)}); ' if b else '') + 'mark(0); ', g.params))
    for i in range(n):
        g = G(rng); g.nev = 1
        arms = []
        kind = rng.randrange(3)
        for j in range(i // 2 if 8 <= i < 20 else rng.choice([1, 2, 3, 4, 5])):
            gd = ''; vs = []
            if kind == 0:
                p, vs = rng.choice([(str(rng.randrange(6)), []), (f'{rng.randrange(4)} | {rng.randrange(4, 9)}', []), (f'{rng.randrange(3)}..={rng.randrange(4, 9)}', []), ('w', ['w']), (f'w @ {rng.randrange(3)}..={rng.randrange(4, 9)}', ['w']), (f'w @ ({rng.randrange(3)} | {rng.randrange(4, 9)})', ['w'])])
            elif kind == 1: p, vs = rng.choice([('Some(w)', ['w']), ('None', []), (f'Some({rng.randrange(5)})', []), (f'Some(w @ 3..=9)', ['w']), ('w', []), ('Some(1 | 2) | None', [])])
            else: p, vs = rng.choice([(f'({rng.randrange(3)}, w)', ['w']), ('(w, true)', ['w']), (f'(w, z)', ['w', 'z']), (f'({rng.randrange(5)}, _)', []), ('(.., false)', [])])
            if rng.random() < .4:
                g.nev += 1; gd = rng.choice([f' if {plaincond(g, g.nev)}', f' if evb({g.nev})', f' if evb({g.nev})', f' if w > 2 && evb({g.nev})' if kind == 0 and 'w' in vs else f' if !evb({g.nev})'])
            arms.append((p, gd, armbody(g, vs, 0)))
        if g.chance(.3): arms.insert(rng.randrange(len(arms) + 1), ('_', f' if {plaincond(g, 98)}' if g.chance(.7) else ' if evb(97)', armbody(g, [], 0)))
        arms.append(('_', '', armbody(g, [], 0)))
        scr = ['evn(1)', 'evo(1)', '(evn(1), evb(2))'][kind]
        if g.chance(.4): x = g.par('N'); scr = [g.pick(x, f'{{ let q = {x}; q }}', f'({x})', f'{x} & 7', f'id({x})'), g.pick(f'Some({x})', f'evo(1).or(Some({x}))'), f'({x}, evb(2))'][kind]

        if kind == 2: arms = [(p, gd.replace('evb(2)', 'evb(99)'), b) for p, gd, b in arms]
        ren = lambda f: f'match {scr} {{ ' + ', '.join(f'{p}{gd} => {f(b)}' for p, gd, b in arms) + rng.choice([', ', '']) + ' }'
        s, a, b = wrap(g, 'frag_match!(' + ren(lambda x: x) + ')')
        S.append(Shape(s, (f'out_.push_str({rstr(a)}); ' if a else '') + ren(RENX) + '; ' + (f'out_.push_str({rstr(b)}); ' if b else '') + 'mark(0); ', g.params))
    A = [('v0', 'A'), ('v1', 'A'), ('v2', 'A'), ('b0', 'B'), ('b1', 'B')]
    # every sequence of three conditions, and of two arms, of a few forms
    import itertools
    Q = [('b0', 'B'), ('b1', 'B'), ('b2', 'B'), ('n0', 'N')]
    for cs in itertools.product(['b%d', '!b%d', 'evb(%d)', 'b0 && !b1', 'let 1..=4 = n0', '(b%d)', 'n0 > 2'], repeat=3):
        cs = [c % j if '%' in c else c for j, c in enumerate(cs)]
        parts = [(c, f'"{j}"') for j, c in enumerate(cs)]; eb = '"e"' if rng.random() < .7 else None
        S.append(Shape('frag_match!(' + ifsrc(parts, eb, lambda x: x) + ')', ifsrc(parts, eb, REN) + '; mark(0); ', Q))
    arms_ = [p + gd for p in ['1', '_', 'w', '1..=4', '2 | 3'] for gd in ['', ' if b%d', ' if !b%d', ' if evb(%d)']]
    for ar in list(itertools.product(arms_, repeat=2)) + [tuple(rng.choice(arms_) for _ in range(rng.choice([3, 4, 5]))) for _ in range(60)]:
        ren = lambda f: 'match n0 { ' + ', '.join((p % j if '%' in p else p).replace('b3', 'b0').replace('b4', 'b1') + ' => ' + f(f'"{j}"') for j, p in enumerate(ar + ('_',))) + ' }'
        S.append(Shape('frag_match!(' + ren(lambda x: x) + ')', ren(RENX) + '; mark(0); ', Q))
    S.append(Shape('frag_match!(if b0 { v0 } else { frag_match!(match b1 { true => v1, false => div!(v2) }) })', 'if b0 { Render::render(v0, out_) } else if b1 { Render::render(v1, out_) } else { out_.push_str("<div>"); Render::render(v2, out_); out_.push_str("</div>") } mark(0); ', A))
    S.append(Shape('frag_match!(match b0 { true if b1 => frag_match!(if b1 { v0 }), true => v1, false => v2 })', 'if b0 { if b1 { Render::render(v0, out_) } else { Render::render(v1, out_) } } else { Render::render(v2, out_) } mark(0); ', A))
    S.append(Shape('{ let x = Some(v0); frag_match!(match x { Some(x) => { let y = x; y } None => v1 }) }', 'Render::render(v0, out_); mark(0); ', A[:2]))
    S.append(Shape('frag_match!(if b0 { let w = v0; let u = frag!(w, v1); u } else if b1 { v2 })', 'if b0 { Render::render(v0, out_); Render::render(v1, out_) } else if b1 { Render::render(v2, out_) } mark(0); ', A))
    S.append(Shape('ul!(frag_match!(if b0 { li!(v0) } else { () }), frag_match!(match b1 { true => li!(v1), _ => v2 }))', 'out_.push_str("<ul>"); if b0 { out_.push_str("<li>"); Render::render(v0, out_); out_.push_str("</li>") } if b1 { out_.push_str("<li>"); Render::render(v1, out_); out_.push_str("</li>") } else { Render::render(v2, out_) } out_.push_str("</ul>"); mark(0); ', A))
    return S
def c23(rng, n):
    S = []
    P = [('v0', 'A'), ('v1', 'A')]
    for t in NORMAL:
        S.append(Shape(f'{t}!(id = v0, v1)', out([f'<{t} id="', ('x', 'v0'), '">', ('x', 'v1'), f'</{t}>']) + 'mark(0); ', P, tag=t))
        S.append(Shape(f'frag!({t}!(id = v0, v1), {t}!())', out([f'<{t} id="', ('x', 'v0'), '">', ('x', 'v1'), f'</{t}><{t}></{t}>']) + 'mark(0); ', P, tag=t))
        S.append(Shape(f'{t}!("k<", class = "c", {{ v0 }}, hidden = bool!(b0), title = v1, b!(), "z", "", style = "s")', out([f'<{t} class="c"', ('if', 'b0', [' hidden']), ' title="', ('x', 'v1'), '" style="s">k&lt;', ('x', 'v0'), f'<b></b>z</{t}>']) + 'mark(0); ', P + [('b0', 'B')], tag=t))
        S.append(Shape(f'{t}!("k")', out([f'<{t}>k</{t}>']) + 'mark(0); ', [], tag=t))
        S.append(Shape(f'{t}!(\n)', out([f'<{t}></{t}>']) + 'mark(0); ', [], tag=t))
        S.append(Shape(f'div!({t}!({t}!(), laby::{t}!(v0)), v1)', out([f'<div><{t}><{t}></{t}><{t}>', ('x', 'v0'), f'</{t}></{t}>', ('x', 'v1'), '</div>']) + 'mark(0); ', P, tag=t))
    for t in VOID:
        S.append(Shape(f'{t}!(class = "c", hidden = bool!(b0), title = v1, src = v0, style = "s", {{ v1 }} = 5, "n<" = bool!(true))', out([f'<{t} class="c"', ('if', 'b0', [' hidden']), ' title="', ('x', 'v1'), '" src="', ('x', 'v0'), '" style="s" ', ('x', 'v1'), '="5" n&lt;>']) + 'mark(0); ', P[:1] + [('v1', 'S'), ('b0', 'B')], tag=t))
        S.append(Shape(f'{t}!(id = v0)', out([f'<{t} id="', ('x', 'v0'), '">']) + 'mark(0); ', P[:1], tag=t))
        S.append(Shape(f'{t}!()', out([f'<{t}>']) + 'mark(0); ', [], tag=t))
        S.append(Shape(f'frag!({t}!(), "x", {t}!(id = v0, k = "1"))', out([f'<{t}>x<{t} id="', ('x', 'v0'), '" k="1">']) + 'mark(0); ', P[:1], tag=t))
        S.append(Shape(f'p!({t}!(), laby::{t}!(id = v0), v1)', out([f'<p><{t}><{t} id="', ('x', 'v0'), '">', ('x', 'v1'), '</p>']) + 'mark(0); ', P, tag=t))
    return S

GEN = {'C13': (c13, 160, 900), 'C14': (c14, 120, 700), 'C15': (c15, 30, 400), 'C16': (c16, 90, 700), 'C17': (c17, 130, 900), 'C18': (c18, 70, 500), 'C19': (c19, 110, 700), 'C20': (c20, 110, 700), 'C21': (c21, 70, 500), 'C23': (c23, 0, 0)}

SYM = '''
extern "Rust" { fn vpx_eval(i: u64) -> Abs; fn vpx_evalb(i: u64) -> bool; fn vpx_evals(i: u64) -> &'static str; fn vpx_evaln(i: u64) -> u32; fn vpx_mark(i: u64); }
#[inline(never)] fn ev(i: u64) -> Abs { unsafe { vpx_eval(i) } }
fn evb(i: u64) -> bool { unsafe { vpx_evalb(i) } }
fn evs(i: u64) -> &'static str { unsafe { vpx_evals(i) } }
fn evn(i: u64) -> u32 { unsafe { vpx_evaln(i) } }
fn mark(i: u64) { unsafe { vpx_mark(i) } }
'''
BOTH = '''
fn evo(i: u64) -> Option<u32> { let n = evn(i); if n & 1 == 0 { None } else { Some(n >> 1) } }
fn id<T>(x: T) -> T { x }
struct Cat<A, B>(A, B);
impl<A: Render, B: Render> Render for Cat<A, B> { fn render(self, buf: &mut Buffer) { self.0.render(buf); self.1.render(buf) } }
const TEXT: &str = "con<"; const NUMBER: u32 = 77;
struct One<T> { it: T } #[macro_export] macro_rules! same { ($x:expr) => { $x } }
trait Pipe: Sized { fn pipe(self) -> Self { self } } impl<T> Pipe for T {}
'''
CONC = r'''
#![allow(warnings)]
use laby::*; use laby::internal::Buffer; use std::cell::{Cell, RefCell};
use std::time::{Duration, Instant};
pub struct Abs(u64);
impl Render for Abs { fn render(self, b: &mut Buffer) { if self.0 % 5 == 4 { return; } b.push_str(&format!("[{}<]", self.0)) } }
thread_local! { static LOG: RefCell<Vec<(u8, u64)>> = RefCell::new(vec![]); static SEED: Cell<u64> = Cell::new(0); }
fn mix(a: u64, b: u64) -> u64 { let mut x = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xC2B2AE3D27D4EB4F); x ^= x >> 29; x = x.wrapping_mul(0xBF58476D1CE4E5B9); x ^= x >> 32; x }
fn seed() -> u64 { SEED.with(|s| s.get()) }
fn log(k: u8, i: u64) { LOG.with(|l| l.borrow_mut().push((k, i))) }
fn ev(i: u64) -> Abs { log(0, i); let n = LOG.with(|l| l.borrow().iter().filter(|x| **x == (0, i)).count() as u64); Abs(i * 1000 + n) }
fn evb(i: u64) -> bool { log(0, i); mix(seed(), i) & 1 == 1 }
fn evs(i: u64) -> &'static str { log(0, i); STR[mix(seed(), i) as usize % STR.len()] }
fn evn(i: u64) -> u32 { log(0, i); let r = mix(seed(), i); if r & 64 != 0 { (r >> 8) as u32 % 12 } else { (r >> 8) as u32 } }
fn mark(i: u64) { log(1, i) }
static STR: [&str; 12] = ["", "plain", "<b>", "a&b", "it's \"q\"", "é日😀", "&amp;", " ", "0123456789abcdefghijklmnop<", "\0", "x>y", "'"];
pub struct V(u64);
impl V {
    fn A(&self, i: u64) -> Abs { Abs(mix(self.0, i) % 1000) } fn S(&self, i: u64) -> &'static str { STR[mix(self.0, i) as usize % STR.len()] } fn B(&self, i: u64) -> bool { mix(self.0, i) & 1 == 1 }
    fn O(&self, i: u64) -> Option<Abs> { if mix(self.0, i) & 1 == 1 { Some(self.A(i)) } else { None } } fn C(&self, i: u64) -> char { ['a', '<', '>', '&', '"', '\'', 'é', '😀', '\0', '日'][mix(self.0, i) as usize % 10] }
    fn N(&self, i: u64) -> u32 { mix(self.0, i) as u32 >> (mix(self.0, i + 77) % 32) } fn I(&self, i: u64) -> i64 { (mix(self.0, i) as i64) >> (mix(self.0, i + 78) % 64) }
}
fn norm(mode: u8, v: &[(u8, u64)]) -> Vec<(u8, u64)> {
    let mut v = v.to_vec();
    match mode {
        1 => { let n = v.len(); let mut a = 0; while a < n { let mut b = a; while b < n && v[b].0 == v[a].0 && v[b].1 / 100 == v[a].1 / 100 { b += 1 } v[a..b].sort(); a = b } }
        2 | 3 => { let n = v.len(); let mut a = 0; while a < n { if v[a].0 == 1 { a += 1; continue } let mut b = a; while b < n && v[b].0 == 0 { b += 1 }
            if mode == 2 { v[a..b].sort() } else { let (mut x, y): (Vec<_>, Vec<_>) = v[a..b].iter().partition(|e| !(20..50).contains(&e.1)); x.sort(); x.extend(y); v[a..b].copy_from_slice(&x) } a = b } }
        4 => v.sort(),
        _ => {}
    }
    v
}
type F = fn(&V, &mut Buffer);
fn run(f: F, v: u64) -> Result<(String, Vec<(u8, u64)>), String> {
    SEED.with(|s| s.set(v)); LOG.with(|l| l.borrow_mut().clear());
    let r = std::panic::catch_unwind(|| { let mut b = if v % 3 == 0 { Buffer::new() } else { Buffer::with_capacity((v % 50) as usize) }; f(&V(v), &mut b); b.into_string() });
    r.map(|s| (s, LOG.with(|l| l.borrow().clone()))).map_err(|_| "panics".to_string())
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[4].parse().unwrap(); let ms: u64 = a[5].parse().unwrap();
    let end = Instant::now() + Duration::from_millis(ms);
    std::panic::set_hook(Box::new(|_| {}));
    let (mut evals, mut fails, mut round) = (0u64, 0, 0u64);
    while Instant::now() < end && round < 3000 && fails < 20 {
        for (i, (src, mode, m, r)) in ALL.iter().enumerate() {
            let v = mix(seed.wrapping_mul(1000003).wrapping_add(round), i as u64) >> 1;
            let want = match run(*r, v) { Ok(x) => x, Err(_) => continue };
            evals += 1;
            let e = |w: &str| format!("{} values={} : {}", w, v, src).replace('\n', " ").replace('\t', " ");
            match run(*m, v) {
                Err(p) => { fails += 1; println!("FAIL\t{}\t{}\t", p, e("program")); }
                Ok(got) => {
                    if got.0 != want.0 { fails += 1; println!("FAIL\trendered text differs\t{}\tgot {:?} want {:?}", e("program"), got.0, want.0) }
                    else if norm(*mode, &got.1) != norm(*mode, &want.1) { fails += 1; println!("FAIL\tevaluation order or count differs\t{}\tgot {:?} want {:?}", e("program"), got.1, want.1) }
                }
            }
            if fails >= 20 { break; }
        }
        round += 1;
    }
    println!("STATS\t{}\t{}\t{}", evals, evals.min(ALL.len() as u64 * 40), fails);
    for (src, ..) in ALL.iter().take(6) { println!("SAMPLE\t{}", src.replace('\n', " ").replace('\t', " ")); }
    std::process::exit(0);
}
'''
MODES = {'exact': 0, 'group': 1, 'unordered': 2, 'restorder': 3, 'sorted': 4}

def shapes(prop, tier, seed):
    f, q, t = GEN[prop]
    rng = random.Random(f'{prop}/{seed if tier == "thorough" else 1}')
    S = f(rng, t if tier == 'thorough' else q)
    import mined
    S += mined.shapes(prop)
    seen = set(); out_ = []
    for s in S:
        if s.key() not in seen: seen.add(s.key()); out_.append(s)
    return out_

def functions(S, skip=()):
    """Rust text of the pairs; each on known lines"""
    t = ''; spans = []; line = 1
    for i, s in enumerate(S):
        if i in skip: spans.append(None); continue
        ps = ''.join(f'{n}: {KINDS[k]}, ' for n, k in s.params)
        x = f'pub mod s{i} {{ use super::*; {s.pre}\npub fn vp_m_{i}({ps}out_: &mut Buffer) {{ let n = {s.m}; mark(0); Render::render(n, out_) }}\npub fn vp_q_{i}({ps}out_: &mut Buffer) {{ {s.r} }}\n}}\n'
        spans.append((line, line + x.count('\n')))
        line += x.count('\n'); t += x
    return t, spans

def bad_shapes(msg, spans):
    bad = set()
    for m in re.finditer(r'^\s*(?:error.*\n)?\s*--> [^\n]*?pairs\.rs:(\d+):', msg, re.M):
        # only errors, not warnings
        l = int(m.group(1))
        for i, s in enumerate(spans):
            if s and s[0] <= l < s[1]: bad.add(i); break
    return bad

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text: return
    open(path, 'w').write(text)

def crashed(msg): return not re.search(r'^error[^\n]*\n\s*--> ', msg, re.M)
def crasher(prop, S, tier, rej):
    """the index of one program the compiler crashes on or does not finish with"""
    live = [i for i in range(len(S)) if i not in rej]; end = time.time() + 240
    def fails(sub):
        try: crates(prop, S, tier, {i: '' for i in range(len(S)) if i not in sub}); return False
        except build.BuildError as e: return crashed(e.full)
    while len(live) > 1:
        if time.time() > end: return None
        h = set(live[:len(live) // 2])
        if fails(h): live = sorted(h)
        else: live = [i for i in live if i not in h]
    return live[0] if live and fails(set(live)) and not fails(set()) else None

def crates(prop, S, tier, probe=None):
    """Write and build both crates -> (mir dump path or None, executable or None, rejected {index: message})"""
    rej = dict(probe or {})
    base = os.path.join(build.BUILD, 'mac', prop + '-' + tier) + ('-probe' if probe else '')
    for attempt in range(6):
        body, spans = functions(S, rej)
        core = open(os.path.join(build.VERIF, 'harness', 'core', 'src', 'lib.rs')).read()
        core = '\n'.join(l for l in core.split('\n') if not l.startswith('#![')).replace('//! ', '// ')
        hdr = '#![allow(warnings)]\n#![allow(deprecated, clippy::all, improper_ctypes)]\n'
        ct = lambda n: f'[package]\nname = "{n}"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nlaby_common = {{ path = "/repo/laby_common" }}\nlaby = {{ path = "/repo/laby" }}\n[profile.dev]\ndebug = 0\nopt-level = 0\nincremental = false\n'
        n1 = 'vpmac' + prop.lower(); n2 = 'vpmacc' + prop.lower()
        for d, n, text in ((base + '-sym', n1, None), (base + '-conc', n2, None)):
            write(d + '/Cargo.toml', ct(n))
            lk = os.path.join(build.VERIF, 'harness', 'core', 'Cargo.lock')
            if not os.path.exists(d + '/Cargo.lock'): open(d + '/Cargo.lock', 'w').write(open(lk).read().replace('name = "vpcore"', f'name = "{n}"'))
        write(base + '-sym/src/lib.rs', hdr + core + '\nuse laby::*;\n' + SYM + BOTH + '\n#[path = "pairs.rs"] pub mod pairs_;\n')
        tab = ''.join(f'({rstr((s.pre + " ## " if s.pre else "") + s.m)}, {MODES[s.mode]}u8, (|v, b| pairs_::s{i}::vp_m_{i}({"".join(f"v.{k}({j}), " for j, (n, k) in enumerate(s.params))}b)) as F, (|v, b| pairs_::s{i}::vp_q_{i}({"".join(f"v.{k}({j}), " for j, (n, k) in enumerate(s.params))}b)) as F),\n' for i, s in enumerate(S) if i not in rej)
        write(base + '-conc/src/main.rs', CONC.lstrip() + BOTH + f'#[path = "pairs.rs"] pub mod pairs_;\nstatic ALL: &[(&str, u8, F, F)] = &[\n{tab}];\n')
        for d in (base + '-sym', base + '-conc'): write(d + '/src/pairs.rs', 'use super::*; ' + body)
        if probe:
            build.run(['cargo', 'check', '--offline', '-q'], base + '-conc', {'CARGO_TARGET_DIR': os.path.join(build.BUILD, 'macc')}, timeout=40, mem=6 << 30); return
        try:
            exe = None
            with build.lock('mac-' + prop):
                build.run(['cargo', 'build', '--offline', '-q'], base + '-conc', {'CARGO_TARGET_DIR': os.path.join(build.BUILD, 'macc')}, timeout=400, mem=12 << 30)
            exe = os.path.join(build.BUILD, 'macc', 'debug', n2)
            path = build.dump_dir(base + '-sym', n1)
            return path, exe, rej
        except build.BuildError as e:
            bad = bad_shapes(e.full, spans)
            if not bad and crashed(e.full) and not probe:
                i = crasher(prop, S, tier, rej)
                if i is None: raise
                rej[i] = 'the compiler crashes or does not finish on it'
                return None, None, rej
            if not bad: raise
            for b in bad: rej[b] = err_at(e.full, spans[b])
    raise build.BuildError('too many rounds of rejected programs')
def err_at(msg, span):
    for m in re.finditer(r'^(error[^\n]*)\n\s*--> [^\n]*?pairs\.rs:(\d+):', msg, re.M):
        if span[0] <= int(m.group(2)) < span[1]: return m.group(1)
    return 'does not compile'
