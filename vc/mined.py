"""Shapes around the words and numbers that the sources under test mention now and did not when these checks were written.

A change that makes a macro behave differently for a particular word or count usually names it.  The programs made here have the
same documented meaning as all others; on the original sources there are none of them."""
import os, re, glob, json, keyword, random
import build
BASE = os.path.join(build.VERIF, 'vc', 'mined_base.json')
KEY = set('''as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen union macro_rules raw'''.split())
RESERVED = re.compile(r'^(v\d*|e\d+|a\d+|c|ev|evs|evb|evn|evo|id|mark|out_|vp_.*|n\d*|q|z|w|same|one|cat|_+|comp|inner|text|number)\Z')

def mine():
    """how often each word and number is mentioned"""
    from collections import Counter
    words = Counter(); nums = Counter()
    for f in sorted(glob.glob(os.path.join(build.REPO, 'laby_macros', 'src', '**', '*.rs'), recursive=True) + glob.glob(os.path.join(build.REPO, 'laby', 'src', '**', '*.rs'), recursive=True)):
        s = open(f, errors='replace').read()
        s = re.sub(r'^\s*//.*$', '', s, flags=re.M)
        W, N = build.constants(s)
        for l in s.split('\n'):
            w, n = build.constants(l); words.update(w); nums.update(n)
        for x in W: words[x] = words[x] or 1
        for x in N: nums[x] = nums[x] or 1
    return words, nums

def fresh():
    """the words and numbers mentioned now and not in the base, then those mentioned more often"""
    if os.environ.get('VP_MINE'):
        a, b = os.environ['VP_MINE'].split(';'); return [w for w in a.split('|') if w], [int(x) for x in b.split('|') if x]
    b = json.load(open(BASE)); w, n = mine(); bw = b['words']; bn = {int(k): v for k, v in b['nums'].items()}
    ok = lambda x: 0 < len(x) <= 40 and all(ord(c) < 0xd800 for c in x)
    W = sorted((x for x in w if ok(x) and w[x] > bw.get(x, 0)), key=lambda x: (x in bw, len(x), x))
    N = sorted((x for x in n if x < 1 << 64 and n[x] > bn.get(x, 0)), key=lambda x: (x in bn, x))
    return W[:10], N[:8]
def ident(w): return re.match(r'^[a-zA-Z_][a-zA-Z0-9_]*\Z', w) is not None and w not in KEY and not RESERVED.match(w)

def shapes(prop):
    from corpus import Shape, G, shape, rstr, esc, out, NORMAL, VOID
    W, N = fresh(); S = []
    V3 = [('v0', 'A'), ('v1', 'A'), ('v2', 'S')]
    rng = random.Random('mined' + prop)
    def p1(w): return [w, w + 'x', 'x' + w, 'a ' + w + ' b', w + w, w.upper(), w.capitalize()]
    for w in W:
        L, E = rstr(w), esc(w)
        names = [(rstr(x), esc(x)) for x in dict.fromkeys(p1(w))] + [(x, x) for x in dict.fromkeys(p1(w)) if ident(x)] + ([('r#' + w, w)] if re.match(r'^[a-z_][a-z0-9_]*\Z', w) and w not in ('self', 'crate', 'super', 'Self', '_') else [])
        if prop in ('C13', 'C15', 'C12'):
            for x in dict.fromkeys(p1(w)):
                l, e = rstr(x), esc(x)
                for s, t in ((f'div!({l}, v0, {l})', ['<div>' + e, ('x', 'v0'), e + '</div>']), (f'div!(id = {l}, k = ({l}), {l}, {{ {l} }})', [f'<div id="{e}" k="{e}">{e}{e}</div>']), (f'div!(id = v2, class = {l}, v1)', ['<div id="', ('x', 'v2'), f'" class="{e}">', ('x', 'v1'), '</div>'])):
                    S.append(Shape(s, out(t) + 'mark(0); ', V3))
        if prop in ('C13', 'C23', 'C15', 'C17'):
            for n, e in names:
                S.append(Shape(f'div!({n} = v0, x = v2, {n} = "l", v1)', out([f'<div {e}="', ('x', 'v0'), '" x="', ('x', 'v2'), f'" {e}="l">', ('x', 'v1'), '</div>']) + 'mark(0); ', V3))
                S.append(Shape(f'frag!({", ".join(f"{{ {t}!({n} = v2) }}" for t in NORMAL + VOID)})', out([y for t in NORMAL for y in (f'<{t} {e}="', ('x', 'v2'), f'"></{t}>')] + [y for t in VOID for y in (f'<{t} {e}="', ('x', 'v2'), '">')]) + 'mark(0); ', V3))
                S.append(Shape(f'frag!({", ".join(f"{t}!({n} = {L})" for t in NORMAL + VOID)})', out([f'<{t} {e}="{E}"></{t}>' for t in NORMAL] + [f'<{t} {e}="{E}">' for t in VOID]) + 'mark(0); ', V3))
        if prop == 'C14':
            for n, e in names:
                S.append(Shape(f'div!({n} = bool!(b0), x = bool!(true), {n} = bool!(false), k = v0, {n} = bool!(true))', out(['<div', ('if', 'b0', [' ' + e]), ' x k="', ('x', 'v0'), f'" {e}></div>']) + 'mark(0); ', V3 + [('b0', 'B')]))
                S.append(Shape(f'frag!({", ".join(f"{t}!({n} = bool!(b0))" for t in NORMAL + VOID)})', out([y for t in NORMAL for y in (f'<{t}', ('if', 'b0', [' ' + e]), f'></{t}>')] + [y for t in VOID for y in (f'<{t}', ('if', 'b0', [' ' + e]), '>')]) + 'mark(0); ', [('b0', 'B')]))
                S.append(Shape(f'frag!({", ".join(f"{{ {t}!({n} = bool!(true)) }}" for t in NORMAL + VOID)})', out([f'<{t} {e}></{t}>' for t in NORMAL] + [f'<{t} {e}>' for t in VOID]) + 'mark(0); ', []))
        if prop in ('C16', 'C18'):
            for m, d in (('frag', ''), ('classes', ' '), ('div', None)):
                for x in dict.fromkeys(p1(w)):
                    l, e = rstr(x), esc(x)
                    for items in ([(l, e)], [(l, e), ('v0', None)], [('v0', None), (l, e)], [('v0', None), (l, e), ('v1', None)], [(l, e), (l, e)], [('b!()', '<b></b>'), (l, e), ('br!()', '<br>')], [('classes!("a", %s)' % l, 'a ' + e), (l, e)], [('frag!(%s)' % l, e), ('v0', None), ('frag!(%s, "k")' % l, e + 'k')]):
                        segs = []
                        for i, (s, t) in enumerate(items): segs += ([d] if i and d else []) + [t if t is not None else ('x', s)]
                        if m == 'div': segs = ['<div>'] + segs + ['</div>']
                        S.append(Shape(f'{m}!({", ".join(s for s, _ in items)})', out(segs) + 'mark(0); ', V3))
        if prop == 'C17' and ident(w):
            S.append(Shape(f'div!(id = {w}, {w}, k = v0, {{ {w} }})', out(['<div id="', ('x', w), '" k="', ('x', 'v0'), '">', ('x', w), ('x', w), '</div>']) + 'mark(0); ', [(w, 'S'), ('v0', 'A')]))
            S.append(Shape(f'{{ let {w} = 5u32; div!(v0, id = {w}, k = bool!({w} > 3), {w} + 1) }}', out(['<div id="5" k>', ('x', 'v0'), '6</div>']) + 'mark(0); ', [('v0', 'A')]))
        if prop in ('C19', 'C20'):
            for x in [y for y in p1(w) if ident(y)] + (['r#' + w] if re.match(r'^[a-z_][a-z0-9_]*\Z', w) and w not in ('self', 'crate', 'super', 'Self', '_') else []):
                d = '#[default("df")] ' if prop == 'C20' else ''; r = '#[rest] ' if prop == 'C20' else ''
                pre = f'#[laby] fn comp(p0: impl Render, {d}{x}: &\'static str, {r}p1: impl Render) -> impl Render {{ mark(1); frag!(p0, "|", {x}, "|", p1) }}'
                if prop == 'C19':
                    for c in (f'p1 = ev(1), {x} = evs(2), p0 = ev(3)', f'{x} = evs(2), p0 = ev(3), p1 = ev(1)', f'p0 = ev(3), p1 = ev(1), {x} = evs(2)'): S.append(Shape(f'comp!({c})', 'let n = comp(ev(3), evs(2), ev(1)); mark(0); Render::render(n, out_); ', [], pre=pre, mode='unordered'))
                else:
                    S.append(Shape(f'comp!(ev(20), {x} = evs(2), p0 = ev(3), ev(21))', 'let n = comp(ev(3), evs(2), Cat(ev(20), Cat(ev(21), ()))); mark(0); Render::render(n, out_); ', [], pre=pre, mode='restorder'))
                    S.append(Shape(f'comp!(ev(20), p0 = ev(3), ev(21))', 'let n = comp(ev(3), "df", Cat(ev(20), Cat(ev(21), ()))); mark(0); Render::render(n, out_); ', [], pre=pre, mode='restorder'))
                    pre = f'#[laby] fn comp(p0: impl Render, #[rest] {x}: impl Render, #[default] p1: u32) -> impl Render {{ mark(1); frag!(p0, "|", {x}, "|", p1) }}'
                    S.append(Shape(f'comp!(ev(20), p0 = ev(3), ev(21))', 'let n = comp(ev(3), Cat(ev(20), Cat(ev(21), ())), 0); mark(0); Render::render(n, out_); ', [], pre=pre, mode='restorder'))
            if ident(w) and w not in NORMAL + VOID + ['frag', 'classes', 'render', 'bool', 'iter', 'laby', 'frag_match', 'comp'] and w.islower():
                S.append(Shape(f'{w}!(y = ev(1), x = ev(2))', f'let n = {w}(ev(2), ev(1)); mark(0); Render::render(n, out_); ', [], pre=f'#[laby] fn {w}(x: impl Render, y: impl Render) -> impl Render {{ mark(1); frag!(x, "|", y) }}', mode='unordered'))
            if prop == 'C20':
                pre = f'#[laby] fn comp(#[default({L})] a: &\'static str, #[rest] r: impl Render) -> impl Render {{ mark(1); frag!(a, "|", r) }}'
                S.append(Shape('comp!(ev(20))', f'let n = comp({L}, Cat(ev(20), ())); mark(0); Render::render(n, out_); ', [], pre=pre, mode='restorder'))
                S.append(Shape(f'comp!({L}, a = {L}, {L})', f'let n = comp({L}, Cat({L}, Cat({L}, ()))); mark(0); Render::render(n, out_); ', [], pre=pre, mode='restorder'))
        if prop == 'C21':
            S.append(Shape(f'frag_match!(if b0 {{ {L} }} else if b1 {{ v0 }} else {{ {L} }})', f'if b0 {{ Render::render({L}, out_) }} else if b1 {{ Render::render(v0, out_) }} else {{ Render::render({L}, out_) }} mark(0); ', V3 + [('b0', 'B'), ('b1', 'B')]))
            S.append(Shape(f'frag_match!(match b0 {{ true if b1 => {L}, false => v0, _ => {L} }})', f'match b0 {{ true if b1 => Render::render({L}, out_), false => Render::render(v0, out_), _ => Render::render({L}, out_) }} mark(0); ', V3 + [('b0', 'B'), ('b1', 'B')]))
            S.append(Shape(f'frag_match!(match v2 {{ {L} => v0, _ => v1 }})', f'match v2 {{ {L} => Render::render(v0, out_), _ => Render::render(v1, out_) }} mark(0); ', V3))
            if ident(w):
                S.append(Shape(f'frag_match!(match Some(v0) {{ Some({w}) => {w}, None => v1 }})', 'Render::render(v0, out_); mark(0); ', V3))
                S.append(Shape(f'frag_match!(if let Some({w}) = Some(v2) {{ {w} }} else {{ v1 }})', 'Render::render(v2, out_); mark(0); ', V3))
    ks = sorted({k for n in N for k in (n - 1, n, n + 1) if 0 < k})
    for k in [k for k in ks if k <= 70]:
        if prop in ('C13', 'C17', 'C18', 'C16'):
            for sort in range(4):
                g = G(rng); dyn_ = lambda i: sort == 1 or (sort == 2 and i % 2) or (sort == 3 and i == k - 1)
                kids = []; segs = []
                for i in range(k):
                    if dyn_(i): p = g.par('A'); kids.append(p); segs.append([('x', p)])
                    elif prop == 'C16': kids.append(f'b!("{i}")'); segs.append([f'<b>{i}</b>'])
                    else: kids.append(f'"{i}"'); segs.append([str(i)])
                for m, a, d, b in (('div', '<div>', '', '</div>'), ('frag', '', '', ''), ('classes', '', ' ', '')):
                    t = [a]
                    for i, s in enumerate(segs): t += ([d] if i else []) + s
                    S.append(Shape(f'{m}!({", ".join(kids)})', out([x for x in t + [b] if x]) + 'mark(0); ', g.params))
                    S.append(Shape(f'p!(v_q, {m}!({", ".join(kids)}), "e")', out(['<p>', ('x', 'v_q')] + [x for x in t + [b] if x] + ['e</p>']) + 'mark(0); ', g.params + [('v_q', 'A')]))
                if prop in ('C13', 'C17'):
                    at = [f'a{i} = {x}' for i, x in enumerate(kids)]; t = []
                    for i, s in enumerate(segs): t += [f' a{i}="'] + s + ['"']
                    for tag in ('div', 'input'): S.append(Shape(f'{tag}!({", ".join(at)})', out([f'<{tag}'] + t + ['>' if tag == 'input' else '></div>']) + 'mark(0); ', g.params))
            if k <= 24:
                s, t = 'v0', [('x', 'v0')]
                for i in range(k): tag = ('div', 'p', 'frag', 'span')[i % 4]; s = f'{tag}!({s})' if i % 3 else f'{tag}!("k", {s}, "z")'; t = (['k'] if i % 3 == 0 else []) + t + (['z'] if i % 3 == 0 else []); t = t if tag == 'frag' else [f'<{tag}>'] + t + [f'</{tag}>']
                S.append(Shape(s, out(t) + 'mark(0); ', [('v0', 'A')]))
        if prop == 'C14':
            for sort in range(3):
                src = []; t = []
                for i in range(k):
                    c = ('b0', 'true', 'false')[(i + sort) % 3] if sort else 'b0'
                    src.append(f'a{i} = bool!({c})'); t += [('if', 'b0', [f' a{i}'])] if c == 'b0' else [f' a{i}'] if c == 'true' else []
                S.append(Shape(f'div!({", ".join(src)}, x = v0, "c")', out(['<div'] + t + [' x="', ('x', 'v0'), '">c</div>']) + 'mark(0); ', [('b0', 'B'), ('v0', 'A')]))
        if prop == 'C19':
            for cut in (0, 1, k // 2):
                ps = [f'p{i}' for i in range(k)]; o = ps[cut:] + ps[:cut]
                if cut == 0: o = o[::-1]
                pre = f'#[laby] fn comp({", ".join(p + ": impl Render" for p in ps)}) -> impl Render {{ mark(1); frag!({", ".join(ps)}) }}'
                S.append(Shape(f'comp!({", ".join(f"{p} = ev({ps.index(p) + 1})" for p in o)})', f'let n = comp({", ".join(f"ev({i + 1})" for i in range(k))}); mark(0); Render::render(n, out_); ', [], pre=pre, mode='unordered'))
        if prop == 'C20':
            if k < 29:
                r = '()'
                for i in reversed(range(k)): r = f'Cat(ev({20 + i}), {r})'
                for nm in ('', 'a = evn(1), '):
                    S.append(Shape(f'comp!({nm}{", ".join(f"ev({20 + i})" for i in range(k))})', f'let n = comp({"evn(1)" if nm else "evn(60)"}, {r}); mark(0); Render::render(n, out_); ', [], pre='#[laby] fn comp(#[default(evn(60))] a: u32, #[rest] r: impl Render) -> impl Render { mark(1); frag!(a, "|", r) }', mode='restorder'))
            ps = [f'p{i}' for i in range(k)]
            pre = f'#[laby] fn comp({", ".join(f"#[default(evn({50 + i}))] p{i}: u32" for i in range(k))}) -> impl Render {{ mark(1); frag!({", ".join(ps)}) }}'
            for giv in ([], ps[-1:], ps[::2], ps):
                S.append(Shape(f'comp!({", ".join(f"{p} = evn({200 + ps.index(p)})" for p in giv[::-1])})', f'let n = comp({", ".join(f"evn({200 + i})" if p in giv else f"evn({50 + i})" for i, p in enumerate(ps))}); mark(0); Render::render(n, out_); ', [], pre=pre, mode='unordered'))
        if prop == 'C21':
            c = ' else '.join(f'if evn(1) == {i} {{ "{i}" }}' for i in range(k)); S.append(Shape(f'frag_match!({c} else {{ v0 }})', ' else '.join(f'if evn(1) == {i} {{ Render::render("{i}", out_) }}' for i in range(k)) + ' else { Render::render(v0, out_) } mark(0); ', [('v0', 'A')]))
            a = ', '.join(f'{i} => "{i}"' for i in range(k)); S.append(Shape(f'frag_match!(match evn(1) {{ {a}, _ => v0 }})', 'match evn(1) { ' + ', '.join(f'{i} => Render::render("{i}", out_)' for i in range(k)) + ', _ => Render::render(v0, out_) } mark(0); ', [('v0', 'A')]))
    for k in [k for k in ks if k <= 6000]:
        if prop in ('C13', 'C15', 'C18', 'C16', 'C14'):
            for x in ('a' * k, ('<' * k)[:2000], ('é' * k)[:2000], ('x ' * k)[:k]):
                l, e = rstr(x), esc(x)
                S.append(Shape(f'div!(id = {l}, k = v0, {l}, v1, {l})', out([f'<div id="{e}" k="', ('x', 'v0'), f'">{e}', ('x', 'v1'), f'{e}</div>']) + 'mark(0); ', V3))
                S.append(Shape(f'div!({l} = "x", {l} = bool!(true), classes!({l}, v0, {l}))', out([f'<div {e}="x" {e}>{e} ', ('x', 'v0'), f' {e}</div>']) + 'mark(0); ', V3))
    if prop == 'C15':
        for k in ks:
            fits = [t for t, b in (('u8', 8), ('i8', 7), ('u16', 16), ('i16', 15), ('u32', 32), ('i32', 31), ('u64', 64), ('i64', 63), ('u128', 128), ('i128', 127), ('usize', 64)) if k < 1 << b]
            for l in [f'{k}{t}' for t in fits] + [f'{hex(k)}u64'] + ([str(k), hex(k)] if k < 1 << 31 else []) + [f'{k}.0', f'{k}.5f64']:
                S.append(Shape(f'div!({l}, id = {l}, {{ {l} }} = ({l}))', f'let q = {l}; out_.push_str("<div id=\\""); Render::render(q, out_); out_.push_str("\\" "); Render::render(q, out_); out_.push_str("=\\""); Render::render(q, out_); out_.push_str("\\">"); Render::render(q, out_); out_.push_str("</div>"); mark(0); '))
            if k < 0xd800 and k > 0:
                c = "'\\u{%x}'" % k; S.append(Shape(f'div!({c}, id = {c})', f'let q = {c}; out_.push_str("<div id=\\""); Render::render(q, out_); out_.push_str("\\">"); Render::render(q, out_); out_.push_str("</div>"); mark(0); '))
        for w in W:
            for c in w[:4]:
                l = "'\\u{%x}'" % ord(c)
                S.append(Shape(f'div!({l}, id = {l}, v0)', f'let q = {l}; out_.push_str("<div id=\\""); Render::render(q, out_); out_.push_str("\\">"); Render::render(q, out_); Render::render(v0, out_); out_.push_str("</div>"); mark(0); ', V3))
    return S

def rejects():
    """(kind, bad macro call, good macro call, items, bad items) of invalid uses around the new words and numbers"""
    from corpus import rstr, VOID
    W, N = fresh(); R = []
    S3 = '#[laby] fn comp(x: u32, y: u32, z: u32) -> impl Render { "k" }'; G3 = 'x = 1, y = 2, z = v'
    for w in W:
        l = rstr(w)
        for ch in (l, f'({l})', f'{{ {l} }}'):
            for t in VOID: R.append(('child in a void element', f'{t}!(id = "i", {ch})', f'{t}!(id = "i")', '', ''))
        for nm in [l] + ([w] if ident(w) else []):
            for m in ('frag', 'classes'): R.append((f'attribute in a {"fragment" if m == "frag" else "class list"}', f'{m}!(v, {nm} = v, "e")', f'{m}!(v, v, "e")', '', '')); R.append((f'attribute in a {"fragment" if m == "frag" else "class list"}', f'{m}!({nm} = bool!(false))', f'{m}!(v)', '', ''))
            for t in VOID: R.append(('child in a void element', f'{t}!({nm} = "i", v)', f'{t}!({nm} = "i")', '', ''))
        if ident(w) and w not in 'xyz':
            for a in (f'{w} = 1, {G3}', f'{G3}, {w} = v', f'x = 1, {w} = "q", y = 2, z = 3'): R.append(('unknown component argument', f'comp!({a})', f'comp!({G3})', S3, S3))
            R.append(('unknown component argument', f'comp!(x = 1, "c", {w} = 2)', 'comp!(x = 1, "c")', *['#[laby] fn comp(x: u32, #[rest] r: impl Render, #[default] y: u32) -> impl Render { "k" }'] * 2))
            R.append(('missing component argument', 'comp!(x = 1)', f'comp!(x = 1, {w} = 2)', *[f'#[laby] fn comp(x: u32, {w}: u32) -> impl Render {{ "k" }}'] * 2))
            R.append(('two rest parameters', 'comp!(v)', f'comp!({w} = 1, x = 2)', f'#[laby] fn comp({w}: u32, x: u32) -> impl Render {{ "k" }}', f'#[laby] fn comp(#[rest] {w}: impl Render, #[rest] x: impl Render) -> impl Render {{ "k" }}'))
        R.append(('unnamed component argument without rest', f'comp!({G3}, {l})', f'comp!({G3})', S3, S3))
    for k in sorted({k for n in N for k in (n - 1, n, n + 1) if 0 < k <= 40}):
        at = ', '.join(f'a{i} = v' for i in range(k)); ps = ', '.join(f'p{i}: u32' for i in range(k)); ar = ', '.join(f'p{i} = 1' for i in range(k)); ch = ', '.join('"c"' for _ in range(k))
        d = f'#[laby] fn comp({ps}) -> impl Render {{ "k" }}'
        R.append(('child in a void element', f'br!({at}, "x")', f'br!({at})', '', '')); R.append(('child in a void element', f'br!({ch})', 'br!()', '', ''))
        for m in ('frag', 'classes'): R.append((f'attribute in a {"fragment" if m == "frag" else "class list"}', f'{m}!({ch}, a = v)', f'{m}!({ch}, v)', '', '')); R.append((f'attribute in a {"fragment" if m == "frag" else "class list"}', f'{m}!({at})', f'{m}!({ch})', '', ''))
        R.append(('unknown component argument', f'comp!({ar}, zz = 1)', f'comp!({ar})', d, d)); R.append(('unnamed component argument without rest', f'comp!({ar}, "u")', f'comp!({ar})', d, d))
        if k > 1: R.append(('missing component argument', f'comp!({", ".join(ar.split(", ")[1:])})', f'comp!({ar})', d, d)); R.append(('missing component argument', f'comp!({", ".join(ar.split(", ")[:-1])})', f'comp!({ar})', d, d))
    return R

if __name__ == '__main__':
    import sys
    if sys.argv[1:] == ['base']:
        w, n = mine(); json.dump(dict(words=dict(sorted(w.items())), nums={str(k): v for k, v in sorted(n.items())}), open(BASE, 'w'), indent=0, ensure_ascii=False)
    print(fresh())
