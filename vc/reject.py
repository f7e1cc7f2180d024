"""C22: invalid uses of the macros, each next to a valid twin.  The invalid program has to be rejected by the compiler while the
twin, which differs only in the invalid part, compiles."""
import os, random, subprocess, tempfile, shutil, glob, concurrent.futures as cf
import build
from corpus import NORMAL, VOID, write

PRE = '#![allow(warnings)]\nuse laby::*;\nfn id<T>(x: T) -> T { x }\n'
def fn(body, items=''): return f'{PRE}{items}\npub fn f(v: u32, w: &\'static str, c: bool) -> String {{ render!({body}) }}\n'

class Case:
    def __init__(self, kind, bad, good): self.kind = kind; self.bad = bad; self.good = good

CHILD = ['"x"', 'v', 'w', '1', "'<'", 'true', 'span!()', 'span!(v)', 'frag!(v)', 'frag!("a", w)', 'classes!(w, "b")', 'br!()', '{ v }', '(w)', 'Some(w)', 'id(w)', '()', 'raw!("x")', '""', '{ "k" }', 'iter!([1, 2])', 'frag_match!(if c { v })', '-1', '1.5', 'div!(id = v, "k")', 'None::<&str>', 'v + 1', '!c', 'if c { "a" } else { "b" }', 'match c { true => 1, false => 2 }', "b'x'", 'laby::span!()']
ATTR = ['id = "x"', 'id = v', 'id = bool!(true)', 'id = bool!(false)', 'id = bool!(c)', '{ w } = "x"', '"k" = w', '(w) = v', 'r#type = "t"', 'id(w) = bool!(c)', 'class = classes!("a", w)', '{ "k" } = bool!(true)', '"" = ""', 'laby::x = v' if False else 'id = span!(v)', "'k' = v", '1 = 2', 'id = { v }', 'id = raw!("x")']

def wraps(rng):
    return [lambda s: s, lambda s: f'div!({s})', lambda s: f'frag!("a", {s}, v)', lambda s: f'div!(id = v, p!("t", {s}), "e")', lambda s: f'ul!(li!(frag!(b!({s}))), w)', lambda s: f'div!(class = classes!("a", {s}))', lambda s: f'div!({{ {s} }})', lambda s: f'section!(({s}), v)', lambda s: f'id({s})', lambda s: f'frag_match!(if c {{ {s} }})', lambda s: f'iter!(Some({s}))', lambda s: f'classes!({s}, "z")', lambda s: f'a!(href = {s})', lambda s: f'frag!(frag!({s}))']

def cases(tier, seed):
    rng = random.Random(f'C22/{seed if tier == "thorough" else 1}')
    W = wraps(rng); C = []
    th = tier == 'thorough'
    # children in void elements: every tag and every wrapping
    for i, t in enumerate(VOID):
        for j, ch in enumerate(CHILD):
            if not th and rng.random() > .28: continue
            pre = rng.choice(['', '', 'id = "i", ', 'x = v, ', 'k = bool!(c), ', 'k = bool!(false), ']); post = rng.choice(['', '', ', y = w', ',', ', z = bool!(true)'])
            w = rng.choice(W)
            bad = f'{t}!({pre}{ch}{post})'; good = f'{t}!({(pre.rstrip(", ") + post if pre else post.lstrip(", "))})'
            C.append(Case('child in a void element', fn(w(bad)), fn(w(good))))
    # attributes in fragments and class lists
    for m in ('frag', 'classes'):
        for a in ATTR:
            for _ in range(4 if th else 2):
                pre = rng.choice(['', 'v, ', '"t", w, ', 'span!(v), ']); post = rng.choice(['', ', v', ',', ', br!()'])
                w = rng.choice(W)
                C.append(Case('attribute in a ' + ('fragment' if m == 'frag' else 'class list'), fn(w(f'{m}!({pre}{a}{post})')), fn(w(f'{m}!({pre}v{post})'))))
    # bool! outside an attribute value
    BP = [('{}', 'v'), ('div!({})', 'v'), ('frag!({})', 'v'), ('classes!("a", {})', 'v'), ('div!(id = "x", {}, v)', 'v'), ('div!(span!(v, {}))', 'v'), ('{{ let q = {}; q }}', 'v'), ('div!({{ {} }})', 'v'), ('div!({} = "x")', '{ w }'), ('div!(id = div!({}))', 'v'), ('div!(class = classes!({}))', 'w'), ('frag_match!(if c {{ {} }})', 'v'), ('iter!(Some({}))', 'v'), ('id({})', 'v'), ('div!(({}))', '(v)'), ('div!(Some({}))', 'v'), ('comp!(x = {})', 'v'), ('resty!({})', 'v'), ('frag!(frag!({}, "z"))', 'v'), ('div!({} = bool!(true))', '{ w }'), ('raw!({})', 'w'), ('frag_match!(match {} {{ true => v, _ => 1 }})', 'c')]
    items = '#[laby] fn comp(x: impl Render) -> impl Render { div!(x) }\n#[laby] fn resty(#[rest] x: impl Render) -> impl Render { div!(x) }'
    for s, g in BP:
        for b in ('bool!(true)', 'bool!(false)', 'bool!(c)', 'laby::bool!(c)'):
            C.append(Case('bool! outside an attribute value', fn(s.format(b), items), fn(s.format(g), items)))
    # components
    def comp(sig, good, bad, kind, badsig=None, attr='#[laby]', badattr=None):
        d = lambda a, s: f'{a} fn comp{s} -> impl Render {{ "k" }}'
        for w in (W[0], rng.choice(W[1:9])):
            C.append(Case(kind, fn(w(f'comp!({bad})'), d(badattr or attr, badsig or sig)), fn(w(f'comp!({good})'), d(attr, sig))))
    S3 = '(x: u32, y: u32, z: u32)'; G3 = 'x = 1, y = 2, z = v'
    R3 = '(x: u32, #[rest] r: impl Render, #[default] y: u32)'
    for u in ('zz = 1', 'X = 1', 'xx = v', 'r#type = 1', '_x = 1', 'x1 = 2', 'self_ = v', 'comp = 1', 'rest = 1'):
        comp(S3, G3, f'x = 1, y = 2, {u}, z = 3', 'unknown component argument'); comp(S3, G3, f'{u}, ' + G3, 'unknown component argument'); comp(R3, 'x = 1, "c"', f'x = 1, "c", {u}', 'unknown component argument'); comp('()', '', u, 'unknown component argument')
    for miss in ('x = 1, y = 2', 'y = 2, z = 3', 'z = 1, x = 2', 'x = 1', '', 'z = 3'): comp(S3, G3, miss, 'missing component argument')
    for miss in ('', '"c"', 'y = 2', 'y = 2, "c", v'): comp(R3, 'x = 1', miss, 'missing component argument')
    comp('(x: u32, #[default] y: u32, z: u32)', 'x = 1, z = 2', 'x = 1, y = 2', 'missing component argument'); comp('(#[default(5)] x: u32, y: impl Render)', 'y = v', 'x = 1', 'missing component argument')
    comp('(#[rest] r: impl Render, y: u32)', 'y = v', '', 'missing component argument'); comp('(#[rest] r: impl Render, y: u32)', 'y = v, "a", "b"', '"a", "b"', 'missing component argument')
    for u in ('1', 'v', '"s"', 'div!(v)', '{ v }', 'v + 1', '(v)', 'id(v)', '[v][0]', 'x == 1', '!c', 'None::<u32>', 'comp'):
        comp(S3, G3, f'x = 1, {u}, y = 2, z = 3', 'unnamed component argument without rest'); comp(S3, G3, f'{u}, ' + G3, 'unnamed component argument without rest'); comp(S3, G3, G3 + f', {u}', 'unnamed component argument without rest'); comp('()', '', u, 'unnamed component argument without rest'); comp('(#[default] x: u32)', '', u, 'unnamed component argument without rest'); comp('(x: u32)', 'x = 1', u, 'unnamed component argument without rest')
    for u in ('v.x = 1', 'a::b = 1', '1 = 2', '"x" = 1', '(x) = 1', 'x() = 1', '{ x } = 1', 'v[0] = 1', '*x = 1', 'x::<u32> = 1'): comp(S3, G3, f'{u}, y = 2, z = 3', 'component argument without a name')
    comp('(x: u32, #[rest] r: impl Render)', 'x = 1, "a"', 'x = 1, "a", r = "b"', 'unknown component argument'); comp('(#[rest] r: impl Render)', '"b"', 'r = "b"', 'unknown component argument')
    for a, b in (('#[rest] a: impl Render, ', '#[rest] b: impl Render'), ('x: u32, #[rest] a: impl Render, y: u32, ', '#[rest] b: impl Render'), ('#[rest] a: impl Render, #[default] y: u32, ', '#[rest] b: impl Render')):
        g = a.replace('#[rest] ', ''); n = ', '.join(p.split(':')[0].replace('#[default] ', '').strip() + ' = 1' for p in g.strip(' ,').split(',') if ':' in p)
        nn = ', '.join(p.split(':')[0].strip() + ' = 1' for p in a.strip(' ,').split(',') if ':' in p and '#[rest]' not in p and '#[default]' not in p)
        for call in (nn, nn + (', ' if nn else '') + '"a"', '"a", "b"' + (', ' + nn if nn else '')):
            comp(f'({g}{b})', n + ', "z"', call, 'two rest parameters', badsig=f'({a}{b})')
    for pat in ('(x, y): (u32, u32)', '_: u32', '[x]: [u32; 1]', '&x: &u32', 'Some(x): Option<u32>'):
        if pat.startswith('Some'): continue
        comp('(x: u32)', 'x = 1', 'x = 1', 'unnamed-pattern parameter', badsig=f'({pat})'); comp('(a: u32, x: u32)', 'a = 1, x = 1', 'a = 1, x = 1', 'unnamed-pattern parameter', badsig=f'(a: u32, {pat})'); comp('(a: u32)', 'a = 1', 'a = 1', 'unnamed-pattern parameter', badsig=f'(a: u32, {pat})')
        comp('(a: u32)', 'a = 1', 'a = 1, ()', 'unnamed-pattern parameter', badsig=f'(a: u32, #[rest] {pat})') if pat == '_: u32' else None
    for rc in ('self', '&self', '&mut self', 'self: Self', 'mut self'):
        C.append(Case('receiver parameter', f'{PRE}struct S; impl S {{ #[laby] fn comp({rc}, x: u32) {{ }} }}\n', f'{PRE}struct S; impl S {{ fn comp({rc}, x: u32) {{ }} }}\n'))
        C.append(Case('receiver parameter', f'{PRE}trait S: Sized {{ fn g(self) {{ #[laby] fn comp({rc}) {{ }} }} }}\n', f'{PRE}trait S: Sized {{ fn g(self) {{ #[laby] fn comp() {{ }} }} }}\n'))
    for at in ('foo', '"x"', 'x = 1', '1', 'rest', 'default', 'pub', 'foo, bar', '()'):
        comp(S3, G3, G3, 'argument to the component attribute', badattr=f'#[laby({at})]')
        C.append(Case('argument to the component attribute', f'{PRE}#[laby({at})] pub fn comp() {{ }}\n', f'{PRE}#[laby()] pub fn comp() {{ }}\n'))
    import mined
    for kind, bad, good, gi, bi in mined.rejects(): C.append(Case(kind, fn(bad, bi), fn(good, gi)))
    seen = set(); out = []
    for c in C:
        if c.bad not in seen and c.bad != c.good: seen.add(c.bad); out.append(c)
    return out

def prepare():
    """build laby once; -> rustc arguments"""
    d = os.path.join(build.BUILD, 'mac', 'C22')
    write(d + '/Cargo.toml', '[package]\nname = "vpmacc22"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nlaby = { path = "/repo/laby" }\nlaby_common = { path = "/repo/laby_common" }\n[profile.dev]\ndebug = 0\nincremental = false\n')
    lk = os.path.join(build.VERIF, 'harness', 'core', 'Cargo.lock')
    if not os.path.exists(d + '/Cargo.lock'): open(d + '/Cargo.lock', 'w').write(open(lk).read().replace('name = "vpcore"', 'name = "vpmacc22"'))
    write(d + '/src/lib.rs', 'pub use laby::*;\n')
    t = os.path.join(build.BUILD, 'macc22')
    with build.lock('mac-C22'):
        o = build.run(['cargo', 'build', '--offline', '-q', '--message-format=json'], d, {'CARGO_TARGET_DIR': t})
    import json
    lib = None
    for l in o.split('\n'):
        if l.startswith('{'):
            m = json.loads(l)
            if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'laby':
                lib = [f for f in m['filenames'] if f.endswith('.rlib')] or m['filenames']
    if not lib: lib = sorted(glob.glob(t + '/debug/deps/liblaby-*.rlib'), key=os.path.getmtime)[-1:]
    return ['rustc', '--edition', '2021', '--crate-type', 'lib', '--emit=metadata', '-A', 'warnings', '-L', 'dependency=' + t + '/debug/deps', '--extern', 'laby=' + lib[0]]

def compile_(args, src, d, n):
    p = os.path.join(d, n + '.rs'); open(p, 'w').write(src)
    r = subprocess.run(args + ['-o', os.path.join(d, n + '.rmeta'), p], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace', timeout=120)
    return r.returncode == 0, r.stderr

def run(rep, tier, seed):
    C = cases(tier, seed)
    args = prepare()
    base = os.path.join(build.BUILD, 'mac'); d = tempfile.mkdtemp(prefix='rej', dir=base)
    kinds = {}
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            goods = sorted({c.good for c in C})
            G = dict(zip(goods, ex.map(lambda x: compile_(args, x[1], d, f'g{x[0]}'), enumerate(goods))))
            B = list(ex.map(lambda x: compile_(args, x[1].bad, d, f'b{x[0]}'), enumerate(C)))
    finally: shutil.rmtree(d)
    n = 0
    for c, (ok, err) in zip(C, B):
        k = kinds.setdefault(c.kind, dict(programs=0, rejected=0))
        if not G[c.good][0]:
            rep.und.append('valid twin does not compile: ' + c.good[len(PRE):][:200] + ' | ' + G[c.good][1].strip().split('\n')[0][:200]); continue
        n += 1; k['programs'] += 1
        if ok: rep.conc.fails.append(dict(what=c.kind + ' is accepted by the compiler', case=' '.join(c.bad[len(PRE):].split()), detail='the program compiles', cmd=args, profile=0))
        else: k['rejected'] += 1
    rep.conc.evals = n; rep.conc.distinct = n
    rep.conc.samples = [' '.join(c.bad[len(PRE):].split())[:200] for c in C[::max(1, len(C) // 8)]]
    rep.extra = dict(rule='generated invalid programs, each compiled next to a valid twin that differs only in the invalid part (counted only when the twin compiles); distinct program texts', kinds=kinds)
    return 'exploration'
