"""Which proof jobs and which concrete runs decide each property."""
import time
import build, run
from run import run_jobs, conc_run, SEED

TRUST_M = ['rustc: MIR construction and monomorphisation, the code generator behind it', 'this verifier (vc/*.py: MIR semantics, memory model, loop invariant inference is checked not trusted) and z3',
           'allocator contract: alloc/realloc return a fresh block of the requested size or null', 'copy/compare intrinsics: their documented semantics']
TRUST_R = ['the reference implementations in harness/conc']
ASSUME = ['x86-64 Linux, one thread, release profile MIR (overflow checks off; lengths are machine integers with wrap-around)', 'no live allocation exceeds 2^47 bytes (x86-64 user address space)',
          'caller-side safety contracts of unsafe functions hold (set_len/advance within written bytes, reserve_small at most isize::MAX)']

def conc_ms(tier, quick=8000, thorough=90000): return thorough if tier == 'thorough' else quick

def server_jobs(ops, variant='release'):
    import server
    p = build.dump('core', variant)
    return [(f'Buffer::{op}[{v}]/{variant}', 'server', 'job', (p, op, v, 250), 300) for (_, op, v) in server.jobs(p, ops)]

def do_m(rep, jobs, secs):
    for n, r in sorted(run_jobs(jobs, time.time() + secs).items()):
        if r[0] == 'ok': rep.add(r[1])
        else: rep.und.append(f'{n}: {r[1]}'); rep.jobs.append(dict(job=n, undecided=[r[1]]))

OPS_APPEND = ['new', 'default', 'with_capacity', 'as_str', 'as_mut_ptr', 'len', 'capacity', 'is_empty', 'set_len', 'advance', 'reserve', 'reserve_small', 'clear', 'push_str', 'push', 'write_str', 'write_char', 'add', 'add_assign']
OPS_OWN = ['new', 'default', 'with_capacity', 'clone', 'drop', 'into_string', 'from_string', 'from_str', 'reserve', 'push_str', 'push', 'clear', 'add']

def rend_jobs(roots, variant='release'):
    import rendspec
    p = build.dump('core', variant)
    return [(f'{r}/{variant}', 'rendspec', 'job', (p, r, 200), 260) for r in dict.fromkeys(roots)]

def dumped(rep, f):
    """jobs made from a dump; what does not compile against the sources as they are now stays undecided"""
    try: return f()
    except build.BuildError as e:
        print('ERROR the proof harness does not compile:', str(e)[-600:]); rep.und.append('the proof harness does not compile'); return []

def conc_specs(rep, prop):
    """(what, processor profile, executable) to run; without the executables there is only the proof"""
    try: rel = build.conc(); build.dictionary(); dbg = build.conc('debug') if prop in ('C01', 'C02', 'C03', 'C04', 'C12') else None
    except build.BuildError as e:
        print('ERROR the concrete harness does not compile:', str(e)[-600:])
        import re
        for t in dict.fromkeys(re.findall(r'the trait bound `([^`]*): (?:[\w:]*::)?Render` is not satisfied', e.full or str(e))):
            owner = 'C06' if re.match(r'(std::num::)?(NonZero|[iu]\d|[iu]size)', t) else 'C07' if t in ('f32', 'f64') else 'C09' if 'Argument' in t else 'C08' if re.match(r'(\(\)|bool|char|&.*str|String|Option|DocType|laby::DocType)', t) else ''
            if owner == prop: rep.conc.fails.append(dict(what='a value of a documented type cannot be rendered', case=f'a value of type {t}', detail=f'the compiler rejects it: the trait bound {t}: Render is not satisfied', cmd=['cargo', 'build', '--offline'], profile=0))
        rep.und.append('the concrete harness does not compile'); return []
    specs = [(w, p, rel) for w in CONC[prop] for p in (range(5) if w in PROFILED else [0])]
    # the unoptimised build too: its debug assertions see reads an optimiser may drop
    if dbg: specs += [(w, p, dbg) for w in CONC[prop] for p in ((0, 1, 4) if w in PROFILED else [0])]
    return specs

LEMMAS = ('specification lemmas', 'lemmas', 'job', (), 240)

def esc_proof(rep, prop, tier, secs):
    """every implementation of escape against one contract, and the dispatcher against theirs"""
    import escspec
    p = dumped(rep, lambda: build.dump('core', 'release')); M = escspec.MAX
    if not p: return
    end = time.time() + secs
    mine = {'C01': lambda w: w == 'escaped text', 'C02': lambda w: w == 'escaped text' or w.startswith('processor supports') or 'implementation' in w,
            'C03': lambda w: w != 'escaped text' and not w.startswith('processor supports')}[prop]
    h = tier != 'thorough'
    def go(parts, width, extra=[]):
        left = end - time.time()
        jobs = [('escape: %s %d' % (t, lo), 'escspec', 'job', (p, t, lo, hi, left - 10, width, h), left) for t, lo, hi in parts]
        out = []
        for n, r in sorted(run_jobs(jobs + extra, end).items()):
            if r[0] == 'ok': rep.add(r[1], mine); out.append(r[1])
            else: rep.und.append(f'{n}: {r[1][:300]}'); rep.jobs.append(dict(job=n, undecided=[r[1][:300]]))
        return out
    done = go([('dispatch', 16, M), ('small', 0, 15), ('proceed', 0, M), ('string', 0, M)], 3, [LEMMAS])
    targets = next((r.targets for r in done if hasattr(r, 'targets')), None)
    if targets is None: rep.und.append('the implementations behind the dispatcher could not be determined')
    elif not rep.viol: go(escspec.leaf_jobs(targets), 4)

CONC = {'C01': ['escape'], 'C02': ['escape'], 'C03': ['escape'], 'C04': ['buffer', 'huge'], 'C05': ['buffer', 'huge'], 'C06': ['ints'], 'C07': ['floats'], 'C08': ['scalars'], 'C09': ['args'], 'C10': ['iter'], 'C11': ['raw'], 'C12': ['roundtrip']}
PROFILED = ('escape', 'args', 'roundtrip')
TEXT_ROOTS = ['vp_r_str', 'vp_r_string', 'vp_r_char', 'vp_r_cow_str', 'vp_r_arguments', 'vp_disp']
# Buffer operations whose contracts the render proofs use
OPS_RENDER = ['new', 'with_capacity', 'push_str', 'push', 'reserve_small', 'reserve', 'advance', 'as_mut_ptr', 'len', 'into_string', 'as_str']

def macro(rep, prop, tier):
    """programs using the macros, each compared with plain reference code: symbolically for all run-time values, and executed"""
    import corpus
    th = tier == 'thorough'
    S = corpus.shapes(prop, tier, SEED)
    path, exe, rej = corpus.crates(prop, S, tier)
    for i, m in rej.items():
        rep.conc.fails.append(dict(what='a use of the macro that has a defined meaning is rejected by the compiler', case=((S[i].pre + ' ## ') if S[i].pre else '') + S[i].m, detail=m, cmd=['cargo', 'build'], profile=0))
    if not exe: rep.und.append('no program left to run'); return 'translation_validation'
    todo = [(i, S[i].mode) for i in range(len(S)) if i not in rej]
    conc_run(rep.conc, exe, [('x', 0), ('x', 1)] if th else [('x', 0)], SEED, 20000 if th else 5000)
    K = 32 if th else 16
    secs = 120 if rep.conc.fails else 560 if th else 240
    jobs = [(f'pairs {k}', 'rendspec', 'pairs', (path, todo[k::K], secs - 40, 60 if th else 40), secs) for k in range(K) if todo[k::K]]
    res = run_jobs(jobs, time.time() + secs)
    import collections
    c = collections.Counter(); und = []
    for n, r in sorted(res.items()):
        if r[0] != 'ok':
            und.append(f'{n}: {r[1][:300]}'); continue
        rep.add(r[1])
        for i, (v, t) in sorted(r[1].pairs.items()):
            c[v] += 1
            src = ((S[i].pre + ' ## ') if S[i].pre else '') + S[i].m
            if v == 'violated': rep.viol.append(dict(kind='obligation', job=f'vp_m_{i} = {src}', what=t.split(' @ ')[0], loc=t[:400], model=t))
            elif v == 'undecided': und.append(f'program {i} {src[:200]}: {t[:200]}')
    rep.und = und
    rep.extra = dict(programs=len(S), disagreements_checked=c['proved'] + c['violated'], programs_proved_for_all_values=c['proved'], programs_undecided=len(todo) - c['proved'] - c['violated'], programs_rejected_by_rustc=len(rej),
        rule='programs generated from the property statement (seeded); each is compared with its plain reference for all run-time values by the verifier, and executed on generated values')
    for k in range(1, 1 if not (rep.viol or und) else 3):
        if rep.conc.fails: break
        conc_run(rep.conc, exe, [('x', 0), ('x', 1)] if th else [('x', 0)], SEED + k, 20000 if th else 5000)
    rep.extra['samples'] = [x for x in rep.conc.samples[:8]] or [s.m for s in S[:5]]
    return 'translation_validation'

MACRO = ['C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C23']

def run(rep, prop, tier):
    if prop in MACRO:
        rep.trusted = list(TRUST_M); rep.assume = ASSUME + ['the Render implementations, escape and Buffer operations used by the expanded code meet their contracts (C01-C11)', 'the programs are a generated sample of all macro uses; each is decided for all run-time values']
        return macro(rep, prop, tier)
    if prop == 'C22':
        import reject
        rep.trusted = []; rep.assume = ['the programs are a generated sample of all invalid uses']
        return reject.run(rep, tier, SEED)
    import rendspec
    th = tier == 'thorough'
    rep.trusted = list(TRUST_M); rep.assume = list(ASSUME)
    jobs = []; level = 'exploration'
    specs = conc_specs(rep, prop); exe = None
    if rep.conc.fails: return level
    if prop in ('C01', 'C02', 'C03'):
        conc_run(rep.conc, exe, specs, SEED, conc_ms(tier))
        if not rep.conc.fails: esc_proof(rep, prop, tier, 640 if th else 540)
        if (rep.viol or rep.und) and not rep.conc.fails and time.time() - rep.t0 < 640: conc_run(rep.conc, exe, specs, SEED + 1, 20000)
        return 'proof'
    variants = ['release', 'debug'] if th else ['release']
    if prop in ('C04', 'C05'):
        for v in variants: jobs += dumped(rep, lambda: server_jobs(OPS_APPEND if prop == 'C04' else OPS_OWN, v))
    elif prop in rendspec.ROOTS or prop == 'C12':
        roots = rendspec.ROOTS.get(prop) or TEXT_ROOTS
        for v in variants: jobs += dumped(rep, lambda: rend_jobs(roots, v))
        if prop == 'C12': jobs.append(LEMMAS)
    if jobs:
        level = 'proof'
        do_m(rep, jobs, 600 if th else 300)
    conc_run(rep.conc, exe, specs, SEED, conc_ms(tier))
    if prop in ('C04', 'C05'): conc_run(rep.conc, exe, [s for s in specs if s[0] == 'buffer'], SEED + 1, conc_ms(tier, 3000))
    if prop == 'C06' and specs: conc_run(rep.conc, exe, [(f'every-int32-{k}', 0, specs[0][2]) for k in range(8)], SEED, 120000)
    if prop == 'C07' and specs and th: conc_run(rep.conc, exe, [(f'every-f32-{k}', 0, specs[0][2]) for k in range(8)], SEED, 400000)
    if (rep.viol or rep.und) and not rep.conc.fails:
        # something was not discharged: look harder for a failing input
        for k in range(2, 8):
            conc_run(rep.conc, exe, specs, SEED + k, 12000)
            if rep.conc.fails: break
    return level
