"""Build the MIR dumper and dump the monomorphised MIR of the harness crates from /repo's current tree."""
import os, subprocess, fcntl, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, '.build'))
SKIP = 'core::panicking|std::panicking|alloc::alloc::handle_alloc_error|core::fmt::|std::fmt::|alloc::fmt|std::rt::|core::str::count|core::slice::index::slice_|core::str::slice_error'

class BuildError(Exception):
    def __init__(self, msg, full=''): super().__init__(msg); self.full = full

def run(cmd, cwd, env=None, timeout=800, mem=None):
    e = dict(os.environ); e.pop('RUSTFLAGS', None); e.update(env or {})
    import signal, resource
    pre = (lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))) if mem else None
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, errors='replace', start_new_session=True, preexec_fn=pre)
    try: o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); raise BuildError(f"{' '.join(cmd)} in {cwd} did not finish in {timeout} s", '')
    if p.returncode: raise BuildError(f"{' '.join(cmd)} in {cwd} failed\n{o[-4000:]}", o)
    return o

class lock:
    def __init__(self, name): os.makedirs(BUILD, exist_ok=True); self.p = os.path.join(BUILD, name + '.lock')
    def __enter__(self): self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

_sys = []
def sysroot():
    if not _sys: _sys.append(run(['rustc', '+nightly', '--print', 'sysroot'], VERIF).strip())
    return _sys[0]

def driver():
    with lock('drv'):
        run(['cargo', '+nightly', 'build', '--release', '--offline', '-q'], os.path.join(VERIF, 'driver'), {'CARGO_TARGET_DIR': os.path.join(BUILD, 'drv')})
    return os.path.join(BUILD, 'drv', 'release', 'mirdump')

def dump(crate, variant='release', extra_env=None, name=None):
    """-> path of the JSON dump of harness/<crate> (package name `name`).  Roots that no longer compile (an operation that
    changed its signature) are left out; the jobs that need them come out undecided."""
    hd = os.path.join(VERIF, 'harness', crate)
    for _ in range(6):
        try: return dump_dir(hd, name or 'vp' + crate, variant, extra_env)
        except BuildError as e:
            import re, shutil
            src = open(os.path.join(hd, 'src', 'lib.rs')).read().split('\n')
            bad = {int(m) for m in re.findall(r'^\s*--> src/lib\.rs:(\d+):', e.full, re.M)}
            bad = [i for i in bad if i <= len(src) and re.match(r'pub (unsafe )?fn vp_.*\}\s*$', src[i - 1])]
            if not bad: raise
            cut = os.path.join(BUILD, 'cut-' + crate + '-' + variant)
            if hd != cut: shutil.rmtree(cut, ignore_errors=True); shutil.copytree(hd, cut)
            for i in bad: print('ERROR harness root does not compile:', src[i - 1][:100]); src[i - 1] = ''
            hd = cut
            open(os.path.join(hd, 'src', 'lib.rs'), 'w').write('\n'.join(src))
    raise BuildError('harness/' + crate + ' does not compile')

def dump_dir(hd, name, variant='release', extra_env=None):
    d = driver()
    out = os.path.join(BUILD, 'mir-' + variant)
    tgt = os.path.join(BUILD, 't-' + variant)
    os.makedirs(out, exist_ok=True)
    env = {'VP_CRATES': name, 'VP_OUT': out, 'VP_SKIP': SKIP, 'RUSTC_WORKSPACE_WRAPPER': d,
           'LD_LIBRARY_PATH': sysroot() + '/lib', 'CARGO_TARGET_DIR': tgt,
           'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 -Zallow-features=', 'CARGO_INCREMENTAL': '0'}
    if variant == 'release':
        env['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = 'false'; env['CARGO_PROFILE_DEV_OVERFLOW_CHECKS'] = 'false'
    env.update(extra_env or {})
    p = os.path.join(out, name.replace('-', '_') + '.json')
    with lock('dump-' + variant):
        # the dump is a side effect cargo does not track: force the harness crate itself to be rebuilt
        src = os.path.join(hd, 'src', 'lib.rs'); os.utime(src)
        if os.path.exists(p): os.unlink(p)
        run(['cargo', '+nightly', 'build', '--offline', '-q'], hd, env)
        if not os.path.exists(p): raise BuildError('no dump produced for ' + name)
    return p

def raw_cpuid():
    """A copy of the raw-cpuid sources whose CPUID results can be masked, for the concrete runs on other processors."""
    import glob, shutil
    dst = os.path.join(BUILD, 'raw-cpuid')
    lockf = open(os.path.join(REPO, 'Cargo.lock')).read() if os.path.exists(os.path.join(REPO, 'Cargo.lock')) else ''
    cands = sorted(glob.glob(os.path.expanduser('~/.cargo/registry/src/*/raw-cpuid-10*')))
    if not cands: raise BuildError('raw-cpuid sources not found')
    src = cands[-1]
    if os.path.exists(os.path.join(dst, 'ok')): return dst
    shutil.rmtree(dst, ignore_errors=True); shutil.copytree(src, dst)
    p = os.path.join(dst, 'src', 'lib.rs'); t = open(p).read()
    a = 'let result = unsafe { self::arch::__cpuid_count(a, c) };'
    if t.count(a) != 1: raise BuildError('raw-cpuid: edit point not found')
    t = t.replace(a, a.replace('let result', 'let mut result') + '''
        let p = VP_PROFILE.load(core::sync::atomic::Ordering::Relaxed);
        if p >= 1 && a == 7 && c == 0 { result.ebx &= !(1 << 5); }
        if p >= 2 && a == 1 { result.ecx &= !(1 << 28); }
        if p >= 3 && a == 1 { result.edx &= !(1 << 26); }
        if p >= 4 && a == 0 { result.eax = 0; }''')
    t = t.replace('pub mod native_cpuid {', 'pub mod native_cpuid {\n    pub static VP_PROFILE: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);', 1)
    open(p, 'w').write(t)
    for f in ('.cargo-ok', 'Cargo.lock'):
        q = os.path.join(dst, f)
        if os.path.exists(q): os.unlink(q)
    open(os.path.join(dst, 'ok'), 'w').write('')
    return dst

def conc(profile='release'):
    """Build the concrete harness -> binary path"""
    with lock('conc'):
        raw_cpuid()
        hd = os.path.join(VERIF, 'harness', 'conc')
        run(['cargo', 'build', '--offline', '-q'] + (['--release'] if profile == 'release' else []), hd, {'CARGO_TARGET_DIR': os.path.join(BUILD, 'conc')})
    return os.path.join(BUILD, 'conc', 'release' if profile == 'release' else 'debug', 'vpconc')

def constants(s):
    """string and character constants and numbers of a piece of Rust source"""
    import re
    words = set(); nums = set()
    for m in re.finditer(r'b?"((?:[^"\\]|\\.){1,60})"|b?\'((?:[^\'\\]|\\.[^\']{0,8}))\'', s):
        w = m.group(1) or m.group(2) or ''
        w = re.sub(r'\\u\{([0-9a-fA-F_]+)\}', lambda k: chr(min(int(k.group(1).replace('_', ''), 16), 0x10ffff)), w)
        w = re.sub(r'\\x([0-7][0-9a-fA-F])', lambda k: chr(int(k.group(1), 16)), w)
        w = w.replace('\\n', '\n').replace('\\r', '\r').replace('\\t', '\t').replace('\\0', '\0').replace('\\"', '"').replace("\\'", "'").replace('\\\\', '\\')
        try: w.encode('utf8'); words.add(w)
        except UnicodeEncodeError: pass
    num = r'(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)'; suf = r'(?:[ui](?:8|16|32|64|128|size))?'
    val = lambda x: int(x.replace('_', '').rstrip('_') or '0', 0) if not re.match(r'0[0-9]', x) else int(x.replace('_', ''))
    for m in re.finditer(r'\b' + num, s):
        try: nums.add(val(m.group(1)))
        except ValueError: pass
    for m in re.finditer(r'\b' + num + suf + r'\s*(<<|\*|\+|-)\s*' + num, s):
        try: a, b = val(m.group(1)), val(m.group(3))
        except ValueError: continue
        v = {'<<': lambda: a << b if b < 128 else 0, '*': lambda: a * b, '+': lambda: a + b, '-': lambda: a - b}[m.group(2)]()
        if 0 <= v < 1 << 128: nums.add(v)
    return words, nums

def dictionary():
    """words and numbers of the sources under test: the concrete runs mix them into their inputs"""
    import glob, re
    words = set(); nums = set()
    for f in sorted(glob.glob(os.path.join(REPO, 'laby*', 'src', '**', '*.rs'), recursive=True)):
        s = open(f, errors='replace').read()
        s = re.sub(r'^\s*//.*$', '', s, flags=re.M)
        w, n = constants(s); words |= {x.encode('utf8').hex() for x in w}; nums |= n
    p = os.path.join(BUILD, 'dict.txt')
    words = sorted(words, key=lambda x: (len(x), x))[:1500]
    t = '\n'.join(['w' + w for w in words] + ['n%d' % n for n in sorted(nums) if n < 1 << 128]) + '\n'
    with lock('dict'): open(p, 'w').write(t)
    return p
