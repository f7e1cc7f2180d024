#!/usr/bin/env python3
"""Create and confirm planted bugs: tools/plant.py [ids...] reads tools/bugs/*.py (each defines BUGS).

For every bug: patch applied in a scratch copy of /repo, builds, stable tests pass, demo passes without and fails with the patch."""
import sys, os, json, subprocess, shutil, glob, tempfile, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# cwd: the repository. Builds the demo program against it and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
laby = { path = "$repo/laby"%FEAT% }
laby_common = { path = "$repo/laby_common" }
%DEPS%
EOF
export CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0 RUSTFLAGS=-Awarnings
cd "$t" && timeout 250 cargo %TC%run %REL% --offline -q
'''
MASK = r'''
# a copy of raw-cpuid reporting a processor without some instruction sets
rc="$(ls -d ~/.cargo/registry/src/*/raw-cpuid-10* | tail -1)"; cp -r "$rc" "$t/raw-cpuid"; rm -f "$t/raw-cpuid/Cargo.lock"
sed -i 's|let result = unsafe { self::arch::__cpuid_count(a, c) };|let mut result = unsafe { self::arch::__cpuid_count(a, c) }; %MASK%|' "$t/raw-cpuid/src/lib.rs"
printf '[patch.crates-io]\nraw-cpuid = { path = "%s" }\n' "$t/raw-cpuid" >> "$t/Cargo.toml"
'''
MASKS = {'sse2': 'if a == 7 \\&\\& c == 0 { result.ebx \\&= !(1 << 5); } if a == 1 { result.ecx \\&= !(1 << 28); }',
         'none': 'if a == 7 \\&\\& c == 0 { result.ebx \\&= !(1 << 5); } if a == 1 { result.ecx \\&= !(1 << 28); result.edx \\&= !(1 << 26); }'}
# allocator that aborts on a size mismatch or an out-of-bounds write next to a block
ALLOC = r'''
mod chk { use std::alloc::*; pub struct A; const Z: usize = 64;
fn bad(m: &str) -> ! { eprintln!("{m}"); std::process::exit(9) }
unsafe impl GlobalAlloc for A {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 2 * Z, 64)); if p.is_null() { return p } (p as *mut usize).write(l.size()); std::ptr::write_bytes(p.add(32), 0xfd, 32); std::ptr::write_bytes(p.add(Z), 0xaa, l.size()); std::ptr::write_bytes(p.add(Z + l.size()), 0xfe, Z); LIVE.fetch_add(1, std::sync::atomic::Ordering::Relaxed); p.add(Z) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { let b = p.sub(Z); let s = (b as *mut usize).read(); if s != l.size() { bad("freed with another size than allocated") } for i in 32..64 { if *b.add(i) != 0xfd { bad("write before a block") } } for i in 0..Z { if *p.add(s + i) != 0xfe { bad("write past a block") } } LIVE.fetch_sub(1, std::sync::atomic::Ordering::Relaxed); System.dealloc(b, Layout::from_size_align_unchecked(s + 2 * Z, 64)) }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { let q = self.alloc(Layout::from_size_align_unchecked(n, 1)); std::ptr::copy_nonoverlapping(p, q, n.min(l.size())); self.dealloc(p, l); q }
}
pub static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
pub fn live() -> isize { LIVE.load(std::sync::atomic::Ordering::Relaxed) } }
#[global_allocator] static GA: chk::A = chk::A;
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def load():
    bugs = []
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'bugs', '*.py'))):
        s = importlib.util.spec_from_file_location('b', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); bugs += m.BUGS
    return bugs
import re
def stable(repo):
    """(names of passed tests, names of failed tests, compile error?)"""
    env = dict(os.environ, CARGO_TARGET_DIR=repo + '/target', RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
    o = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', repo, env=env).stdout
    nm = lambda k: sorted(re.sub(r' \(line \d+\)', '', m) for m in re.findall(r'^test (.*) \.\.\. ' + k, o, re.M))
    return nm('ok'), nm('FAILED'), 'could not compile' in o
def main():
    want = sys.argv[1:]
    W = '/tmp/plant'; os.makedirs(W, exist_ok=True); repo = W + '/repo'
    shutil.rmtree(repo, ignore_errors=True); subprocess.run(['cp', '-a', '/repo', repo], check=True); sh('git checkout -q -- . && git clean -fdq', repo)
    base = stable(repo); print('baseline', len(base[0]), base[1])
    for b in load():
        if want and b['id'] not in want: continue
        d = os.path.join(V, 'seeded', b['id'])
        if not want and os.path.exists(d): continue
        sh('git checkout -q -- .', repo)
        for f, old, new, *last in b['edits']:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) < 1: print(b['id'], 'EDIT NOT FOUND', old[:80]); break
            n = -1 if last else b.get('nth', {}).get(old)
            if n is None:
                if s.count(old) != 1: print(b['id'], 'AMBIGUOUS', s.count(old), old[:60]); break
                s = s.replace(old, new)
            else:
                parts = s.split(old); n = n if n >= 0 else len(parts) - 2; s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, 'w').write(s)
        else:
            diff = sh('git diff', repo).stdout
            t = tempfile.mkdtemp(dir=W)
            src = (ALLOC if b.get('alloc') else '') + b['demo']
            open(t + '/demo.rs', 'w').write(src)
            dm = DEMO.replace('%REL%', '--release' if b.get('release') else '').replace('%FEAT%', b.get('feat', '')).replace('%DEPS%', '').replace('%TC%', b.get('tc', ''))
            if b.get('mask'): dm = dm.replace('export CARGO_TARGET', MASK.replace('%MASK%', MASKS[b['mask']]).strip('\n') + '\nexport CARGO_TARGET')
            if b.get('demo_sh'): dm = b['demo_sh']
            open(t + '/demo.sh', 'w').write(dm); os.chmod(t + '/demo.sh', 0o755)
            bad = sh(['bash', t + '/demo.sh'], repo)
            sh('git checkout -q -- .', repo); good = sh(['bash', t + '/demo.sh'], repo)
            open(t + '/patch.diff', 'w').write(diff)
            ok = good.returncode == 0 and bad.returncode != 0
            tests = '?'
            if ok:
                sh(['git', 'apply', t + '/patch.diff'], repo)
                got = stable(repo); tests = [x for x in base[0] if x not in got[0]]
                if tests or got[2]: ok = False
            if ok:
                shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
                for f in ('patch.diff', 'demo.sh', 'demo.rs'):
                    if f == 'demo.rs' and b.get('demo_sh'): continue
                    shutil.copy(t + '/' + f, d + '/' + f)
                json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
                print(b['id'], 'KEPT', tests)
            else: print(b['id'], 'REJECTED good', good.returncode, 'bad', bad.returncode, tests, '\n   ', good.stdout[-600:] if good.returncode else '', '\n  bad:', bad.stdout[-300:] if bad.returncode == 0 else '')
            shutil.rmtree(t)
    shutil.rmtree(repo, ignore_errors=True)
main()
