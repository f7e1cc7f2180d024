//! Concrete side of the checks: runs the real code on generated inputs and compares with an independent reference.
#![allow(deprecated)]
mod alloc;
mod libc;
use laby::*;
use laby_common::internal::{escape, escape_str, Buffer};
use std::borrow::Cow;
use std::collections::HashSet;
use std::fmt::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Check = alloc::Check;

// ---- bookkeeping ------------------------------------------------------------------------------
pub struct Ctx { seed: u64, rng: u64, evals: u64, seen: HashSet<u64>, fails: u32, end: Instant, prop: String, profile: u32, samples: Vec<String> }
static BEAT: AtomicU64 = AtomicU64::new(0);
static mut CASE: String = String::new();
static mut HEAD: String = String::new();
fn set_case(s: String) { unsafe { *std::ptr::addr_of_mut!(CASE) = s; } BEAT.fetch_add(1, Relaxed); }
fn case() -> String { unsafe { (*std::ptr::addr_of!(CASE)).clone() } }
extern "C" fn crash(sig: i32) {
    unsafe {
        let s = &*std::ptr::addr_of!(CASE); let h = &*std::ptr::addr_of!(HEAD);
        let w = |b: &[u8]| { libc::write(1, b.as_ptr() as *const _, b.len()); };
        w(b"\nFAIL\t"); w(h.as_bytes());
        w(match sig { libc::SIGSEGV | libc::SIGBUS => b"memory outside the input or output was touched (SIGSEGV)" as &[u8], libc::SIGILL => b"illegal instruction", libc::SIGALRM => b"does not terminate", _ => b"abort" });
        w(b"\t"); w(s.as_bytes()); w(b"\n");
        libc::_exit(3);
    }
}
impl Ctx {
    fn next(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() >> 11) as usize % n } }
    fn case(&mut self, s: String) { if self.samples.len() < 3 || (self.samples.len() < 6 && self.evals % 997 == 0) { self.samples.push(s.chars().take(160).collect()); } self.evals += 1; let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } if self.seen.len() < 2_000_000 { self.seen.insert(h); } set_case(s); }
    fn fail(&mut self, what: &str, detail: String) { self.fails += 1; if self.fails <= 5 { println!("FAIL\t{}{}\t{}\t{}", unsafe { &*std::ptr::addr_of!(HEAD) }, what, case(), detail.replace('\n', "\\n").replace('\t', "\\t")); } }
    fn eq(&mut self, what: &str, got: &str, want: &str) { if got != want { self.fail(what, format!("got {:?} want {:?}", cut(got), cut(want))); } }
    fn alloc_ok(&mut self) { let e = alloc::ERR.swap(0, Relaxed); if e != 0 { self.fail(alloc::ERRS[e], String::new()); } }
    fn over(&self) -> bool { self.fails > 20 || Instant::now() > self.end }
    /// run one case, catching panics
    fn run(&mut self, f: impl FnOnce(&mut Ctx)) {
        let me: *mut Ctx = self;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(unsafe { &mut *me })));
        if r.is_err() { self.fail("panics", String::new()); }
        self.alloc_ok();
    }
}
fn cut(s: &str) -> String { if s.len() > 300 { let b = s.as_bytes(); format!("{}…(len {})", String::from_utf8_lossy(&b[..300]), s.len()) } else { s.to_string() } }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o += "&quot;", '&' => o += "&amp;", '\'' => o += "&#39;", '<' => o += "&lt;", '>' => o += "&gt;", c => o.push(c) } } o }
fn unesc(s: &str) -> Option<String> {
    let mut o = String::new(); let mut r = s;
    while let Some(c) = r.chars().next() {
        match c {
            '<' | '>' | '"' | '\'' => return None,
            '&' => { let mut hit = false; for (e, d) in [("&quot;", '"'), ("&amp;", '&'), ("&#39;", '\''), ("&lt;", '<'), ("&gt;", '>')] { if r.starts_with(e) { o.push(d); r = &r[e.len()..]; hit = true; break; } } if !hit { return None; } }
            c => { o.push(c); r = &r[c.len_utf8()..]; }
        }
    }
    Some(o)
}
fn rend<T: Render>(x: T) -> String { let mut b = Buffer::new(); x.render(&mut b); b.into_string() }
/// a buffer with given contents and exactly `room` free bytes
fn buf_with(prefix: &str, room: usize) -> Buffer {
    let mut b = Buffer::with_capacity(prefix.len() + room);
    b.push_str(prefix); b
}
fn rend_into<T: Render>(x: T, prefix: &str, room: usize) -> String { let mut b = buf_with(prefix, room); x.render(&mut b); b.into_string() }

// ---- guarded pages ----------------------------------------------------------------------------
struct Guard { base: *mut u8, pages: usize }
impl Guard {
    fn new(pages: usize) -> Guard { unsafe {
        let p = libc::mmap(std::ptr::null_mut(), (pages + 2) * 4096, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
        assert!(p as isize != -1);
        libc::mprotect(p.add(4096) as *mut _, pages * 4096, libc::PROT_READ | libc::PROT_WRITE);
        Guard { base: p.add(4096), pages }
    } }
    fn size(&self) -> usize { self.pages * 4096 }
    /// `s` placed so that it ends `gap` bytes before the end of the accessible area
    fn at_end(&self, s: &[u8], gap: usize) -> &str { unsafe { let p = self.base.add(self.size() - s.len() - gap); self.put(p, s) } }
    fn at_start(&self, s: &[u8], gap: usize) -> &str { unsafe { let p = self.base.add(gap); self.put(p, s) } }
    unsafe fn put(&self, p: *mut u8, s: &[u8]) -> &str {
        // bytes around the string look special: an over-read that matters shows
        let lo = p.sub((p as usize - self.base as usize).min(40)); std::ptr::write_bytes(lo, b'<', p as usize - lo as usize);
        let e = p.add(s.len()); let n = (self.base.add(self.size()) as usize - e as usize).min(40); std::ptr::write_bytes(e, b'"', n);
        std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, s.len()))
    }
}

// ---- text generation --------------------------------------------------------------------------
const SPECIAL: [char; 5] = ['"', '&', '\'', '<', '>'];
// characters that share bits with the special ones
const NEAR: [char; 26] = ['#', '%', '$', '!', ' ', '(', ')', ':', ';', '=', '?', '2', '6', '7', '.', '|', '~', 'f', 'g', 'b', '\u{2}', '\u{6}', '\u{7}', '\u{0}', '\u{7f}', '\u{1f}'];
const WIDE: [char; 12] = ['\u{80}', '\u{a2}', '\u{a6}', '\u{a7}', '\u{bc}', '\u{be}', 'é', 'あ', '\u{22e6}', '\u{ffff}', '😀', '\u{10ffff}'];
fn gen_char(c: &mut Ctx, mode: usize) -> char {
    let r = c.below(100);
    match mode {
        0 => if r < 50 { SPECIAL[c.below(5)] } else { NEAR[c.below(26)] },
        1 => if r < 5 { SPECIAL[c.below(5)] } else { (b'a' + c.below(26) as u8) as char },
        2 => if r < 20 { SPECIAL[c.below(5)] } else if r < 60 { WIDE[c.below(12)] } else { NEAR[c.below(26)] },
        3 => (c.below(128) as u8) as char,
        4 => SPECIAL[c.below(5)],
        5 => if r < 2 { SPECIAL[c.below(5)] } else { WIDE[c.below(12)] },
        6 => NEAR[c.below(26)],
        _ => char::from_u32(c.below(0x110000) as u32).unwrap_or('<'),
    }
}
/// random text of exactly n bytes
fn gen(c: &mut Ctx, n: usize) -> String {
    let mode = c.below(9);
    let mut s = String::new();
    if mode == 8 {
        // words of the dictionary (entities and the literals of the sources), whole and cut
        for _ in 0..n {
            if s.len() >= n { break; }
            let w = dict(c).to_string(); let w: String = match c.below(4) { 0 => { let k = c.below(w.chars().count() + 1); w.chars().take(k).collect() } 1 => { let mut w = w; w.push(gen_char(c, 0)); w } _ => w };
            if s.len() + w.len() <= n { s += &w } else { break }
        }
    }
    while s.len() < n { let ch = gen_char(c, mode); if s.len() + ch.len_utf8() <= n { s.push(ch) } else { s.push(SPECIAL[c.below(5)]) } }
    s
}
struct Dict { words: Vec<String>, nums: Vec<u128> }
static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
/// words and numbers that occur in the sources under test, one per line: w<hex> or n<decimal>
fn load_dict() -> Dict {
    let mut d = Dict { words: ["&quot;", "&amp;", "&#39;", "&lt;", "&gt;", "&apos;", "&#x27;", "&amp;amp;", "<script>", "</", "<!--", "-->", "]]>", "\0", "\r\n", "true", "false", "None"].iter().map(|s| s.to_string()).collect(), nums: vec![] };
    if let Ok(p) = std::env::var("VP_DICT") { if let Ok(t) = std::fs::read_to_string(p) { for l in t.lines() {
        if let Some(h) = l.strip_prefix('w') { let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect(); if let Ok(s) = String::from_utf8(b) { if !s.is_empty() && s.len() < 64 { d.words.push(s) } } }
        else if let Some(n) = l.strip_prefix('n') { if let Ok(v) = n.parse() { d.nums.push(v) } }
    } } }
    d
}
fn dict(c: &mut Ctx) -> &'static str { let d = DICT.get_or_init(load_dict); let i = if c.below(2) == 0 { c.below(5) } else { c.below(d.words.len()) }; &d.words[i] }
fn nums() -> &'static [u128] { &DICT.get_or_init(load_dict).nums }
/// a text: of a random length, or exactly a word
fn text(c: &mut Ctx) -> String { if c.below(8) == 0 { return dict(c).to_string(); } let n = lens(c); gen(c, n) }
fn lens(c: &mut Ctx) -> usize { if c.below(16) == 0 { let v = nums(); if !v.is_empty() { let k = v[c.below(v.len())]; if k < 5000 { return (k as usize + c.below(3)).saturating_sub(1); } } } match c.below(10) { 0..=3 => c.below(20), 4..=6 => c.below(80), 7 => 120 + c.below(20), 8 => c.below(300), _ => c.below(3000) } }

// ---- C01, C02, C03: escaping ------------------------------------------------------------------
struct Pages { a: Guard }
fn one_escape(c: &mut Ctx, g: &Pages, s: &str, place: (bool, usize), pre: &str, room: usize) {
    let feed = if place.0 { g.a.at_end(s.as_bytes(), place.1) } else { g.a.at_start(s.as_bytes(), place.1) };
    c.case(format!("escape feed={} place={}+{} pre={} room={} profile={}", hex(s.as_bytes()), if place.0 { "end" } else { "start" }, place.1, pre.len(), room, c.profile));
    c.run(|c| {
        let live = alloc::LIVE.with(|n| n.get());
        let ok = {
            let mut b = buf_with(pre, room);
            escape(feed, &mut b);
            let mut want = String::with_capacity(pre.len() + s.len() * 2); want.push_str(pre); want.push_str(&esc(s));
            if b.len() > b.capacity() { c.fail("length exceeds capacity", String::new()); }
            if b.as_str() != want { c.fail("escaped text differs", format!("got {:?} want {:?}", cut(&String::from_utf8_lossy(b.as_str().as_bytes())), cut(&want))); }
            b.len() <= b.capacity()
        };
        let _ = ok;
        if feed.as_bytes() != s.as_bytes() { c.fail("the input was modified", String::new()); }
        if alloc::LIVE.with(|n| n.get()) > live + 8 { c.fail("leaks memory", String::new()); }
    });
}
fn p_escape(c: &mut Ctx) {
    let g = Pages { a: Guard::new(4) };
    let pre = "p<\"é";
    // the first call of the process selects the implementation
    one_escape(c, &g, "first call: a<b>&c\"d'e 0123456789 abcdefghijkl", (true, 0), pre, 3);
    // every byte value in every position of the first 70, every neighbour pattern; both page ends; every alignment
    for i in 0..DICT.get_or_init(load_dict).words.len() { let w = DICT.get().unwrap().words[i].clone(); for r in [0, 1, 7, 60] { one_escape(c, &g, &w, (true, 0), pre, r); one_escape(c, &g, &format!("{}{}", w, w), (false, 3), "", r); } }
    'all: for len in (0..=70usize).chain([95, 96, 97, 127, 128, 129, 160, 161]) {
        for pat in 0..6 {
            if c.over() { break 'all; }
            let mut s = String::new();
            for i in 0..len { s.push(match pat { 0 => 'a', 1 => SPECIAL[(i + len) % 5], 2 => NEAR[(i * 7 + len) % 26], 3 => if i % 2 == 0 { SPECIAL[i / 2 % 5] } else { 'x' }, 4 => if i + 1 == len || i == 0 { SPECIAL[len % 5] } else { '#' }, _ => if i % 9 == 4 { '"' } else { '?' } }); }
            for gap in 0..(if len < 40 { 34 } else { 17 }) {
                one_escape(c, &g, &s, (true, gap), pre, (gap * 3) % 11);
                one_escape(c, &g, &s, (false, gap), "", gap);
            }
        }
        for pos in 0..len {
            if c.over() { break 'all; }
            for ch in SPECIAL.iter().chain(NEAR.iter()) {
                let mut b = vec![b'm'; len]; b[pos] = *ch as u8;
                let s = String::from_utf8(b).unwrap();
                one_escape(c, &g, &s, (pos % 2 == 0, (pos * 5 + len) % 37), pre, pos % 7);
            }
        }
    }
    for a in 0..128u8 { for len in [1usize, 7, 15, 16, 17, 31, 33] { if c.over() { break; } let s: String = (0..len).map(|i| if i % 3 == 1 { a as char } else { (b'A' + i as u8) as char }).collect(); one_escape(c, &g, &s, (true, (a % 16) as usize), "", 0); } }
    // short strings made of one special character and one plain one, with every amount of room
    for n in 1..=18usize { for (k, ch) in SPECIAL.iter().enumerate() { for kind in 0..3 { if c.over() { break; }
        let s: String = (0..n).map(|i| match kind { 0 => *ch, 1 => if i % 2 == 0 { *ch } else { 'y' }, _ => if i % 3 == 0 { SPECIAL[(k + 1) % 5] } else { *ch } }).collect();
        let e = esc(&s).len();
        for room in (0..e + 2).step_by(if n < 12 { 1 } else { 5 }) { one_escape(c, &g, &s, (room % 2 == 0, room % 33), if room % 5 == 0 { "" } else { pre }, room); }
    } } }
    while !c.over() {
        for _ in 0..200 {
            let s = text(c);
            let place = (c.below(3) != 0, if c.below(2) == 0 { 0 } else { c.below(64) });
            let pl = c.below(40); let pre = gen(c, pl); let room = match c.below(4) { 0 => 0, 1 => c.below(30), 2 => esc(&s).len(), _ => esc(&s).len() + c.below(4) };
            one_escape(c, &g, &s, place, &pre, room);
        }
        let s = text(c);
        c.case(format!("escape_str {}", hex(s.as_bytes())));
        c.run(|c| { let r = escape_str(&s); c.eq("escape_str differs", &r, &esc(&s)); });
    }
}

// ---- C04, C05: the buffer ---------------------------------------------------------------------
fn p_buffer(c: &mut Ctx) {
    while !c.over() {
        let seed = c.next() | 1; c.rng = seed;
        c.case(format!("buffer-ops seed={}", seed));
        c.run(|c| { buffer_seq(c); });
    }
}
fn check_buf(c: &mut Ctx, op: &str, b: &Buffer, m: &str) {
    if b.len() != m.len() { c.fail("length differs", format!("after {}: {} want {}", op, b.len(), m.len())); return; }
    if b.len() > b.capacity() { c.fail("length exceeds capacity", format!("after {}", op)); return; }
    if b.is_empty() != m.is_empty() { c.fail("is_empty is wrong", op.to_string()); }
    if b.as_str().as_bytes() != m.as_bytes() { c.fail("contents differ", format!("after {}: got {:?} want {:?}", op, cut(&String::from_utf8_lossy(b.as_str().as_bytes())), cut(m))); }
    if b.as_mut_ptr() as *const u8 != b.as_str().as_ptr() { c.fail("as_mut_ptr is not the start of the contents", op.to_string()); }
}
/// sizes near powers of two, pages and the numbers of the sources, sometimes as the total length
fn big_size(c: &mut Ctx, len: usize) -> usize {
    let k = match c.below(4) { 0 => 1usize << (8 + c.below(11)), 1 => 4096 * (1 + c.below(20)), 2 => { let v = nums(); if v.is_empty() { 777 } else { v[c.below(v.len())].min(200_000) as usize } } _ => c.below(120_000) };
    let k = (k + c.below(5)).saturating_sub(2);
    if c.below(2) == 0 { k.saturating_sub(len) } else { k }
}
fn fill(c: &mut Ctx, n: usize) -> String { if n <= 4000 { gen(c, n) } else { let mut s = String::with_capacity(n); let w = gen(c, 64); while s.len() + 64 <= n { s += &w } while s.len() < n { s.push('.') } s } }
fn buffer_seq(c: &mut Ctx) {
    let live0 = alloc::LIVE.with(|n| n.get());
    {
        let mut bs: Vec<(Buffer, String)> = Vec::new();
        let mut log = String::new(); let big = c.below(25) == 0;
        for _ in 0..(4 + c.below(40)) {
            if bs.is_empty() || c.below(12) == 0 {
                if bs.len() > 3 { bs.remove(0); }
                let n = c.below(20); let t = gen(c, n);
                match c.below(6) {
                    0 => { log += "new "; bs.push((Buffer::new(), String::new())) }
                    1 => { log += "default "; bs.push((Buffer::default(), String::new())) }
                    2 => { let k = c.below(3) * c.below(40); log += &format!("with_capacity({}) ", k); let k = if big && k > 60 { big_size(c, 0) } else { k }; let b = Buffer::with_capacity(k); if b.capacity() < k { c.fail("with_capacity gives less", format!("{} < {}", b.capacity(), k)); } bs.push((b, String::new())) }
                    3 => { log += &format!("from_str({}) ", t.len()); bs.push((Buffer::from(&t[..]), t)) }
                    4 => { let extra = c.below(2) * c.below(30); log += &format!("from_string({}+{}) ", t.len(), extra); let mut s = String::with_capacity(t.len() + extra); s += &t; bs.push((Buffer::from(s), t)) }
                    _ => { if let Some((b, m)) = bs.last() { log += "clone "; let b2 = b.clone(); let m2 = m.clone(); check_buf(c, &log, b, m); bs.push((b2, m2)) } else { bs.push((Buffer::new(), String::new())) } }
                }
            }
            let i = c.below(bs.len());
            let room = bs[i].0.capacity() - bs[i].0.len();
            let n = match c.below(7) { 0 => 0, 1 => room, 2 => room + 1, 3 => room.saturating_sub(1), 4 => c.below(12), 5 if big => big_size(c, bs[i].0.len()), _ => c.below(100) };
            match c.below(18) {
                0 | 1 | 2 => { let t = fill(c, n); log += &format!("{}.push_str({}) ", i, t.len()); bs[i].0.push_str(&t); bs[i].1 += &t }
                3 | 4 => { let m = c.below(8); let ch = gen_char(c, m); log += &format!("{}.push({:x}) ", i, ch as u32); bs[i].0.push(ch); bs[i].1.push(ch) }
                5 => { let ch = ['a', 'é', 'あ', '😀'][c.below(4)]; log += &format!("{}.write_char({:x}) ", i, ch as u32); if bs[i].0.write_char(ch).is_err() { c.fail("write_char fails", String::new()) } bs[i].1.push(ch) }
                6 => { let t = fill(c, n); log += &format!("{}.write_str({}) ", i, t.len()); if bs[i].0.write_str(&t).is_err() { c.fail("write_str fails", String::new()) } bs[i].1 += &t }
                7 => { log += &format!("{}.reserve({}) ", i, n); let b = &mut bs[i].0; b.reserve(n); if b.capacity() - b.len() < n { c.fail("reserve gives less room", log.clone()) } else { unsafe { for k in 0..n { *b.as_mut_ptr().add(b.len() + k) = b'#' } } } }
                8 => { log += &format!("{}.reserve_small({}) ", i, n); let b = &mut bs[i].0; unsafe { b.reserve_small(n) }; if b.capacity() - b.len() < n { c.fail("reserve_small gives less room", log.clone()) } else { unsafe { for k in 0..n { *b.as_mut_ptr().add(b.len() + k) = b'#' } } } }
                9 => { log += &format!("{}.clear ", i); bs[i].0.clear(); bs[i].1.clear() }
                10 => { log += &format!("{}.into_string ", i); let (b, m) = bs.remove(i); let s = b.into_string(); if s != m { c.fail("into_string differs", format!("{}: got {:?} want {:?}", log, cut(&s), cut(&m))) } if c.below(2) == 0 { let mut s = s; s.push('z'); s.shrink_to_fit(); log += "from_string "; let mut m = m; m.push('z'); bs.push((Buffer::from(s), m)) } }
                11 => { let t = fill(c, n); log += &format!("{}.add({}) ", i, t.len()); let (b, mut m) = bs.remove(i); let b = b + &t[..]; m += &t; bs.push((b, m)) }
                12 => { let t = fill(c, n); log += &format!("{}.add_assign({}) ", i, t.len()); bs[i].0 += &t[..]; bs[i].1 += &t }
                13 => { log += &format!("{}.drop ", i); bs.remove(i); }
                14 => { log += &format!("{}.write! ", i); let k = c.next(); write!(bs[i].0, "{}-{:?}", k, "q\u{e9}").unwrap(); write!(bs[i].1, "{}-{:?}", k, "q\u{e9}").unwrap() }
                15 => { let b = &mut bs[i].0; let k = n.min(room); log += &format!("{}.advance({}) ", i, k); unsafe { for j in 0..k { *b.as_mut_ptr().add(b.len() + j) = b'v' } b.advance(k) } for _ in 0..k { bs[i].1.push('v') } }
                16 => { let d = format!("{:?}", bs[i].0); let w = format!("{:?}", bs[i].1); c.eq("Debug differs", &d, &w) }
                _ => { let t = gen(c, n.min(200)); log += &format!("{}.escape({}) ", i, t.len()); escape(&t, &mut bs[i].0); bs[i].1 += &esc(&t) }
            }
            for (b, m) in bs.iter() { check_buf(c, &log, b, m); }
            if c.fails > 0 { break; }
        }
        if c.fails > 0 { for (b, _) in bs.drain(..) { std::mem::forget(b); } return; }
    }
    let live = alloc::LIVE.with(|n| n.get());
    if live != live0 { c.fail("heap blocks leaked or freed twice", format!("{} live blocks more than before", live - live0)); }
}
/// huge reservations: run in a child process, an out-of-memory abort there is within the contract
fn p_huge(c: &mut Ctx) {
    let me = std::env::current_exe().unwrap();
    let imax = isize::MAX as usize;
    let mut cases = Vec::new();
    for (len, cap) in [(0usize, 0usize), (0, 1), (1, 1), (1, 8), (5, 16), (40, 64), (100, 100)] {
        for n in [usize::MAX, usize::MAX - 1, usize::MAX - cap, (usize::MAX - cap).wrapping_add(1), (usize::MAX - cap).wrapping_add(2), (usize::MAX - len).wrapping_add(1), (usize::MAX - len).wrapping_add(2), usize::MAX / 2 + 1, imax, imax - cap, imax - len, imax - cap + 1, imax + cap, usize::MAX - 2 * cap, 1 << 62] {
            cases.push((len, cap, n));
        }
    }
    for (len, cap, n) in cases {
        if c.over() { break; }
        c.case(format!("reserve len={} cap={} n={}", len, cap, n));
        let o = std::process::Command::new(&me).args(["child-reserve", &len.to_string(), &cap.to_string(), &n.to_string()]).stderr(std::process::Stdio::null()).output().unwrap();
        let s = String::from_utf8_lossy(&o.stdout);
        if s.contains("BAD") { c.fail("reserve returns without the promised room", s.trim().to_string()); }
        else if !o.status.success() && !s.contains("OK") { use std::os::unix::process::ExitStatusExt; if o.status.signal() != Some(libc::SIGABRT) { c.fail("reserve crashes", format!("{:?}", o.status)); } }
    }
}
fn child_reserve(a: &[String]) {
    let v: Vec<usize> = a.iter().map(|x| x.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| { let mut b = Buffer::with_capacity(v[1]); for _ in 0..v[0] { b.push_str("x"); } b.reserve(v[2]); let room = b.capacity() - b.len(); let ok = room >= v[2] && b.as_str() == "x".repeat(v[0]); println!("{} room={}", if ok { "OK" } else { "BAD" }, room); std::mem::forget(b) });
    if r.is_err() { println!("OK panicked"); }
}

// ---- C06, C07: numbers ------------------------------------------------------------------------
macro_rules! ints { ($c:ident, $($t:ty, $nz:ty);*) => { $( {
    let mut vs: Vec<$t> = vec![<$t>::MIN, <$t>::MAX, 0, 1];
    let mut p: $t = 1; loop { for d in [0 as $t, 1, 2] { vs.push(p.wrapping_sub(d)); vs.push(p.wrapping_add(d)); vs.push((0 as $t).wrapping_sub(p).wrapping_add(d)); vs.push((0 as $t).wrapping_sub(p).wrapping_sub(d)); } match p.checked_mul(10) { Some(q) => p = q, None => break } }
    for s in 0..<$t>::BITS { for d in [0 as $t, 1] { vs.push(((1 as $t) << s).wrapping_sub(d)); vs.push((0 as $t).wrapping_sub((1 as $t) << s).wrapping_sub(d)); } }
    if <$t>::BITS <= 16 { vs.extend(<$t>::MIN..=<$t>::MAX); } else { for _ in 0..3000 { let r = (($c.next() as u128) << 64) | $c.next() as u128; vs.push((r >> $c.below(128)) as $t); } }
    for k in nums() { for d in [0 as $t, 1] { let k = *k as $t; vs.push(k.wrapping_sub(d)); vs.push(k.wrapping_add(d)); vs.push((0 as $t).wrapping_sub(k)); } }
    for (i, v) in vs.into_iter().enumerate() {
        if $c.over() { break; }
        $c.case(format!("{}={} room={}", stringify!($t), v, i % 45));
        $c.run(|c| { let w = format!("<{}", v); let g = rend_into(v, "<", i % 45); c.eq("integer text differs", &g, &w);
            if let Some(z) = <$nz>::new(v) { let g = rend_into(z, "<", i % 45); c.eq("non-zero integer text differs", &g, &w); } });
    } } )* } }
fn p_ints(c: &mut Ctx) {
    use std::num::*;
    loop {
        ints!(c, u8, NonZeroU8; i8, NonZeroI8; u16, NonZeroU16; i16, NonZeroI16; u32, NonZeroU32; i32, NonZeroI32; u64, NonZeroU64; i64, NonZeroI64; u128, NonZeroU128; i128, NonZeroI128; usize, NonZeroUsize; isize, NonZeroIsize);
        if c.over() || c.evals > 600_000 { break; }
    }
}
/// every 32-bit integer whose lowest three bits are k, signed and unsigned, on its way through the same buffer
fn p_sweep_ints(c: &mut Ctx, k: u32) {
    let mut b = Buffer::with_capacity(64); let mut want = [b'0'; 11];
    for hi in 0..1u32 << 13 {
        if c.over() { c.samples.push(format!("stopped at {:#x}", hi << 19)); return; }
        unsafe { use std::fmt::Write; let s = &mut *std::ptr::addr_of_mut!(CASE); s.clear(); let _ = write!(s, "u32 and i32 from {:#x}", hi << 19); } BEAT.fetch_add(1, Relaxed);
        for lo in 0..1u32 << 16 {
            let v = hi << 19 | lo << 3 | k;
            let mut n = v; let mut i = 11; loop { i -= 1; want[i] = b'0' + (n % 10) as u8; n /= 10; if n == 0 { break; } }
            b.clear(); v.render(&mut b);
            if b.as_str().as_bytes() != &want[i..] { set_case(format!("{}u32", v)); let g = b.as_str().to_string(); c.fail("integer text differs", format!("got {:?}", g)); }
            b.clear(); (v as i32).render(&mut b);
            let g = b.as_str().as_bytes();
            let ok = if (v as i32) < 0 { let mut n = (v as i32).unsigned_abs(); let mut i = 11; loop { i -= 1; want[i] = b'0' + (n % 10) as u8; n /= 10; if n == 0 { break; } } g[0] == b'-' && g[1..] == want[i..] } else { *g == want[i..] };
            if !ok { set_case(format!("{}i32", v as i32)); let g = b.as_str().to_string(); c.fail("integer text differs", format!("got {:?}", g)); }
        }
        c.evals += 2 << 16;
    }
    c.samples.push(format!("every u32 and i32 that is {} modulo 8", k));
}
/// every f32 whose lowest three bits are k
fn p_sweep_f32(c: &mut Ctx, k: u32) {
    use std::fmt::Write;
    let mut b = Buffer::with_capacity(64); let mut e = String::with_capacity(64);
    let count = |s: &[u8]| { let (mut n, mut z, mut any) = (0, 0, false); for &x in s { match x { b'e' => break, b'0' => { if any { z += 1 } } b'1'..=b'9' => { any = true; n += 1 + z; z = 0 } _ => {} } } n };
    for hi in 0..1u32 << 13 {
        if c.over() { c.samples.push(format!("stopped at {:#x}", hi << 19)); return; }
        unsafe { let s = &mut *std::ptr::addr_of_mut!(CASE); s.clear(); let _ = write!(s, "f32::from_bits from {:#x}", hi << 19); } BEAT.fetch_add(1, Relaxed);
        for lo in 0..1u32 << 16 {
            let bits = hi << 19 | lo << 3 | k; let v = f32::from_bits(bits);
            b.clear(); v.render(&mut b); let g = b.as_str();
            let ok = if v.is_nan() { g == "NaN" } else if v.is_infinite() { g == if v > 0.0 { "inf" } else { "-inf" } } else {
                e.clear(); let _ = write!(e, "{:e}", v);
                matches!(g.parse::<f32>(), Ok(w) if w.to_bits() == bits) && count(g.as_bytes()) <= count(e.as_bytes()) && g.bytes().all(|x| b"0123456789.e-".contains(&x)) };
            if !ok { set_case(format!("f32::from_bits({:#x})", bits)); let g = b.as_str().to_string(); c.fail("float text differs", format!("got {:?}", g)); }
        }
        c.evals += 1 << 16;
    }
    c.samples.push(format!("every f32 whose bits are {} modulo 8", k));
}
fn digits(s: &str) -> (String, i32) {
    // significant digits and decimal exponent of the value 0.d1d2.. * 10^e
    let (m, e) = match s.find('e') { Some(i) => (&s[..i], s[i + 1..].parse::<i32>().unwrap_or(9999)), None => (s, 0) };
    let m = m.trim_start_matches('-');
    let (a, b) = match m.find('.') { Some(i) => (&m[..i], &m[i + 1..]), None => (m, "") };
    let all = format!("{}{}", a, b); let lead = all.len() - all.trim_start_matches('0').len();
    (all.trim_start_matches('0').trim_end_matches('0').to_string(), e + a.len() as i32 - lead as i32)
}
macro_rules! floats { ($c:ident, $t:ty, $vs:expr) => { for (i, v) in $vs.into_iter().enumerate() {
    if $c.over() { break; }
    let v: $t = v;
    $c.case(format!("{}::from_bits({:#x}) room={}", stringify!($t), v.to_bits(), i % 30));
    $c.run(|c| {
        let g = rend_into(v, "<", i % 30); let g = &g[1..];
        if v.is_nan() { c.eq("NaN text differs", g, "NaN") } else if v.is_infinite() { c.eq("infinity text differs", g, if v > 0.0 { "inf" } else { "-inf" }) }
        else {
            match g.parse::<$t>() { Ok(w) if w.to_bits() == v.to_bits() => {} _ => c.fail("float text does not parse back", format!("got {:?}", g)) }
            if g.bytes().any(|b| !b"0123456789.e-".contains(&b)) { c.fail("float text has other characters", format!("got {:?}", g)); }
            let (a, b) = (digits(g), digits(&format!("{:e}", v)));
            if v != 0.0 && a.0.len() > b.0.len() { c.fail("float text is not the shortest", format!("got {:?} std {:e}", g, v)); }
        }
    }); } } }
fn p_floats(c: &mut Ctx) {
    let mut v64: Vec<f64> = vec![0.0, -0.0, f64::MIN, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, 5e-324, 1e16, 1e15, 1e17, 123456789012345680.0, 0.1, 0.3, 1.0 / 3.0, 1e-5, 1e-6, 1e-7, 1.5e300, 9007199254740993.0];
    let mut v32: Vec<f32> = vec![0.0, -0.0, f32::MIN, f32::MAX, f32::MIN_POSITIVE, f32::EPSILON, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -f32::NAN, 1e-45, 0.1, 16777216.0, 1e13, 1e12];
    for m in [1u64, 0x123, 0x8000000000000, 0xfffffffffffff] { for s in [0u64, 1 << 63] { v64.push(f64::from_bits(0x7ff0000000000000 | m | s)); } }
    for m in [1u32, 0x123, 0x400000, 0x7fffff] { for s in [0u32, 1 << 31] { v32.push(f32::from_bits(0x7f800000 | m | s)); } }
    for e in -330i32..310 { if let Ok(v) = format!("1e{}", e).parse::<f64>() { for k in [v, -v, v * 1.5, v * 9.999999] { v64.push(k); v32.push(k as f32); } } }
    for e in 0..2046u64 { v64.push(f64::from_bits(e << 52)); v64.push(-f64::from_bits((e << 52) | 0xfffffffffffff)); }
    for e in 0..255u32 { v32.push(f32::from_bits(e << 23)); v32.push(-f32::from_bits((e << 23) | 0x7fffff)); }
    for k in nums() { for v in [*k as f64, *k as f64 / 10.0, *k as f64 / 1000.0, -(*k as f64), f64::from_bits(*k as u64)] { v64.push(v); v32.push(v as f32); } v32.push(f32::from_bits(*k as u32)); }
    floats!(c, f64, v64); floats!(c, f32, v32);
    while !c.over() && c.evals < 1_500_000 {
        let a: Vec<f64> = (0..500).map(|_| f64::from_bits(c.next())).collect(); let b: Vec<f32> = (0..500).map(|_| f32::from_bits(c.next() as u32)).collect();
        floats!(c, f64, a); floats!(c, f32, b);
        let a: Vec<f64> = (0..100).map(|_| { let k = 10f64.powi(c.below(17) as i32); (c.next() >> 20) as f64 / k }).collect(); floats!(c, f64, a);
    }
}

// ---- C08: scalars and wrappers ----------------------------------------------------------------
#[derive(Clone)]
struct Own(String);
struct Bor<'a>(&'a str);
impl Render for Own { fn render(self, b: &mut Buffer) { b.push_str("O:"); b.push_str(&self.0) } }
impl<'a> Render for &'a Own { fn render(self, b: &mut Buffer) { b.push_str("B:"); b.push_str(&self.0) } }
impl<'a> Render for Bor<'a> { fn render(self, b: &mut Buffer) { b.push_str("b:"); b.push_str(self.0) } }
fn p_scalars(c: &mut Ctx) {
    c.case("doctype".into()); c.run(|c| { let g = rend(laby::DocType::HTML5); c.eq("doctype differs", &g, "<!DOCTYPE html>"); });
    c.case("bool unit none".into());
    c.run(|c| { c.eq("true", &rend_into(true, "<", 0), "<true"); c.eq("false", &rend_into(false, "<", 0), "<false"); c.eq("unit", &rend_into((), "<", 0), "<"); c.eq("none", &rend_into(None::<&str>, "<", 0), "<"); c.eq("none", &rend(None::<Option<char>>), ""); c.eq("none", &rend(Some(None::<char>)), "");
        c.eq("Cow of a zero-sized value differs", &rend_into(Cow::<Zst>::Borrowed(&Zst), "<", 0), "<z"); c.eq("Cow of a zero-sized value differs", &rend_into(Cow::<Zst>::Owned(Zst), "<", 0), "<Z");
        c.eq("Some(zero-sized) differs", &rend_into(Some(Zst), "<", 0), "<Z"); c.eq("Some(&zero-sized) differs", &rend_into(Some(Some(&Zst)), "<", 0), "<z"); c.eq("None differs", &rend_into(None::<Zst>, "<", 0), "<");
        c.eq("Some(large) differs", &rend_into(Some(Big([3; 40])), "<", 0), "<3"); c.eq("Cow of a large value differs", &rend_into(Cow::<Big>::Borrowed(&Big([5; 40])), "<", 0), "<b5"); c.eq("Cow of a large value differs", &rend_into(Cow::<Big>::Owned(Big([6; 40])), "<", 0), "<6");
        c.eq("Some(()) differs", &rend_into(Some(()), "<", 0), "<"); c.eq("render! differs", &laby::render!(Zst, (), Big([1; 40]), Zst), "Z1Z"); c.eq("render! differs", &laby::render!(), ""); });
    for u in 0..0x110000u32 {
        if c.over() { break; }
        if let Some(ch) = char::from_u32(u) {
            if u % 4096 == 0 || u < 0x800 { c.case(format!("char U+{:x} room={}", u, u % 6)); } else { BEAT.fetch_add(1, Relaxed); c.evals += 1; }
            let mut t = [0; 4]; let s: &str = ch.encode_utf8(&mut t);
            let g = rend_into(ch, "", (u % 6) as usize);
            if g != esc(s) { set_case(format!("char U+{:x}", u)); c.fail("character differs", format!("got {:?} want {:?}", g, esc(s))); }
            if u % 257 == 0 || u < 0x800 { let g = rend_into(Some(ch), "x", (u % 6) as usize); if g != format!("x{}", esc(s)) { set_case(format!("Some(U+{:x})", u)); c.fail("Some differs", g); } }
        }
    }
    c.alloc_ok();
    while !c.over() && c.evals < 1_400_000 {
        for _ in 0..100 {
            let s = text(c).chars().take(200).collect::<String>(); let room = c.below(20);
            c.case(format!("strings {} room={}", hex(s.as_bytes()), room));
            c.run(|c| {
                let w = format!("x{}", esc(&s));
                c.eq("&str differs", &rend_into(&s[..], "x", room), &w); c.eq("String differs", &rend_into(s.clone(), "x", room), &w);
                c.eq("Some(&str) differs", &rend_into(Some(&s[..]), "x", room), &w); c.eq("Some(Some(String)) differs", &rend_into(Some(Some(s.clone())), "x", room), &w);
                let mut b = buf_with("x", room); Cow::Borrowed(&s[..]).render(&mut b); c.eq("Cow borrowed differs", b.as_str(), &w); let mut b = buf_with("x", room); Cow::<str>::Owned(s.clone()).render(&mut b); c.eq("Cow owned differs", b.as_str(), &w);
                let o = Own(s.clone());
                c.eq("Cow owned custom differs", &rend_into(Cow::<Own>::Owned(o.clone()), "x", room), &format!("xO:{}", s)); c.eq("Cow borrowed custom differs", &rend_into(Cow::<Own>::Borrowed(&o), "x", room), &format!("xB:{}", s));
                c.eq("Some(custom) differs", &rend_into(Some(Bor(&s)), "x", room), &format!("xb:{}", s));
            });
        }
    }
}

// ---- C09: formatted text ----------------------------------------------------------------------
struct Pieces(Vec<(u8, String)>);
impl std::fmt::Display for Pieces {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for (k, s) in &self.0 { match k { 0 => f.write_str(s)?, 1 => for ch in s.chars() { f.write_char(ch)? }, 2 => write!(f, "{}", s)?, 3 => f.pad(s)?, 4 => write!(f, "[{:?}]", s)?, _ => f.write_fmt(format_args!("<{:>5}>", s))? } }
        Ok(())
    }
}
fn p_args(c: &mut Ctx) {
    macro_rules! lit { ($($l:literal),*) => { $( { c.case(format!("literal {}", hex($l.as_bytes()))); c.run(|c| { let w = esc(&format!($l)); c.eq("literal text differs", &rend_into(format_args!($l), "x", 0), &format!("x{}", w)); c.eq("literal disp differs", &rend_into(laby::disp!($l), "x", 2), &format!("x{}", esc($l))); c.eq("Some(literal) differs", &rend_into(Some(format_args!($l)), "x", 3), &format!("x{}", w)); }); } )* } }
    lit!("", "<", "&", "a", "\"", "'", ">", "<b", "a<b", "ab&", "a&b<c", "1<2>3", "&amp;", "<b>hi</b>", "\0<", "é<", "aaaaaaa<", "aaaaaaaa", "<aaaaaaaa", "aaaaaaaaaaaaaa<", "aaaaaaaaaaaaaaa<", "aaaaaaaaaaaaaaaa<", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa<", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa&b", "{{}}<");
    lit!("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa<b>aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa&");
    while !c.over() {
        let mut v = Vec::new();
        for _ in 0..c.below(6) { let n = match c.below(3) { 0 => c.below(4), 1 => c.below(20), _ => c.below(70) }; let s = gen(c, n); v.push((c.below(6) as u8, s)); }
        let p = Pieces(v); let room = c.below(40); let k = c.next(); let m = c.below(8); let ch = gen_char(c, m); let w = c.below(30);
        c.case(format!("args {:?} room={} k={} ch={:x} w={}", p.0.iter().map(|(k, s)| format!("{}:{}", k, hex(s.as_bytes()))).collect::<Vec<_>>(), room, k, ch as u32, w));
        c.run(|c| {
            macro_rules! t { ($($a:tt)*) => { let want = format!("x{}", esc(&format!($($a)*))); c.eq("formatted text differs", &rend_into(format_args!($($a)*), "x", room), &want); } }
            t!("{}", p); t!("<a href='{}'>&{}", p, k); t!("{:?}", ch); t!("{}{}{}", ch, p, ch); t!("{:<w$}|{:^w$}|{:>+w$}", p, ch, k, w = w); t!("{:\"<5}{:#x}", ch, k); t!("no arguments & <>"); t!("{}", 1.5); t!("{}", "<"); t!("{}{}", "", ""); t!("{}", ch); t!("{p}{k:?}{ch}"); t!("{}", String::new()); t!("{}", &p as &dyn std::fmt::Display); t!("{:?}", "q\"uo'te");
            let want = format!("x{}", esc(&format!("{}", p)));
            c.eq("disp! differs", &rend_into(laby::disp!(&p), "x", room), &want);
            c.eq("RenderDisplay differs", &rend_into(laby::RenderDisplay::from(&p), "x", room), &want);
        });
    }
}

// ---- C10, C11: iterators and raw text ---------------------------------------------------------
struct It { items: Vec<Option<String>>, i: usize, polls: *mut usize, hint: usize }
impl Iterator for It { type Item = Tok;
    fn next(&mut self) -> Option<Tok> { unsafe { *self.polls += 1 } let r = self.items.get(self.i).cloned().unwrap_or(None); self.i += 1; r.map(Tok) }
    fn size_hint(&self) -> (usize, Option<usize>) { match self.hint { 0 => (0, None), 1 => (0, Some(0)), 2 => (7, Some(7)), 3 => (1, Some(1)), 4 => (self.items.len().saturating_sub(self.i), Some(self.items.len().saturating_sub(self.i))), 5 => (0, Some(64)), _ => (0, Some(usize::MAX)) } }
}
struct Tok(String);
#[derive(Clone)] struct Zst; impl Render for Zst { fn render(self, b: &mut Buffer) { b.push_str("Z") } }
#[derive(Clone)] struct Big([u64; 40]); impl Render for &Big { fn render(self, b: &mut Buffer) { b.push_str("b"); self.0[39].render(b) } } impl Render for &Zst { fn render(self, b: &mut Buffer) { b.push_str("z") } } impl Render for Big { fn render(self, b: &mut Buffer) { self.0[39].render(b) } }
impl Render for Tok { fn render(self, b: &mut Buffer) { b.push_str(&tok(&self.0)) } }
// an item can render nothing at all, or only the delimiter itself
fn tok(s: &str) -> String { if s.len() % 3 == 0 { s.to_string() } else { format!("{{{}}}", s) } }
fn p_iter(c: &mut Ctx) {
    while !c.over() {
        let big = c.below(12) == 0; let n = if big { c.below(700) } else { c.below(9) }; let mut items = Vec::new();
        for _ in 0..n { let k = if big { c.below(3) } else { c.below(20) }; items.push(if c.below(if big { 400 } else { 6 }) == 0 { None } else if c.below(4) == 0 { Some(String::new()) } else { Some(gen(c, k)) }); }
        let dn = match c.below(4) { 0 => 0, 1 => 1, _ => c.below(40) }; let del = gen(c, dn); let hint = c.below(7); let room = c.below(30); let which = c.below(6);
        c.case(format!("iter items={:?} del={} hint={} which={} room={}", items.iter().map(|x| x.as_ref().map(|s| hex(s.as_bytes()))).collect::<Vec<_>>(), hex(del.as_bytes()), hint, which, room));
        c.run(|c| {
            let first: Vec<String> = items.iter().map_while(|x| x.clone()).map(|s| tok(&s)).collect();
            let mut polls = 0usize;
            let it = It { items: items.clone(), i: 0, polls: &mut polls, hint };
            let got = match which { 0 => rend_into(laby::iter!(it), "x", room), 1 => rend_into(laby::iter!(&del[..], it), "x", room), 2 => rend_into(laby::iter!(del.clone(), it), "x", room), 3 => rend_into(laby::iter_lines!(it), "x", room), 4 => rend_into(laby::RenderIterator::from(it), "x", room), _ => rend_into(laby::RenderIteratorDelimited(it, del.clone()), "x", room) };
            let d: &str = match which { 0 | 4 => "", 3 => "\n", _ => &del };
            let want = format!("x{}", first.join(d));
            c.eq("iterator text differs", &got, &want);
            if polls != first.len() + 1 { c.fail("iterator consumed wrongly", format!("{} calls to next for {} items", polls, first.len())); }
            let v: Vec<u32> = (0..n as u32).collect();
            let w: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            let z = "Z".repeat(n);
            c.eq("zero-sized items differ", &rend_into(laby::iter!((0..n).map(|_| Zst)), "x", room), &format!("x{}", z)); c.eq("zero-sized delimited items differ", &rend_into(laby::iter!(&del[..], (0..n).map(|_| Zst)), "x", room), &format!("x{}", vec!["Z"; n].join(&del)));
            c.eq("static fragments differ", &rend_into(laby::iter!((0..n).map(|_| li!("Z"))), "x", room), &format!("x{}", "<li>Z</li>".repeat(n))); c.eq("large items differ", &rend_into(laby::iter!((0..n).map(|i| Big([i as u64; 40]))), "x", room), &format!("x{}", (0..n).map(|i| i.to_string()).collect::<String>()));
            c.eq("unit items differ", &rend_into(laby::iter!(&del[..], (0..n).map(|_| ())), "x", room), &format!("x{}", vec![""; n].join(&del)));
            c.eq("Vec differs", &rend(laby::iter!(v.clone())), &w.concat()); c.eq("Vec delimited differs", &rend(laby::iter!(&del[..], v)), &w.join(&del));
        });
    }
}
struct Odd(String); impl AsRef<str> for Odd { fn as_ref(&self) -> &str { &self.0 } }
fn p_raw(c: &mut Ctx) {
    while !c.over() {
        let mut s = text(c); if c.below(3) == 0 { s.push_str(["\0", "\r\n", "  ", "&amp;<b>", "\u{feff}", "\u{301}"][c.below(6)]); } let room = c.below(60);
        c.case(format!("raw {} room={}", hex(s.as_bytes()), room));
        c.run(|c| {
            let w = format!("x{}", s);
            c.eq("raw &str differs", &rend_into(laby::raw!(&s[..]), "x", room), &w); c.eq("raw String differs", &rend_into(laby::raw!(s.clone()), "x", room), &w); c.eq("raw AsRef differs", &rend_into(laby::RenderRaw::from(Odd(s.clone())), "x", room), &w); c.eq("raw Cow differs", &rend_into(laby::raw!(Cow::<str>::Owned(s.clone())), "x", room), &w);
            c.eq("delimiter differs", &rend_into(laby::iter!(Odd(s.clone()), [1u8, 2, 3]), "x", room), &format!("x1{}2{}3", s, s));
            c.eq("raw child differs", &rend(div!(laby::raw!(&s[..]), "<")), &format!("<div>{}&lt;</div>", s));
        });
    }
}
// ---- C12: round trip --------------------------------------------------------------------------
fn p_roundtrip(c: &mut Ctx) {
    while !c.over() {
        let s = text(c); let m = c.below(8); let ch = gen_char(c, m);
        c.case(format!("untrusted {} ch={:x}", hex(s.as_bytes()), ch as u32));
        c.run(|c| {
            let mut chk = |what: &str, g: &str, pre: &str, post: &str, orig: &str| {
                if !g.starts_with(pre) || !g.ends_with(post) || g.len() < pre.len() + post.len() { c.fail("text escapes its context", format!("{}: {:?}", what, cut(g))); return; }
                match unesc(&g[pre.len()..g.len() - post.len()]) { None => c.fail("text contains a raw special character", format!("{}: {:?}", what, cut(g))), Some(d) if d != orig => c.fail("decoded text differs", format!("{}: got {:?} want {:?}", what, cut(&d), cut(orig))), _ => {} }
            };
            chk("child", &rend(div!(&s[..])), "<div>", "</div>", &s); chk("attribute", &rend(a!(href = s.clone())), "<a href=\"", "\"></a>", &s);
            chk("char child", &rend(p!(ch)), "<p>", "</p>", &ch.to_string()); chk("char attribute", &rend(img!(alt = ch)), "<img alt=\"", "\">", &ch.to_string());
            chk("format_args", &rend(div!(format_args!("{}{}", s, ch))), "<div>", "</div>", &format!("{}{}", s, ch));
            chk("option", &rend(div!(Some(&s[..]), None::<char>)), "<div>", "</div>", &s); chk("cow", &rend(div!(id = Cow::Borrowed(&s[..]).into_owned())), "<div id=\"", "\"></div>", &s);
            chk("iter", &rend(div!(laby::iter!(vec![&s[..], &s[..]]))), "<div>", "</div>", &format!("{}{}", s, s)); chk("classes", &rend(div!(class = classes!("a", &s[..]))), "<div class=\"a ", "\"></div>", &s);
        });
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a[0] == "child-reserve" { child_reserve(&a[1..]); return; }
    if a[0] == "run" {
        // run <what> <profile> <seed> <millis>
        let (what, profile, seed, ms) = (a[1].clone(), a[2].parse::<u32>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
        raw_cpuid::native_cpuid::VP_PROFILE.store(profile, Relaxed);
        unsafe {
            *std::ptr::addr_of_mut!(HEAD) = String::new();
            std::ptr::addr_of_mut!(CASE).write(String::with_capacity(1 << 16));
            let mut sa: libc::sigaction = std::mem::zeroed(); sa.sa_sigaction = crash as extern "C" fn(i32) as usize; sa.sa_flags = libc::SA_ONSTACK;
            let stk = libc::mmap(std::ptr::null_mut(), 1 << 16, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            let ss = libc::stack_t { ss_sp: stk, ss_flags: 0, ss_size: 1 << 16 }; libc::sigaltstack(&ss, std::ptr::null_mut());
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGALRM] { libc::sigaction(s, &sa, std::ptr::null_mut()); }
            let rl = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 }; libc::setrlimit(libc::RLIMIT_AS, &rl);
        }
        let main_thread = unsafe { libc::pthread_self() } as usize;
        std::thread::spawn(move || { let mut last = 0; let mut same = 0; loop { std::thread::sleep(Duration::from_millis(500)); let b = BEAT.load(Relaxed); if b == last { same += 1 } else { same = 0; last = b } if same > 40 { unsafe { libc::pthread_kill(main_thread as libc::pthread_t, libc::SIGALRM); } } } });
        std::panic::set_hook(Box::new(|_| {}));
        DICT.get_or_init(load_dict);
        alloc::ARMED.with(|x| x.set(true));
        let mut c = Ctx { seed, rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, evals: 0, seen: HashSet::new(), fails: 0, end: Instant::now() + Duration::from_millis(ms), prop: what.clone(), profile, samples: vec![] };
        match &what[..] { "escape" => p_escape(&mut c), "buffer" => p_buffer(&mut c), "huge" => p_huge(&mut c), "ints" => p_ints(&mut c), "floats" => p_floats(&mut c), "scalars" => p_scalars(&mut c), "args" => p_args(&mut c), "iter" => p_iter(&mut c), "raw" => p_raw(&mut c), "roundtrip" => p_roundtrip(&mut c),
            w if w.starts_with("every-int32-") => p_sweep_ints(&mut c, w[12..].parse().unwrap()), w if w.starts_with("every-f32-") => p_sweep_f32(&mut c, w[10..].parse().unwrap()), _ => panic!() }
        let _ = (c.seed, &c.prop);
        println!("STATS\t{}\t{}\t{}", c.evals, c.seen.len(), c.fails);
        for s in &c.samples { println!("SAMPLE\t{}", s.replace('\n', " ")); }
        std::process::exit(0);
    }
}
