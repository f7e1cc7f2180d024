E_='laby_common/src/internal/escape.rs'; B_='laby_common/src/internal/buffer.rs'; R_='laby_common/src/render.rs'; H_='laby/src/helpers.rs'
ESC = '''
use laby_common::internal::{escape, escape_str, Buffer}; use laby::*;
fn esc(s: &str) -> String { s.chars().map(|c| match c { '"' => "&quot;".into(), '&' => "&amp;".into(), '\\'' => "&#39;".into(), '<' => "&lt;".into(), '>' => "&gt;".into(), c => c.to_string() }).collect() }
'''
ALLESC = ESC + '''
fn main() { for n in 0..200usize { for p in 0..n { for c in ['"', '&', '\\'', '<', '>'] { for f in ['x', '#'] {
  let mut v = vec![f as u8; n]; v[p] = c as u8; let s = String::from_utf8(v).unwrap(); assert_eq!(escape_str(&s), esc(&s), "len {n} pos {p}"); } } } } }
'''
BUGS = [
 dict(id='C01-small-tail', property='C01', edits=[(E_, "        if len != 16 {\n            ptr = ptr.add(16);", "        if len > 17 {\n            ptr = ptr.add(16);")],
      needs='AVX2 processor, a string of exactly 17 bytes whose last byte is special', breaks='the last special character of a 17 byte string is appended unescaped', demo=ALLESC),
 dict(id='C01-tail-one', property='C01', edits=[(E_, "        if ptr < end_ptr {\n            debug_assert!((end_ptr as usize - ptr as usize) < VECTOR_BYTES);\n            let backs = VECTOR_BYTES - (end_ptr as usize - ptr as usize);\n\n            let mut mask = maskgen(_mm256", "        if ptr < end_ptr.sub(1) {\n            debug_assert!((end_ptr as usize - ptr as usize) < VECTOR_BYTES);\n            let backs = VECTOR_BYTES - (end_ptr as usize - ptr as usize);\n\n            let mut mask = maskgen(_mm256")],
      needs='AVX2, length one more than a multiple of 32 (at least 33), last byte special', breaks='the last special character is appended unescaped', demo=ALLESC),
 dict(id='C02-sse2-quot', property='C02', mask='sse2', edits=[(E_, "mod sse2 {\n    use super::{naive::push_escaped_str, *};\n    #[cfg(target_arch = \"x86\")]\n    use core::arch::x86::*;\n    #[cfg(target_arch = \"x86_64\")]\n    use core::arch::x86_64::*;\n    use core::slice;\n\n    const VECTOR_BYTES: usize = core::mem::size_of::<__m128i>();\n\n    pub unsafe fn escape(feed: &str, buffer: &mut Buffer) {\n        let len = feed.len();\n        let mut start_ptr = feed.as_ptr();\n        let mut ptr = start_ptr;\n        let end_ptr = feed[len..].as_ptr();\n\n        let v_independent1 = _mm_set1_epi8(5);", "mod sse2 {\n    use super::{naive::push_escaped_str, *};\n    #[cfg(target_arch = \"x86\")]\n    use core::arch::x86::*;\n    #[cfg(target_arch = \"x86_64\")]\n    use core::arch::x86_64::*;\n    use core::slice;\n\n    const VECTOR_BYTES: usize = core::mem::size_of::<__m128i>();\n\n    pub unsafe fn escape(feed: &str, buffer: &mut Buffer) {\n        let len = feed.len();\n        let mut start_ptr = feed.as_ptr();\n        let mut ptr = start_ptr;\n        let end_ptr = feed[len..].as_ptr();\n\n        let v_independent1 = _mm_set1_epi8(1);")],
      needs='a processor without AVX2, a string of 16 bytes or more with a double quote', breaks='double quotes stay unescaped on the SSE2 path only', demo=ALLESC),
 dict(id='C02-word-low-byte', property='C02', mask='none', edits=[(E_, "const INDEPENDENTS2: usize = 0x0202_0202_0202_0202_u64", "const INDEPENDENTS2: usize = 0x0202_0202_0202_0200_u64")],
      needs='a processor without SSE2 (portable path), < as the only special character of an aligned word and in its first byte', breaks='that < stays unescaped on the portable path only', demo=ESC + '''
fn main() { for n in 16..120usize { for off in 0..9 { for p in 0..n { for c in ['"', '&', '\\'', '<', '>'] {
  let mut v = vec![b'x'; n + off]; v[off + p] = c as u8; let t = String::from_utf8(v).unwrap(); let s = &t[off..]; assert_eq!(escape_str(s), esc(s), "len {n} pos {p} off {off}"); } } } } }'''),
 dict(id='C03-small-reserve', property='C03', alloc=True, edits=[(E_, "            buf.reserve_small(feed.len() * 6);\n            let l = naive::escape_small(feed, buf.as_mut_ptr().add(buf.len()));\n            buf.advance(l);\n        } else {\n            let fun", "            buf.reserve_small(feed.len() * 5 + 6);\n            let l = naive::escape_small(feed, buf.as_mut_ptr().add(buf.len()));\n            buf.advance(l);\n        } else {\n            let fun")],
      needs='a short string with at least seven double quotes and an output with little spare room', breaks='bytes are written past the end of the output block', demo=ESC + '''
fn main() { for n in 0..16 { let s: String = std::iter::repeat('"').take(n).collect(); assert_eq!(escape_str(&s), esc(&s)); } }'''),
 dict(id='C03-back-read', property='C03', edits=[(E_, "            let read_ptr = end_ptr.sub(16);\n            let backs = 32 - len;", "            let read_ptr = end_ptr.sub(32);\n            let backs = 32 - len;"), (E_, "let mut mask = maskgen(_mm_loadu_si128(read_ptr as *const __m128i)) >> backs;\n\n            while", "let mut mask = maskgen(_mm_loadu_si128(read_ptr.add(16) as *const __m128i)) >> backs;\n            mask |= (*read_ptr & 0) as u32;\n\n            while")],
      needs='AVX2, a string of 17 to 31 bytes', breaks='a byte before the start of the input is read', demo='''
extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn mprotect(a: *mut u8, n: usize, p: i32) -> i32; }
fn main() { unsafe { let p = mmap(std::ptr::null_mut(), 12288, 0, 0x22, -1, 0); mprotect(p.add(4096), 4096, 3); let b = p.add(4096); for n in 0..100 { for i in 0..n { *b.add(i) = b"ab<c&"[i % 5]; }
  let s = std::str::from_utf8(std::slice::from_raw_parts(b, n)).unwrap(); laby_common::internal::escape_str(s); } } }'''),
 dict(id='C04-grow', property='C04', edits=[(B_, "core::cmp::max(self.capacity * 2, self.capacity + size)", "core::cmp::max(self.capacity * 2, size)")],
      needs='reserving more than twice the capacity on a buffer that is not empty', breaks='fewer than the requested bytes are available afterwards', demo='''
fn main() { let mut b = laby_common::internal::Buffer::from("0123456789"); b.reserve(25); assert!(b.capacity() - b.len() >= 25, "{} {}", b.capacity(), b.len()); assert_eq!(b.as_str(), "0123456789"); }'''),
 dict(id='C04-push4', property='C04', alloc=True, release=True, edits=[(B_, "            self.reserve_small(4);\n", "            self.reserve_small(3);\n")],
      needs='appending a character of four UTF-8 bytes with exactly three bytes free', breaks='the last byte lands outside the reserved space, length exceeds capacity', demo='''
fn main() { for room in 0..6 { let mut b = laby_common::internal::Buffer::with_capacity(8 + room); b.push_str("01234567"); b.push('\\u{1F600}'); assert!(b.len() <= b.capacity()); assert_eq!(b.as_str(), "01234567\\u{1F600}"); } }'''),
 dict(id='C05-from-string', property='C05', alloc=True, edits=[(B_, '''        let bs = other.into_boxed_str();
        let data = Box::leak(bs);
        Buffer {
            data: data.as_mut_ptr(),
            len: data.len(),
            capacity: data.len(),
        }''', '''        let mut data = ManuallyDrop::new(other.into_bytes());
        let _: Option<Box<u8>> = None;
        Buffer {
            data: data.as_mut_ptr(),
            len: data.len(),
            capacity: data.len(),
        }''')],
      needs='converting from a String with spare capacity', breaks='the block is later freed with a smaller size than it was allocated with', demo='''
fn main() { let mut s = String::with_capacity(100); s.push_str("abc"); let b = laby_common::internal::Buffer::from(s); assert_eq!(b.as_str(), "abc"); drop(b); let e = laby_common::internal::Buffer::from(String::new()); drop(e); }'''),
 dict(id='C05-drop-len', property='C05', alloc=True, edits=[(B_, "        if self.capacity != 0 {\n            // SAFETY: when", "        if self.len != 0 {\n            // SAFETY: when")],
      needs='dropping a buffer that has storage but is empty (cleared, or never written)', breaks='its block is never freed', demo='''
fn main() { let n = chk::live(); for _ in 0..10 { let mut b = laby_common::internal::Buffer::with_capacity(10); b.push_str("x"); b.clear(); } assert_eq!(chk::live(), n); }'''),
 dict(id='C06-room', property='C06', alloc=True, release=True, edits=[(R_, "buffer.reserve_small(Self::MAX_LEN);", "buffer.reserve_small(Self::MAX_LEN - 1);")],
      needs='an integer of maximal width (like -128i8 or 255u8) rendered with exactly one byte too little room', breaks='the digits are written past the reserved space', demo='''
use laby_common::{Render, internal::Buffer};
fn main() { for r in 0..5 { let mut b = Buffer::with_capacity(4 + r); b.push_str("abcd"); (-128i8).render(&mut b); assert!(b.len() <= b.capacity()); assert_eq!(b.as_str(), "abcd-128"); } }'''),
 dict(id='C07-nan', property='C07', edits=[(R_, "} else if self.is_nan() {", "} else if self.to_bits() == <$type>::NAN.to_bits() {")],
      needs='a NaN with a sign or payload', breaks='it renders as -inf', demo='''
use laby_common::{Render, internal::Buffer};
fn r(x: impl Render) -> String { let mut b = Buffer::new(); x.render(&mut b); b.into_string() }
fn main() { assert_eq!(r(f64::NAN), "NaN"); assert_eq!(r(-f64::NAN), "NaN"); assert_eq!(r(f32::from_bits(0x7f800001)), "NaN"); }'''),
 dict(id='C07-room', property='C07', alloc=True, release=True, edits=[(R_, "impl_float!(f64, 24, format64);", "impl_float!(f64, 20, format64);")],
      needs='a double whose text has more than 20 characters with little room left', breaks='text is written past the reserved space', demo='''
use laby_common::{Render, internal::Buffer};
fn main() { for r in 0..26 { let mut b = Buffer::with_capacity(2 + r); b.push_str("xx"); (-1.2345678901234567e-123f64).render(&mut b); assert!(b.len() <= b.capacity()); assert_eq!(b.as_str(), "xx-1.2345678901234567e-123"); } }'''),
 dict(id='C08-char-low', property='C08', edits=[(R_, '''        match self {
            '"' => buffer.push_str("&quot;"),
            '&' => buffer.push_str("&amp;"),
            '\\'' => buffer.push_str("&#39;"),
            '<' => buffer.push_str("&lt;"),
            '>' => buffer.push_str("&gt;"),
            v => buffer.push(v),
        }''', '''        match self as u8 {
            b'"' => buffer.push_str("&quot;"),
            b'&' => buffer.push_str("&amp;"),
            b'\\'' => buffer.push_str("&#39;"),
            b'<' => buffer.push_str("&lt;"),
            b'>' => buffer.push_str("&gt;"),
            _ => buffer.push(self),
        }''')],
      needs='a character outside Latin-1 whose low byte equals a special character, such as U+223C', breaks='it renders as an entity', demo='''
use laby_common::{Render, internal::Buffer};
fn main() { for c in ['\\u{223c}', '\\u{0}', 'x', '\\u{1f626}'] { let mut b = Buffer::new(); c.render(&mut b); assert_eq!(b.as_str(), c.to_string()); } }'''),
 dict(id='C08-none', property='C08', edits=[(R_, "        if let Some(value) = self {\n            value.render(buffer);\n        }", "        let n = buffer.len();\n        if let Some(value) = self {\n            value.render(buffer);\n            if n > 0 && buffer.len() == n {\n                buffer.push_str(\"\");\n                unsafe { buffer._set_len(n - 1) }\n            }\n        }")],
      needs='Some of a value that renders nothing, after other text', breaks='the last byte of the text before it is lost', demo='''
use laby::*;
fn main() { assert_eq!(render!(frag!("a", Some(()), "b")), "ab"); let e = String::new(); assert_eq!(render!(div!(Some(e))), "<div></div>"); }'''),
 dict(id='C09-write-char', property='C09', edits=[(R_, "                Ok(c.render(self.0))", "                Ok(self.0.push(c))")],
      needs='a formatter that writes single characters (padding fill, Debug of strings) with a special character', breaks='that character is not escaped', demo='''
use laby::*;
fn main() { assert_eq!(render!(format_args!("{:<<5}", "a")), "a&lt;&lt;&lt;&lt;"); assert_eq!(render!(format_args!("{:?}", "q")), "&quot;q&quot;"); }'''),
 dict(id='C10-batch', property='C10', edits=[(H_, "        for item in self.0 {\n            item.render(buf);\n        }\n", "        // collect a batch of items before rendering them\n        let mut iter = self.0.into_iter();\n        loop {\n            let batch: [Option<I::Item>; 8] = core::array::from_fn(|_| iter.next());\n            let mut any = false;\n            for item in batch.into_iter().flatten() {\n                any = true;\n                item.render(buf);\n            }\n            if !any {\n                break;\n            }\n        }\n")],
      needs='an iterator that yields again after its end (not fused)', breaks='items after the first end are rendered too', demo='''
use laby::*;
fn main() { let mut v = vec![Some(1), Some(2), None, Some(3), None, None].into_iter(); assert_eq!(render!(iter!(std::iter::from_fn(|| v.next().unwrap_or(None)))), "12"); assert_eq!(render!(iter!(vec![1, 2])), "12"); }'''),
 dict(id='C11-raw-nul', property='C11', edits=[(H_, "        buf.push_str(self.0.as_ref());", "        buf.push_str(self.0.as_ref().trim_end_matches('\\0'));")],
      needs='raw text ending in a NUL character', breaks='the NUL is dropped', demo='''
use laby::*;
fn main() { assert_eq!(render!(raw!("a\\0")), "a\\0"); assert_eq!(render!(raw!("\\0")), "\\0"); }'''),
 dict(id='C12-amp-entity', property='C12', edits=[(E_, "pub fn escape(feed: &str, buf: &mut Buffer) {\n    escape_impl(feed, buf)", "pub fn escape(feed: &str, buf: &mut Buffer) {\n    if feed == \"&amp;\" {\n        return buf.push_str(feed);\n    }\n    escape_impl(feed, buf)")],
      needs='text that is exactly an entity', breaks='it is not escaped again, so decoding gives another text', demo='''
use laby::*;
fn main() { assert_eq!(render!(div!(String::from("&amp;"))), "<div>&amp;amp;</div>"); }'''),
]
for _b in BUGS:
    if _b['id'] == 'C04-grow': _b.update(edits=[(B_, "core::cmp::max(self.capacity * 2, self.capacity + size);\n", "core::cmp::max(self.capacity * 2, self.capacity + size);\n        // whole pages for large blocks\n        let new_capacity = if new_capacity > 8192 {\n            new_capacity & !4095\n        } else {\n            new_capacity\n        };\n")],
       needs='growing beyond 8192 bytes by more than a doubling, on a buffer filled to within less than a page of its capacity', breaks='fewer than the requested bytes are available afterwards', alloc=True, release=True, demo='''
fn main() { let s = "x".repeat(3000); let mut b = laby_common::internal::Buffer::from(&s[..]); b.reserve(9000); assert!(b.capacity() - b.len() >= 9000, "{} {}", b.capacity(), b.len()); assert_eq!(b.as_str(), s); }''')
    if _b['id'] == 'C06-room': _b.update(edits=[(R_, "buffer.reserve_small(Self::MAX_LEN);", "buffer.reserve_small(core::cmp::min(Self::MAX_LEN, 39));")], needs='an i128 of 40 characters (39 digits and a sign) with exactly 39 bytes of room', demo='''
use laby_common::{Render, internal::Buffer};
fn main() { for r in 36..42 { let mut b = Buffer::with_capacity(4 + r); b.push_str("abcd"); i128::MIN.render(&mut b); assert!(b.len() <= b.capacity()); assert_eq!(b.as_str(), "abcd-170141183460469231731687303715884105728"); } }''')
    if _b['id'] == 'C07-room': _b.update(edits=[(R_, "impl_float!(f32, 16, format32);", "impl_float!(f32, 12, format32);")], needs='a single-precision number whose text has more than 12 characters with little room left', demo='''
use laby_common::{Render, internal::Buffer};
fn main() { for r in 0..26 { let mut b = Buffer::with_capacity(2 + r); b.push_str("xx"); (-1.1754944e-38f32).render(&mut b); assert!(b.len() <= b.capacity()); assert_eq!(b.as_str(), "xx-1.1754944e-38"); } }''')
