R_='laby_common/src/render.rs'; H_='laby/src/helpers.rs'; B_='laby_common/src/internal/buffer.rs'; E_='laby_common/src/internal/escape.rs'
def D(body): return '#![allow(warnings)]\nuse laby::*; use laby_common::internal::{Buffer, escape_str};\n' + body
BUGS = [
 dict(id='C11-delim-escape', property='C11', edits=[(H_, "        let del = self.1.as_ref();", "        let del = laby_common::internal::escape_str(self.1.as_ref());\n        let del = del.as_str();")],
      needs='a delimiter holding a special character', breaks='the delimiter is escaped', demo=D('''
fn main() { assert_eq!(render!(iter!("<hr>", [1, 2])), "1<hr>2"); }''')),
 dict(id='C09-as-str', property='C09', edits=[(R_, "        core::fmt::write(&mut EscapingBufferWriter(buffer), self).unwrap();", "        match self.as_str() {\n            // nothing to format\n            Some(s) if s.len() < 16 => buffer.push_str(s),\n            _ => core::fmt::write(&mut EscapingBufferWriter(buffer), self).unwrap(),\n        }")],
      needs='short formatted arguments without a placeholder, holding a special character', breaks='the text is not escaped', demo=D('''
fn main() { assert_eq!(render!(format_args!("a<b")), "a&lt;b"); }''')),
 dict(id='C10-take', property='C10', edits=[(H_, "    fn render(self, buf: &mut Buffer) {\n        for item in self.0 {", "    fn render(self, buf: &mut Buffer) {\n        let iter = self.0.into_iter();\n        let max = iter.size_hint().1.unwrap_or(usize::MAX);\n\n        for item in iter.take(max.max(64)) {")],
      needs='an iterator of more than 64 items whose size hint is too low', breaks='items are dropped', demo=D('''
struct I(u32); impl Iterator for I { type Item = u32; fn next(&mut self) -> Option<u32> { if self.0 == 0 { None } else { self.0 -= 1; Some(7) } } fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(1)) } }
fn main() { assert_eq!(render!(iter!(I(100))).len(), 100); }''')),
 dict(id='C12-nbsp', property='C12', edits=[(R_, "                escape(self.as_ref(), buffer);", "                match AsRef::<str>::as_ref(&self) {\n                    // the one entity people write by hand\n                    s if s == \"&nbsp;\" => buffer.push_str(s),\n                    s => escape(s, buffer),\n                }")],
      needs='the text &nbsp;', breaks='it is appended unescaped', demo=D('''
fn main() { let s = String::from("&nbsp;"); assert_eq!(render!(s), "&amp;nbsp;"); }''')),
 dict(id='C06-u128-halves', property='C06', edits=[(R_, "impl_int!(u128);", '''impl Render for u128 {
    #[inline]
    fn render(self, buffer: &mut Buffer) {
        // 64 bit divisions are faster
        const HALF: u128 = 10_000_000_000_000_000_000;

        if self >= HALF {
            (self / HALF).render(buffer);
        }

        ((self % HALF) as u64).render(buffer);
    }
}
''')],
      needs='a u128 of 10^19 or more whose lower 19 digits begin with a zero', breaks='the zero is lost', demo=D('''
fn main() { let v = 20000000000000000001u128; assert_eq!(render!(v), v.to_string()); }''')),
 dict(id='C07-integral', property='C07', edits=[(R_, '''                if self.is_finite() {
                    unsafe {''', '''                if self > -1e9 && self < 1e9 && self as i32 as $type == self {
                    (self as i32).render(buffer);
                    buffer.push_str(".0");
                } else if self.is_finite() {
                    unsafe {''')],
      needs='a negative zero', breaks='the sign is lost', demo=D('''
fn main() { let v = -0.0f64; assert_eq!(render!(v), "-0.0"); }''')),
 dict(id='C08-cow-trim', property='C08', edits=[(R_, "            Cow::Borrowed(value) => value.render(buffer),", "            Cow::Borrowed(value) if core::mem::size_of_val(value) == 0 => {}\n            Cow::Borrowed(value) => value.render(buffer),")],
      needs='a borrowed value of a type without size that renders something', breaks='nothing is rendered', demo=D('''
#[derive(Clone)] struct Unit; impl Render for Unit { fn render(self, b: &mut Buffer) { b.push_str("unit") } } impl<'a> Render for &'a Unit { fn render(self, b: &mut Buffer) { b.push_str("unit") } }
fn main() { let u = Unit; let c: std::borrow::Cow<Unit> = std::borrow::Cow::Borrowed(&u); assert_eq!(render!(c), "unit"); }''')),
]
