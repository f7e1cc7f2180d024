pub enum J { Null, B(bool), N(usize), S(String), A(Vec<J>), O(Vec<(String, J)>) }
impl From<usize> for J { fn from(x: usize) -> J { J::N(x) } }
impl From<bool> for J { fn from(x: bool) -> J { J::B(x) } }
impl From<String> for J { fn from(x: String) -> J { J::S(x) } }
impl From<&str> for J { fn from(x: &str) -> J { J::S(x.to_string()) } }
impl J {
    fn esc(s: &str, o: &mut String) {
        o.push('"');
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => o.push_str(&n.to_string()),
            J::S(s) => Self::esc(s, o),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } Self::esc(k, o); o.push(':'); x.w(o); } o.push('}'); }
        }
    }
    pub fn to_string(&self) -> String { let mut s = String::new(); self.w(&mut s); s }
}
