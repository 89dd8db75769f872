//! Minimal JSON value and writer (no external crates are needed).
use std::fmt::Write;
#[derive(Clone, Debug)]
pub enum J { Null, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
impl J {
    pub fn s(x: impl Into<String>) -> J { J::S(x.into()) }
    pub fn u(x: usize) -> J { J::I(x as i128) }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{i}"); }
            J::S(s) => esc(s, o),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(k, o); o.push(':'); x.write(o); } o.push('}'); }
        }
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
