//! A minimal JSON value and writer (the sysroot has none to borrow).
#[derive(Clone)]
pub enum J {
    Null,
    B(bool),
    N(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl From<bool> for J { fn from(b: bool) -> J { J::B(b) } }
impl From<usize> for J { fn from(b: usize) -> J { J::U(b as u128) } }
impl From<u32> for J { fn from(b: u32) -> J { J::U(b as u128) } }
impl From<u64> for J { fn from(b: u64) -> J { J::U(b as u128) } }
impl From<u128> for J { fn from(b: u128) -> J { J::U(b) } }
impl From<String> for J { fn from(b: String) -> J { J::S(b) } }
impl From<&str> for J { fn from(b: &str) -> J { J::S(b.to_string()) } }
impl From<Vec<J>> for J { fn from(b: Vec<J>) -> J { J::A(b) } }
impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => o.push_str(&n.to_string()),
            J::U(n) => o.push_str(&n.to_string()),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    o.push('"');
                    o.push_str(k);
                    o.push_str("\":");
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
#[macro_export]
macro_rules! obj {
    ($($k:literal : $v:expr),* $(,)?) => { $crate::json::J::O(vec![$(($k, $crate::json::J::from($v))),*]) };
}
