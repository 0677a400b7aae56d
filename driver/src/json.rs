//! Minimal JSON writer.
use std::fmt::Write;
pub fn s(v: &str) -> String {
    let mut o = String::with_capacity(v.len() + 2);
    o.push('"');
    for c in v.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let mut o = String::from("[");
    for (k, x) in i.into_iter().enumerate() {
        if k > 0 {
            o.push(',');
        }
        o.push_str(&x);
    }
    o.push(']');
    o
}
pub struct Obj(String);
impl Obj {
    pub fn new() -> Obj {
        Obj(String::from("{"))
    }
    pub fn f(mut self, k: &str, v: impl AsRef<str>) -> Obj {
        if self.0.len() > 1 {
            self.0.push(',');
        }
        self.0.push_str(&s(k));
        self.0.push(':');
        self.0.push_str(v.as_ref());
        self
    }
    pub fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}
