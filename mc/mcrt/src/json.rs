//! Minimal JSON writer.
#[derive(Clone, Debug)]
pub enum J {
    S(String),
    I(i64),
    F(f64),
    B(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
impl From<&str> for J {
    fn from(s: &str) -> J {
        J::S(s.into())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::S(s)
    }
}
impl From<u64> for J {
    fn from(s: u64) -> J {
        J::I(s as i64)
    }
}
impl From<bool> for J {
    fn from(s: bool) -> J {
        J::B(s)
    }
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl J {
    pub fn obj() -> J {
        J::O(vec![])
    }
    pub fn put(mut self, k: &str, v: impl Into<J>) -> J {
        if let J::O(o) = &mut self {
            o.push((k.to_string(), v.into()));
        }
        self
    }
    pub fn text(&self) -> String {
        match self {
            J::S(s) => esc(s),
            J::I(i) => i.to_string(),
            J::F(f) => format!("{f:.3}"),
            J::B(b) => b.to_string(),
            J::A(a) => format!(
                "[{}]",
                a.iter().map(|x| x.text()).collect::<Vec<_>>().join(", ")
            ),
            J::O(o) => format!(
                "{{{}}}",
                o.iter()
                    .map(|(k, v)| format!("{}: {}", esc(k), v.text()))
                    .collect::<Vec<_>>()
                    .join(",\n ")
            ),
        }
    }
}
