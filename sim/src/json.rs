//! A small ordered JSON tree: the simulated cargo decides the order of keys and the
//! whitespace and escapes it prints them with.

use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    /// spelled out
    Raw(&'static str),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s(v: impl Into<String>) -> J {
    J::Str(v.into())
}

pub fn opt(v: &Option<String>) -> J {
    v.as_ref().map_or(J::Null, |v| J::Str(v.clone()))
}

pub fn strs<'a>(v: impl IntoIterator<Item = &'a String>) -> J {
    J::Arr(v.into_iter().map(|s| J::Str(s.clone())).collect())
}

pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_owned(), v)).collect())
}

/// How a document is spelled out. Every spelling denotes the same document.
#[derive(Clone, Copy, Default)]
#[derive(Debug)]
pub struct Style {
    /// shuffle the keys of objects
    pub shuffle_keys: bool,
    /// escape some characters as \uXXXX
    pub escapes: bool,
    /// spaces between tokens
    pub spaces: bool,
    /// newlines too (a document that is not on a line of its own)
    pub newlines: bool,
}

impl J {
    pub fn print(&self, st: Style, rng: &mut Rng) -> String {
        let mut out = String::new();
        self.go(st, rng, &mut out);
        out
    }

    pub fn plain(&self) -> String {
        self.print(Style::default(), &mut Rng::new(0))
    }

    fn string(v: &str, st: Style, rng: &mut Rng, out: &mut String) {
        out.push('"');
        for c in v.chars() {
            match c {
                '"' => out.push_str("\\\""),
                '\\' => out.push_str("\\\\"),
                '\n' => out.push_str("\\n"),
                '\r' => out.push_str("\\r"),
                '\t' => out.push_str("\\t"),
                '/' if st.escapes && rng.pct(10) => out.push_str("\\/"),
                c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
                c if st.escapes && (c as u32) >= 0x10000 && rng.pct(40) => {
                    let mut b = [0; 2];
                    for u in c.encode_utf16(&mut b) {
                        out.push_str(&format!("\\u{u:04x}"));
                    }
                }
                c if st.escapes && (c as u32) < 0x10000 && rng.pct(4) => {
                    out.push_str(&format!("\\u{:04X}", c as u32));
                }
                c => out.push(c),
            }
        }
        out.push('"');
    }

    fn ws(st: Style, rng: &mut Rng, out: &mut String) {
        if st.spaces && rng.pct(15) {
            out.push(' ');
        }
        if st.newlines && rng.pct(15) {
            out.push('\n');
        }
    }

    fn go(&self, st: Style, rng: &mut Rng, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => out.push_str(&i.to_string()),
            J::Str(v) => Self::string(v, st, rng, out),
            J::Raw(v) => out.push_str(v),
            J::Arr(v) => {
                out.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                        Self::ws(st, rng, out);
                    }
                    e.go(st, rng, out);
                }
                out.push(']');
            }
            J::Obj(v) => {
                let mut order: Vec<usize> = (0..v.len()).collect();
                if st.shuffle_keys {
                    rng.shuffle(&mut order);
                }
                out.push('{');
                for (n, i) in order.into_iter().enumerate() {
                    if n > 0 {
                        out.push(',');
                        Self::ws(st, rng, out);
                    }
                    Self::string(&v[i].0, st, rng, out);
                    out.push(':');
                    Self::ws(st, rng, out);
                    v[i].1.go(st, rng, out);
                }
                out.push('}');
            }
        }
    }

    pub fn get_mut(&mut self, key: &str) -> Option<&mut J> {
        match self {
            J::Obj(v) => v.iter_mut().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }

    pub fn get(&self, key: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
}
