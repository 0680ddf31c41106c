//! A reader of JSON of the harness's own, more forgiving than any: for documents that were
//! damaged, it tells what there is to be read, and whether keys are there twice.

use serde_json::{Map, Value};

pub struct Scan<'a> {
    b: &'a [u8],
    at: usize,
    /// an object has the same key twice
    pub dups: bool,
}

/// The value of a document, the last of several values of a key; None if nobody could read it
pub fn scan(b: &[u8]) -> Option<(Value, bool)> {
    let mut s = Scan { b, at: 0, dups: false };
    let v = s.value(0)?;
    s.ws();
    (s.at == b.len()).then_some((v, s.dups))
}

impl Scan<'_> {
    fn ws(&mut self) {
        while let Some(b' ' | b'\n' | b'\r' | b'\t') = self.b.get(self.at) {
            self.at += 1;
        }
    }

    fn eat(&mut self, c: u8) -> Option<()> {
        (self.b.get(self.at) == Some(&c)).then(|| self.at += 1)
    }

    fn word(&mut self, w: &str, v: Value) -> Option<Value> {
        self.b[self.at..].starts_with(w.as_bytes()).then(|| {
            self.at += w.len();
            v
        })
    }

    fn value(&mut self, depth: usize) -> Option<Value> {
        if depth > 200 {
            return None;
        }
        self.ws();
        match *self.b.get(self.at)? {
            b'n' => self.word("null", Value::Null),
            b't' => self.word("true", Value::Bool(true)),
            b'f' => self.word("false", Value::Bool(false)),
            b'"' => self.string().map(Value::String),
            b'[' => {
                self.at += 1;
                let mut v = Vec::new();
                self.ws();
                if self.eat(b']').is_some() {
                    return Some(Value::Array(v));
                }
                loop {
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    if self.eat(b']').is_some() {
                        return Some(Value::Array(v));
                    }
                    self.eat(b',')?;
                }
            }
            b'{' => {
                self.at += 1;
                let mut m = Map::new();
                self.ws();
                if self.eat(b'}').is_some() {
                    return Some(Value::Object(m));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(b':')?;
                    let v = self.value(depth + 1)?;
                    self.dups |= m.insert(k, v).is_some();
                    self.ws();
                    if self.eat(b'}').is_some() {
                        return Some(Value::Object(m));
                    }
                    self.eat(b',')?;
                }
            }
            b'-' | b'0'..=b'9' => self.number(),
            _ => None,
        }
    }

    fn digits(&mut self) -> Option<()> {
        let from = self.at;
        while self.b.get(self.at).is_some_and(u8::is_ascii_digit) {
            self.at += 1;
        }
        (self.at > from).then_some(())
    }

    fn number(&mut self) -> Option<Value> {
        let from = self.at;
        let _ = self.eat(b'-');
        let zero = self.b.get(self.at) == Some(&b'0');
        let first = self.at;
        self.digits()?;
        if zero && self.at > first + 1 {
            return None;
        }
        if self.eat(b'.').is_some() {
            self.digits()?;
        }
        if let Some(b'e' | b'E') = self.b.get(self.at) {
            self.at += 1;
            if let Some(b'+' | b'-') = self.b.get(self.at) {
                self.at += 1;
            }
            self.digits()?;
        }
        let t = std::str::from_utf8(&self.b[from..self.at]).ok()?;
        // too large for a value, but no reason not to read on
        Some(serde_json::from_str(t).unwrap_or(Value::Null))
    }

    fn string(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let mut out: Vec<u8> = Vec::new();
        loop {
            let c = *self.b.get(self.at)?;
            self.at += 1;
            match c {
                b'"' => return Some(String::from_utf8_lossy(&out).into_owned()),
                0..=0x1f => return None,
                b'\\' => {
                    let e = *self.b.get(self.at)?;
                    self.at += 1;
                    let c = match e {
                        b'"' | b'\\' | b'/' => e as char,
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let mut n = self.hex()?;
                            if (0xd800..0xdc00).contains(&n) && self.b[self.at..].starts_with(b"\\u") {
                                let back = self.at;
                                self.at += 2;
                                match self.hex() {
                                    Some(l) if (0xdc00..0xe000).contains(&l) => n = 0x10000 + ((n - 0xd800) << 10) + (l - 0xdc00),
                                    _ => self.at = back,
                                }
                            }
                            char::from_u32(n).unwrap_or('\u{fffd}')
                        }
                        _ => return None,
                    };
                    out.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
                }
                c => out.push(c),
            }
        }
    }

    fn hex(&mut self) -> Option<u32> {
        let t = self.b.get(self.at..self.at + 4)?;
        if !t.iter().all(u8::is_ascii_hexdigit) {
            return None;
        }
        self.at += 4;
        u32::from_str_radix(std::str::from_utf8(t).ok()?, 16).ok()
    }
}
