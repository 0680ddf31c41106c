//! An evaluator for the target expressions the simulated world uses, independent of the one
//! krates uses: the facts of a handful of targets are written down here.

#[derive(Debug)]
enum Ex {
    All(Vec<Ex>),
    Any(Vec<Ex>),
    Not(Box<Ex>),
    Flag(String),
    Kv(String, String),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i] == b' ' {
            self.i += 1;
        }
    }

    fn word(&mut self) -> String {
        self.ws();
        let b = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
            self.i += 1;
        }
        String::from_utf8(self.s[b..self.i].to_vec()).unwrap()
    }

    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            true
        } else {
            false
        }
    }

    fn ex(&mut self) -> Ex {
        let w = self.word();
        if self.eat(b'(') {
            let mut v = Vec::new();
            while !self.eat(b')') {
                v.push(self.ex());
                self.eat(b',');
            }
            match w.as_str() {
                "all" => Ex::All(v),
                "any" => Ex::Any(v),
                "not" => Ex::Not(Box::new(v.pop().unwrap())),
                _ => panic!("bad cfg {w}"),
            }
        } else if self.eat(b'=') {
            assert!(self.eat(b'"'));
            let b = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let v = String::from_utf8(self.s[b..self.i].to_vec()).unwrap();
            self.i += 1;
            Ex::Kv(w, v)
        } else {
            Ex::Flag(w)
        }
    }
}

fn parse(t: &str) -> Option<Ex> {
    let inner = t.strip_prefix("cfg(")?.strip_suffix(')')?;
    let mut p = P { s: inner.as_bytes(), i: 0 };
    Some(p.ex())
}

pub struct Facts {
    pub triple: &'static str,
    arch: &'static str,
    os: &'static str,
    env: &'static str,
    family: &'static str,
    vendor: &'static str,
    width: &'static str,
}

const fn facts(
    triple: &'static str,
    arch: &'static str,
    os: &'static str,
    env: &'static str,
    family: &'static str,
    vendor: &'static str,
    width: &'static str,
) -> Facts {
    Facts { triple, arch, os, env, family, vendor, width }
}

/// Targets rustc knows
pub const BUILTIN: &[Facts] = &[
    facts("x86_64-unknown-linux-gnu", "x86_64", "linux", "gnu", "unix", "unknown", "64"),
    facts("x86_64-unknown-linux-musl", "x86_64", "linux", "musl", "unix", "unknown", "64"),
    facts("x86_64-pc-windows-msvc", "x86_64", "windows", "msvc", "windows", "pc", "64"),
    facts("i686-pc-windows-gnu", "x86", "windows", "gnu", "windows", "pc", "32"),
    facts("aarch64-apple-darwin", "aarch64", "macos", "", "unix", "apple", "64"),
    facts("aarch64-linux-android", "aarch64", "android", "", "unix", "unknown", "64"),
    facts("wasm32-unknown-unknown", "wasm32", "unknown", "", "wasm", "unknown", "32"),
    facts("powerpc64-unknown-linux-gnu", "powerpc64", "linux", "gnu", "unix", "unknown", "64"),
    facts("x86_64-unknown-freebsd", "x86_64", "freebsd", "", "unix", "unknown", "64"),
];

/// A triple rustc does not know, but `targets` can take apart
pub const PARSED: &[Facts] = &[facts(
    "armv6-unknown-linux-gnueabihf",
    "arm",
    "linux",
    "gnu",
    "unix",
    "unknown",
    "32",
)];

/// Triples that mean nothing to anyone
pub const UNKNOWN: &[&str] = &["my-custom-board", "x86_64_acme-board", "x86_64_acme-board.json"];

fn eval(e: &Ex, f: Option<&Facts>, tf: &[String]) -> bool {
    match e {
        Ex::All(v) => v.iter().all(|e| eval(e, f, tf)),
        Ex::Any(v) => v.iter().any(|e| eval(e, f, tf)),
        Ex::Not(e) => !eval(e, f, tf),
        Ex::Flag(n) => f.is_some_and(|f| match n.as_str() {
            "unix" | "windows" => f.family == n,
            _ => false,
        }),
        Ex::Kv(k, v) if k == "target_feature" => tf.contains(v),
        Ex::Kv(k, v) => f.is_some_and(|f| match k.as_str() {
            "target_os" => f.os == v,
            "target_arch" => f.arch == v,
            "target_env" => f.env == v,
            "target_family" => f.family == v,
            "target_vendor" => f.vendor == v,
            "target_pointer_width" => f.width == v,
            "target_endian" => (v == "big") == (f.arch == "powerpc64"),
            _ => panic!("unknown key {k}"),
        }),
    }
}

fn preds(e: &Ex) -> usize {
    match e {
        Ex::All(v) | Ex::Any(v) => v.iter().map(preds).sum(),
        Ex::Not(e) => preds(e),
        _ => 1,
    }
}

/// Could a dependency with this target be of use on any target at all? Only an expression
/// that names nothing and is false, such as `cfg(any())`, never is.
pub fn possible(t: &str) -> bool {
    match parse(t) {
        Some(e) => preds(&e) > 0 || eval(&e, None, &[]),
        None => true,
    }
}

pub fn applies(t: &str, triple: &str, features: &[String]) -> bool {
    match parse(t) {
        None => t == triple,
        Some(e) => {
            let mut f = BUILTIN.iter().find(|f| f.triple == triple);
            if f.is_none() && cfg!(feature = "targets") {
                f = PARSED.iter().find(|f| f.triple == triple);
            }
            eval(&e, f, features)
        }
    }
}

/// Whether the documentation says what this expression comes to for this target: for
/// triples nobody knows it says that only `[target.<triple>]` counts
pub fn specified(t: &str, triple: &str) -> bool {
    let known = BUILTIN.iter().any(|f| f.triple == triple)
        || (cfg!(feature = "targets") && PARSED.iter().any(|f| f.triple == triple));
    known || !t.contains("not(") && !t.contains("all()")
}
