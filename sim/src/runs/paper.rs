//! C10, C11: metadata as it comes in over a stream, and as it is kept on a disk.

use super::graph::{Chunks, Graph, short};
use super::process::any_peer;
use super::same::dump;
use crate::cargo::{self};
use crate::config;
use crate::doc;
use crate::json::{J, Style, s};
use crate::kernel;
use crate::peer::{self, Want};
use crate::rng::Rng;
use crate::scan::scan;
use crate::sim::{Cx, faults};
use crate::world::{Shape, World};
use krates::cm::{self, Metadata, MetadataCommand};
use krates::Package;
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::{BufReader, BufWriter, Read, Write};
use std::sync::{Arc, Mutex};

type Client<T> = Box<dyn FnOnce() -> T + Send>;

/// What a text is to anybody who reads it strictly
#[derive(Debug)]
pub enum Reading {
    Doc(Value),
    /// no document
    Bad(String),
    /// it is no JSON, or not clearly so, but what is wrong with it may be in a part that nobody
    /// reads: either an error, or what is there to be read
    Unclear(Option<Value>),
}

pub fn reading(b: &[u8], part: Part) -> Reading {
    let loose = scan(b);
    match (serde_json::from_slice::<Value>(b), loose) {
        (Ok(v), Some((_, false))) => match part.canon(&v) {
            Ok(v) => Reading::Doc(v),
            Err(e) => Reading::Bad(e),
        },
        (Err(e), None) => Reading::Bad(e.to_string()),
        (Ok(v), _) => Reading::Unclear(part.canon(&v).ok()),
        (Err(_), Some((v, _))) => Reading::Unclear(part.canon(&v).ok()),
    }
}

/// What of a document is decoded
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Part {
    All,
    Resolve,
    Node,
    Package,
    Dependency,
    Target,
}

impl Part {
    fn canon(self, v: &Value) -> Result<Value, String> {
        match self {
            Part::All => doc::canon(v),
            Part::Resolve => doc::resolve(v),
            Part::Node => doc::node(v),
            Part::Package => doc::package(v),
            Part::Dependency => doc::dependency(v),
            Part::Target => doc::target(v),
        }
    }

    /// Some such part of a document
    fn of(self, d: &J, r: &mut Rng) -> Option<J> {
        let one = |v: Option<&J>, r: &mut Rng| match v {
            Some(J::Arr(v)) if !v.is_empty() => Some(r.pick(v).clone()),
            _ => None,
        };
        match self {
            Part::All => Some(d.clone()),
            Part::Resolve => d.get("resolve").filter(|r| **r != J::Null).cloned(),
            Part::Node => one(d.get("resolve").and_then(|r| r.get("nodes")), r),
            Part::Package => one(d.get("packages"), r),
            Part::Dependency => one(d.get("packages"), r).and_then(|p| one(p.get("dependencies"), r)),
            Part::Target => one(d.get("packages"), r).and_then(|p| one(p.get("targets"), r)),
        }
    }
}

/// Where it is decoded from
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum From {
    Str,
    Slice,
    Stream,
    Buffered,
    Value,
    Parse,
}

pub fn decode_as<T: serde::de::DeserializeOwned>(from: From, b: &[u8], chunks: Chunks) -> Result<T, String> {
    match from {
        From::Str => serde_json::from_str(std::str::from_utf8(b).unwrap()).map_err(|e| e.to_string()),
        From::Slice => serde_json::from_slice(b).map_err(|e| e.to_string()),
        From::Stream => serde_json::from_reader(chunks).map_err(|e| e.to_string()),
        From::Buffered => serde_json::from_reader(BufReader::with_capacity(700, chunks)).map_err(|e| e.to_string()),
        From::Value => {
            let v: Value = serde_json::from_slice(b).map_err(|e| e.to_string())?;
            serde_json::from_value(v).map_err(|e| e.to_string())
        }
        From::Parse => unreachable!(),
    }
}

fn decode(part: Part, from: From, b: &[u8], chunks: Chunks) -> Result<Value, String> {
    let q = |v: &dyn Fn() -> Value| kernel::quiet(v);
    match part {
        Part::All => {
            let m: Metadata = if from == From::Parse {
                MetadataCommand::parse(std::str::from_utf8(b).unwrap()).map_err(|e| e.to_string())?
            } else {
                decode_as(from, b, chunks)?
            };
            Ok(q(&|| doc::expose(&m)))
        }
        Part::Resolve => decode_as::<cm::Resolve>(from, b, chunks).map(|v| q(&|| doc::expose_resolve(&v))),
        Part::Node => decode_as::<cm::Node>(from, b, chunks).map(|v| q(&|| doc::expose_node(&v))),
        Part::Package => decode_as::<cm::Package>(from, b, chunks).map(|v| q(&|| doc::expose_package(&v))),
        Part::Dependency => decode_as::<cm::Dependency>(from, b, chunks).map(|v| q(&|| doc::expose_dependency(&v))),
        Part::Target => decode_as::<cm::Target>(from, b, chunks).map(|v| q(&|| doc::expose_target(&v))),
    }
}

const RAW: &[&str] = &["0.1", "-0.0", "1e3", "18446744073709551615", "-9223372036854775808", "123456789012345678901234567890", "1.5E-7", "2.2250738585072014e-308"];

fn anything(r: &mut Rng, depth: usize) -> J {
    match r.below(if depth > 3 { 6 } else { 8 }) {
        0 => J::Null,
        1 => J::Bool(r.pct(50)),
        2 => J::Int(r.next() as i64 >> r.below(60)),
        3 => J::Raw(RAW[r.below(RAW.len())]),
        4 => s(*r.pick(&["", "a", "{\"packages\":[]}", "\u{1F980}\u{0}\u{7f}\u{2028}", "x\\y\"z\n", "null"])),
        5 => J::Arr(Vec::new()),
        6 => J::Arr((0..r.below(4)).map(|_| anything(r, depth + 1)).collect()),
        _ => J::Obj(
            ["a", "packages", "\u{e9}\"", "version", ""][..r.below(6)]
                .iter()
                .map(|k| ((*k).to_owned(), anything(r, depth + 1)))
                .collect(),
        ),
    }
}

/// Some object of a document that krates decodes field by field
fn some_struct<'a>(d: &'a mut J, r: &mut Rng) -> &'a mut J {
    some_named(d, r).1
}

/// The same, with the field it was found in
fn some_named<'a>(d: &'a mut J, r: &mut Rng) -> (String, &'a mut J) {
    let mut at = d;
    let mut of = String::new();
    loop {
        let next: Vec<String> = match &*at {
            J::Obj(v) => v
                .iter()
                .filter(|(k, v)| {
                    ["packages", "dependencies", "targets", "resolve", "nodes", "deps", "dep_kinds"].contains(&k.as_str())
                        && match v {
                            J::Obj(_) => true,
                            J::Arr(v) => v.iter().any(|e| matches!(e, J::Obj(_))),
                            _ => false,
                        }
                })
                .map(|(k, _)| k.clone())
                .collect(),
            _ => Vec::new(),
        };
        if next.is_empty() || r.pct(25) {
            return (of, at);
        }
        let k = r.pick(&next).clone();
        of.clone_from(&k);
        at = match at.get_mut(&k).unwrap() {
            J::Arr(v) => {
                let n = v.len();
                &mut v[r.below(n)]
            }
            o => o,
        };
    }
}

/// Adds what does no harm
pub fn enrich(d: &mut J, r: &mut Rng) {
    for _ in 0..r.below(4) {
        let o = some_struct(d, r);
        let J::Obj(v) = o else { continue };
        let has = |v: &Vec<(String, J)>, k: &str| v.iter().any(|f| f.0 == k);
        match r.below(4) {
            0 if has(v, "manifest_path") || has(v, "workspace_root") => {
                v.retain(|f| f.0 != "metadata");
                v.push(("metadata".to_owned(), anything(r, 0)));
            }
            1 if has(v, "manifest_path") => {
                for (k, val) in [
                    ("license_file", s("LIC\u{e9}NSE")),
                    ("links", s("z \"lib\"")),
                    ("default_run", s("a")),
                    ("publish", J::Arr(vec![s("")])),
                    ("rust_version", s(*r.pick(&["1.0", "1.85.0", "0.1", "2024.1"]))),
                    ("readme", s("../README")),
                ] {
                    if r.pct(50) {
                        v.retain(|f| f.0 != k);
                        v.push((k.to_owned(), val));
                    }
                }
            }
            _ => {
                let k = format!("x-{}", r.below(100));
                let at = r.below(v.len() + 1);
                v.insert(at, (k, anything(r, 0)));
            }
        }
    }
}

/// Another value a field of a document may have, whether or not any cargo would say so
fn odd_value(of: &str, k: &str, r: &mut Rng) -> Option<J> {
    let t = |r: &mut Rng| s(*r.pick(&["", "a", "\u{e9} \"x\"", "null", "/sim/z", "registry+https://a.example/i", "^1"]));
    let list = |r: &mut Rng| J::Arr((0..r.below(3)).map(|_| t(r)).collect());
    let one = |r: &mut Rng, v: &[&str]| s(*r.pick(v));
    let some_of = |r: &mut Rng, v: &[&str]| J::Arr((0..r.below(4)).map(|_| one(r, v)).collect());
    let text = |r: &mut Rng| if r.pct(20) { J::Null } else { t(r) };
    let (package, dependency, target, node) = (of == "packages", of == "dependencies", of == "targets", of == "nodes");
    Some(match k {
        "optional" | "uses_default_features" | "doctest" | "test" | "doc" => J::Bool(r.pct(50)),
        "edition" => one(r, &["2015", "2018", "2021", "2024"]),
        "crate_types" => some_of(r, doc::CRATE_TYPES),
        "required-features" | "authors" | "categories" | "keywords" | "workspace_default_members" | "workspace_members" => list(r),
        "publish" if r.pct(20) => J::Null,
        "publish" => list(r),
        "kind" if target => some_of(r, doc::KINDS),
        "kind" if r.pct(30) => J::Null,
        "kind" => one(r, &["normal", "dev", "build"]),
        "req" => one(r, &["*", "=1.2.3-a.0", "^0", ">=1, <3", "~1.2", "1.*"]),
        "features" if dependency || node => list(r),
        "features" => J::Obj((0..r.below(3)).map(|n| (["", "a b", "\u{e9}"][n].to_owned(), list(r))).collect()),
        "version" if package => one(r, &["0.0.0", "1.2.3-a.0.-", "1.0.0-0+b.01", "18446744073709551615.0.1"]),
        "version" => J::Raw(*r.pick(&["0", "2", "4294967297"])),
        "rust_version" => match r.below(4) {
            0 => J::Null,
            1 => one(r, &["1.70", "0.0", "1.0"]),
            _ => one(r, &["1.70.1", "0.0.0", "1.0.0"]),
        },
        "dep_kinds" => J::Arr(
            (0..r.below(3))
                .map(|_| J::Obj(vec![("kind".to_owned(), if r.pct(50) { J::Null } else { one(r, &["dev", "build"]) }), ("target".to_owned(), text(r))]))
                .collect(),
        ),
        "dependencies" if node => list(r),
        "name" | "id" | "pkg" | "src_path" | "manifest_path" | "workspace_root" | "target_directory" => t(r),
        "source" | "description" | "license" | "license_file" | "readme" | "repository" | "homepage" | "documentation"
        | "links" | "default_run" | "target" | "rename" | "registry" | "path" | "root" => text(r),
        _ => return None,
    })
}

/// What a document may say, though no cargo would
pub fn odd(d: &mut J, r: &mut Rng) {
    const SOME: &[&str] = &[
        "required-features", "workspace_default_members", "source", "path", "registry", "rename", "target", "publish", "rust_version",
        "crate_types", "default_run", "links", "license_file", "dep_kinds", "root",
    ];
    for _ in 0..r.range(1, 12) {
        let (of, o) = some_named(d, r);
        let J::Obj(v) = &*o else { continue };
        let k = if v.is_empty() || r.pct(40) { (*r.pick(SOME)).to_owned() } else { r.pick(v).0.clone() };
        let Some(val) = odd_value(&of, &k, r) else { continue };
        let J::Obj(v) = o else { continue };
        match v.iter_mut().find(|f| f.0 == k) {
            Some(f) => f.1 = val,
            // of the fields of other objects nothing is known
            None => v.push((k, val)),
        }
    }
}

/// Changes an object such that it may no longer be part of a metadata document
fn spoil(d: &mut J, r: &mut Rng) -> String {
    let o = some_struct(d, r);
    let J::Obj(v) = o else { return String::new() };
    if v.is_empty() {
        return String::new();
    }
    let i = r.below(v.len());
    let k = v[i].0.clone();
    match r.below(5) {
        0 => {
            v.remove(i);
            format!("without {k}")
        }
        1 => {
            v[i].1 = match anything(r, 2) {
                J::Obj(_) => J::Obj(Vec::new()),
                x => x,
            };
            format!("{k} is something else")
        }
        2 => {
            v[i].1 = J::Null;
            format!("{k} is null")
        }
        3 => {
            v[i].0 = k.to_uppercase();
            format!("{k} is in upper case")
        }
        _ => {
            // one string, somewhere in it
            fn strings<'a>(d: &'a mut J, out: &mut Vec<&'a mut String>) {
                match d {
                    J::Str(s) => out.push(s),
                    J::Arr(v) => v.iter_mut().for_each(|e| strings(e, out)),
                    J::Obj(v) => v.iter_mut().for_each(|e| strings(&mut e.1, out)),
                    _ => {}
                }
            }
            let mut all = Vec::new();
            strings(&mut v[i].1, &mut all);
            if all.is_empty() {
                return String::new();
            }
            let n = all.len();
            let at = &mut all[r.below(n)];
            **at = (*r.pick(if k == "rust_version" || k == "version" {
                &["1.70.0-beta", "1.70.0+b", "1.70-a", "1", "1.2.3.4", "v1.2", "01.2.3", "1.70", " 1.2.3", "", "1.2.3-"]
            } else {
                &["", "1.", "lib", "Normal", "dev", "2027", "^x", "1.2.3-", "true", "\u{0}", "LIB", "1.2.3-beta"]
            }))
            .to_owned();
            format!("a string in {k} is {:?}", **at)
        }
    }
}

const KINDS: &[std::io::ErrorKind] = &[
    std::io::ErrorKind::ConnectionReset,
    std::io::ErrorKind::UnexpectedEof,
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::WouldBlock,
    std::io::ErrorKind::Other,
];

fn cut(len: usize, r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.below(8).min(len),
        1 => len.saturating_sub(1 + r.below(8)),
        _ => r.below(len + 1),
    }
}

/// Damages a text as networks and disks do, in blocks
fn blocks(b: &mut Vec<u8>, r: &mut Rng) -> &'static str {
    let size = *r.pick(&[512, 64, 4096, 16]);
    let n = b.len().div_ceil(size);
    if n < 2 {
        return "whole.small";
    }
    let at = r.below(n);
    let (from, to) = (at * size, ((at + 1) * size).min(b.len()));
    match r.below(4) {
        0 => {
            b.drain(from..to);
            "fault.blocks.lost"
        }
        1 => {
            let c = b[from..to].to_vec();
            b.splice(to..to, c);
            "fault.blocks.duplicated"
        }
        2 => {
            let other = r.below(n) * size;
            let c = b[from..to].to_vec();
            let l = c.len().min(b.len() - other);
            let d = b[other..other + l].to_vec();
            b[other..other + l].copy_from_slice(&c[..l]);
            let l2 = d.len();
            b[from..from + l2].copy_from_slice(&d);
            "fault.blocks.reordered"
        }
        _ => {
            b[from..to].fill(0);
            "fault.blocks.zeroed"
        }
    }
}

struct Decoded {
    part: Part,
    from: From,
    /// the bytes that were delivered
    got: Vec<u8>,
    failed: Option<std::io::ErrorKind>,
    res: Result<Value, String>,
    note: String,
}

/// One document, of one state of a workspace
fn some_doc(w: &World, r: &mut Rng) -> Option<J> {
    let want = Want::draw(w, r);
    let req = {
        let mut fs = kernel::Fs::default();
        w.layout(&mut fs);
        want.understood(w, &fs).ok()?
    };
    let res = cargo::resolve(w, &req);
    let mut order = Rng::new(r.next());
    let peer = any_peer(r);
    let mut d = cargo::metadata(w, &res, peer, r.pct(50).then_some(&mut order));
    if r.pct(15) {
        cargo::forget_deps(&mut d);
    }
    if r.pct(50) {
        enrich(&mut d, r);
    }
    if r.pct(25) {
        odd(&mut d, r);
    }
    Some(d)
}

fn style(r: &mut Rng) -> Style {
    Style { shuffle_keys: r.pct(40), escapes: r.pct(40), spaces: r.pct(30), newlines: r.pct(30) }
}

pub fn c10(cx: &mut Cx) {
    let mut r = cx.rng("plan");
    let clients = *r.pick(&[1, 1, 2, 3]);
    let mut wr = cx.rng("world");
    let mut shape = Shape::draw(&mut wr);
    if wr.pct(60) {
        shape.members = (1, 2);
        shape.ext = *wr.pick(&[(0, 2), (1, 4)]);
    }
    let world = World::generate(&mut wr, &shape);
    let f = faults(&mut r, clients, false);
    let mut k = cx.kernel("sched", f);
    world.layout(&mut k.fs);
    let mut jobs: Vec<Client<Vec<Decoded>>> = Vec::new();
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    for c in 0..clients {
        let mut r = cx.rng(&format!("texts{c}"));
        let mut todo = Vec::new();
        for _ in 0..*r.pick(&[1, 2, 4]) {
            let Some(d) = some_doc(&world, &mut r) else { continue };
            let part = if r.pct(75) { Part::All } else { *r.pick(&[Part::Package, Part::Resolve, Part::Node, Part::Dependency, Part::Target]) };
            let Some(mut d) = part.of(&d, &mut r) else { continue };
            let how = r.below(20);
            let mut note = String::new();
            if let 6..=9 = how {
                note = spoil(&mut d, &mut r);
                *counts.entry("fault.fields").or_default() += 1;
            }
            let mut b = d.print(style(&mut r), &mut r).into_bytes();
            let mut fail = None;
            match how {
                10..=12 => {
                    b.truncate(cut(b.len(), &mut r));
                    *counts.entry("fault.truncated").or_default() += 1;
                    note = format!("cut at {}", b.len());
                }
                13 | 14 => {
                    fail = Some((cut(b.len(), &mut r), *r.pick(KINDS)));
                    note = format!("the stream fails at {fail:?} of {}", b.len());
                }
                15..=17 => {
                    peer::damage(&mut b, &mut r);
                    *counts.entry("fault.bytes").or_default() += 1;
                    note = "damaged bytes".to_owned();
                }
                18 => {
                    let n = blocks(&mut b, &mut r);
                    *counts.entry(n).or_default() += 1;
                    note = n.to_owned();
                }
                19 => {
                    let t: &[u8] = r.pick(&[&b"\n"[..], b" \t\r\n", b"}", b"{}", b"\0", b"null", b"\xff", b","]);
                    b.extend_from_slice(t);
                    *counts.entry("fault.tail").or_default() += 1;
                    note = format!("followed by {t:?}");
                }
                _ => {}
            }
            let mut froms = if fail.is_some() { vec![From::Stream, From::Buffered] } else { vec![From::Stream, From::Slice, From::Buffered] };
            if fail.is_none() {
                if std::str::from_utf8(&b).is_ok() {
                    froms.push(From::Str);
                    if part == Part::All {
                        froms.push(From::Parse);
                    }
                }
                froms.push(From::Value);
            }
            r.shuffle(&mut froms);
            froms.truncate(3);
            if cx.tracing {
                cx.say(|| format!("client {c}: {part:?} {note} of {} bytes from {froms:?}", b.len()));
            }
            for from in froms {
                todo.push((part, from, b.clone(), fail, Rng::new(r.next()), note.clone()));
            }
        }
        jobs.push(Box::new(move || {
            let mut out = Vec::new();
            for (part, from, b, fail, rng, note) in todo {
                let mut ch = Chunks::new(b.clone(), rng);
                ch.fail = fail;
                let res = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| decode(part, from, &b, ch))) {
                    Ok(r) => r,
                    Err(p) => Err(format!("PANIC {}", crate::sim::panic_text(&*p))),
                };
                kernel::step("decoded");
                kernel::quiet(|| {
                    out.push(Decoded { part, from, got: b, failed: fail.map(|f| f.1), res, note });
                });
            }
            out
        }));
    }
    let (_, res) = cx.run(k, jobs);
    let (mut docs, mut bad, mut bytes) = (0u64, 0u64, 0u64);
    for (c, v) in res.into_iter().enumerate() {
        let v = match v {
            Ok(v) => v,
            Err(p) => return cx.fail("panic", format!("client {c} panicked: {p}")),
        };
        for d in v {
            bytes += d.got.len() as u64;
            cx.out.evals += 1;
            let at = format!("client {c}, {:?} from {:?} ({})", d.part, d.from, d.note);
            if let Err(e) = &d.res
                && e.starts_with("PANIC")
            {
                return cx.fail("panic", format!("{at}: {e}"));
            }
            if d.failed.is_some() {
                *counts.entry("fault.stream-failed").or_default() += 1;
                if d.res.is_ok() {
                    return cx.fail("failed-stream", format!("{at}: a document was decoded from a stream that failed"));
                }
                bad += 1;
                cx.reached("failed");
                continue;
            }
            let says = reading(&d.got, d.part);
            cx.reached(&format!("{:?} {:?} {}", d.part, d.from, match &says {
                Reading::Doc(v) => crate::rng::hash_str(&v.to_string()),
                Reading::Bad(_) => 1,
                Reading::Unclear(_) => 2,
            }));
            match (says, d.res) {
                (Reading::Doc(v), Ok(m)) => {
                    docs += 1;
                    if let Some(t) = doc::differ(&m, &v) {
                        return cx.fail("differs", format!("{at}: {t}"));
                    }
                }
                (Reading::Doc(_), Err(e)) => return cx.fail("refused", format!("{at}: {e}, but it is a document")),
                (Reading::Bad(_) | Reading::Unclear(_), Err(_)) => bad += 1,
                (Reading::Bad(e), Ok(_)) => return cx.fail("accepted", format!("{at}: it was decoded, but it is no document: {e}")),
                (Reading::Unclear(v), Ok(m)) => {
                    // of two rust versions, one of them null, either will do
                    let t = v.map_or_else(|| Some("nothing is there".to_owned()), |v| {
                        let without = |v: &Value| {
                            let mut v = v.clone();
                            no_rust_version(&mut v);
                            v
                        };
                        doc::differ(&m, &v).and_then(|_| doc::differ(&without(&m), &without(&v)))
                    });
                    if let Some(t) = t {
                        return cx.fail("altered", format!("{at}: what was decoded is not there: {t}"));
                    }
                }
            }
        }
    }
    for (k, n) in counts {
        cx.count(&if k.starts_with("fault.") { k.to_owned() } else { format!("fault.{k}") }, n);
    }
    cx.count("outcome.document", docs);
    cx.count("outcome.error", bad);
    cx.out.nontrivial = docs + bad > 0;
    cx.out.sample = format!("{docs} decoded, {bad} refused, {bytes} bytes");
}

fn no_rust_version(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(no_rust_version),
        Value::Object(o) => {
            o.remove("rust_version");
            o.values_mut().for_each(no_rust_version);
        }
        _ => {}
    }
}

// ------------------------------------------------------------------------------------------

/// The disk: what is on it is all that is left of a program that crashed
#[derive(Default)]
struct Disk {
    files: BTreeMap<String, Vec<u8>>,
    /// who wrote to a file last
    writer: BTreeMap<String, u64>,
    writers: u64,
}

type Shared = Arc<Mutex<Disk>>;

fn on<R>(d: &Shared, f: impl FnOnce(&mut Disk) -> R) -> R {
    kernel::quiet(|| f(&mut d.lock().unwrap_or_else(|p| p.into_inner())))
}

const CRASH: &str = "the program crashed";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Trouble {
    None,
    /// writing fails from here on
    Fails(usize, i32),
    /// nothing more is written from here on, as if there were no room
    Zero(usize),
    /// the program, or the machine, dies here
    Crash(usize),
    /// the last flush fails
    Flush(i32),
}

struct File {
    disk: Shared,
    me: u64,
    name: String,
    pos: usize,
    rng: Rng,
    piece: usize,
    eintr: u32,
    trouble: Trouble,
    struck: Arc<Mutex<bool>>,
    steps: u64,
}

impl File {
    fn strike(&self) {
        kernel::quiet(|| {
            *self.struck.lock().unwrap() = true;
            let what = match self.trouble {
                Trouble::Fails(..) => "fault.write-failed",
                Trouble::Zero(_) => "fault.write-zero",
                Trouble::Crash(_) => "fault.crash-while-writing",
                Trouble::Flush(_) => "fault.flush-failed",
                Trouble::None => return,
            };
            kernel::with(|k| k.count(what));
        });
    }
}

impl Write for File {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.steps += 1;
        // to_writer writes every token on its own
        if self.steps % 32 == 1 {
            kernel::step("write");
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.eintr > 0 && self.rng.pct(self.eintr) {
            kernel::quiet(|| kernel::with(|k| k.count("fault.write-interrupted")));
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = buf.len();
        if n > 1 && self.piece > 0 {
            n = (1 + self.rng.below(self.piece)).min(n);
        }
        if n < buf.len() {
            kernel::quiet(|| kernel::with(|k| k.count("fault.write-short")));
        }
        match self.trouble {
            Trouble::Fails(at, e) => {
                if self.pos >= at {
                    self.strike();
                    return Err(std::io::Error::from_raw_os_error(e));
                }
                n = n.min(at - self.pos);
            }
            Trouble::Zero(at) => {
                if self.pos >= at {
                    self.strike();
                    return Ok(0);
                }
                n = n.min(at - self.pos);
            }
            Trouble::Crash(at) => {
                if self.pos >= at {
                    self.strike();
                    std::panic::panic_any(CRASH.to_owned());
                }
                n = n.min(at - self.pos);
            }
            Trouble::None | Trouble::Flush(_) => {}
        }
        let (name, pos) = (self.name.clone(), self.pos);
        let me = self.me;
        on(&self.disk, |d| {
            if d.writer.get(&name) != Some(&me) {
                // it is nobody's now
                d.writer.remove(&name);
            }
            let f = d.files.entry(name).or_default();
            // somebody else may have made it shorter
            if f.len() < pos + n {
                f.resize(pos + n, 0);
            }
            f[pos..pos + n].copy_from_slice(&buf[..n]);
        });
        self.pos += n;
        Ok(n)
    }

    fn flush(&mut self) -> std::io::Result<()> {
        if let Trouble::Flush(e) = self.trouble {
            self.strike();
            return Err(std::io::Error::from_raw_os_error(e));
        }
        Ok(())
    }
}

struct Reader {
    disk: Shared,
    name: String,
    pos: usize,
    rng: Rng,
    piece: usize,
    eintr: u32,
    fail: Option<(usize, i32)>,
    got: Arc<Mutex<(Vec<u8>, bool)>>,
    reads: u64,
}

impl Read for Reader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.reads += 1;
        if self.reads % 16 == 1 {
            kernel::step("read");
        }
        if self.eintr > 0 && self.rng.pct(self.eintr) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if let Some((at, e)) = self.fail
            && self.pos >= at
        {
            kernel::quiet(|| {
                self.got.lock().unwrap().1 = true;
                kernel::with(|k| k.count("fault.read-failed"));
            });
            return Err(std::io::Error::from_raw_os_error(e));
        }
        let (name, pos) = (&self.name, self.pos);
        let max = self.fail.map_or(usize::MAX, |f| f.0 - pos);
        let (rng, piece) = (&mut self.rng, self.piece);
        let n = on(&self.disk, |d| {
            let f = d.files.get(name).map_or(&[][..], |f| &f[..]);
            let mut n = f.len().saturating_sub(pos).min(buf.len()).min(max);
            if n > 1 {
                n = (1 + rng.below(piece.max(n / 200 + 1))).min(n);
            }
            buf[..n].copy_from_slice(&f[pos.min(f.len())..][..n]);
            n
        });
        self.pos += n;
        kernel::quiet(|| self.got.lock().unwrap().0.extend_from_slice(&buf[..n]));
        Ok(n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Writer,
    Buffered,
    Pretty,
    Text,
    Value,
}

#[derive(Clone, Debug)]
enum Todo {
    Store { what: usize, name: String, form: Form, trouble: Trouble, seed: u64 },
    /// what is stored is what was loaded
    Copy { from: String, name: String, form: Form, seed: u64 },
    Load { name: String, whole: bool, fail: Option<(usize, i32)>, seed: u64 },
    /// a crash of the machine that leaves a file like this
    Lose { name: String, seed: u64 },
}

struct Stored {
    what: usize,
    text: Vec<u8>,
    value: Value,
    struck: bool,
    ok: bool,
    crashed: bool,
    io: bool,
    /// what the file has afterwards, if nobody else wrote to it
    file: Option<Vec<u8>>,
    form: Form,
    trouble: Trouble,
}

struct Loaded {
    got: Vec<u8>,
    failed: bool,
    res: Result<Value, String>,
    graph: Option<Result<(String, Vec<String>), String>>,
    again: Option<Value>,
}

enum Did {
    Stored(Stored),
    Loaded(Loaded),
}

fn build(ops: &[config::Op], md: Metadata) -> Result<(String, Vec<String>), String> {
    let mut f = Vec::new();
    let g: Graph = config::builder(ops).build_with_metadata(md, |p: Package| f.push(p.id.repr.clone())).map_err(|e| short(&e))?;
    Ok((dump(&g), f))
}

fn text_of(form: Form, md: &Metadata) -> Vec<u8> {
    match form {
        Form::Pretty => serde_json::to_vec_pretty(md).unwrap(),
        Form::Value => serde_json::to_value(md).unwrap().to_string().into_bytes(),
        _ => serde_json::to_vec(md).unwrap(),
    }
}

fn store(disk: &Shared, what: usize, md: &Metadata, name: &str, form: Form, trouble: Trouble, seed: u64) -> Stored {
    let struck = Arc::new(Mutex::new(false));
    let text = kernel::quiet(|| text_of(form, md));
    // a place in the file rather than one beyond it
    let t = match trouble {
        Trouble::Fails(n, e) => Trouble::Fails(n % (text.len() + 1), e),
        Trouble::Zero(n) => Trouble::Zero(n % text.len()),
        Trouble::Crash(n) => Trouble::Crash(n % (text.len() + 1)),
        t => t,
    };
    let me = on(disk, |d| {
        d.files.insert(name.to_owned(), Vec::new());
        d.writers += 1;
        let me = d.writers;
        d.writer.insert(name.to_owned(), me);
        me
    });
    let mut rng = Rng::new(seed);
    let file = File {
        disk: disk.clone(),
        me,
        name: name.to_owned(),
        pos: 0,
        piece: *rng.pick(&[0, 5000, 1, 64]),
        eintr: *rng.pick(&[0, 0, 4]),
        rng,
        trouble: t,
        struck: struck.clone(),
        steps: 0,
    };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || -> Result<(), (bool, String)> {
        let js = |e: serde_json::Error| (e.is_io(), e.to_string());
        let io = |e: std::io::Error| (true, e.to_string());
        let mut file = file;
        match form {
            Form::Writer => {
                serde_json::to_writer(&mut file, md).map_err(js)?;
                file.flush().map_err(io)
            }
            Form::Pretty => {
                serde_json::to_writer_pretty(&mut file, md).map_err(js)?;
                file.flush().map_err(io)
            }
            Form::Buffered => {
                let mut b = BufWriter::with_capacity(300, file);
                serde_json::to_writer(&mut b, md).map_err(js)?;
                b.flush().map_err(io)
            }
            Form::Text => {
                let t = serde_json::to_string(md).map_err(js)?;
                file.write_all(t.as_bytes()).map_err(io)?;
                file.flush().map_err(io)
            }
            Form::Value => {
                let v = serde_json::to_value(md).map_err(js)?;
                file.write_all(v.to_string().as_bytes()).map_err(io)?;
                file.flush().map_err(io)
            }
        }
    }));
    let crashed = match &res {
        Err(p) if crate::sim::panic_text(&**p) == CRASH => true,
        Err(p) => std::panic::panic_any(crate::sim::panic_text(&**p)),
        Ok(_) => false,
    };
    let res = res.unwrap_or(Ok(()));
    let file = on(disk, |d| (d.writer.get(name) == Some(&me)).then(|| d.files[name].clone()));
    kernel::quiet(|| Stored {
        what,
        value: doc::expose(md),
        text,
        struck: *struck.lock().unwrap(),
        ok: res.is_ok() && !crashed,
        crashed,
        io: res.as_ref().err().is_some_and(|e| e.0),
        file,
        form,
        trouble: t,
    })
}

fn load(disk: &Shared, name: &str, whole: bool, fail: Option<(usize, i32)>, seed: u64) -> (Vec<u8>, bool, Result<Metadata, String>) {
    let got = Arc::new(Mutex::new((Vec::new(), false)));
    let mut rng = Rng::new(seed);
    let len = on(disk, |d| d.files.get(name).map_or(0, Vec::len));
    let mut rd = Reader {
        disk: disk.clone(),
        name: name.to_owned(),
        pos: 0,
        piece: *rng.pick(&[100_000, 4096, 33]),
        eintr: *rng.pick(&[0, 0, 4]),
        rng,
        fail: fail.map(|(at, e)| (at % (len + 1), e)),
        got: got.clone(),
        reads: 0,
    };
    let res = if whole {
        let mut b = Vec::new();
        match rd.read_to_end(&mut b) {
            Err(e) => Err(e.to_string()),
            Ok(_) => serde_json::from_slice(&b).map_err(|e| e.to_string()),
        }
    } else {
        serde_json::from_reader(BufReader::new(rd)).map_err(|e| e.to_string())
    };
    let (got, failed) = kernel::quiet(|| got.lock().unwrap().clone());
    (got, failed, res)
}

pub fn c11(cx: &mut Cx) {
    let mut r = cx.rng("plan");
    let clients = *r.pick(&[1, 1, 2, 3]);
    let mut wr = cx.rng("world");
    let mut shape = Shape::draw(&mut wr);
    if wr.pct(60) {
        shape.members = (1, 2);
        shape.ext = *wr.pick(&[(0, 2), (1, 4)]);
    }
    let world = World::generate(&mut wr, &shape);
    let ops = {
        let cfg = config::draw(&world, &mut r);
        config::ops(&world, &cfg, &mut r)
    };
    // the documents that are stored, and what is built of them
    let mut docs: Vec<(Value, String)> = Vec::new();
    let mut graphs = Vec::new();
    let mut now = world.clone();
    for _ in 0..r.range(1, 3) {
        if let Some(d) = some_doc(&now, &mut r) {
            let text = d.plain();
            match serde_json::from_str::<Metadata>(&text) {
                // there may be no graph of what no cargo says
                Ok(md) => graphs.push(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| build(&ops, md))).ok()),
                Err(e) => return cx.fail("refused", format!("{e}: {text}")),
            }
            docs.push((doc::canon(&d.value()).unwrap(), text));
        }
        now = now.evolve(&mut r);
    }
    if docs.is_empty() {
        return;
    }
    let disk: Shared = Arc::default();
    let f = faults(&mut r, clients, false);
    let k = cx.kernel("sched", f);
    let mut jobs: Vec<Client<Vec<Did>>> = Vec::new();
    for c in 0..clients {
        let mut r = cx.rng(&format!("todo{c}"));
        let mut names = vec![format!("own{c}")];
        if clients > 1 && r.pct(60) {
            names.push("shared".to_owned());
        }
        let mut todo = Vec::new();
        for _ in 0..*r.pick(&[2, 4, 7]) {
            let name = r.pick(&names).clone();
            let seed = r.next();
            let form = *r.pick(&[Form::Writer, Form::Buffered, Form::Pretty, Form::Text, Form::Value]);
            todo.push(match r.below(10) {
                0..=3 => Todo::Store {
                    what: r.below(docs.len()),
                    name,
                    form,
                    trouble: match r.below(12) {
                        0 | 1 => Trouble::Fails(r.below(1 << 20), *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EPIPE])),
                        2 => Trouble::Zero(r.below(1 << 20)),
                        3 | 4 => Trouble::Crash(r.below(1 << 20)),
                        5 => Trouble::Flush(libc::EIO),
                        _ => Trouble::None,
                    },
                    seed,
                },
                4 => Todo::Copy { from: r.pick(&names).clone(), name, form, seed },
                5 => Todo::Lose { name, seed },
                _ => Todo::Load {
                    name,
                    whole: r.pct(40),
                    fail: if r.pct(8) { Some((r.below(1 << 20), libc::EIO)) } else { None },
                    seed,
                },
            });
            if let Some(Todo::Store { name, .. } | Todo::Copy { name, .. }) = todo.last()
                && r.pct(60)
            {
                let name = name.clone();
                todo.push(Todo::Load { name, whole: r.pct(40), fail: None, seed: r.next() });
            }
        }
        cx.say(|| format!("client {c}: {todo:?}"));
        let (disk, ops) = (disk.clone(), ops.clone());
        let texts: Vec<String> = docs.iter().map(|d| d.1.clone()).collect();
        jobs.push(Box::new(move || {
            let mut out = Vec::new();
            for t in todo {
                kernel::step("next");
                match t {
                    Todo::Store { what, name, form, trouble, seed } => {
                        let md: Metadata = serde_json::from_str(&texts[what]).unwrap();
                        let s = store(&disk, what, &md, &name, form, trouble, seed);
                        kernel::quiet(|| out.push(Did::Stored(s)));
                    }
                    Todo::Copy { from, name, form, seed } => {
                        let (got, failed, res) = load(&disk, &from, false, None, seed);
                        match res {
                            Ok(md) => {
                                let s = store(&disk, usize::MAX, &md, &name, form, Trouble::None, seed);
                                kernel::quiet(|| {
                                    out.push(Did::Loaded(Loaded { got, failed, res: Ok(doc::expose(&md)), graph: None, again: None }));
                                    out.push(Did::Stored(s));
                                });
                            }
                            Err(e) => kernel::quiet(|| out.push(Did::Loaded(Loaded { got, failed, res: Err(e), graph: None, again: None }))),
                        }
                    }
                    Todo::Load { name, whole, fail, seed } => {
                        let (got, failed, res) = load(&disk, &name, whole, fail, seed);
                        let mut l = Loaded { got, failed, res: Err(String::new()), graph: None, again: None };
                        match res {
                            Ok(md) => {
                                kernel::quiet(|| {
                                    l.again = serde_json::to_value(&md).ok();
                                    l.res = Ok(doc::expose(&md));
                                });
                                // may be a mix of two documents, and of no use then
                                l.graph = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| build(&ops, md))).ok();
                            }
                            Err(e) => l.res = Err(e),
                        }
                        kernel::quiet(|| out.push(Did::Loaded(l)));
                    }
                    Todo::Lose { name, seed } => on(&disk, |d| {
                        let mut r = Rng::new(seed);
                        d.writer.remove(&name);
                        let Some(f) = d.files.get_mut(&name) else { return };
                        if f.is_empty() {
                            return;
                        }
                        kernel::with(|k| k.count("fault.crash-tore-file"));
                        match r.below(4) {
                            0 => f.truncate(cut(f.len(), &mut r)),
                            1 => {
                                // the length made it to the disk, the data did not
                                let at = cut(f.len(), &mut r);
                                f[at..].fill(0);
                            }
                            2 => {
                                let (a, b) = (cut(f.len(), &mut r), cut(f.len(), &mut r));
                                f[a.min(b)..a.max(b)].fill(0);
                            }
                            _ => f.truncate(f.len() / 512 * 512),
                        }
                    }),
                }
            }
            out
        }));
    }
    let (_, res) = cx.run(k, jobs);
    let mut dids = Vec::new();
    for (c, v) in res.into_iter().enumerate() {
        match v {
            Ok(v) => dids.extend(v.into_iter().map(|d| (c, d))),
            Err(p) => return cx.fail("panic", format!("client {c} panicked: {p}")),
        }
    }
    let mut texts: BTreeMap<Vec<u8>, Value> = BTreeMap::new();
    let (mut ok, mut failed, mut crashed) = (0u64, 0u64, 0u64);
    for (c, d) in &dids {
        let Did::Stored(s) = d else { continue };
        cx.out.evals += 1;
        let at = format!("client {c} storing as {:?} with {:?}", s.form, s.trouble);
        if let Some((v, _)) = docs.get(s.what)
            && let Some(t) = doc::differ(&s.value, v)
        {
            return cx.fail("differs", format!("{at}: what was stored differs from what was decoded: {t}"));
        }
        if s.crashed {
            crashed += 1;
        } else if s.struck {
            failed += 1;
            if s.ok {
                return cx.fail("silent", format!("{at}: the writer failed and nobody was told"));
            }
            if !s.io {
                return cx.fail("silent", format!("{at}: the error of the writer is reported as another"));
            }
        } else {
            ok += 1;
            if !s.ok {
                return cx.fail("failed", format!("{at}: failed though the writer did not"));
            }
            if let Some(f) = &s.file
                && *f != s.text
            {
                return cx.fail("stored", format!("{at}: {} bytes are in the file which are not the {} of the document", f.len(), s.text.len()));
            }
        }
        // what is written down is the document
        match serde_json::from_slice::<Value>(&s.text).map_err(|e| e.to_string()).and_then(|v| doc::canon(&v)) {
            Ok(v) => {
                if let Some(t) = doc::differ(&v, &s.value) {
                    return cx.fail("stored", format!("{at}: what is written down is not the document: {t}"));
                }
            }
            Err(e) => return cx.fail("stored", format!("{at}: what is written down is no document: {e}")),
        }
        texts.insert(s.text.clone(), s.value.clone());
    }
    let (mut whole, mut torn) = (0u64, 0u64);
    for (c, d) in &dids {
        let Did::Loaded(l) = d else { continue };
        cx.out.evals += 1;
        let at = format!("client {c} loading {} bytes", l.got.len());
        if l.failed {
            torn += 1;
            if l.res.is_ok() {
                return cx.fail("loaded", format!("{at}: a document was loaded though reading failed"));
            }
            continue;
        }
        if let Some(v) = texts.get(&l.got) {
            whole += 1;
            match &l.res {
                Err(e) => return cx.fail("lost", format!("{at}: what was stored can not be loaded: {e}")),
                Ok(m) => {
                    if let Some(t) = doc::differ(m, v) {
                        return cx.fail("altered", format!("{at}: what is loaded is not what was stored: {t}"));
                    }
                }
            }
            if let Some(a) = &l.again {
                match doc::canon(a) {
                    Ok(a) => {
                        if let Some(t) = doc::differ(&a, v) {
                            return cx.fail("altered", format!("{at}: storing it again changes it: {t}"));
                        }
                    }
                    Err(e) => return cx.fail("altered", format!("{at}: storing it again makes it no document: {e}")),
                }
            }
            if let Some(i) = docs.iter().position(|d| d.0 == *v) {
                match &l.graph {
                    g if *g == graphs[i] => cx.reached("same graph"),
                    Some(Ok(_)) => return cx.fail("graph", format!("{at}: the graph of what is loaded is not that of what was stored")),
                    Some(Err(e)) => return cx.fail("graph", format!("{at}: what is loaded gives {e}, what was stored {}", graphs[i].as_ref().map_or("panics", |g| g.as_ref().map_or_else(|e| e.as_str(), |_| "a graph")))),
                    None if l.again.is_some() => return cx.fail("panic", format!("{at}: building it panicked")),
                    None => {}
                }
            }
            continue;
        }
        torn += 1;
        match (reading(&l.got, Part::All), &l.res) {
            (_, Err(_)) => cx.reached("torn"),
            (Reading::Doc(v) | Reading::Unclear(Some(v)), Ok(m)) => {
                // two that wrote to one file may have written a document
                if let Some(t) = doc::differ(m, &v) {
                    return cx.fail("altered", format!("{at}: {t}"));
                }
                cx.count("outcome.mixed", 1);
            }
            (_, Ok(_)) => return cx.fail("loaded", format!("{at}: a document was loaded from a file that has none")),
        }
    }
    cx.count("store.complete", ok);
    cx.count("store.failed", failed);
    cx.count("store.crashed", crashed);
    cx.count("load.complete", whole);
    cx.count("load.torn", torn);
    cx.out.nontrivial = whole + torn > 0;
    cx.out.sample = format!("{ok} stored, {failed} failed, {crashed} crashed; {whole} loaded, {torn} torn");
}
