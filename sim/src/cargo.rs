//! The simulated cargo. It resolves a `World` for a `Request` the way cargo's resolver does
//! and reports the outcome in the document `cargo metadata --format-version 1` prints.
//!
//! This is a stub of the peer process krates talks to. `tools/calibrate.py` compares it with
//! the real cargo installed here.

use crate::json::{J, obj, opt, s, strs};
use crate::rng::Rng;
use crate::world::{same_origin, Dep, Fv, GitRef, Kind, Request, Src, World, CRATES_IO};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Resolved {
    /// Packages the resolution contains
    pub nodes: BTreeSet<usize>,
    /// Features resolved for each package
    pub feats: Vec<BTreeSet<String>>,
    /// Declarations of each package that take part
    pub decls: Vec<BTreeSet<usize>>,
    pub root: Option<usize>,
}

fn require(w: &World, k: usize, f: &str, feats: &mut BTreeSet<String>, keys: &mut BTreeMap<String, BTreeSet<String>>) {
    if !feats.insert(f.to_owned()) {
        return;
    }
    let p = &w.pkgs[k];
    let Some(vals) = p.features.get(f) else {
        panic!("world: {} has no feature {f}", p.name);
    };
    for v in vals {
        match v {
            Fv::Simple(g) => require(w, k, g, feats, keys),
            Fv::Dep(key) => {
                keys.entry(key.clone()).or_default();
            }
            Fv::Strong(key, df) | Fv::Weak(key, df) => {
                if matches!(v, Fv::Strong(..))
                    && p.deps.iter().any(|d| d.optional && &d.key == key)
                    && p.features.contains_key(key)
                {
                    require(w, k, key, feats, keys);
                }
                // The resolver that writes the lock file treats weak features as strong
                keys.entry(key.clone()).or_default().insert(df.clone());
            }
        }
    }
}

pub fn resolve(w: &World, req: &Request) -> Resolved {
    let n = w.pkgs.len();
    let mut want: Vec<BTreeSet<String>> = vec![BTreeSet::new(); n];
    // What is asked of a member by the user rather than by its dependents. Only the former has
    // an effect on its dev-dependencies.
    let mut asked: Vec<BTreeSet<String>> = vec![BTreeSet::new(); n];
    let mut nodes: BTreeSet<usize> = BTreeSet::new();
    for &m in &w.members {
        nodes.insert(m);
        let p = &w.pkgs[m];
        if req.all_features {
            want[m].extend(p.features.keys().cloned());
        } else if !req.no_default && p.has_feature("default") {
            want[m].insert("default".to_owned());
        }
        for f in &req.features {
            if p.has_feature(f) {
                want[m].insert(f.clone());
            }
        }
        asked[m] = want[m].clone();
    }
    let mut decls: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    let mut feats: Vec<BTreeSet<String>> = vec![BTreeSet::new(); n];
    loop {
        let before = (
            nodes.len(),
            want.iter().map(BTreeSet::len).sum::<usize>(),
            decls.iter().map(BTreeSet::len).sum::<usize>(),
        );
        for k in nodes.clone() {
            let p = &w.pkgs[k];
            let mut fs = BTreeSet::new();
            let mut keys = BTreeMap::new();
            for f in want[k].clone() {
                require(w, k, &f, &mut fs, &mut keys);
            }
            feats[k] = fs;
            let mut dev_keys = BTreeMap::new();
            let mut fs = BTreeSet::new();
            for f in &asked[k] {
                require(w, k, f, &mut fs, &mut dev_keys);
            }
            for (i, d) in p.deps.iter().enumerate() {
                if d.kind == Kind::Dev && !w.members.contains(&k) {
                    continue;
                }
                let keys = if d.kind == Kind::Dev { &dev_keys } else { &keys };
                if d.optional && !keys.contains_key(&d.key) {
                    continue;
                }
                decls[k].insert(i);
                nodes.insert(d.to);
                if let Some(b) = keys.get(&d.key) {
                    want[d.to].extend(b.iter().cloned());
                }
                want[d.to].extend(d.features.iter().cloned());
                if d.uses_default && w.pkgs[d.to].has_feature("default") {
                    want[d.to].insert("default".to_owned());
                }
            }
        }
        let after = (
            nodes.len(),
            want.iter().map(BTreeSet::len).sum::<usize>(),
            decls.iter().map(BTreeSet::len).sum::<usize>(),
        );
        if before == after {
            break;
        }
    }
    Resolved {
        nodes,
        feats,
        decls,
        root: req.at.or(w.root_pkg),
    }
}

/// The format cargo reports package ids in
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IdFormat {
    Opaque,
    Stable,
}

/// What differs between the cargos of the last years, as far as krates reads it
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Peer {
    pub ids: IdFormat,
    /// Fields old cargos do not print are left out
    pub old: bool,
    /// And also those that came with renames, editions and alternative registries
    pub ancient: bool,
    /// Fields of a cargo yet to be are there
    pub extra: bool,
}

impl Peer {
    pub const CURRENT: Peer = Peer {
        ids: IdFormat::Stable,
        old: false,
        ancient: false,
        extra: false,
    };
}

fn form_encode(v: &str) -> String {
    let mut out = String::new();
    for b in v.bytes() {
        match b {
            b'*' | b'-' | b'.' | b'_' | b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' => {
                out.push(b as char)
            }
            b' ' => out.push('+'),
            b => out.push_str(&format!("%{b:02X}")),
        }
    }
    out
}

fn git_query(rf: &GitRef, enc: bool) -> String {
    let e = |v: &str| if enc { form_encode(v) } else { v.to_owned() };
    match rf {
        GitRef::Default => String::new(),
        GitRef::Branch(b) => format!("?branch={}", e(b)),
        GitRef::Tag(b) => format!("?tag={}", e(b)),
        GitRef::Rev(b) => format!("?rev={}", e(b)),
    }
}

/// `Package::source`
pub fn pkg_source(src: &Src) -> Option<String> {
    match src {
        Src::Path => None,
        Src::CratesIo => Some(CRATES_IO.to_owned()),
        Src::Registry(u) => Some(u.clone()),
        Src::Git { url, rf, commit } => Some(format!("git+{url}{}#{commit}", git_query(rf, false))),
    }
}

/// `Dependency::source`
pub fn dep_source(src: &Src) -> Option<String> {
    match src {
        Src::Path => None,
        Src::CratesIo => Some(CRATES_IO.to_owned()),
        Src::Registry(u) => Some(u.clone()),
        Src::Git { url, rf, .. } => Some(format!("git+{url}{}", git_query(rf, false))),
    }
}

fn path_encode(p: &str) -> String {
    let mut out = String::new();
    for b in p.bytes() {
        match b {
            b' ' | b'"' | b'#' | b'<' | b'>' | b'?' | b'`' | b'{' | b'}' | b'%' => {
                out.push_str(&format!("%{b:02X}"))
            }
            0x21..=0x7e => out.push(b as char),
            b => out.push_str(&format!("%{b:02X}")),
        }
    }
    out
}

pub fn pkg_id(w: &World, k: usize, fmt: IdFormat) -> String {
    let p = &w.pkgs[k];
    match fmt {
        IdFormat::Opaque => {
            let src = match &p.src {
                Src::Path => format!("path+file://{}", path_encode(&p.dir)),
                s => pkg_source(s).unwrap(),
            };
            format!("{} {} ({src})", p.name, p.version)
        }
        IdFormat::Stable => {
            let (base, last) = match &p.src {
                Src::Path => (
                    format!("path+file://{}", path_encode(&p.dir)),
                    p.dir.rsplit('/').next().unwrap().to_owned(),
                ),
                Src::CratesIo => (CRATES_IO.to_owned(), "crates.io-index".to_owned()),
                Src::Registry(u) => (u.clone(), u.rsplit('/').next().unwrap().to_owned()),
                Src::Git { url, rf, .. } => (
                    format!("git+{url}{}", git_query(rf, true)),
                    url.rsplit('/').next().unwrap().to_owned(),
                ),
            };
            if last == p.name {
                format!("{base}#{}", p.version)
            } else {
                format!("{base}#{}@{}", p.name, p.version)
            }
        }
    }
}

fn kind_json(k: Kind) -> J {
    match k {
        Kind::Normal => J::Null,
        Kind::Dev => s("dev"),
        Kind::Build => s("build"),
    }
}

/// The name cargo gives to the dependency of `k` on `to`
fn extern_name(w: &World, k: usize, to: usize) -> String {
    let Dep { key, explicit, .. } = w.pkgs[k].deps.iter().find(|d| d.to == to).unwrap();
    if *key == w.pkgs[to].name && !explicit {
        w.pkgs[to].lib()
    } else {
        key.replace('-', "_")
    }
}

const LICENSES: &[&str] = &["MIT", "MIT OR Apache-2.0", "Zlib", "Apache-2.0 AND (BSD-3-Clause OR ISC)"];

fn package_json(w: &World, k: usize, peer: Peer) -> J {
    let p = &w.pkgs[k];
    let mut r = Rng::new(p.salt);
    let maybe = |r: &mut Rng, pct: u32, v: String| if r.pct(pct) { J::Str(v) } else { J::Null };
    let edition = *r.pick(&["2015", "2018", "2021", "2024"]);
    let deps = p
        .deps
        .iter()
        .map(|d| {
            let t = &w.pkgs[d.to];
            let src = w.declared(d);
            // a path within a repository denotes the checkout of a commit
            let source = match src {
                Src::Git { .. } if same_origin(&p.src, src) && p.salt % 4 != 0 => pkg_source(src),
                src => dep_source(src),
            };
            let mut f = vec![
                ("name", s(&t.name)),
                ("source", opt(&source)),
                ("req", s(&d.req)),
                ("kind", kind_json(d.kind)),
                ("rename", if d.key == t.name && !d.explicit { J::Null } else { s(&d.key) }),
                ("optional", J::Bool(d.optional)),
                ("uses_default_features", J::Bool(d.uses_default)),
                ("features", strs(&d.features)),
                ("target", opt(&d.target)),
            ];
            if *src == Src::Path {
                f.push(("path", s(&t.dir)));
            }
            f.push((
                "registry",
                match src {
                    Src::Registry(u) => s(u.strip_prefix("registry+").unwrap_or(u)),
                    _ => J::Null,
                },
            ));
            if peer.extra {
                f.push(("public", J::Bool(false)));
                f.push(("artifact", obj(vec![("kinds", J::Arr(vec![s("bin")])), ("lib", J::Bool(false))])));
            }
            if peer.ancient {
                f.retain(|(n, v)| !matches!(*n, "rename" | "registry" | "path") || *v != J::Null);
            }
            obj(f)
        })
        .collect();

    let mut targets = Vec::new();
    let target = |r: &mut Rng, kind: Vec<&str>, ct: Vec<&str>, name: &str, path: String, rf: Option<Vec<String>>| {
        let mut f = vec![
            ("kind", J::Arr(kind.iter().map(|v| s(*v)).collect())),
            ("crate_types", J::Arr(ct.iter().map(|v| s(*v)).collect())),
            ("name", s(name)),
            ("src_path", s(path)),
            ("edition", s(edition)),
        ];
        if let Some(rf) = rf {
            f.push(("required-features", strs(&rf)));
        }
        f.push(("doc", J::Bool(r.pct(60))));
        f.push(("doctest", J::Bool(r.pct(50))));
        f.push(("test", J::Bool(r.pct(60))));
        if peer.old {
            f.retain(|(n, _)| !matches!(*n, "doc" | "doctest" | "test"));
        }
        if peer.ancient {
            f.retain(|(n, _)| !matches!(*n, "crate_types" | "edition"));
        }
        obj(f)
    };
    if p.has_lib {
        targets.push(target(&mut r, p.lib_kinds.clone(), p.lib_kinds.clone(), &p.lib(), format!("{}/src/lib.rs", p.dir), None));
    }
    if !p.has_lib || r.pct(20) {
        let rf = r.pct(40).then(|| p.features.keys().take(2).cloned().collect::<Vec<_>>()).filter(|v| !v.is_empty());
        targets.push(target(&mut r, vec!["bin"], vec!["bin"], &p.name, format!("{}/src/main.rs", p.dir), rf));
    }
    for (kind, ct, pct) in [("example", "bin", 15), ("test", "bin", 20), ("bench", "bin", 10), ("custom-build", "bin", 20)] {
        if r.pct(pct) {
            let name = if kind == "custom-build" { "build-script-build".to_owned() } else { format!("{kind}-a") };
            let rf = (kind != "custom-build" && r.pct(30)).then(|| p.features.keys().take(3).cloned().collect::<Vec<_>>()).filter(|v| !v.is_empty());
            targets.push(target(&mut r, vec![kind], vec![ct], &name, format!("{}/{kind}/a.rs", p.dir), rf));
        }
    }

    let feats = J::Obj(
        p.features
            .iter()
            .map(|(f, v)| (f.clone(), J::Arr(v.iter().map(|v| s(v.text())).collect())))
            .collect(),
    );
    let metadata = match r.below(5) {
        0 => obj(vec![
            ("docs", obj(vec![("rs", obj(vec![("all-features", J::Bool(true)), ("n", J::Int(-7))]))])),
            ("list", J::Arr(vec![J::Int(1), J::Null, s("x\u{e9}\n\"q\"")])),
        ]),
        _ => J::Null,
    };
    let publish = match r.below(8) {
        0 => J::Arr(vec![]),
        1 => J::Arr(vec![s("crates-io"), s("my-registry")]),
        _ => J::Null,
    };
    let list = |r: &mut Rng, w: &[&str]| {
        let n = r.below(3);
        J::Arr((0..n).map(|_| s(*r.pick(w))).collect())
    };
    let rv = match r.below(8) {
        0 => s("1.65"),
        1 => s("1.70.1"),
        _ => J::Null,
    };
    let authors = list(&mut r, &["A <a@b.example>", "Zo\u{eb} \u{1F980}", "C"]);
    let categories = list(&mut r, &["api-bindings", "no-std"]);
    let keywords = list(&mut r, &["graph", "k\u{fc}"]);
    let mut f = vec![
        ("name", s(&p.name)),
        ("version", s(&p.version)),
        ("id", s(pkg_id(w, k, peer.ids))),
        ("license", maybe(&mut r, 70, LICENSES[(p.salt % 4) as usize].to_owned())),
        ("license_file", maybe(&mut r, 10, "LICENSE-X".to_owned())),
        ("description", maybe(&mut r, 50, format!("A \"{}\" crate\nwith a \u{2603} line \\ {}", p.name, p.salt % 97))),
        ("source", opt(&pkg_source(&p.src))),
        ("dependencies", J::Arr(deps)),
        ("targets", J::Arr(targets)),
        ("features", feats),
        ("manifest_path", s(format!("{}/Cargo.toml", p.dir))),
        ("metadata", metadata),
        ("publish", publish),
        ("authors", authors),
        ("categories", categories),
        ("keywords", keywords),
        ("readme", maybe(&mut r, 50, "README.md".to_owned())),
        ("repository", maybe(&mut r, 50, format!("https://example.com/{}", p.name))),
        ("homepage", maybe(&mut r, 20, "https://example.com".to_owned())),
        ("documentation", maybe(&mut r, 20, "https://docs.rs/x".to_owned())),
        ("edition", s(edition)),
        ("links", maybe(&mut r, 10, "z".to_owned())),
        ("default_run", maybe(&mut r, 10, p.name.clone())),
        ("rust_version", rv),
    ];
    if peer.old {
        f.retain(|(n, _)| !matches!(*n, "homepage" | "documentation" | "publish" | "default_run" | "rust_version" | "links"));
    }
    if peer.ancient {
        f.retain(|(n, _)| !matches!(*n, "edition" | "license_file" | "categories" | "keywords" | "readme" | "repository"));
    }
    if peer.extra {
        f.push(("provenance", obj(vec![("signed", J::Bool(true)), ("by", J::Arr(vec![J::Int(3), J::Null]))])));
        f.push(("edition_next", J::Null));
    }
    obj(f)
}

/// The order in which the peer lists things that have no order
pub fn metadata(w: &World, res: &Resolved, peer: Peer, order: Option<&mut Rng>) -> J {
    let id = |k: usize| s(pkg_id(w, k, peer.ids));
    let mut nodes_v: Vec<usize> = res.nodes.iter().copied().collect();
    nodes_v.sort_by_key(|k| pkg_id(w, *k, peer.ids));
    let mut pkgs_v = nodes_v.clone();
    let mut members: Vec<usize> = w.members.clone();
    let mut none = Rng::new(0);
    let (shuf, r) = match order {
        Some(r) => (true, r),
        None => (false, &mut none),
    };
    if shuf {
        r.shuffle(&mut nodes_v);
        r.shuffle(&mut pkgs_v);
        r.shuffle(&mut members);
    }
    let nodes = nodes_v
        .iter()
        .map(|&k| {
            let p = &w.pkgs[k];
            let mut by: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
            for &d in &res.decls[k] {
                by.entry(p.deps[d].to).or_default().push(d);
            }
            let mut deps: Vec<(usize, Vec<usize>)> = by.into_iter().collect();
            deps.sort_by_key(|(t, _)| pkg_id(w, *t, peer.ids));
            if shuf {
                r.shuffle(&mut deps);
            }
            let dependencies: Vec<J> = deps.iter().map(|(t, _)| id(*t)).collect();
            let deps_j: Vec<J> = deps
                .iter()
                .map(|(t, ds)| {
                    let mut dks: Vec<(Kind, Option<String>)> =
                        ds.iter().map(|d| (p.deps[*d].kind, p.deps[*d].target.clone())).collect();
                    dks.sort();
                    dks.dedup();
                    if shuf {
                        r.shuffle(&mut dks);
                    }
                    let dk = dks
                        .into_iter()
                        .map(|(k, t)| {
                            let mut f = vec![("kind", kind_json(k)), ("target", opt(&t))];
                            if peer.extra {
                                f.push(("extern_name", s("x")));
                                f.push(("artifact", s("bin")));
                            }
                            obj(f)
                        })
                        .collect();
                    let mut f = vec![("name", s(extern_name(w, k, *t))), ("pkg", id(*t)), ("dep_kinds", J::Arr(dk))];
                    if peer.extra {
                        f.push(("bindep_target", J::Null));
                    }
                    obj(f)
                })
                .collect();
            let mut feats: Vec<String> = res.feats[k].iter().cloned().collect();
            if shuf {
                r.shuffle(&mut feats);
            }
            let mut f = vec![
                ("id", id(k)),
                ("dependencies", J::Arr(dependencies)),
                ("deps", J::Arr(deps_j)),
                ("features", strs(&feats)),
            ];
            if peer.extra {
                f.push(("unit_kind", s("host")));
            }
            obj(f)
        })
        .collect();
    let members_j: Vec<J> = members.iter().map(|m| id(*m)).collect();
    let mut top = vec![
        ("packages", J::Arr(pkgs_v.iter().map(|k| package_json(w, *k, peer)).collect())),
        ("workspace_members", J::Arr(members_j.clone())),
        (
            "workspace_default_members",
            match (&w.default_members, res.root) {
                (Some(v), root) if root == w.root_pkg => J::Arr(v.iter().map(|m| id(*m)).collect()),
                (_, Some(root)) => J::Arr(vec![id(root)]),
                (_, None) => J::Arr(members_j),
            },
        ),
        (
            "resolve",
            obj(vec![("nodes", J::Arr(nodes)), ("root", res.root.map_or(J::Null, id))]),
        ),
        ("target_directory", s(format!("{}/target", w.ws_root))),
        ("build_directory", s(format!("{}/target", w.ws_root))),
        ("version", J::Int(1)),
        ("workspace_root", s(&w.ws_root)),
        ("metadata", J::Null),
    ];
    if peer.old {
        top.retain(|(n, _)| !matches!(*n, "workspace_default_members" | "build_directory" | "metadata"));
    }
    if peer.extra {
        top.push(("lockfile", obj(vec![("version", J::Int(5)), ("path", s("/x"))])));
    }
    let mut top = obj(top);
    if peer.extra {
        let mut r = Rng::new(w.pkgs[0].salt ^ res.nodes.len() as u64);
        let rate = *r.pick(&[0, 10, 60]);
        grow(&mut top, "top", rate, &mut r);
    }
    top
}

/// The objects of a document, with the fields they have, and in which fields other objects are
const OBJECTS: &[(&str, &[&str], &[(&str, &str)])] = &[
    (
        "top",
        &["packages", "workspace_members", "workspace_default_members", "resolve", "workspace_root", "target_directory", "build_directory", "metadata", "version", "lockfile"],
        &[("packages", "package"), ("resolve", "resolve")],
    ),
    (
        "package",
        &[
            "name", "version", "authors", "id", "source", "description", "dependencies", "license", "license_file", "targets", "features", "manifest_path",
            "categories", "keywords", "readme", "repository", "homepage", "documentation", "edition", "metadata", "links", "publish", "default_run",
            "rust_version", "provenance", "edition_next",
        ],
        &[("dependencies", "dependency"), ("targets", "target")],
    ),
    (
        "dependency",
        &[
            "name", "source", "req", "kind", "optional", "uses_default_features", "features", "target", "rename", "registry", "path", "public", "artifact",
        ],
        &[],
    ),
    (
        "target",
        &["name", "kind", "crate_types", "required-features", "required_features", "src_path", "edition", "doctest", "test", "doc"],
        &[],
    ),
    ("resolve", &["nodes", "root"], &[("nodes", "node")]),
    ("node", &["id", "deps", "dependencies", "features", "unit_kind"], &[("deps", "dep")]),
    ("dep", &["name", "pkg", "dep_kinds", "bindep_target"], &[("dep_kinds", "kind")]),
    ("kind", &["kind", "target", "extern_name", "artifact"], &[]),
];

/// Fields nobody knows of yet, anywhere
fn grow(j: &mut J, what: &str, rate: u32, r: &mut Rng) {
    match j {
        J::Arr(v) => v.iter_mut().for_each(|j| grow(j, what, rate, r)),
        J::Obj(v) => {
            let (_, known, inner) = OBJECTS.iter().find(|(n, ..)| *n == what).expect("an object");
            for (k, j) in v.iter_mut() {
                if let Some((_, what)) = inner.iter().find(|(n, _)| n == k) {
                    grow(j, what, rate, r);
                }
            }
            while r.pct(rate) {
                let k = match r.below(3) {
                    0 => *r.pick(&[
                        "extern_name", "package", "package_id", "krate", "crate_name", "renamed", "version_req", "opt", "feature", "default", "default_features", "lib",
                        "is_optional", "dev", "build", "cfg", "platform", "compile_target", "bin_name", "Name", "ID", "", "members", "graph", "schema", "url", "src", "priority",
                    ]),
                    // ... among them what other objects have
                    _ => {
                        let (_, other, _) = r.pick(OBJECTS);
                        *r.pick(other)
                    }
                };
                if known.contains(&k) || v.iter().any(|(n, _)| n == k) {
                    continue;
                }
                let value = match r.below(7) {
                    0 => J::Null,
                    1 => J::Bool(r.pct(50)),
                    2 => J::Int(3),
                    3 => J::Arr(vec![s("x"), J::Null]),
                    4 => J::Arr(vec![]),
                    5 => obj(vec![("name", s("other")), ("id", J::Int(-1))]),
                    _ => s("other"),
                };
                let at = r.below(v.len() + 1);
                v.insert(at, (k.to_owned(), value));
            }
        }
        _ => {}
    }
}

/// What `--no-deps` leaves of a document
pub fn forget_deps(doc: &mut J) {
    let members = match doc.get("workspace_members") {
        Some(J::Arr(v)) => v.clone(),
        _ => Vec::new(),
    };
    if let Some(J::Arr(p)) = doc.get_mut("packages") {
        p.retain(|p| p.get("id").is_some_and(|i| members.contains(i)));
    }
    if let Some(r) = doc.get_mut("resolve") {
        *r = J::Null;
    }
}
