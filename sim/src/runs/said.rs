//! C17: what a decoded document answers about the workspace it reports on, whoever asks, and
//! whatever has become of the workspace, the cargo and the files since.

use super::graph::{Chunks, Route, Step, install, scene_with, work};
use super::paper::{self, From};
use crate::doc;
use crate::json::{J, s};
use crate::kernel;
use crate::rng::Rng;
use crate::sim::Cx;
use krates::cm::{self, CrateType, Edition, Metadata, MetadataCommand, PackageId, TargetKind};
use serde_json::Value;
use std::collections::BTreeSet;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::Path;
use std::sync::{Arc, Mutex};

/// A document somebody has acquired
struct Report {
    who: usize,
    how: &'static str,
    md: Metadata,
    /// what cargo said
    doc: Value,
}

#[derive(Debug)]
struct Of {
    license_file: Option<String>,
    readme: Option<String>,
    crates_io: Option<bool>,
    source: Option<String>,
    id: String,
    edition: String,
    kinds: Vec<String>,
    targets: Vec<([bool; 7], String)>,
}

/// What was answered. Packages are named by their place in the document.
struct Answers {
    root: Option<usize>,
    members: Vec<usize>,
    defaults: Option<Vec<usize>>,
    default_ids: Option<Vec<String>>,
    by_id: Vec<(String, Option<usize>)>,
    of: Vec<Of>,
}

struct Asked {
    who: usize,
    when: &'static str,
    of: Arc<Report>,
    got: Answers,
}

const NAMES: [&str; 7] = ["lib", "bin", "example", "test", "bench", "custom-build", "proc-macro"];

fn place(md: &Metadata, p: &cm::Package) -> usize {
    md.packages.iter().position(|q| std::ptr::eq(p, q)).unwrap_or(usize::MAX)
}

fn places(md: &Metadata, v: Vec<&cm::Package>) -> Vec<usize> {
    let mut v: Vec<usize> = v.into_iter().map(|p| place(md, p)).collect();
    v.sort_unstable();
    v
}

fn ask(md: &Metadata, r: &mut Rng) -> Answers {
    let mut ids: Vec<PackageId> = md.packages.iter().map(|p| p.id.clone()).collect();
    ids.extend(md.workspace_members.iter().cloned());
    if let Some(res) = &md.resolve {
        ids.extend(res.nodes.iter().map(|n| n.id.clone()));
    }
    ids.sort();
    ids.dedup();
    ids.push(PackageId { repr: "no such package".to_owned() });
    if let Some(i) = ids.first().map(|i| &i.repr[..]).filter(|i| i.is_ascii() && i.len() > 1) {
        let short = PackageId { repr: i[..i.len() - 1].to_owned() };
        ids.push(short);
    }
    r.shuffle(&mut ids);
    ids.truncate(12);
    let root = kernel::exposed(|| md.root_package()).map(|p| place(md, p));
    kernel::step("asked");
    let members = places(md, kernel::exposed(|| md.workspace_packages()));
    kernel::step("asked");
    let defaults = catch_unwind(AssertUnwindSafe(|| kernel::exposed(|| md.workspace_default_packages()))).ok().map(|v| places(md, v));
    let default_ids = catch_unwind(AssertUnwindSafe(|| md.workspace_default_members.iter().map(ToString::to_string).collect())).ok();
    kernel::step("asked");
    let by_id = ids
        .into_iter()
        .map(|i| {
            let p = catch_unwind(AssertUnwindSafe(|| kernel::exposed(|| place(md, &md[&i])))).ok();
            (i.repr, p)
        })
        .collect();
    kernel::step("asked");
    let of = md
        .packages
        .iter()
        .map(|p| {
            kernel::exposed(|| Of {
                license_file: p.license_file().map(|f| f.to_string()),
                readme: p.readme().map(|f| f.to_string()),
                crates_io: p.source.as_ref().map(cm::Source::is_crates_io),
                source: p.source.as_ref().map(ToString::to_string),
                id: p.id.to_string(),
                edition: p.edition.to_string(),
                kinds: p.dependencies.iter().map(|d| d.kind.to_string()).collect(),
                targets: p
                    .targets
                    .iter()
                    .map(|t| {
                        let is = [t.is_lib(), t.is_bin(), t.is_example(), t.is_test(), t.is_bench(), t.is_custom_build(), t.is_proc_macro()];
                        (is, t.edition.as_str().to_owned())
                    })
                    .collect(),
            })
        })
        .collect();
    Answers { root, members, defaults, default_ids, by_id, of }
}

fn text<'a>(v: &'a Value, k: &str) -> Option<&'a str> {
    v[k].as_str()
}

fn list(v: &Value) -> impl Iterator<Item = &Value> {
    v.as_array().into_iter().flatten()
}

/// Whether two paths are the same, however they are spelled
fn same_path(a: &str, b: &Path) -> bool {
    Path::new(a) == b
}

/// What an answer is, by the document; the first that is not so
fn wrong(a: &Answers, d: &Value) -> Option<(&'static str, String)> {
    let pkgs: Vec<&Value> = list(&d["packages"]).collect();
    let with = |id: &str| -> Vec<usize> { (0..pkgs.len()).filter(|n| text(pkgs[*n], "id") == Some(id)).collect() };
    let named = |v: &Value| -> Vec<usize> {
        let ids: BTreeSet<&str> = list(v).filter_map(Value::as_str).collect();
        (0..pkgs.len()).filter(|n| text(pkgs[*n], "id").is_some_and(|i| ids.contains(i))).collect()
    };
    let one_of = |got: Option<usize>, of: &[usize]| got.map_or(of.is_empty(), |g| of.contains(&g));
    let name = |n: Option<usize>| n.map_or_else(|| "none".to_owned(), |n| pkgs.get(n).map_or_else(|| "a stranger".to_owned(), |p| p["id"].to_string()));
    // the root
    let roots = if d["resolve"].is_null() {
        let m = Path::new(text(d, "workspace_root").unwrap_or("")).join("Cargo.toml");
        let by = |f: &dyn Fn(&str) -> bool| -> Vec<usize> { (0..pkgs.len()).filter(|n| f(text(pkgs[*n], "manifest_path").unwrap_or(""))).collect() };
        let v = by(&|p| same_path(p, &m));
        // unless the spelling decides
        (v == by(&|p| Some(p) == m.to_str())).then_some(v)
    } else {
        Some(text(&d["resolve"], "root").map(with).unwrap_or_default())
    };
    if let Some(v) = roots
        && !one_of(a.root, &v)
    {
        return Some(("root", format!("the root package is {}, not one of {v:?}", name(a.root))));
    }
    let v = named(&d["workspace_members"]);
    if a.members != v {
        return Some(("members", format!("the packages of the workspace are {:?}, not {v:?}", a.members)));
    }
    match (&a.defaults, d["workspace_default_members"].is_null()) {
        (None, true) => {}
        (Some(v), true) if v.is_empty() && pkgs.is_empty() => {}
        (Some(v), true) => return Some(("defaults", format!("the default packages are {v:?}, but cargo did not say"))),
        (None, false) => return Some(("defaults", "no default packages, though cargo said".to_owned())),
        (Some(got), false) => {
            let v = named(&d["workspace_default_members"]);
            if *got != v {
                return Some(("defaults", format!("the default packages are {got:?}, not {v:?}")));
            }
        }
    }
    let ids: Option<Vec<String>> = d["workspace_default_members"].as_array().map(|v| v.iter().filter_map(Value::as_str).map(str::to_owned).collect());
    if a.default_ids != ids {
        return Some(("defaults", format!("the default members are {:?}, not {ids:?}", a.default_ids)));
    }
    for (id, got) in &a.by_id {
        let v = with(id);
        if !one_of(*got, &v) {
            return Some(("index", format!("by {id:?} there is {}, not one of {v:?}", name(*got))));
        }
    }
    if a.of.len() != pkgs.len() {
        return Some(("packages", format!("{} packages, not {}", a.of.len(), pkgs.len())));
    }
    for (o, p) in a.of.iter().zip(&pkgs) {
        let at = |t: String| format!("{}: {t}", o.id);
        if Some(&o.id[..]) != text(p, "id") {
            return Some(("id", at(format!("its id is {}", p["id"]))));
        }
        let m = Path::new(text(p, "manifest_path").unwrap_or(""));
        if let Some(dir) = m.parent() {
            for (what, got) in [("license_file", &o.license_file), ("readme", &o.readme)] {
                let want = text(p, what).map(|f| dir.join(f));
                let same = match (got, &want) {
                    (Some(g), Some(w)) => same_path(g, w),
                    (None, None) => true,
                    _ => false,
                };
                if !same {
                    return Some(("path", at(format!("the {what} is {got:?}, not {want:?}"))));
                }
            }
        }
        let src = text(p, "source");
        if o.source.as_deref() != src {
            return Some(("source", at(format!("it is of {:?}, not {src:?}", o.source))));
        }
        let cio = src.map(|s| s == crate::world::CRATES_IO);
        if o.crates_io != cio {
            return Some(("crates.io", at(format!("it is of crates.io: {:?}, of {src:?}", o.crates_io))));
        }
        if Some(&o.edition[..]) != text(p, "edition") {
            return Some(("edition", at(format!("edition {} for {}", o.edition, p["edition"]))));
        }
        let kinds: Vec<&str> = list(&p["dependencies"]).filter_map(|d| text(d, "kind")).collect();
        if o.kinds != kinds {
            return Some(("kinds", at(format!("dependencies of {:?}, not {kinds:?}", o.kinds))));
        }
        let targets: Vec<&Value> = list(&p["targets"]).collect();
        if targets.len() != o.targets.len() {
            return Some(("targets", at(format!("{} targets, not {}", o.targets.len(), targets.len()))));
        }
        for (t, (is, edition)) in targets.iter().zip(&o.targets) {
            let want = NAMES.map(|n| list(&t["kind"]).any(|k| k == n));
            if *is != want {
                return Some(("target", at(format!("{:?} is {is:?} of {NAMES:?}, not {want:?}", t["kind"]))));
            }
            if Some(&edition[..]) != text(t, "edition") {
                return Some(("edition", at(format!("edition {edition} for {}", t["edition"]))));
            }
        }
    }
    None
}

/// Names of kinds, types and editions, read on their own, are what they are in the document
fn words(md: &Metadata, d: &Value) -> Option<String> {
    for (p, v) in md.packages.iter().zip(list(&d["packages"])) {
        let e: Option<Edition> = text(v, "edition").and_then(|e| e.parse().ok());
        if e != Some(p.edition) {
            return Some(format!("{} is read as edition {e:?}", v["edition"]));
        }
        for (t, v) in p.targets.iter().zip(list(&v["targets"])) {
            let k: Vec<Option<TargetKind>> = list(&v["kind"]).map(|k| k.as_str().and_then(|k| k.parse().ok())).collect();
            if !k.iter().copied().eq(t.kind.iter().copied().map(Some)) {
                return Some(format!("{} is read as {k:?}", v["kind"]));
            }
            let c: Vec<Option<CrateType>> = list(&v["crate_types"]).map(|k| k.as_str().and_then(|k| k.parse().ok())).collect();
            if !c.iter().copied().eq(t.crate_types.iter().copied().map(Some)) {
                return Some(format!("{} is read as {c:?}", v["crate_types"]));
            }
        }
    }
    None
}

/// Places packages come from, of which none is crates.io
const SOURCES: &[&str] = &[
    "git+https://github.com/rust-lang/crates.io-index#0123456",
    "git+https://github.com/rust-lang/crates.io-index",
    "sparse+https://index.crates.io/",
    "sparse+https://github.com/rust-lang/crates.io-index",
    "registry+https://github.com/rust-lang/crates.io-index-mirror",
    "registry+https://github.com/rust-lang/crates.io-index.git",
    "registry+http://github.com/rust-lang/crates.io-index",
    "registry+https://github.com/rust-lang/crates.io",
    "REGISTRY+https://github.com/rust-lang/crates.io-index",
    "registry+https://mirror.example/registry+https://github.com/rust-lang/crates.io-index",
];

/// Changes of a document of which a cargo is capable
fn vary(d: &mut J, r: &mut Rng) {
    let J::Obj(top) = d else { return };
    if r.pct(20) && let Some((_, J::Arr(v))) = top.iter_mut().find(|f| f.0 == "workspace_default_members") {
        let n = r.below(v.len() + 1);
        r.shuffle(v);
        v.truncate(n);
    }
    let Some((_, J::Arr(pkgs))) = top.iter_mut().find(|f| f.0 == "packages") else { return };
    for p in pkgs {
        let J::Obj(v) = p else { continue };
        for k in ["readme", "license_file"] {
            if r.pct(25) {
                v.retain(|f| f.0 != k);
                let f = *r.pick(&["README.md", "../README.md", "/sim/shared/LICENSE", "docs/r.md", "./R", "a/../b", "\u{e9}", ".", ""]);
                v.push((k.to_owned(), s(f)));
            }
        }
        if let Some((_, src)) = v.iter_mut().find(|f| f.0 == "source")
            && *src != J::Null
            && r.pct(8)
        {
            *src = s(*r.pick(SOURCES));
        }
        if let Some((_, J::Arr(t))) = v.iter_mut().find(|f| f.0 == "targets")
            && !t.is_empty()
            && r.pct(10)
            && let J::Obj(t) = { let n = r.below(t.len()); &mut t[n] }
            && let Some((_, J::Arr(k))) = t.iter_mut().find(|f| f.0 == "kind")
            && !k.is_empty()
            && k[0] != s("custom-build")
        {
            *k = ["cdylib", "lib", "rlib", "staticlib", "dylib"].into_iter().filter(|_| r.pct(50)).map(s).collect();
            r.shuffle(k);
        }
    }
}

pub fn c17(cx: &mut Cx) {
    let mut sc = scene_with(cx, 3, &mut |_, j, r| j.want.no_deps = r.pct(35));
    let mut pr = cx.rng("plan17");
    for v in &mut sc.plan {
        if pr.pct(25) {
            let at = pr.below(v.len() + 1);
            v.insert(at, Step::Install(super::process::any_peer(&mut pr)));
        }
    }
    let mut er = cx.rng("edit");
    let (rich, odd) = (er.pct(40), er.pct(20));
    sc.host.lock().unwrap().edit = Some(Box::new(move |d, _| {
        vary(d, &mut er);
        if rich {
            paper::enrich(d, &mut er);
        }
        if odd {
            paper::odd(d, &mut er);
        }
    }));
    let mut k = cx.kernel("sched", sc.faults.clone());
    let w = sc.state(0);
    w.layout(&mut k.fs);
    k.spawner = Some(crate::peer::Host::spawner(&sc.host));
    let pool: Arc<Mutex<Vec<Arc<Report>>>> = Arc::default();
    let mut jobs: Vec<Box<dyn FnOnce() -> Vec<Asked> + Send>> = Vec::new();
    for (c, steps) in sc.plan.iter().enumerate() {
        let (steps, host, w, pool) = (steps.clone(), sc.host.clone(), w.clone(), pool.clone());
        let mut r = cx.rng(&format!("asks{c}"));
        jobs.push(Box::new(move || {
            let mut out = Vec::new();
            for st in &steps {
                match st {
                    Step::Work(n) => work(&host, *n),
                    Step::Install(p) => install(&host, *p),
                    Step::Relink(_) => {}
                    Step::Build(j) => {
                        let got = match j.route {
                            Route::Build | Route::Plain | Route::Exec => {
                                let first = kernel::quiet(|| kernel::with(|k| k.spawns.len()));
                                let md = kernel::exposed(|| MetadataCommand::from(j.want.cmd(&w)).exec());
                                kernel::quiet(|| {
                                    let pid = kernel::with(|k| k.spawns[first..].iter().find(|s| s.client == c).map(|s| s.pid));
                                    let doc = pid.and_then(|p| host.lock().unwrap().docs.iter().find(|d| d.0 == p).map(|d| d.1.clone()));
                                    md.ok().zip(doc).map(|(m, d)| (m, d, "from the process"))
                                })
                            }
                            _ => kernel::quiet(|| {
                                let fs = kernel::with(|k| k.fs.clone());
                                host.lock().unwrap().stored(&j.want, &fs).ok()
                            })
                            .and_then(|(_, d)| {
                                let b = d.print(j.style, &mut Rng::new(j.seed)).into_bytes();
                                let from = *r.pick(&[From::Str, From::Slice, From::Stream, From::Buffered, From::Value, From::Parse]);
                                let ch = Chunks::new(b.clone(), Rng::new(j.seed));
                                let md: Option<Metadata> = match from {
                                    From::Parse => MetadataCommand::parse(std::str::from_utf8(&b).unwrap()).ok(),
                                    _ => paper::decode_as(from, &b, ch).ok(),
                                };
                                md.map(|m| (m, d, "from a text"))
                            }),
                        };
                        let Some((mut md, d, mut how)) = got else { continue };
                        kernel::step("metadata acquired");
                        match r.below(6) {
                            5 => {
                                let copy = kernel::exposed(|| md.clone());
                                drop(std::mem::replace(&mut md, copy));
                                how = "a copy";
                            }
                            4 => {
                                let again = serde_json::to_string(&md).ok().and_then(|t| serde_json::from_str(&t).ok());
                                let Some(m) = again else { continue };
                                md = m;
                                how = "kept and read again";
                            }
                            _ => {}
                        }
                        kernel::quiet(|| {
                            if let Ok(doc) = doc::canon(&d.value()) {
                                pool.lock().unwrap().push(Arc::new(Report { who: c, how, md, doc }));
                            }
                        });
                    }
                }
                // the files are not where they were
                if r.pct(30) {
                    kernel::step("files change");
                    kernel::quiet(|| {
                        let f = pool.lock().unwrap().last().cloned();
                        let files: Vec<String> = f.iter().flat_map(|f| f.md.packages.iter()).filter_map(|p| p.readme()).map(|p| p.to_string()).filter(|p| p.starts_with("/sim/")).collect();
                        if !files.is_empty() {
                            let p = r.pick(&files).clone();
                            kernel::with(|k| {
                                if r.pct(50) { k.fs.link(&p, "/sim/elsewhere") } else { k.fs.file(&p) }
                                k.count("fault.files-changed");
                            });
                        }
                    });
                }
                for _ in 0..*r.pick(&[0, 1, 1, 2]) {
                    let of = kernel::quiet(|| {
                        let v = pool.lock().unwrap();
                        (!v.is_empty()).then(|| v[r.below(v.len())].clone())
                    });
                    let Some(of) = of else { break };
                    let got = ask(&of.md, &mut r);
                    kernel::step("answered");
                    let when = match st {
                        Step::Build(_) => "",
                        _ => ", after things changed",
                    };
                    kernel::quiet(|| out.push(Asked { who: c, when, of, got }));
                }
            }
            out
        }));
    }
    let (_, res) = cx.run(k, jobs);
    let (mut asked, mut others) = (0u64, 0u64);
    for (c, v) in res.into_iter().enumerate() {
        let v = match v {
            Ok(v) => v,
            Err(p) => return cx.fail("panic", format!("client {c} panicked: {p}")),
        };
        for a in v {
            asked += 1;
            others += u64::from(a.who != a.of.who);
            cx.out.evals += 1;
            if let Some((class, t)) = wrong(&a.got, &a.of.doc) {
                return cx.fail(class, format!("client {} of the document of client {} ({}{}): {}", a.who, a.of.who, a.of.how, a.when, t.chars().take(300).collect::<String>()));
            }
            if let Some(t) = words(&a.of.md, &a.of.doc) {
                return cx.fail("words", t);
            }
            cx.reached(&format!("{:?} {:?} {:?}", a.got.root, a.got.members, a.got.defaults));
            if a.of.doc["resolve"].is_null() {
                cx.count("asked.unresolved", 1);
            }
            if a.got.defaults.is_none() {
                cx.count("asked.old-cargo", 1);
            }
            if a.got.root.is_none() {
                cx.count("asked.no-root", 1);
            }
        }
    }
    cx.count("asked.all", asked);
    cx.count("asked.of-others", others);
    cx.out.nontrivial = asked > 0;
    cx.out.sample = format!("{asked} times asked, {others} of them about a document somebody else acquired");
}
