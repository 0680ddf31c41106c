//! C08: a cargo that leaves features out, and an index that knows them, or not.

use super::graph::{Index, Step, doc_of, fate, Fate, graphs, observe, same_crates, same_features, scene_with, short};
use super::same;
use crate::cargo::Peer;
use crate::config;
use crate::doc;
use crate::json::J;
use crate::ledger::Ev;
use crate::observe::Seen;
use crate::rng::{Rng, hash_str};
use crate::sim::Cx;
use crate::world::{CRATES_IO, Fv, Pkg, Src, World};
use krates::index::{IndexKrate, IndexKrateVersion};
use krates::{Package, cm, semver::Version};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// The features cargo leaves out of what it says about a package
fn left_out(seed: u64, p: &Pkg) -> BTreeSet<String> {
    let mut r = Rng::new(seed ^ hash_str(&format!("{} {}", p.name, p.version)));
    if p.src != Src::CratesIo || r.pct(30) {
        return BTreeSet::new();
    }
    let rate = *r.pick(&[20, 50, 100]);
    p.features.keys().filter(|_| r.pct(rate)).cloned().collect()
}

fn forget(doc: &mut J, w: &World, seed: u64) {
    let Some(J::Arr(ps)) = doc.get_mut("packages") else { return };
    for p in ps {
        if p.get("source") != Some(&J::Str(CRATES_IO.to_owned())) {
            continue;
        }
        let (Some(J::Str(n)), Some(J::Str(v))) = (p.get("name").cloned(), p.get("version").cloned()) else { continue };
        let Some(k) = w.pkgs.iter().find(|k| k.src == Src::CratesIo && k.name == n && k.version == v) else { continue };
        let out = left_out(seed, k);
        if let Some(J::Obj(f)) = p.get_mut("features") {
            f.retain(|(k, _)| !out.contains(k));
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Knows {
    All,
    /// in the form the registry has it: without what is implied by optional dependencies
    Registry,
    Part,
    Others,
    NoVersions,
    Nothing,
    Unknown,
}

fn features_of(p: &Pkg, knows: Knows, out: &BTreeSet<String>, r: &mut Rng) -> BTreeMap<String, Vec<String>> {
    let optional = p.optional_keys();
    let named: BTreeSet<&String> = p
        .features
        .values()
        .flatten()
        .filter_map(|v| if let Fv::Simple(f) = v { Some(f) } else { None })
        .collect();
    let mut m = BTreeMap::new();
    for (k, v) in &p.features {
        let implied = optional.contains(k) && *v == [Fv::Dep(k.clone())];
        let known = match knows {
            Knows::Registry => !implied,
            // what is named without being there is taken for an optional dependency
            Knows::Part => (named.contains(k) && !implied) || r.pct(50),
            _ => true,
        };
        if known {
            m.insert(k.clone(), v.iter().map(Fv::text).collect());
        }
    }
    if r.pct(40) {
        m.insert("only-in-the-index".to_owned(), m.keys().next().cloned().filter(|_| r.pct(50)).into_iter().collect());
    }
    // the index may be at odds with what cargo did report; that is not to be believed
    for (k, v) in &mut m {
        if !out.contains(k) && r.pct(15) {
            if r.pct(50) {
                *v = Vec::new();
            } else {
                v.extend(p.features.keys().filter(|o| *o != k && r.pct(50)).cloned());
                v.extend(optional.iter().filter(|_| r.pct(30)).map(|o| format!("dep:{o}")));
                if r.pct(30) {
                    v.push("intruder".to_owned());
                }
            }
        }
    }
    m
}

/// Features that have no place anywhere
fn intruders(p: &Pkg, r: &mut Rng) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = p.features.keys().filter(|_| r.pct(60)).map(|k| (k.clone(), Vec::new())).collect();
    m.insert("intruder".to_owned(), Vec::new());
    m.insert("default".to_owned(), vec!["intruder".to_owned()]);
    m
}

pub fn draw(w: &World, seed: u64, r: &mut Rng) -> Index {
    let all_known = r.pct(40);
    let names: BTreeSet<&String> = w.pkgs.iter().map(|p| &p.name).collect();
    let mut m = BTreeMap::new();
    for n in names {
        let knows = if all_known {
            *r.pick(&[Knows::All, Knows::All, Knows::Registry])
        } else {
            *r.pick(&[
                Knows::All,
                Knows::All,
                Knows::Registry,
                Knows::Part,
                Knows::Others,
                Knows::NoVersions,
                Knows::Nothing,
                Knows::Unknown,
            ])
        };
        let mut versions = Vec::new();
        match knows {
            Knows::Unknown => continue,
            Knows::Nothing => {
                m.insert(n.clone(), None);
                continue;
            }
            Knows::NoVersions => {}
            _ => {
                for p in w.pkgs.iter().filter(|p| p.name == *n) {
                    let v = Version::parse(&p.version).unwrap();
                    let ours = p.src == Src::CratesIo;
                    let theirs = w.pkgs.iter().any(|o| o.name == *n && o.version == p.version && o.src == Src::CratesIo);
                    if ours && knows != Knows::Others {
                        let features = features_of(p, knows, &left_out(seed, p), r);
                        versions.push(IndexKrateVersion { version: v.clone(), features });
                    } else if !theirs {
                        // another package of that name
                        versions.push(IndexKrateVersion { version: v.clone(), features: intruders(p, r) });
                    }
                    for _ in 0..r.below(3) {
                        let mut o = v.clone();
                        match r.below(5) {
                            0 => o.patch += 1,
                            1 => o.minor += 1,
                            2 => o.major += 1,
                            3 if o.build.is_empty() => o.build = krates::semver::BuildMetadata::new("other").unwrap(),
                            3 => o.build = krates::semver::BuildMetadata::EMPTY,
                            _ if o.pre.is_empty() => o.pre = krates::semver::Prerelease::new("rc.9").unwrap(),
                            _ => o.pre = krates::semver::Prerelease::EMPTY,
                        }
                        if w.pkgs.iter().all(|p| p.name != *n || p.version != o.to_string()) {
                            versions.push(IndexKrateVersion { version: o, features: intruders(p, r) });
                        }
                    }
                }
                r.shuffle(&mut versions);
            }
        }
        m.insert(n.clone(), Some(IndexKrate { versions }));
    }
    if r.pct(20) {
        m.insert("nobody-asked".to_owned(), None);
    }
    Index(Arc::new(m))
}

/// What the index adds to the packages of a document
fn merged(doc: &Value, index: &Index) -> Value {
    let mut doc = doc.clone();
    for p in doc["packages"].as_array_mut().unwrap() {
        if p["source"] != json!(CRATES_IO) {
            continue;
        }
        let Some(Some(ik)) = index.0.get(p["name"].as_str().unwrap()) else { continue };
        let v = p["version"].as_str().unwrap();
        let Some(iv) = ik.versions.iter().find(|i| i.version.to_string() == v) else { continue };
        let f = p["features"].as_object_mut().unwrap();
        for (k, v) in &iv.features {
            if !f.contains_key(k) {
                f.insert(k.clone(), json!(v));
            }
        }
        let named: Vec<String> = f
            .values()
            .flat_map(|v| v.as_array().unwrap())
            .map(|v| v.as_str().unwrap())
            .filter(|v| !v.contains('/') && !v.starts_with("dep:") && !f.contains_key(*v))
            .map(str::to_owned)
            .collect();
        for n in named {
            f.insert(n.clone(), json!([format!("dep:{n}")]));
        }
    }
    doc
}

fn by_hand(doc: Value, w: &World, ops: &[config::Op]) -> Result<(Seen, BTreeSet<String>), String> {
    let md: cm::Metadata = serde_json::from_value(doc).map_err(|e| e.to_string())?;
    let mut filtered = BTreeSet::new();
    let g: super::graph::Graph = config::builder(ops)
        .build_with_metadata(md, |p: Package| {
            filtered.insert(p.id.repr.clone());
        })
        .map_err(|e| short(&e))?;
    Ok((observe(&g, w), filtered))
}

pub fn c08(cx: &mut Cx) {
    let seed = cx.rng("forgets").next();
    let mut sc = scene_with(cx, 3, &mut |w, j, r| {
        j.keep = true;
        if r.pct(90) {
            j.index = Some(draw(w, seed, r));
        }
    });
    // what was published does not change any more, so an index can lack it but not have it otherwise
    for p in &mut sc.plan {
        p.retain(|s| matches!(s, Step::Build(_)));
    }
    sc.host.lock().unwrap().edit = Some(Box::new(move |doc, w| forget(doc, w, seed)));
    let Some((k, all)) = sc.play(cx) else { return };
    for (c, v) in all.iter().enumerate() {
        for d in v {
            let j = sc.job(c, d.step);
            let asked: Vec<usize> =
                d.tab.events().iter().enumerate().filter(|e| matches!(e.1, Ev::Index(_))).map(|e| e.0).collect();
            let at = format!("client {c} step {} ({:?})", d.step, j.route);
            if j.index.is_some() && matches!(fate(&sc, d, j, &k.fs), Fate::Graph(..)) {
                let names: Option<BTreeSet<String>> = d.doc.as_ref().map(|d| {
                    d.value()["packages"].as_array().unwrap().iter().map(|p| p["name"].as_str().unwrap().to_owned()).collect()
                });
                if asked != [0] {
                    return cx.fail("asked", format!("{at}: the index was asked {} times, at {asked:?}", asked.len()));
                }
                if let (Some(Ev::Index(n)), Some(names)) = (d.tab.events().first(), names)
                    && *n != names
                {
                    return cx.fail("asked", format!("{at}: the index was asked for {n:?} instead of {names:?}"));
                }
            } else if asked.len() > usize::from(j.index.is_some()) {
                return cx.fail("asked", format!("{at}: the index was asked {} times", asked.len()));
            }
        }
    }
    let (mut repaired, mut whole) = (0, 0);
    graphs(cx, &sc, &k, &all, |cx, j, w, x, s, d| {
        let Some(said) = &d.doc else { return cx.fail("harness", "no document") };
        let said = said.value();
        let fixed = j.index.as_ref().map_or_else(|| said.clone(), |i| merged(&said, i));
        let full = doc_of(w, &k.fs, &j.want, Peer::CURRENT, None).map(|d| d.value()).unwrap_or_default();
        // what was handed out is what cargo and the index say together
        let want: BTreeMap<&str, Value> = fixed["packages"]
            .as_array()
            .unwrap()
            .iter()
            .map(|p| (p["id"].as_str().unwrap(), doc::package(p).expect("a package of ours")))
            .collect();
        for (id, v) in d.tab.contents() {
            if let Some(t) = doc::differ(&v, &want[id.as_str()]) {
                return cx.fail("package", format!("{id} is not what cargo and the index say: {t}"));
            }
            cx.out.evals += 1;
        }
        let (p, f) = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| by_hand(fixed.clone(), w, &j.ops))) {
            Ok(Ok(v)) => v,
            Ok(Err(t)) => return cx.fail("no-graph", format!("what cargo and the index say together gives {t}")),
            Err(e) => return cx.fail("panic", format!("on what cargo and the index say together: {}", crate::sim::panic_text(&*e))),
        };
        if let Some(t) = same::differ(w, &p, s) {
            return cx.fail("graph", format!("from what cargo and the index say together, and from the build: {t}"));
        }
        let got: BTreeSet<String> = d.filtered.iter().map(|p| p.id.repr.clone()).collect();
        if got != f {
            return cx.fail("filtered", format!("{got:?} instead of {f:?}"));
        }
        // nothing is missing any more: it has to be the graph of a cargo that left nothing out
        let feats = |d: &Value| -> BTreeMap<String, Value> {
            let mut m: BTreeMap<String, Value> = BTreeMap::new();
            for p in d["packages"].as_array().into_iter().flatten() {
                let mut f = p["features"].clone();
                if let Some(o) = f.as_object_mut() {
                    o.remove("only-in-the-index");
                }
                m.insert(format!("{} {} {}", p["name"], p["version"], p["source"]), f);
            }
            m
        };
        if feats(&said) != feats(&full) {
            repaired += 1;
        }
        if feats(&fixed) == feats(&full) {
            whole += 1;
            if let Err((c, t)) = same_crates(w, &x.e, s) {
                return cx.fail(c, format!("although the index knows everything, {t}"));
            }
            match same_features(w, &x.e, s) {
                Ok(n) => {
                    if n > 0 {
                        cx.count("note.implied", n);
                    }
                }
                Err((c, t)) => return cx.fail(c, format!("although the index knows everything, {t}")),
            }
        }
        cx.out.evals += (p.order.len() + p.edges.len()) as u64;
    });
    if repaired > 0 {
        cx.count("fault.features-left-out", repaired);
    }
    cx.count("outcome.whole", whole);
    cx.out.nontrivial = cx.out.nontrivial && repaired > 0;
}
