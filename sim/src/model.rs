//! The reference model: the graph a user must get for a world, a resolution and a
//! configuration, as the least fixpoint of the rules the documentation states.

use crate::cargo::Resolved;
use crate::world::{Fv, Kind, Src, World};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sc {
    Workspace,
    NonWorkspace,
    All,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub text: String,
    pub name: String,
    pub version: Option<String>,
    pub url: Option<String>,
}

/// The workspace filters a user sets, as what they denote
#[derive(Clone, Debug, PartialEq)]
pub enum Filter {
    /// the manifest, or directory, of a package
    Pkg(usize),
    /// the workspace's own manifest
    Root,
    /// some path that is none of them
    Other,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Config {
    pub ignore: Vec<(Kind, Sc)>,
    pub workspace: bool,
    pub filters: Vec<Filter>,
    pub targets: Vec<(String, Vec<String>)>,
    pub exclude: Vec<Spec>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Expect {
    pub roots: BTreeSet<usize>,
    pub present: BTreeSet<usize>,
    pub feats: Vec<BTreeSet<String>>,
    /// active declarations
    pub decls: Vec<BTreeSet<usize>>,
    /// features of dependencies that features of this package switch on
    pub toggled: Vec<BTreeSet<(usize, String)>>,
    /// (package, key): implicit features that are on for no other reason than a `key/feature`
    pub implied: BTreeSet<(usize, String)>,
}

impl Spec {
    pub fn matches(&self, w: &World, k: usize) -> bool {
        let p = &w.pkgs[k];
        if self.name != p.name {
            return false;
        }
        if self.version.as_ref().is_some_and(|v| *v != p.version) {
            return false;
        }
        let Some(url) = &self.url else { return true };
        match &p.src {
            Src::Path => true,
            Src::CratesIo => url == "https://github.com/rust-lang/crates.io-index",
            Src::Registry(u) => *url == u[u.find('+').unwrap() + 1..],
            Src::Git { url: u, .. } => url == u,
        }
    }
}

pub fn roots(w: &World, res: &Resolved, c: &Config) -> BTreeSet<usize> {
    let all: BTreeSet<usize> = w.members.iter().copied().collect();
    if c.filters.is_empty() {
        if !c.workspace && let Some(r) = res.root {
            return BTreeSet::from([r]);
        }
        return all;
    }
    if c.filters.len() == 1 {
        match &c.filters[0] {
            Filter::Root => return all,
            Filter::Pkg(p) if w.root_pkg == Some(*p) => return all,
            _ => {}
        }
    }
    all.into_iter()
        .filter(|m| {
            c.filters.iter().any(|f| match f {
                Filter::Pkg(p) => p == m,
                Filter::Root => w.root_pkg == Some(*m),
                Filter::Other => false,
            })
        })
        .collect()
}

/// Whether the configuration keeps a declaration, whatever features are on
fn survives(w: &World, c: &Config, k: usize, d: usize) -> bool {
    let dep = &w.pkgs[k].deps[d];
    let member = w.members.contains(&k);
    for (kind, sc) in &c.ignore {
        if *kind == dep.kind
            && match sc {
                Sc::All => true,
                Sc::Workspace => member,
                Sc::NonWorkspace => !member,
            }
        {
            return false;
        }
    }
    if let Some(t) = &dep.target {
        if c.targets.is_empty() {
            if !crate::cfg::possible(t) {
                return false;
            }
        } else if !c.targets.iter().any(|(tr, fs)| crate::cfg::applies(t, tr, fs)) {
            return false;
        }
    }
    true
}

pub fn expect(w: &World, res: &Resolved, c: &Config) -> Expect {
    let mut e = fixpoint(w, res, c, true);
    let lower = fixpoint(w, res, c, false);
    for k in e.present.clone() {
        for f in e.feats[k].difference(&lower.feats[k]) {
            e.implied.insert((k, f.clone()));
        }
    }
    e
}

fn fixpoint(w: &World, res: &Resolved, c: &Config, implied: bool) -> Expect {
    let n = w.pkgs.len();
    let excluded: BTreeSet<usize> = (0..n).filter(|k| c.exclude.iter().any(|s| s.matches(w, *k))).collect();
    let roots = roots(w, res, c);
    let mut e = Expect {
        roots: roots.clone(),
        present: roots.difference(&excluded).copied().collect(),
        feats: vec![BTreeSet::new(); n],
        decls: vec![BTreeSet::new(); n],
        toggled: vec![BTreeSet::new(); n],
        implied: BTreeSet::new(),
    };
    for r in &e.present {
        e.feats[*r] = res.feats[*r].clone();
    }
    loop {
        let before = e.clone();
        for k in before.present.iter().copied() {
            let p = &w.pkgs[k];
            // what the features that are on ask of the dependencies
            let mut on: BTreeSet<&str> = BTreeSet::new();
            let mut asks: BTreeMap<&str, BTreeSet<(bool, &str)>> = BTreeMap::new();
            for f in &before.feats[k] {
                for v in &p.features[f] {
                    match v {
                        Fv::Simple(g) => {
                            e.feats[k].insert(g.clone());
                        }
                        Fv::Dep(key) => {
                            on.insert(key);
                        }
                        Fv::Strong(key, df) => {
                            on.insert(key);
                            if p.deps.iter().any(|d| d.optional && d.key == *key) && p.has_feature(key) {
                                if implied || p.features[key] != [Fv::Dep(key.clone())] {
                                    e.feats[k].insert(key.clone());
                                }
                            }
                            asks.entry(key).or_default().insert((false, df));
                        }
                        Fv::Weak(key, df) => {
                            asks.entry(key).or_default().insert((true, df));
                        }
                    }
                }
            }
            for (i, d) in p.deps.iter().enumerate() {
                if d.kind == Kind::Dev && !w.members.contains(&k) {
                    continue;
                }
                if d.optional && !on.contains(d.key.as_str()) {
                    continue;
                }
                if excluded.contains(&d.to) || !survives(w, c, k, i) {
                    continue;
                }
                debug_assert!(res.decls[k].contains(&i));
                e.decls[k].insert(i);
                e.present.insert(d.to);
                let t = &w.pkgs[d.to];
                e.feats[d.to].extend(d.features.iter().cloned());
                if d.uses_default && t.has_feature("default") {
                    e.feats[d.to].insert("default".to_owned());
                }
                if let Some(a) = asks.get(d.key.as_str()) {
                    for (_, f) in a {
                        // What dependents ask of a member has no effect on its
                        // dev-dependencies, so there may be no such feature
                        if !res.feats[d.to].contains(*f) {
                            debug_assert!(d.kind == Kind::Dev);
                            continue;
                        }
                        e.feats[d.to].insert((*f).to_owned());
                        e.toggled[k].insert((d.to, (*f).to_owned()));
                    }
                }
            }
        }
        if e == before {
            return e;
        }
    }
}

/// The dependencies of `k` as (dependency, kind, target)
pub fn dep_edges(w: &World, e: &Expect, k: usize) -> BTreeSet<(usize, Kind, Option<String>)> {
    e.decls[k]
        .iter()
        .map(|d| {
            let d = &w.pkgs[k].deps[*d];
            (d.to, d.kind, d.target.clone())
        })
        .collect()
}
