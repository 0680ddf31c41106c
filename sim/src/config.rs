//! Configurations of the builder: drawn, and applied to the real one.

use crate::cfg;
use crate::cargo::pkg_source;
use crate::model::{Config, Filter, Sc, Spec};
use crate::rng::Rng;
use crate::world::{Kind, Request, Src, World};
use krates::{Builder, Scope};

pub fn request(w: &World, r: &mut Rng) -> Request {
    let mut names: Vec<String> = w
        .members
        .iter()
        .flat_map(|m| w.pkgs[*m].features.keys().cloned())
        .collect();
    names.sort();
    names.dedup();
    // cargo takes this for a mistake
    let hidden = |m: usize, n: &str| !w.pkgs[m].has_feature(n) && w.pkgs[m].deps.iter().any(|d| d.optional && d.key == n);
    names.retain(|n| !w.members.iter().any(|m| hidden(*m, n)));
    let mut features: Vec<String> = Vec::new();
    if r.pct(60) {
        for n in &names {
            if r.pct(40) {
                features.push(n.clone());
            }
        }
    }
    Request {
        at: r.pct(35).then(|| *r.pick(&w.members)),
        all_features: r.pct(25),
        no_default: r.pct(30),
        features,
    }
}

pub fn draw_spec(w: &World, r: &mut Rng) -> Spec {
    let k = r.below(w.pkgs.len());
    let p = &w.pkgs[k];
    let name = p.name.clone();
    let version = p.version.clone();
    let url = match &p.src {
        Src::Path => None,
        Src::Git { url, .. } => Some(url.clone()),
        s => pkg_source(s).map(|s| s.split_once('+').unwrap().1.to_owned()),
    }
    // krates takes no url that ends so
    .filter(|u| !u.ends_with('/'))
    // a url says nothing of packages that have none
    .filter(|_| !w.pkgs.iter().any(|q| q.name == name && q.src == Src::Path));
    let last_is_name = url.as_ref().is_some_and(|u| u.rsplit('/').next() == Some(name.as_str()));
    match (r.below(6), url) {
        (0, _) | (4, None) | (5, None) | (3, None) => Spec { text: name.clone(), name, version: None, url: None },
        (1, _) => Spec { text: format!("{name}:{version}"), name, version: Some(version), url: None },
        (2, _) => Spec { text: format!("{name}@{version}"), name, version: Some(version), url: None },
        (3, Some(u)) => Spec {
            text: format!("{u}#{name}@{version}"),
            name,
            version: Some(version),
            url: Some(u),
        },
        (4, Some(u)) if last_is_name => Spec { text: u.clone(), name, version: None, url: Some(u) },
        (5, Some(u)) if last_is_name => Spec {
            text: format!("{u}#{version}"),
            name,
            version: Some(version),
            url: Some(u),
        },
        (_, Some(u)) => Spec { text: format!("{u}#{name}"), name, version: None, url: Some(u) },
        (_, None) => unreachable!(),
    }
}

pub fn draw(w: &World, r: &mut Rng) -> Config {
    let mut c = Config {
        workspace: r.pct(30),
        ..Default::default()
    };
    if r.pct(45) {
        for _ in 0..r.range(1, 2) {
            c.ignore.push((*r.pick(&Kind::ALL), *r.pick(&[Sc::Workspace, Sc::NonWorkspace, Sc::All, Sc::All])));
        }
    }
    if r.pct(45) {
        for _ in 0..r.range(1, 3) {
            let t = match r.below(10) {
                0 => *r.pick(cfg::UNKNOWN),
                1 => cfg::PARSED[0].triple,
                _ => r.pick(cfg::BUILTIN).triple,
            };
            let unspecified = w
                .pkgs
                .iter()
                .flat_map(|p| &p.deps)
                .filter_map(|d| d.target.as_ref())
                .any(|d| !cfg::specified(d, t));
            if unspecified {
                continue;
            }
            let mut tf: Vec<String> = Vec::new();
            for f in ["atomics", "sse", "sse4.1"] {
                if r.pct(20) {
                    tf.push(f.to_owned());
                }
            }
            r.shuffle(&mut tf);
            c.targets.push((t.to_owned(), tf));
        }
    }
    if r.pct(30) {
        for _ in 0..r.range(1, 2) {
            c.exclude.push(draw_spec(w, r));
        }
    }
    if r.pct(25) {
        for _ in 0..r.range(1, 2) {
            c.filters.push(match r.below(6) {
                0 => Filter::Root,
                1 => Filter::Other,
                _ => Filter::Pkg(*r.pick(&w.members)),
            });
        }
    }
    c
}

pub fn scope(s: Sc) -> Scope {
    match s {
        Sc::Workspace => Scope::Workspace,
        Sc::NonWorkspace => Scope::NonWorkspace,
        Sc::All => Scope::All,
    }
}

/// One setting of a builder; they may be made in any order
#[derive(Clone, Debug)]
pub enum Op {
    Ignore(Kind, Sc),
    Workspace(bool),
    Target(String, Vec<String>),
    Exclude(String),
    Include(Vec<String>),
}

pub fn ops(w: &World, c: &Config, r: &mut Rng) -> Vec<Op> {
    let mut v = Vec::new();
    for (k, s) in &c.ignore {
        v.push(Op::Ignore(*k, *s));
    }
    for (t, f) in &c.targets {
        v.push(Op::Target(t.clone(), f.clone()));
    }
    for s in &c.exclude {
        v.push(Op::Exclude(s.text.clone()));
    }
    let paths: Vec<String> = c
        .filters
        .iter()
        .map(|f| {
            let dir = match f {
                Filter::Pkg(p) => w.pkgs[*p].dir.clone(),
                Filter::Root => w.ws_root.clone(),
                Filter::Other => "/sim/nowhere/at-all".to_owned(),
            };
            if r.pct(50) { dir } else { format!("{dir}/Cargo.toml") }
        })
        .collect();
    if !paths.is_empty() {
        if r.pct(50) {
            v.push(Op::Include(paths));
        } else {
            v.extend(paths.into_iter().map(|p| Op::Include(vec![p])));
        }
    }
    if c.workspace || r.pct(20) {
        v.push(Op::Workspace(c.workspace));
    }
    r.shuffle(&mut v);
    v
}

pub fn apply(b: &mut Builder, op: &Op) {
    match op {
        Op::Ignore(k, s) => {
            b.ignore_kind(k.dep_kind(), scope(*s));
        }
        Op::Workspace(v) => {
            b.workspace(*v);
        }
        Op::Target(t, f) => {
            b.include_targets(std::iter::once((t.as_str(), f.clone())));
        }
        Op::Exclude(s) => {
            b.exclude(std::iter::once(s.parse().expect("a valid spec")));
        }
        Op::Include(p) => {
            b.include_workspace_crates(p);
        }
    }
}

pub fn builder(ops: &[Op]) -> Builder {
    let mut b = Builder::new();
    for op in ops {
        apply(&mut b, op);
    }
    b
}
