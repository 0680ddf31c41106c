//! Prints drawn worlds, requests, and what the simulated cargo answers, a line of JSON each, for
//! `tools/calibrate.py`, which asks the real cargo the same.

use crate::cargo::{metadata, resolve, Peer};
use crate::config;
use crate::json::{obj, opt, s, strs, J};
use crate::rng::Rng;
use crate::world::{GitRef, Kind, Request, Shape, Src, World};

fn src(v: &Src) -> J {
    match v {
        Src::Path => obj(vec![("path", J::Bool(true))]),
        Src::CratesIo => obj(vec![("crates_io", J::Bool(true))]),
        Src::Registry(u) => obj(vec![("registry", s(u))]),
        Src::Git { url, rf, commit } => {
            let (k, v) = match rf {
                GitRef::Default => ("default", ""),
                GitRef::Branch(b) => ("branch", b.as_str()),
                GitRef::Tag(b) => ("tag", b.as_str()),
                GitRef::Rev(b) => ("rev", b.as_str()),
            };
            obj(vec![("git", s(url)), ("ref", s(k)), ("value", s(v)), ("commit", s(commit))])
        }
    }
}

fn world(w: &World) -> J {
    let num = |n: usize| J::Int(n as i64);
    let pkgs = w
        .pkgs
        .iter()
        .map(|p| {
            let deps = p
                .deps
                .iter()
                .map(|d| {
                    obj(vec![
                        ("to", num(d.to)),
                        ("key", s(&d.key)),
                        ("kind", s(match d.kind {
                            Kind::Normal => "dependencies",
                            Kind::Dev => "dev-dependencies",
                            Kind::Build => "build-dependencies",
                        })),
                        ("target", opt(&d.target)),
                        ("optional", J::Bool(d.optional)),
                        ("uses_default", J::Bool(d.uses_default)),
                        ("features", strs(&d.features)),
                        ("req", s(&d.req)),
                        ("patched", J::Bool(d.patched)),
                        ("explicit", J::Bool(d.explicit)),
                    ])
                })
                .collect();
            obj(vec![
                ("name", s(&p.name)),
                ("version", s(&p.version)),
                ("src", src(&p.src)),
                ("stands_for", p.stands_for.as_ref().map_or(J::Null, src)),
                ("dir", s(&p.dir)),
                ("lib_name", opt(&p.lib_name)),
                ("lib_kinds", J::Arr(p.lib_kinds.iter().map(|k| s(*k)).collect())),
                ("has_lib", J::Bool(p.has_lib)),
                ("deps", J::Arr(deps)),
                (
                    "features",
                    J::Obj(p.features.iter().map(|(f, v)| (f.clone(), J::Arr(v.iter().map(|v| s(v.text())).collect()))).collect()),
                ),
            ])
        })
        .collect();
    // What a lock file for every feature holds
    let all = resolve(w, &Request { all_features: true, ..Default::default() });
    let lock = (0..w.pkgs.len())
        .map(|k| {
            let mut to: Vec<usize> = all.decls[k].iter().map(|d| w.pkgs[k].deps[*d].to).collect();
            to.sort();
            to.dedup();
            if all.nodes.contains(&k) { J::Arr(to.into_iter().map(num).collect()) } else { J::Null }
        })
        .collect();
    obj(vec![
        ("pkgs", J::Arr(pkgs)),
        ("members", J::Arr(w.members.iter().map(|m| num(*m)).collect())),
        ("default_members", w.default_members.as_ref().map_or(J::Null, |v| J::Arr(v.iter().map(|m| num(*m)).collect()))),
        ("root_pkg", w.root_pkg.map_or(J::Null, num)),
        ("ws_root", s(&w.ws_root)),
        ("lock", J::Arr(lock)),
    ])
}

/// `dir` takes the place of the root of the simulated file system
pub fn dump(seed: u64, n: u64, dir: &str) {
    for i in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(0x9e37_79b9).wrapping_add(i));
        let shape = Shape::draw(&mut r);
        let mut w = World::generate(&mut r, &shape);
        if r.pct(40) {
            w = w.evolve(&mut r);
        }
        w.ws_root = format!("{dir}/{i}{}", w.ws_root);
        for p in &mut w.pkgs {
            p.dir = format!("{dir}/{i}{}", p.dir);
        }
        let requests = (0..3)
            .map(|_| {
                let q = config::request(&w, &mut r);
                let doc = metadata(&w, &resolve(&w, &q), Peer::CURRENT, None);
                obj(vec![
                    ("at", q.at.map_or(J::Null, |a| J::Int(a as i64))),
                    ("all_features", J::Bool(q.all_features)),
                    ("no_default", J::Bool(q.no_default)),
                    ("features", strs(&q.features)),
                    ("doc", doc),
                ])
            })
            .collect();
        println!("{}", obj(vec![("world", world(&w)), ("requests", J::Arr(requests))]).plain());
    }
}
