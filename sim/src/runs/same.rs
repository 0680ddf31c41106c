//! C04, C15: the same workspace, told in other ways.

use super::graph::{Done, Graph, Job, Scene, Step, graphs, ids, plain, scene_with};
use super::process::any_peer;
use crate::cargo::{IdFormat, pkg_id, pkg_source};
use crate::config;
use crate::json::Style;
use crate::observe::{Seen, observe};
use crate::rng::Rng;
use crate::sim::Cx;
use crate::world::{Src, World};
use krates::{Node, Package, cm};
use std::collections::BTreeSet;

/// In what two observations of one world differ
pub fn differ(w: &World, a: &Seen, b: &Seen) -> Option<String> {
    let n = |k: usize| format!("{} {}", w.pkgs[k].name, w.pkgs[k].version);
    let list = |v: &[usize]| v.iter().map(|k| n(*k)).collect::<Vec<_>>().join(", ");
    if a.order != b.order {
        return Some(format!("the crates are [{}] and [{}]", list(&a.order), list(&b.order)));
    }
    for (k, f) in &a.feats {
        if b.feats.get(k) != Some(f) {
            return Some(format!("the features of {} are {f:?} and {:?}", n(*k), b.feats.get(k)));
        }
    }
    if a.deps != b.deps {
        let d = a.deps.symmetric_difference(&b.deps).next().unwrap();
        return Some(format!("one has, and one has not, the dependency of {} on {} as {:?} {:?}", n(d.0), n(d.1), d.2, d.3));
    }
    for (k, r) in &a.resolved {
        if b.resolved.get(k) != Some(r) {
            return Some(format!("dependency {} of {} is {r:?} and {:?}", k.1, n(k.0), b.resolved.get(k)));
        }
    }
    if a.edges != b.edges {
        let d = a.edges.iter().find(|(e, n)| b.edges.get(e) != Some(n));
        let d = d.or_else(|| b.edges.iter().find(|(e, n)| a.edges.get(e) != Some(n)));
        return Some(format!("the edge {:?} is in them {:?} and {:?} times", d.unwrap().0, a.edges.get(d.unwrap().0), b.edges.get(d.unwrap().0)));
    }
    if a.fnodes != b.fnodes {
        return Some(format!("the feature nodes are {:?} and {:?}", a.fnodes, b.fnodes));
    }
    if a.members != b.members {
        return Some(format!("the members are [{}] and [{}]", list(&a.members), list(&b.members)));
    }
    (a != b).then(|| "something differs".to_owned())
}

/// Everything about a graph, in the order it has it
pub fn dump(g: &Graph) -> String {
    let mut s = String::new();
    for n in g.graph().node_weights() {
        match n {
            Node::Krate { id, features, dep_mapping, .. } => s += &format!("{} {features:?} {dep_mapping:?}\n", id.repr),
            Node::Feature { krate_index, name } => s += &format!("{krate_index:?} {name}\n"),
        }
    }
    for e in g.graph().raw_edges() {
        s += &format!("{:?} {:?} {:?}\n", e.source(), e.target(), e.weight.edge);
    }
    s
}

fn filtered(w: &World, d: &Done) -> BTreeSet<usize> {
    let ids = ids(w);
    d.filtered.iter().map(|p| ids[&p.id.repr]).collect()
}

fn against_plain(cx: &mut Cx, sc: &Scene, fs: &crate::kernel::Fs, w: &World, j: &Job, s: &Seen, d: &Done) -> Option<Seen> {
    let _ = sc;
    match plain(w, fs, j) {
        Err(t) => {
            cx.fail("no-graph", format!("the plain document gives {t}, this one a graph"));
            None
        }
        Ok((p, f)) => {
            if let Some(t) = differ(w, &p, s) {
                cx.fail("differs", format!("from the plain document and from this one: {t}"));
            } else if f != filtered(w, d) {
                cx.fail("filtered", format!("from the plain document {f:?} are filtered, from this one {:?}", filtered(w, d)));
            }
            cx.out.evals += (p.order.len() + p.edges.len()) as u64;
            Some(p)
        }
    }
}

fn decoded(s: &str) -> String {
    let mut out = Vec::new();
    let mut b = s.bytes();
    while let Some(c) = b.next() {
        match c {
            b'%' => {
                let hex: String = b.by_ref().take(2).map(char::from).collect();
                out.push(u8::from_str_radix(&hex, 16).expect("an encoded byte"));
            }
            c => out.push(c),
        }
    }
    String::from_utf8(out).expect("text")
}

fn listed_order(w: &World, g: &Graph) -> Result<(), String> {
    let ids = ids(w);
    let key = |id: &str| {
        let k = ids[id];
        // the source as the identifier has it
        let src = match id.split_once(" (") {
            Some((_, s)) => s.trim_end_matches(')'),
            None => id.rsplit_once('#').map_or(id, |v| v.0),
        };
        let src = src.split('#').next().unwrap();
        // identifiers of the stable format encode the ref, it is decoded when they are read
        let src = match src.split_once('?') {
            Some((url, query)) if !id.contains(' ') && id.starts_with("git+") => format!("{url}?{}", decoded(query)),
            _ => src.to_owned(),
        };
        (w.pkgs[k].name.clone(), w.pkgs[k].version.clone(), src)
    };
    let all: Vec<_> = g.krates().map(|k| key(&k.pkg.id.repr)).collect();
    for v in all.windows(2) {
        if v[0] >= v[1] {
            return Err(format!("{:?} is listed before {:?}", v[0], v[1]));
        }
    }
    Ok(())
}

pub fn c04(cx: &mut Cx) {
    let sc = scene_with(cx, 3, &mut |_, _, _| {});
    {
        let o = cx.rng("emission");
        let mut h = sc.host.lock().unwrap();
        h.order = Some(o);
        h.style.shuffle_keys = true;
    }
    let Some((k, all)) = sc.play(cx) else { return };
    let mut pr = cx.rng("permute");
    graphs(cx, &sc, &k, &all, |cx, j, w, _x, s, d| {
        let Some(p) = against_plain(cx, &sc, &k.fs, w, j, s, d) else { return };
        if let Ok(g) = &d.res {
            if let Err(t) = listed_order(w, g) {
                cx.fail("order", t);
            }
            // the same once more
            let again = |text: &str| -> Result<(String, Vec<String>), String> {
                let md: cm::Metadata = serde_json::from_str(text).map_err(|e| e.to_string())?;
                let mut f = Vec::new();
                let g: Graph = config::builder(&j.ops)
                    .build_with_metadata(md, |p: Package| f.push(p.id.repr.clone()))
                    .map_err(|e| super::graph::short(&e))?;
                Ok((dump(&g), f))
            };
            if let Some(doc) = &d.doc {
                let f: Vec<String> = d.filtered.iter().map(|p| p.id.repr.clone()).collect();
                match again(&doc.plain()) {
                    Ok((g2, f2)) => {
                        if g2 != dump(g) || f2 != f {
                            cx.fail("repeat", "building the same document again gives another graph");
                        }
                    }
                    Err(t) => cx.fail("repeat", format!("building the same document again gives {t}")),
                }
            }
        }
        // the same declarations in another order
        let (w2, at) = w.permuted(&mut pr);
        match plain(&w2, &k.fs, j) {
            Err(t) => cx.fail("declarations", format!("with the declarations in another order there is {t}")),
            Ok((mut s2, f2)) => {
                s2.resolved = s2
                    .resolved
                    .into_iter()
                    .map(|((k, new), v)| ((k, at[k].iter().position(|n| *n == new).unwrap()), v))
                    .collect();
                // how many nodes a feature has is nothing a user can tell
                let once = |s: &mut Seen| {
                    s.edges.values_mut().for_each(|n| *n = 1);
                    s.fnodes.values_mut().for_each(|n| *n = 1);
                };
                let mut p = p;
                once(&mut p);
                once(&mut s2);
                if let Some(t) = differ(w, &p, &s2) {
                    cx.fail("declarations", format!("with the declarations in two orders: {t}"));
                } else if f2 != filtered(w, d) {
                    cx.fail("declarations", "with the declarations in another order others are filtered".to_owned());
                }
            }
        }
    });
}

pub fn c15(cx: &mut Cx) {
    let mut sc = scene_with(cx, 3, &mut |_, _, _| {});
    let mut r = cx.rng("peers");
    let w0 = sc.state(0);
    let other = |r: &mut Rng| any_peer(r);
    for steps in &mut sc.plan {
        let mut v = Vec::new();
        for s in steps.drain(..) {
            let again = matches!(s, Step::Build(_)) && r.pct(50);
            v.push(s.clone());
            if r.pct(60) {
                v.push(Step::Install(other(&mut r)));
            }
            if again {
                v.push(s);
            }
        }
        *steps = v;
    }
    let Some((k, all)) = sc.play(cx) else { return };
    graphs(cx, &sc, &k, &all, |cx, j, w, _x, s, d| {
        if against_plain(cx, &sc, &k.fs, w, j, s, d).is_none() {
            return;
        }
        let Ok(g) = &d.res else { return };
        let all = ids(w);
        for n in g.graph().node_weights() {
            let Node::Krate { id, krate, .. } = n else { continue };
            let i = all[&krate.pkg.id.repr];
            let p = &w.pkgs[i];
            let src = match &p.src {
                Src::Path => {
                    let id = pkg_id(w, i, IdFormat::Opaque);
                    id.split_once(" (").unwrap().1.strip_suffix(')').unwrap().to_owned()
                }
                s => pkg_source(s).unwrap(),
            };
            let bare = |s: &str, git: bool| if git { s.rsplit_once('#').map_or(s, |v| v.0).to_owned() } else { s.to_owned() };
            let git = matches!(p.src, Src::Git { .. });
            // no identifier has the commit
            let got = id.source().to_owned();
            let want = bare(&src, git);
            cx.check(id.name() == p.name && id.version() == p.version && got == want, "identifier", || {
                format!("{} is taken for {} {} {got} and not for {} {} {want}", id.repr, id.name(), id.version(), p.name, p.version)
            });
            cx.check(krate.pkg.name == p.name && krate.pkg.version.to_string() == p.version && krate.pkg.source.as_ref().map(|s| s.repr.clone()) == pkg_source(&p.src), "package", || {
                format!("the package of {} is {} {} {:?}", id.repr, krate.pkg.name, krate.pkg.version, krate.pkg.source)
            });
        }
    });
    let _ = Style::default();
    let _ = observe::<Package, krates::Edge>;
}
