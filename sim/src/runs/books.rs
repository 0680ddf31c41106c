//! C05: where packages and values end up.

use super::graph::{Deed, Done, Fate, Index, fate, scene_with, short};
use crate::doc;
use crate::ledger::{BOMB, Ev};
use crate::sim::Cx;
use krates::Node;
use serde_json::Value;
use std::collections::BTreeMap;

fn audit(cx: &mut Cx, d: Done, expect_graph: bool) -> Result<(), (&'static str, String)> {
    let events = d.tab.events();
    let contents = d.tab.contents();
    let mut handed: BTreeMap<&str, (u32, u32)> = BTreeMap::new();
    let (mut nodes_made, mut edges_made) = (0usize, 0usize);
    for e in &events {
        match e {
            Ev::Node { id, made, .. } => {
                handed.entry(id).or_default().0 += 1;
                nodes_made += usize::from(*made);
            }
            Ev::Filtered { id } => handed.entry(id).or_default().1 += 1,
            Ev::Edge { made, .. } => edges_made += usize::from(*made),
            Ev::Index(_) | Ev::Dropped { .. } => {}
        }
    }
    for (id, (n, f)) in &handed {
        if n + f != 1 {
            return Err(("handed-out", format!("{id} was converted {n} times and reported as filtered {f} times")));
        }
    }
    let reported: BTreeMap<String, Value> = match &d.doc {
        Some(doc) => doc.value()["packages"]
            .as_array()
            .into_iter()
            .flatten()
            .map(|p| (p["id"].as_str().unwrap().to_owned(), doc::package(p).expect("a package of ours")))
            .collect(),
        None => BTreeMap::new(),
    };
    if let Some(id) = handed.keys().find(|id| !reported.contains_key(**id)) {
        return Err(("handed-out", format!("{id} was handed out, which cargo did not report")));
    }
    for (id, v) in &contents {
        cx.out.evals += 1;
        if let Some(t) = doc::differ(v, &reported[id]) {
            return Err(("altered", format!("{id} is not what cargo reported: {t}")));
        }
    }
    match (&d.panicked, d.tab.struck()) {
        (Some(p), true) if p == BOMB => {}
        (Some(p), _) => return Err(("panic", p.clone())),
        (None, true) => return Err(("panic", "a panic of a callback did not reach the caller".to_owned())),
        (None, false) => match &d.res {
            Ok(g) => {
                if let Some(id) = reported.keys().find(|id| !handed.contains_key(id.as_str())) {
                    return Err(("lost", format!("{id} is neither in the graph nor was it reported as filtered")));
                }
                for n in g.graph().node_weights() {
                    let Node::Krate { id, krate, .. } = n else { continue };
                    let p = &krate.pkg;
                    let is = krates::Kid::from(p.id.clone()) == *id
                        && id.name() == p.name.as_str()
                        && id.version() == p.version.to_string();
                    if !is {
                        return Err(("misplaced", format!("the node {} has the package {}", id.repr, krate.pkg.id.repr)));
                    }
                }
                if g.len() != nodes_made {
                    return Err(("lost", format!("{nodes_made} nodes were made and {} are in the graph", g.len())));
                }
                if g.graph().edge_count() > edges_made {
                    return Err(("lost", format!("{edges_made} edges were made and {} are in the graph", g.graph().edge_count())));
                }
                // looking at it makes nothing
                let _ = g.workspace_members().count();
                for k in g.graph().node_indices().take(g.len()) {
                    let _ = (g.direct_dependents(k).len(), g.direct_dependencies(k).len());
                }
            }
            Err(e) => {
                if expect_graph {
                    return Err(("no-graph", format!("{} instead of a graph", short(e))));
                }
                if let Some((id, _)) = handed.iter().next() {
                    return Err(("handed-out", format!("{id} was handed out by a build that failed with {}", short(e))));
                }
            }
        },
    }
    let tab = d.tab.clone();
    drop(d);
    if tab.late() > 0 {
        return Err(("late", format!("{} callbacks were made after the build had ended", tab.late())));
    }
    let mut made: BTreeMap<(bool, u64), i64> = BTreeMap::new();
    for e in tab.events() {
        match e {
            Ev::Node { serial, made: m, .. } => *made.entry((true, serial)).or_default() += i64::from(m),
            Ev::Edge { serial, made: m } => *made.entry((false, serial)).or_default() += i64::from(m),
            Ev::Dropped { node, serial } => *made.entry((node, serial)).or_default() -= 1,
            _ => {}
        }
    }
    if let Some(((node, _), n)) = made.iter().find(|(_, n)| **n != 0) {
        return Err(("drops", format!("a{} value that was made was dropped {} times", if *node { " node" } else { "n edge" }, 1 - n)));
    }
    cx.out.evals += made.len() as u64;
    Ok(())
}

pub fn c05(cx: &mut Cx) {
    let sc = scene_with(cx, 3, &mut |_, j, r| {
        j.keep = true;
        if r.pct(20) {
            j.index = Some(Index(Default::default()));
        }
        if r.pct(45) {
            let n = *r.pick(&[3, 12, 40]);
            j.deed = Some((1 + r.below(n) as u64, Deed::Panic));
        }
    });
    let Some((k, all)) = sc.play(cx) else { return };
    let (mut bombs, mut graphs) = (0, 0);
    for (c, v) in all.into_iter().enumerate() {
        for d in v {
            let j = sc.job(c, d.step);
            let at = format!("client {c} step {} ({:?})", d.step, j.route);
            let expect = matches!(fate(&sc, &d, j, &k.fs), Fate::Graph(..));
            bombs += u64::from(d.tab.struck());
            graphs += u64::from(d.res.is_ok());
            cx.reached(&format!("{} {} {}", d.tab.callbacks(), d.tab.struck(), d.res.is_ok()));
            if let Err((c, t)) = audit(cx, d, expect) {
                return cx.fail(c, format!("{at}: {t}"));
            }
        }
    }
    if bombs > 0 {
        cx.count("panic.callback", bombs);
    }
    cx.count("outcome.graph", graphs);
    cx.out.nontrivial = bombs + graphs > 0;
    cx.out.sample = format!("{graphs} graphs, {bombs} builds in which a callback panicked");
}
