//! C12: many clients who ask one graph, and others, about the same things.

use super::graph::{self, ids, short};
use super::process::any_peer;
use crate::cargo::{self, IdFormat, pkg_id};
use crate::config;
use crate::kernel;
use crate::model::{self, Expect};
use crate::observe::{Ident, kind_of};
use crate::peer::Want;
use crate::rng::Rng;
use crate::sim::{Cx, faults};
use crate::world::{Kind, Shape, World};
use krates::{DepKind, Edge, KrateDetails, Krates, Node, NodeId, Package, semver};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// A package that lets others run whenever somebody looks at it
pub struct Shy(Package);

impl From<Package> for Shy {
    fn from(p: Package) -> Self {
        Shy(p)
    }
}

impl std::fmt::Debug for Shy {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0.id.repr)
    }
}

impl KrateDetails for Shy {
    fn name(&self) -> &str {
        kernel::step("name");
        &self.0.name
    }
    fn version(&self) -> &semver::Version {
        kernel::step("version");
        &self.0.version
    }
}

impl Ident for Shy {
    fn id(&self) -> &str {
        &self.0.id.repr
    }
}

pub const THROUGH: &str = "direct-dependencies-through-features";

type View = Krates<Shy, Edge>;

/// What the raw nodes and edges say
struct Raw {
    krates: Vec<RawKrate>,
    /// crate and name of each feature node, by node
    features: BTreeMap<usize, (usize, String)>,
    edges: Vec<(usize, usize, Edge)>,
    members: BTreeSet<String>,
    root: String,
    /// the model's, by identifier
    direct: BTreeMap<String, BTreeSet<String>>,
    resolved: BTreeMap<(String, usize), Option<String>>,
    known: u64,
}

struct RawKrate {
    kid: krates::Kid,
    id: String,
    name: String,
    version: semver::Version,
    features: BTreeSet<String>,
}

fn raw(g: &View, w: &World, e: &Expect) -> Result<Raw, String> {
    let all = ids(w);
    let gr = g.graph();
    let mut r = Raw {
        krates: Vec::new(),
        features: BTreeMap::new(),
        edges: Vec::new(),
        members: BTreeSet::new(),
        root: w.ws_root.clone(),
        direct: BTreeMap::new(),
        resolved: BTreeMap::new(),
        known: 0,
    };
    for (i, n) in gr.raw_nodes().iter().enumerate() {
        match &n.weight {
            Node::Krate { id, krate, features, .. } => {
                if i != r.krates.len() {
                    return Err(format!("the crate {} comes after nodes that are no crates", krate.0.id.repr));
                }
                r.krates.push(RawKrate {
                    kid: id.clone(),
                    id: krate.0.id.repr.clone(),
                    name: krate.0.name.clone(),
                    version: krate.0.version.clone(),
                    features: features.clone(),
                });
            }
            Node::Feature { krate_index, name } => {
                r.features.insert(i, (krate_index.index(), name.clone()));
            }
        }
    }
    for e in gr.raw_edges() {
        r.edges.push((e.source().index(), e.target().index(), e.weight.clone()));
    }
    let present: BTreeSet<usize> = r.krates.iter().map(|k| all[&k.id]).collect();
    if present != e.present {
        return Err(format!("the graph has {} crates instead of {}", present.len(), e.present.len()));
    }
    let id_of: BTreeMap<usize, String> = r.krates.iter().map(|k| (all[&k.id], k.id.clone())).collect();
    for (k, id) in &id_of {
        if w.members.contains(k) {
            r.members.insert(id.clone());
        }
        r.direct.insert(id.clone(), model::dep_edges(w, e, *k).into_iter().map(|d| id_of[&d.0].clone()).collect());
        for (i, d) in w.pkgs[*k].deps.iter().enumerate() {
            r.resolved.insert((id.clone(), i), e.decls[*k].contains(&i).then(|| id_of[&d.to].clone()));
        }
    }
    Ok(r)
}

impl Raw {
    fn id(&self, n: usize) -> &str {
        match self.features.get(&n) {
            Some((k, f)) => {
                let _ = f;
                &self.krates[*k].id
            }
            None => &self.krates[n].id,
        }
    }

    fn label(&self, n: usize) -> String {
        match self.features.get(&n) {
            Some((k, f)) => format!("{}/{f}", self.krates[*k].id),
            None => self.krates[n].id.clone(),
        }
    }

    /// crates reached from a node through feature nodes alone
    fn through(&self, from: usize) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        let mut seen = BTreeSet::new();
        let mut todo = vec![from];
        while let Some(n) = todo.pop() {
            for (a, b, _) in &self.edges {
                if *a == n && seen.insert(*b) {
                    if self.features.contains_key(b) {
                        todo.push(*b);
                    } else {
                        out.insert(self.krates[*b].id.clone());
                    }
                }
            }
        }
        out
    }

    fn filtered(&self, without: Kind) -> Vec<String> {
        let mut seen: BTreeSet<usize> = (0..self.krates.len()).filter(|k| self.members.contains(&self.krates[*k].id)).collect();
        loop {
            let more: Vec<usize> = self
                .edges
                .iter()
                .filter(|(a, b, e)| {
                    seen.contains(a)
                        && !seen.contains(b)
                        && match e {
                            Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } => kind_of(*kind) != without,
                            Edge::Feature => true,
                        }
                })
                .map(|e| e.1)
                .collect();
            if more.is_empty() {
                break;
            }
            seen.extend(more);
        }
        // in the order of the graph
        (0..self.krates.len()).filter(|k| seen.contains(k)).map(|k| self.krates[k].id.clone()).collect()
    }
}

/// A question that is answered at once
#[derive(Clone, Debug)]
enum Ask {
    Len,
    Root,
    Nid(usize),
    Stranger(String),
    Enabled(usize),
    Feature(usize, Option<String>),
    Dependencies(usize),
    Dependents(usize),
    Resolved(usize, usize),
    IndexNode(usize),
    IndexNumber(usize),
    Without(Kind),
    /// iterators that are open at the same time
    Walk(Vec<Walk>, u64),
}

#[derive(Clone, Debug)]
enum Walk {
    Krates,
    Members,
    Deps(usize),
    Named(String),
    Matches(String, String),
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let cut = |v: &T| format!("{v:?}").chars().take(300).collect::<String>();
    Err(format!("{what}: {} instead of {}", cut(&got), cut(&want)))
}

fn node_label(g: &View, n: &Node<Shy>) -> String {
    match n {
        Node::Krate { krate, .. } => krate.0.id.repr.clone(),
        Node::Feature { krate_index, name } => format!("{}/{name}", g[*krate_index].0.id.repr),
    }
}

/// Asks, and compares what it hears with the raw nodes and edges; how often a listed finding showed
fn ask(g: &View, r: &Raw, a: &Ask) -> Result<u64, String> {
    let n = r.krates.len();
    let mut known = 0;
    match a {
        Ask::Len => same("len", g.len(), n)?,
        Ask::Root => same("workspace_root", g.workspace_root().as_str(), &r.root)?,
        Ask::Nid(i) => {
            let k = &r.krates[i % n];
            same("nid_for_kid", g.nid_for_kid(&k.kid).map(NodeId::index), Some(i % n))?;
            kernel::step("between");
            same("node_for_kid", g.node_for_kid(&k.kid).map(|v| node_label(g, v)), Some(k.id.clone()))?;
        }
        Ask::Stranger(id) => {
            // asked for in the other format too
            let kid = krates::Kid::from(krates::cm::PackageId { repr: id.clone() });
            let want = r.krates.iter().position(|k| k.kid == kid);
            same("nid_for_kid", g.nid_for_kid(&kid).map(NodeId::index), want)?;
            same("get_enabled_features", g.get_enabled_features(&kid), want.map(|k| &r.krates[k].features))?;
            same("get_node", g.get_node(&kid, Some("default")).map(|v| v.0.index() >= n), want.map(|_| true).filter(|_| has_feature(r, want.unwrap(), "default")))?;
        }
        Ask::Enabled(i) => {
            let k = &r.krates[i % n];
            same("get_enabled_features", g.get_enabled_features(&k.kid), Some(&k.features))?;
        }
        Ask::Feature(i, f) => {
            let k = &r.krates[i % n];
            let got = g.get_node(&k.kid, f.as_deref());
            match f {
                None => same("get_node", got.map(|(i, v)| (i.index(), node_label(g, v))), Some((i % n, k.id.clone())))?,
                Some(f) => {
                    if let Some((at, v)) = &got {
                        same("get_node", node_label(g, v), format!("{}/{f}", k.id))?;
                        same("get_node", r.features.get(&at.index()), Some(&(i % n, f.clone())))?;
                    }
                    same(&format!("get_node of {} {f}", k.id), got.is_some(), has_feature(r, i % n, f))?;
                }
            }
        }
        Ask::Dependencies(i) => {
            let i = i % n;
            let got = g.direct_dependencies(NodeId::new(i));
            let mut set = BTreeSet::new();
            for d in &got {
                let id = d.krate.0.id.repr.clone();
                same("direct_dependencies: node", r.krates.get(d.node_id.index()).map(|k| &k.id), Some(&id))?;
                let e = &r.edges.get(d.edge_id.index()).ok_or("direct_dependencies: no such edge")?;
                same("direct_dependencies: edge", e.1, d.node_id.index())?;
                if !set.insert(id.clone()) {
                    return Err(format!("direct_dependencies lists {id} twice"));
                }
            }
            let direct = &r.direct[&r.krates[i].id];
            if let Some(l) = direct.difference(&set).next() {
                return Err(format!("direct_dependencies of {} lacks {l}", r.krates[i].id));
            }
            let may = r.through(i);
            if let Some(l) = set.iter().find(|d| !direct.contains(*d) && !may.contains(*d)) {
                return Err(format!("direct_dependencies of {} has {l}", r.krates[i].id));
            }
            known += u64::from(set.len() > direct.len());
        }
        Ask::Dependents(i) => {
            let i = i % n;
            let id = &r.krates[i].id;
            let got = g.direct_dependents(NodeId::new(i));
            let mut set = BTreeSet::new();
            for d in &got {
                let by = d.krate.0.id.repr.clone();
                same("direct_dependents: node", r.krates.get(d.node_id.index()).map(|k| &k.id), Some(&by))?;
                let e = &r.edges.get(d.edge_id.index()).ok_or("direct_dependents: no such edge")?;
                same("direct_dependents: edge", (e.0, r.id(e.1)), (d.node_id.index(), id.as_str()))?;
                if !set.insert(by.clone()) {
                    return Err(format!("direct_dependents lists {by} twice"));
                }
            }
            let want: BTreeSet<String> = r.direct.iter().filter(|(_, d)| d.contains(id)).map(|(k, _)| k.clone()).collect();
            same(&format!("direct_dependents of {id}"), set, want)?;
        }
        Ask::Resolved(i, d) => {
            let all = n + r.features.len();
            let i = i % (all + 2);
            let got = g.resolved_dependency(NodeId::new(i), *d).map(|k| k.0.id.repr.clone());
            let want = r.krates.get(i).and_then(|k| r.resolved.get(&(k.id.clone(), *d)).cloned().flatten());
            same(&format!("resolved_dependency {d} of {i}"), got, want)?;
        }
        Ask::IndexNode(i) => same("index", &g[NodeId::new(i % n)].0.id.repr, &r.krates[i % n].id)?,
        Ask::IndexNumber(i) => same("index", &g[i % n].0.id.repr, &r.krates[i % n].id)?,
        Ask::Without(k) => {
            let kind: DepKind = k.dep_kind();
            let got: Vec<String> = g.krates_filtered(kind).into_iter().map(|k| k.0.id.repr.clone()).collect();
            same(&format!("krates_filtered {k:?}"), got, r.filtered(*k))?;
        }
        Ask::Walk(walks, seed) => {
            let mut rng = Rng::new(*seed);
            let mut open: Vec<(usize, Box<dyn Iterator<Item = String> + '_>, Vec<String>)> = Vec::new();
            for (i, w) in walks.iter().enumerate() {
                let it: Box<dyn Iterator<Item = String> + '_> = match w {
                    Walk::Krates => Box::new(g.krates().map(|k| k.0.id.repr.clone())),
                    Walk::Members => Box::new(g.workspace_members().map(|v| node_label(g, v))),
                    Walk::Deps(i) => {
                        let i = i % (n + r.features.len());
                        Box::new(g.get_deps(NodeId::new(i)).map(|(v, e)| format!("{} {e:?}", node_label(g, v))))
                    }
                    Walk::Named(name) => Box::new(
                        g.krates_by_name(name.as_str()).map(|m| format!("{} {} {}", m.node_id.index(), m.kid.repr, m.krate.0.id.repr)),
                    ),
                    Walk::Matches(name, req) => Box::new(
                        g.search_matches(name.as_str(), semver::VersionReq::parse(req).unwrap())
                            .map(|m| format!("{} {} {}", m.node_id.index(), m.kid.repr, m.krate.0.id.repr)),
                    ),
                };
                open.push((i, it, Vec::new()));
            }
            while !open.is_empty() {
                let at = rng.below(open.len());
                let (i, it, got) = &mut open[at];
                kernel::step("next");
                if rng.pct(1) {
                    // loses interest
                    open.remove(at);
                    continue;
                }
                if let Some(v) = it.next() {
                    got.push(v);
                    continue;
                }
                let w = &walks[*i];
                let mut got = std::mem::take(got);
                let fmt = |k: usize| format!("{k} {} {}", r.krates[k].kid.repr, r.krates[k].id);
                let want: Vec<String> = match w {
                    Walk::Krates => r.krates.iter().map(|k| k.id.clone()).collect(),
                    Walk::Members => {
                        // of no particular order
                        got.sort();
                        r.members.iter().cloned().collect()
                    }
                    Walk::Deps(i) => {
                        let i = i % (n + r.features.len());
                        got.sort();
                        let mut v: Vec<String> = r.edges.iter().filter(|e| e.0 == i).map(|e| format!("{} {:?}", r.label(e.1), e.2)).collect();
                        v.sort();
                        v
                    }
                    Walk::Named(name) => (0..n).filter(|k| r.krates[*k].name == *name).map(fmt).collect(),
                    Walk::Matches(name, req) => {
                        let req = semver::VersionReq::parse(req).unwrap();
                        (0..n).filter(|k| r.krates[*k].name == *name && req.matches(&r.krates[*k].version)).map(fmt).collect()
                    }
                };
                same(&format!("{w:?}"), got, want)?;
                open.remove(at);
            }
        }
    }
    Ok(known)
}

fn has_feature(r: &Raw, k: usize, f: &str) -> bool {
    r.features.iter().any(|(at, v)| v.0 == k && v.1 == f && r.edges.iter().any(|e| e.0 == *at && e.1 == k))
}

fn draw(w: &World, r: &mut Rng) -> Ask {
    let some = |r: &mut Rng| r.below(64);
    let feature = |r: &mut Rng| {
        let p = r.pick(&w.pkgs);
        let mut all: Vec<String> = p.features.keys().cloned().collect();
        all.extend(p.deps.iter().map(|d| d.key.clone()));
        all.push("default".to_owned());
        all.push("nothing".to_owned());
        r.pick(&all).clone()
    };
    let name = |r: &mut Rng| {
        let n = r.pick(&w.pkgs).name.clone();
        match r.below(8) {
            0 => n.to_uppercase(),
            1 => n.replace('-', "_"),
            2 => String::new(),
            _ => n,
        }
    };
    let walk = |r: &mut Rng| match r.below(6) {
        0 => Walk::Krates,
        1 => Walk::Members,
        2 => Walk::Deps(r.below(256)),
        3 => Walk::Named(name(r)),
        _ => {
            let p = r.pick(&w.pkgs);
            let v = &p.version;
            let req = match r.below(7) {
                0 => "*".to_owned(),
                1 => format!("={v}"),
                2 => format!(">{v}"),
                3 => format!("<={v}"),
                4 => format!("~{v}"),
                5 => ">=0.0.0-0, <99".to_owned(),
                _ => v.clone(),
            };
            Walk::Matches(if r.pct(80) { p.name.clone() } else { name(r) }, req)
        }
    };
    match r.below(16) {
        0 => Ask::Len,
        1 => Ask::Root,
        2 => Ask::Nid(some(r)),
        3 => {
            let k = r.below(w.pkgs.len());
            let id = pkg_id(w, k, *r.pick(&[IdFormat::Stable, IdFormat::Opaque]));
            Ask::Stranger(match r.below(4) {
                0 if !id.contains('%') => id.replacen('0', "7", 1),
                _ => id,
            })
        }
        4 => Ask::Enabled(some(r)),
        5 | 6 => Ask::Feature(some(r), if r.pct(85) { Some(feature(r)) } else { None }),
        7 | 8 => Ask::Dependencies(some(r)),
        9 | 10 => Ask::Dependents(some(r)),
        11 => Ask::Resolved(r.below(128), r.below(8)),
        12 => {
            if r.pct(50) {
                Ask::IndexNode(some(r))
            } else {
                Ask::IndexNumber(some(r))
            }
        }
        13 => Ask::Without(*r.pick(&[Kind::Normal, Kind::Dev, Kind::Build])),
        _ => Ask::Walk((0..r.range(1, 4)).map(|_| walk(r)).collect(), r.next()),
    }
}

struct Made {
    g: View,
    raw: Raw,
    world: World,
}

fn make(w: &World, r: &mut Rng) -> Result<Option<Made>, String> {
    let mut fs = kernel::Fs::default();
    w.layout(&mut fs);
    let cfg = config::draw(w, r);
    let ops = config::ops(w, &cfg, r);
    let want = Want::draw(w, r);
    let Ok(req) = want.understood(w, &fs) else { return Ok(None) };
    let res = cargo::resolve(w, &req);
    let e = model::expect(w, &res, &cfg);
    if e.present.is_empty() {
        return Ok(None);
    }
    let peer = any_peer(r);
    let mut order = Rng::new(r.next());
    let doc = cargo::metadata(w, &res, peer, r.pct(50).then_some(&mut order));
    let md = serde_json::from_value(doc.value()).map_err(|e| e.to_string())?;
    let mut b = config::builder(&ops);
    // what is on the filesystem is of no interest here
    let g: View = match cfg.filters.is_empty() {
        true => b.build_with_metadata(md, krates::NoneFilter).map_err(|e| short(&e))?,
        false => {
            let cfg = model::Config { filters: Vec::new(), ..cfg };
            let ops = config::ops(w, &cfg, r);
            b = config::builder(&ops);
            let e = model::expect(w, &res, &cfg);
            if e.present.is_empty() {
                return Ok(None);
            }
            let g = b.build_with_metadata(md, krates::NoneFilter).map_err(|e| short(&e))?;
            let raw = raw(&g, w, &e)?;
            return Ok(Some(Made { g, raw, world: w.clone() }));
        }
    };
    let raw = raw(&g, w, &e)?;
    Ok(Some(Made { g, raw, world: w.clone() }))
}

pub fn c12(cx: &mut Cx) {
    let mut r = cx.rng("plan");
    let clients = *r.pick(&[2, 1, 3]);
    let mut wr = cx.rng("world");
    let shape = Shape::draw(&mut wr);
    let mut w = World::generate(&mut wr, &shape);
    if cx.tracing {
        cx.out.trace.extend(w.describe());
    }
    let mut graphs = Vec::new();
    for _ in 0..*r.pick(&[1, 1, 2, 3]) {
        match make(&w, &mut r) {
            Ok(Some(m)) => graphs.push(m),
            Ok(None) => {}
            Err(e) => return cx.fail("no-graph", e),
        }
        // of another state, or another configuration
        if r.pct(50) {
            w = w.evolve(&mut r);
        }
    }
    if graphs.is_empty() {
        return;
    }
    let graphs = Arc::new(graphs);
    let mut f = faults(&mut r, clients, false);
    f.preempt = if clients > 1 { *r.pick(&[30, 10, 60]) } else { 0 };
    f.alloc = if clients > 1 { *r.pick(&[0, 1, 2, 5, 30]) } else { 0 };
    // many are interested in the same
    let hot: Vec<(usize, Ask)> = (0..r.range(1, 3))
        .map(|_| {
            let g = r.below(graphs.len());
            let q = match r.below(4) {
                0 => Ask::Dependencies(r.below(64)),
                1 => Ask::Dependents(r.below(64)),
                _ => draw(&graphs[g].world, &mut r),
            };
            (g, q)
        })
        .collect();
    let heat = if clients > 1 { *r.pick(&[0, 0, 40, 90]) } else { 0 };
    let k = cx.kernel("sched", f);
    let mut jobs: Vec<Box<dyn FnOnce() -> (u64, u64, u64, Option<String>) + Send>> = Vec::new();
    for c in 0..clients {
        let mut r = cx.rng(&format!("asks{c}"));
        let n = *r.pick(&[10, 30, 60]);
        let mut todo = Vec::new();
        let mut last: Option<(usize, Ask)> = None;
        for _ in 0..n {
            let q = match &last {
                // the same once more, of the same graph or another
                _ if r.pct(heat) => r.pick(&hot).clone(),
                Some((g, q)) if r.pct(15) => (if r.pct(50) { *g } else { r.below(graphs.len()) }, q.clone()),
                _ => {
                    let g = r.below(graphs.len());
                    (g, draw(&graphs[g].world, &mut r))
                }
            };
            last = Some(q.clone());
            todo.push((q, r.pct(2)));
        }
        let graphs = graphs.clone();
        cx.say(|| format!("client {c}: {todo:?}"));
        jobs.push(Box::new(move || {
            let (mut asked, mut known, mut left) = (0, 0, 0);
            for ((g, q), abandon) in todo {
                kernel::step("ask");
                let m = &graphs[g];
                asked += 1;
                if abandon {
                    // dies with its iterators open
                    let died = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut it = m.g.krates();
                        let mut deps = m.g.get_deps(NodeId::new(0));
                        let _ = (it.next(), deps.next());
                        kernel::step("next");
                        std::panic::panic_any("the user's code gave up".to_owned());
                    }));
                    left += u64::from(died.is_err());
                }
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| kernel::exposed(|| ask(&m.g, &m.raw, &q)))) {
                    Ok(Ok(n)) => known += n,
                    Ok(Err(t)) => return (asked, known, left, Some(format!("graph {g}: {t}"))),
                    Err(p) => return (asked, known, left, Some(format!("graph {g}, {q:?}: panicked: {}", crate::sim::panic_text(&*p)))),
                }
            }
            (asked, known, left, None)
        }));
    }
    let (_, res) = cx.run(k, jobs);
    let mut all = 0;
    for (c, v) in res.into_iter().enumerate() {
        match v {
            Ok((asked, known, left, wrong)) => {
                all += asked;
                cx.out.evals += asked;
                if known > 0 {
                    *cx.out.known.entry(THROUGH.to_owned()).or_default() += known;
                }
                if left > 0 {
                    cx.count("fault.client-died-iterating", left);
                }
                if let Some(t) = wrong {
                    return cx.fail("views", format!("client {c}: {t}"));
                }
            }
            Err(p) => return cx.fail("panic", format!("client {c} panicked: {p}")),
        }
    }
    for m in graphs.iter() {
        cx.reached(&format!("{} {} {} {:?}", m.raw.krates.len(), m.raw.features.len(), m.raw.edges.len(), m.raw.direct));
    }
    let _ = graph::ids;
    cx.out.nontrivial = all > 0;
    cx.out.sample = format!("{all} questions of {clients} clients to {} graphs", graphs.len());
}
