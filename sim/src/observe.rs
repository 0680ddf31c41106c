//! What a user can see of a graph, in the terms of the world.

use crate::world::{Kind, World};
use krates::{Edge, Krates, Node, NodeId, petgraph::visit::EdgeRef};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum At {
    Krate(usize),
    Feature(usize, String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    /// crates in the order the graph lists them
    pub order: Vec<usize>,
    pub feats: BTreeMap<usize, BTreeSet<String>>,
    /// feature nodes, and how many there are of each
    pub fnodes: BTreeMap<(usize, String), usize>,
    /// (dependent, dependency, kind, cfg)
    pub deps: BTreeSet<(usize, usize, Kind, Option<String>)>,
    /// all edges: from, to, what
    pub edges: BTreeMap<(At, At, String), usize>,
    /// resolved_dependency for each declaration
    pub resolved: BTreeMap<(usize, usize), Option<usize>>,
    pub members: Vec<usize>,
    pub ws_root: String,
    pub len: usize,
}

pub fn kind_of(k: krates::DepKind) -> Kind {
    match k {
        krates::DepKind::Normal => Kind::Normal,
        krates::DepKind::Dev => Kind::Dev,
        krates::DepKind::Build => Kind::Build,
    }
}

/// A node type that has what the observation needs
pub trait Ident {
    fn id(&self) -> &str;
}

impl Ident for krates::Package {
    fn id(&self) -> &str {
        &self.id.repr
    }
}

pub trait AsEdge {
    fn edge(&self) -> &Edge;
}

impl AsEdge for Edge {
    fn edge(&self) -> &Edge {
        self
    }
}

/// `ids` maps package ids to the packages of the world
pub fn observe<N: Ident, E: AsEdge>(g: &Krates<N, E>, ids: &BTreeMap<String, usize>, w: &World) -> Seen {
    let idx = |n: &N| *ids.get(n.id()).unwrap_or_else(|| panic!("a package nobody reported: {}", n.id()));
    let graph = g.graph();
    let at = |n: NodeId| match &graph[n] {
        Node::Krate { krate, .. } => At::Krate(idx(krate)),
        Node::Feature { krate_index, name } => match &graph[*krate_index] {
            Node::Krate { krate, .. } => At::Feature(idx(krate), name.clone()),
            Node::Feature { .. } => panic!("a feature of a feature"),
        },
    };
    let mut s = Seen {
        order: g.krates().map(idx).collect(),
        feats: BTreeMap::new(),
        fnodes: BTreeMap::new(),
        deps: BTreeSet::new(),
        edges: BTreeMap::new(),
        resolved: BTreeMap::new(),
        members: Vec::new(),
        ws_root: g.workspace_root().to_string(),
        len: g.len(),
    };
    for n in graph.node_indices() {
        match &graph[n] {
            Node::Krate { krate, features, .. } => {
                let k = idx(krate);
                s.feats.insert(k, features.clone());
                for d in 0..w.pkgs[k].deps.len() {
                    s.resolved.insert((k, d), g.resolved_dependency(n, d).map(idx));
                }
            }
            Node::Feature { .. } => {
                let At::Feature(k, f) = at(n) else { unreachable!() };
                *s.fnodes.entry((k, f)).or_default() += 1;
            }
        }
    }
    for e in graph.edge_references() {
        let (a, b) = (at(e.source()), at(e.target()));
        let what = match e.weight().edge() {
            Edge::Feature => "feature".to_owned(),
            Edge::Dep { kind, cfg } => format!("dep {:?} {cfg:?}", kind_of(*kind)),
            Edge::DepFeature { kind, cfg } => format!("depfeature {:?} {cfg:?}", kind_of(*kind)),
        };
        if let Edge::Dep { kind, cfg } | Edge::DepFeature { kind, cfg } = e.weight().edge() {
            let from = match &a {
                At::Krate(k) => *k,
                At::Feature(..) => panic!("a dependency edge from a feature"),
            };
            let to = match &b {
                At::Krate(k) | At::Feature(k, _) => *k,
            };
            s.deps.insert((from, to, kind_of(*kind), cfg.clone()));
        }
        *s.edges.entry((a, b, what)).or_default() += 1;
    }
    s.members = g
        .workspace_members()
        .map(|n| match n {
            Node::Krate { krate, .. } => idx(krate),
            Node::Feature { .. } => panic!("a member that is a feature"),
        })
        .collect();
    s
}
