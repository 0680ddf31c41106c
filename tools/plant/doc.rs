//! Small metadata documents.
#![allow(dead_code)]
use krates::{Builder, Krates, cm};
use serde_json::{Value, json};

pub const IO: &str = "registry+https://github.com/rust-lang/crates.io-index";

/// Identifier in the stable format; a source of "" is a path in the workspace.
pub fn id(name: &str, version: &str, source: &str) -> String {
    match source {
        "" => format!("path+file:///w/{name}#{version}"),
        s => format!("{s}#{name}@{version}"),
    }
}

fn merge(mut base: Value, more: Value) -> Value {
    for (k, v) in more.as_object().unwrap() {
        base[k] = v.clone();
    }
    base
}

pub fn pkg(name: &str, version: &str, source: &str, more: Value) -> Value {
    merge(
        json!({
            "name": name, "version": version, "id": id(name, version, source),
            "source": if source.is_empty() { Value::Null } else { json!(source) },
            "dependencies": [], "features": {},
            "targets": [{"name": name.replace('-', "_"), "kind": ["lib"], "crate_types": ["lib"], "src_path": format!("/w/{name}/src/lib.rs"), "edition": "2021"}],
            "manifest_path": format!("/w/{name}/Cargo.toml"),
        }),
        more,
    )
}

pub fn dep(name: &str, more: Value) -> Value {
    merge(
        json!({"name": name, "source": IO, "req": "*", "kind": null, "optional": false, "uses_default_features": false, "features": [], "target": null, "rename": null}),
        more,
    )
}

pub fn kind(kind: Option<&str>, target: Option<&str>) -> Value {
    json!({"kind": kind, "target": target})
}

pub fn link(name: &str, id: &str, kinds: Vec<Value>) -> Value {
    json!({"name": name.replace('-', "_"), "pkg": id, "dep_kinds": kinds})
}

pub fn node(id: &str, deps: Vec<Value>, features: &[&str]) -> Value {
    let all: Vec<_> = deps.iter().map(|d| d["pkg"].clone()).collect();
    json!({"id": id, "deps": deps, "dependencies": all, "features": features})
}

pub fn md(packages: Vec<Value>, nodes: Vec<Value>, members: &[String], root: Option<&str>) -> Value {
    json!({
        "packages": packages, "workspace_members": members,
        "resolve": {"nodes": nodes, "root": root},
        "workspace_root": "/w", "target_directory": "/w/target", "version": 1, "metadata": null,
    })
}

pub fn parse(doc: &Value) -> cm::Metadata {
    serde_json::from_str(&doc.to_string()).unwrap()
}

/// The graph, and the packages that were filtered.
pub fn build(doc: &Value, builder: Builder) -> (Krates, Vec<String>) {
    let mut out = Vec::new();
    let graph = builder.build_with_metadata(parse(doc), |p: cm::Package| out.push(p.id.repr)).unwrap();
    (graph, out)
}

pub fn names(graph: &Krates) -> Vec<String> {
    graph.krates().map(|k| format!("{} {}", k.name, k.version)).collect()
}

pub fn features(graph: &Krates, name: &str) -> Vec<String> {
    let kid = graph.krates_by_name(name).next().expect("no such crate").kid.clone();
    graph.get_enabled_features(&kid).unwrap().iter().cloned().collect()
}

/// A shell script that stands in for cargo, in the working directory.
pub fn fake(name: &str, body: &str) -> std::path::PathBuf {
    use std::os::unix::fs::PermissionsExt;
    let path = std::env::current_dir().unwrap().join(name);
    std::fs::write(&path, format!("#!/bin/bash\n{body}\n")).unwrap();
    std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o755)).unwrap();
    path
}

/// One crate, nothing else.
pub fn tiny(name: &str) -> Value {
    let a = id(name, "1.0.0", "");
    md(vec![pkg(name, "1.0.0", "", json!({}))], vec![node(&a, vec![], &[])], &[a.clone()], Some(&a))
}

/// The links of the graph, sorted: `a 1.0.0 -> b 1.0.0/feature (build) 'cfg(x)'`.
pub fn links(graph: &Krates) -> Vec<String> {
    use krates::petgraph::visit::EdgeRef;
    let g = graph.graph();
    let name = |i: krates::NodeId| match &g[i] {
        krates::Node::Krate { id, .. } => format!("{} {}", id.name(), id.version()),
        krates::Node::Feature { krate_index, name } => match &g[*krate_index] {
            krates::Node::Krate { id, .. } => format!("{} {}/{name}", id.name(), id.version()),
            _ => unreachable!(),
        },
    };
    let mut all: Vec<_> = g.edge_references().map(|e| format!("{} -> {} {}", name(e.source()), name(e.target()), e.weight()).trim_end().to_owned()).collect();
    all.sort();
    all
}
