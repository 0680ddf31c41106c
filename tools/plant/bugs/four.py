M = "src/cm.rs"
BUGS = []
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

USE = "use serde_json::json;\n"

bug("c17-sorted-index", "C17", [(M, """        self.packages
            .iter()
            .find(|p| p.id == *idx)
            .unwrap_or_else(""", """        // cargo lists the packages in the order of their identifiers
        self.packages
            .binary_search_by(|p| p.id.cmp(idx))
            .ok()
            .map(|at| &self.packages[at])
            .unwrap_or_else(""")],
 "a document whose packages are not sorted by identifier, as with cargos of other generations and workspaces with path and registry packages", "A package that is reported is not found by its identifier", r'''
fn main() {
    let (a, b, c) = (id("zz", "1.0.0", ""), id("b", "1.0.0", IO), id("aa", "1.0.0", ""));
    let all = [("zz", "", &a), ("b", IO, &b), ("aa", "", &c)];
    let doc = md(all.iter().map(|p| pkg(p.0, "1.0.0", p.1, json!({}))).collect(), all.iter().map(|p| node(p.2, vec![], &[])).collect(), &[a.clone(), c.clone()], None);
    let m = parse(&doc);
    for (name, _, i) in all {
        assert_eq!(m[&krates::cm::PackageId { repr: i.clone() }].name, name);
    }
}
''' + USE)

bug("c17-lone-root", "C17", [(M, """            let root_manifest_path = self.workspace_root.join("Cargo.toml");
            self.packages""", """            let root_manifest_path = self.workspace_root.join("Cargo.toml");
            // a workspace with just one member is that package
            if let [only] = &self.workspace_members[..] {
                return self.packages.iter().find(|pkg| &pkg.id == only);
            }
            self.packages""")],
 "a virtual workspace with one member, reported without dependencies", "A member is taken for the root package", r'''
fn main() {
    let a = id("a", "1.0.0", "");
    let mut doc = md(vec![pkg("a", "1.0.0", "", json!({}))], vec![], &[a.clone()], None);
    doc["resolve"] = serde_json::Value::Null;
    assert!(parse(&doc).root_package().is_none());
    doc["workspace_root"] = json!("/w/a");
    assert!(parse(&doc).root_package().is_some());
}
''' + USE)

bug("c17-root-member", "C17", [(M, """            // if dependencies are resolved, use Cargo's answer
            let root = resolve.root.as_ref()?;
            self.packages.iter().find(|pkg| &pkg.id == root)""", """            // if dependencies are resolved, use Cargo's answer, or what is at the root of the workspace
            if let Some(root) = resolve.root.as_ref() {
                self.packages.iter().find(|pkg| &pkg.id == root)
            } else {
                self.packages
                    .iter()
                    .find(|pkg| self.workspace_root.starts_with(pkg.manifest_path.parent().unwrap_or(&pkg.manifest_path)))
            }""")],
 "a resolved document of a virtual workspace that lies inside the directory of a package it depends on", "A package outside of the workspace is taken for its root", r'''
fn main() {
    let (a, out) = (id("a", "1.0.0", ""), id("out", "1.0.0", IO));
    let doc = md(vec![pkg("a", "1.0.0", "", json!({"manifest_path": "/p/w/a/Cargo.toml"})), pkg("out", "1.0.0", IO, json!({"manifest_path": "/p/Cargo.toml"}))],
        vec![node(&a, vec![link("out", &out, vec![kind(None, None)])], &[]), node(&out, vec![], &[])], &[a.clone()], None);
    let mut doc = doc;
    doc["workspace_root"] = json!("/p/w");
    assert!(parse(&doc).root_package().is_none());
}
''' + USE)

bug("c17-default-known", "C17", [(M, """            .filter(|&p| self.workspace_default_members.contains(&p.id))""", """            .filter(|&p| {
                // without any of its own, all members of a workspace are default members
                self.workspace_default_members.contains(&p.id)
                    || (self.workspace_default_members.is_empty() && self.workspace_members.contains(&p.id))
            })""")],
 "a workspace whose default members are reported as none", "Members that are not default members are given as such", r'''
fn main() {
    let mut doc = tiny("a");
    doc["workspace_default_members"] = json!([]);
    assert!(parse(&doc).workspace_default_packages().is_empty());
    doc["workspace_default_members"] = doc["workspace_members"].clone();
    assert_eq!(parse(&doc).workspace_default_packages().len(), 1);
}
''' + USE)

bug("c17-first-kind", "C17", [(M, """        self.kind.iter().any(|kind| kind == &name)""", """        // the kinds of anything but a library are the only ones
        self.kind.first().is_some_and(|kind| kind == &name)""")],
 "a library of several kinds of which lib is not the first, as [\"cdylib\", \"lib\"]", "A library is not reported as one", r'''
fn main() {
    let mut doc = tiny("a");
    doc["packages"][0]["targets"][0]["kind"] = json!(["cdylib", "lib"]);
    assert!(parse(&doc).packages[0].targets[0].is_lib());
}
''' + USE)

bug("c17-index-prefix", "C17", [(M, """        self.repr == "registry+https://github.com/rust-lang/crates.io-index"
""", """        self.repr.split_once('+').is_some_and(|(_, url)| url == "https://github.com/rust-lang/crates.io-index")
""")],
 "a package from a git repository, or sparse registry, at the address of the index of crates.io", "Another source is taken for crates.io", r'''
fn main() {
    let b = |s: &str| krates::cm::Source { repr: s.to_owned() }.is_crates_io();
    assert!(b(IO));
    assert!(!b("git+https://github.com/rust-lang/crates.io-index"));
    assert!(!b("sparse+https://github.com/rust-lang/crates.io-index"));
}
''')

bug("c17-present-readme", "C17", [(M, """        self.readme.as_ref().map(|file| {
            self.manifest_path
                .parent()
                .unwrap_or(&self.manifest_path)
                .join(file)
        })""", """        let dir = self.manifest_path.parent().unwrap_or(&self.manifest_path);
        let file = dir.join(self.readme.as_ref()?);
        // readmes are often shared by the packages of a workspace, by links
        let shared = std::fs::read_link(&file).ok().and_then(|to| PathBuf::from_path_buf(to).ok());
        Some(shared.map_or(file, |to| dir.join(to)))""")],
 "a readme that is a symbolic link at the time of asking", "The path of a readme depends on the filesystem, rather than on what cargo reported", r'''
fn main() {
    let dir = std::env::current_dir().unwrap().join("a");
    std::fs::create_dir(&dir).unwrap();
    std::os::unix::fs::symlink("/w/shared/README", dir.join("README.md")).unwrap();
    let mut doc = tiny("a");
    doc["packages"][0]["manifest_path"] = json!(dir.join("Cargo.toml"));
    doc["packages"][0]["readme"] = json!("README.md");
    let got = parse(&doc).packages[0].readme().unwrap();
    assert_eq!(got.as_std_path(), dir.join("README.md"));
}
''' + USE)

B = "src/builder.rs"
bug("c06-namesake", "C06", [(B, """            let is_in_workspace = workspace_members.binary_search(pid).is_ok();
""", """            // Identifiers are long, and names nearly always differ
            let is_in_workspace = workspace_members
                .iter()
                .any(|wm| wm.name() == pid.name() && wm.version() == pid.version());
""")],
 "a package with the name and version of a workspace member, from another source, and a kind ignored only in or only outside of the workspace", "Dependencies are kept or pruned as if the package were a member of the workspace", r'''
use krates::{DepKind, Scope};
fn main() {
    let (a, b, c) = (id("a", "1.0.0", ""), id("a", "1.0.0", IO), id("c", "1.0.0", IO));
    let mut top = pkg("a", "1.0.0", "", json!({"dependencies": [dep("a", json!({"rename": "old"}))]}));
    top["targets"][0]["name"] = json!("a");
    let doc = md(vec![top, pkg("a", "1.0.0", IO, json!({"id": b, "dependencies": [dep("c", json!({"kind": "build"}))]})), pkg("c", "1.0.0", IO, json!({}))],
        vec![node(&a, vec![link("old", &b, vec![kind(None, None)])], &[]), node(&b, vec![link("c", &c, vec![kind(Some("build"), None)])], &[]), node(&c, vec![], &[])], &[a.clone()], Some(&a));
    let mut builder = krates::Builder::new();
    builder.ignore_kind(DepKind::Build, Scope::Workspace);
    let (graph, _) = build(&doc, builder);
    assert_eq!(graph.krates_by_name("c").count(), 1);
}
''' + USE)

