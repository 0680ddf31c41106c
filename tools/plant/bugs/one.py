B = "src/builder.rs"; C = "src/cm/cmd.rs"; L = "src/lib.rs"; D = "src/cm/de.rs"; S = "src/cm/ser.rs"; I = "src/builder/index.rs"
BUGS = []
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug("c01-signal", "C01", [(C, "if !output.status.success() {", "if output.status.code().is_some_and(|code| code != 0) {")],
 "cargo printed a whole document and is then killed by a signal", "A cargo that died of a signal is taken for one that succeeded", r'''
fn main() {
    let doc = tiny("a").to_string();
    let cargo = fake("cargo", &format!("echo '{doc}'; kill -9 $$"));
    let mut cmd = krates::cm::MetadataCommand::new();
    cmd.cargo_path(cargo);
    assert!(cmd.exec().is_err());
}
''')

bug("c01-line-utf8", "C01", [(C, """        let stdout = std::str::from_utf8(&output.stdout)?
            .lines()
            .find(|line| line.starts_with('{'))
            .ok_or(Error::NoJson)?;
        Self::parse(stdout)""", """        // Only the line with the document is of interest
        let line = output
            .stdout
            .split(|byte| *byte == b'\\n')
            .find(|line| line.first() == Some(&b'{'))
            .ok_or(Error::NoJson)?;
        Self::parse(&String::from_utf8_lossy(line))""")],
 "bytes that are no UTF-8 inside of the document, or next to it", "A document that is no valid UTF-8 is accepted, with altered strings", r'''
fn main() {
    let doc = tiny("a");
    let text = doc.to_string().replace("\"metadata\":null", "\"metadata\":\"\\xff\\xfe\"");
    let cargo = fake("cargo", &format!("printf '%b\\n' '{}'", text));
    let mut cmd = krates::cm::MetadataCommand::new();
    cmd.cargo_path(cargo);
    assert!(cmd.exec().is_err());
}
''')

bug("c02-pipe-order", "C02", [(C, "let output = command.output()?;", """let output = {
            use std::io::Read;
            if !self.verbose {
                command.stderr(std::process::Stdio::piped());
            }
            let mut child = command
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::piped())
                .spawn()?;
            let (mut stdout, mut stderr) = (Vec::new(), Vec::new());
            if let Some(mut out) = child.stdout.take() {
                out.read_to_end(&mut stdout)?;
            }
            if let Some(mut err) = child.stderr.take() {
                err.read_to_end(&mut stderr)?;
            }
            std::process::Output {
                status: child.wait()?,
                stdout,
                stderr,
            }
        };""")],
 "cargo writes more to stderr than a pipe holds before it closes stdout", "krates and cargo wait for each other forever", r'''
fn main() {
    let doc = tiny("a").to_string();
    let cargo = fake("cargo", &format!("head -c 300000 /dev/zero | tr '\\0' w >&2; echo '{doc}'"));
    let mut cmd = krates::cm::MetadataCommand::new();
    cmd.cargo_path(cargo);
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(20));
        std::process::exit(9);
    });
    assert!(cmd.exec().is_ok());
}
''')

bug("c02-zombie", "C02", [(C, "let output = command.output()?;", """let output = {
            use std::io::Read;
            if !self.verbose {
                command.stderr(std::process::Stdio::piped());
            }
            let mut child = command
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::piped())
                .spawn()?;
            let stderr = child.stderr.take().map(|mut err| {
                std::thread::spawn(move || {
                    let mut stderr = Vec::new();
                    let _ = err.read_to_end(&mut stderr);
                    stderr
                })
            });
            let mut stdout = Vec::new();
            if let Some(mut out) = child.stdout.take() {
                out.read_to_end(&mut stdout)?;
            }
            // No need to wait for the rest if this is nothing we could use
            std::str::from_utf8(&stdout)?;
            std::process::Output {
                status: child.wait()?,
                stdout,
                stderr: stderr.and_then(|err| err.join().ok()).unwrap_or_default(),
            }
        };""")],
 "cargo prints something that is no UTF-8", "The process is not reaped", r'''
fn main() {
    let cargo = fake("cargo", "printf '\\xff\\xfe\\n'; exit 0");
    let mut cmd = krates::cm::MetadataCommand::new();
    cmd.cargo_path(cargo);
    assert!(cmd.exec().is_err());
    std::thread::sleep(std::time::Duration::from_millis(500));
    let me = std::process::id().to_string();
    for entry in std::fs::read_dir("/proc").unwrap().flatten() {
        if let Ok(stat) = std::fs::read_to_string(entry.path().join("stat")) {
            let rest: Vec<_> = stat.rsplit(')').next().unwrap().split_whitespace().map(str::to_owned).collect();
            assert!(!(rest[0] == "Z" && rest[1] == me), "zombie: {stat}");
        }
    }
}
''')

bug("c03-manifest-dir", "C03", [(B, "            cmd.current_dir = Some(mp.parent().unwrap().to_owned());\n", """            if cmd.current_dir.is_none() {
                cmd.current_dir = Some(mp.parent().unwrap().to_owned());
            }
""")],
 "both a manifest path and a current directory that is not its directory are set", "cargo is run in a directory other than that of the manifest, and reports on another manifest", r'''
fn main() {
    std::fs::create_dir_all("one").unwrap();
    std::fs::create_dir_all("two").unwrap();
    let here = std::env::current_dir().unwrap();
    let cargo = fake("cargo", &format!("pwd > {}/where; echo '{}'", here.display(), tiny("a")));
    let mut cmd = krates::Cmd::new();
    cmd.cargo_path(cargo).current_dir(here.join("two")).manifest_path(here.join("one/Cargo.toml"));
    krates::cm::MetadataCommand::from(cmd).exec().unwrap();
    let at = std::fs::read_to_string("where").unwrap();
    assert_eq!(at.trim(), here.join("one").canonicalize().unwrap().to_str().unwrap());
}
''')

bug("c03-all-features", "C03", [(B, "if !cmd.features.is_empty() {", "if !cmd.features.is_empty() && !cmd.all_features {")],
 "specific features are asked for besides all features, eg. features of a dependency", "cargo is not told the features that were asked for", r'''
fn main() {
    let here = std::env::current_dir().unwrap();
    let cargo = fake("cargo", &format!("printf '%s\\n' \"$@\" > {}/args; echo '{}'", here.display(), tiny("a")));
    let mut cmd = krates::Cmd::new();
    cmd.cargo_path(cargo).all_features().features(["dep/extra".to_owned()]);
    krates::cm::MetadataCommand::from(cmd).exec().unwrap();
    assert!(std::fs::read_to_string("args").unwrap().lines().any(|l| l == "dep/extra"));
}
''')

bug("c04-members", "C04", [(B, """        let mut workspace_members: Vec<_> =
            md.workspace_members.into_iter().map(Kid::from).collect();
        workspace_members.sort();""", """        let workspace_members: Vec<_> = md.workspace_members.into_iter().map(Kid::from).collect();""")],
 "workspace members are not listed in the order of their identifiers, and a dependency kind is ignored outside of the workspace only", "The graph depends on the order of the members", r'''
fn main() {
    let (a, b, c, x) = (id("a", "1.0.0", ""), id("b", "1.0.0", ""), id("c", "1.0.0", ""), id("x", "1.0.0", IO));
    let deps = json!({"dependencies": [dep("x", json!({"kind": "dev"}))]});
    let mut members = vec![a.clone(), b.clone(), c.clone()];
    for _ in 0..3 {
        let doc = md(
            vec![pkg("a", "1.0.0", "", json!({})), pkg("b", "1.0.0", "", json!({})), pkg("c", "1.0.0", "", deps.clone()), pkg("x", "1.0.0", IO, json!({}))],
            vec![node(&a, vec![], &[]), node(&b, vec![], &[]), node(&c, vec![link("x", &x, vec![kind(Some("dev"), None)])], &[]), node(&x, vec![], &[])],
            &members, None);
        let mut builder = krates::Builder::new();
        builder.ignore_kind(krates::DepKind::Dev, krates::Scope::NonWorkspace);
        assert_eq!(names(&build(&doc, builder).0), ["a 1.0.0", "b 1.0.0", "c 1.0.0", "x 1.0.0"]);
        members.rotate_left(1);
    }
}
use serde_json::json;
''')

bug("c05-filtered-once", "C05", [(B, """            let Some(pn) = dep_edge_map.get(&id) else {
                on_filter.filtered(krate);
                continue;
            };""", """            let Some(pn) = dep_edge_map.get(&id) else {
                // The packages are sorted, so copies of the same release follow each other
                let release = (krate.name.clone(), krate.version.clone());
                if last_filtered.as_ref() != Some(&release) {
                    last_filtered = Some(release);
                    on_filter.filtered(krate);
                }
                continue;
            };"""), (B, "        let mut edge_count = 0;\n\n", "        let mut edge_count = 0;\n        let mut last_filtered: Option<(String, semver::Version)> = None;\n\n")],
 "two packages of the same name and version, from different sources, are filtered", "One of them is neither in the graph nor reported", r'''
use serde_json::json;
fn main() {
    let git = "git+https://example.com/x";
    let (a, x, y) = (id("a", "1.0.0", ""), id("x", "1.0.0", IO), id("x", "1.0.0", git));
    let doc = md(
        vec![pkg("a", "1.0.0", "", json!({"dependencies": [dep("x", json!({"kind": "dev"})), dep("x", json!({"kind": "build", "source": git}))]})), pkg("x", "1.0.0", IO, json!({})), pkg("x", "1.0.0", git, json!({}))],
        vec![node(&a, vec![link("x", &x, vec![kind(Some("dev"), None)]), link("x", &y, vec![kind(Some("build"), None)])], &[]), node(&x, vec![], &[]), node(&y, vec![], &[])],
        &[a.clone()], None);
    let mut builder = krates::Builder::new();
    builder.ignore_kind(krates::DepKind::Dev, krates::Scope::All).ignore_kind(krates::DepKind::Build, krates::Scope::All);
    let (graph, filtered) = build(&doc, builder);
    assert_eq!(graph.len() + filtered.len(), 3, "{filtered:?}");
}
''')

bug("c06-mixed-targets", "C06", [(B, ".any(|target| expr.eval(|pred| target.eval(pred)))", ".any(|_| expr.eval(|pred| targets.iter().any(|target| target.eval(pred))))")],
 "two targets are requested, and an all() is true for a mix of them only", "A dependency that applies to none of the targets is kept", r'''
use serde_json::json;
fn main() {
    let cfg = "cfg(all(windows, target_env = \"musl\"))";
    let (a, x) = (id("a", "1.0.0", ""), id("x", "1.0.0", IO));
    let doc = md(
        vec![pkg("a", "1.0.0", "", json!({"dependencies": [dep("x", json!({"target": cfg}))]})), pkg("x", "1.0.0", IO, json!({}))],
        vec![node(&a, vec![link("x", &x, vec![kind(None, Some(cfg))])], &[]), node(&x, vec![], &[])],
        &[a.clone()], None);
    let mut builder = krates::Builder::new();
    builder.include_targets([("x86_64-pc-windows-msvc", vec![]), ("x86_64-unknown-linux-musl", vec![])]);
    assert_eq!(build(&doc, builder).0.len(), 1);
}
''')

bug("c06-scope", "C06", [(B, "let is_in_workspace = workspace_members.binary_search(pid).is_ok();", "let is_in_workspace = is_root_crate(pid);")],
 "a member of the workspace that is no root, but a dependency of one, and a kind that is ignored for one scope only", "The dependencies of the member are treated as if it was not in the workspace", r'''
use serde_json::json;
fn main() {
    let (a, b, x) = (id("a", "1.0.0", ""), id("b", "1.0.0", ""), id("x", "1.0.0", IO));
    let doc = md(
        vec![pkg("a", "1.0.0", "", json!({"dependencies": [dep("b", json!({"source": null, "path": "/w/b"}))]})), pkg("b", "1.0.0", "", json!({"dependencies": [dep("x", json!({"kind": "build"}))]})), pkg("x", "1.0.0", IO, json!({}))],
        vec![node(&a, vec![link("b", &b, vec![kind(None, None)])], &[]), node(&b, vec![link("x", &x, vec![kind(Some("build"), None)])], &[]), node(&x, vec![], &[])],
        &[a.clone(), b.clone()], Some(&a));
    let mut builder = krates::Builder::new();
    builder.ignore_kind(krates::DepKind::Build, krates::Scope::NonWorkspace);
    assert_eq!(build(&doc, builder).0.len(), 3);
}
''')

bug("c07-pending", "C07", [(B, """                    if let Some(vd) = visit_dep.take() {
                        visit_stack.push(vd);
                        if let Some(kf) = krate_features.pending_weak.remove(vd) {
                            for feat in kf {
                                visit_stack.push_with_feature(vd, feat);
                                dep.features.insert(feat);
                            }
                        }
                    }

                    let mut features = Vec::new();""", """                    if let Some(vd) = visit_dep.take() {
                        visit_stack.push(vd);
                    }

                    let mut features = Vec::new();""")],
 "a weak feature of a dependency that is not optional, seen before the dependency itself", "The feature is not enabled", r'''
use serde_json::json;
fn main() {
    let (a, b, x) = (id("a", "1.0.0", ""), id("b", "1.0.0", IO), id("x", "1.0.0", IO));
    let doc = md(
        vec![pkg("a", "1.0.0", "", json!({"dependencies": [dep("b", json!({"features": ["f"]}))]})), pkg("b", "1.0.0", IO, json!({"dependencies": [dep("x", json!({"optional": true})), dep("x", json!({"kind": "build"}))], "features": {"f": ["x?/g"], "x": ["dep:x"]}})), pkg("x", "1.0.0", IO, json!({"features": {"g": []}}))],
        vec![node(&a, vec![link("b", &b, vec![kind(None, None)])], &[]), node(&b, vec![link("x", &x, vec![kind(Some("build"), None)])], &["f", "x"]), node(&x, vec![], &["g"])],
        &[a.clone()], None);
    assert_eq!(features(&build(&doc, krates::Builder::new()).0, "x"), ["g"]);
}
''')

bug("c08-build-metadata", "C08", [(I, "(&ikv.version == version)", "(ikv.version.cmp_precedence(version).is_eq())")],
 "the index knows two releases that differ in their build metadata only", "Features are taken from another release", r'''
use serde_json::json;
use krates::index::{IndexKrate, IndexKrateVersion};
fn main() {
    let (a, x) = (id("a", "1.0.0", ""), id("x", "1.0.0+b", IO));
    let doc = md(
        vec![pkg("a", "1.0.0", "", json!({"dependencies": [dep("x", json!({}))]})), pkg("x", "1.0.0+b", IO, json!({}))],
        vec![node(&a, vec![link("x", &x, vec![kind(None, None)])], &[]), node(&x, vec![], &[])],
        &[a.clone()], None);
    let mut builder = krates::Builder::new();
    builder.with_crates_io_index(Box::new(|_| {
        let version = |v: &str, f: &str| IndexKrateVersion { version: v.parse().unwrap(), features: [(f.to_owned(), vec![])].into() };
        [("x".to_owned(), Some(IndexKrate { versions: vec![version("1.0.0+a", "old"), version("1.0.0+b", "new")] }))].into()
    }));
    let graph = build(&doc, builder).0;
    let x = graph.krates_by_name("x").next().unwrap();
    assert!(x.krate.features.contains_key("new") && !x.krate.features.contains_key("old"));
}
''')

bug("c08-replace", "C08", [(I, """    for (ikey, ivalue) in features {
        if !krate.features.contains_key(ikey) {
            krate.features.insert(ikey.clone(), ivalue.clone());
        }
    }""", """    for (ikey, ivalue) in features {
        let feature = krate.features.entry(ikey.clone()).or_default();
        if feature.len() < ivalue.len() {
            feature.clone_from(ivalue);
        }
    }""")],
 "the index lists more for a feature than cargo reported", "A feature that cargo did report is changed", r'''
use serde_json::json;
use krates::index::{IndexKrate, IndexKrateVersion};
fn main() {
    let (a, x) = (id("a", "1.0.0", ""), id("x", "1.0.0", IO));
    let doc = md(
        vec![pkg("a", "1.0.0", "", json!({"dependencies": [dep("x", json!({}))]})), pkg("x", "1.0.0", IO, json!({"features": {"f": [], "g": []}}))],
        vec![node(&a, vec![link("x", &x, vec![kind(None, None)])], &[]), node(&x, vec![], &[])],
        &[a.clone()], None);
    let mut builder = krates::Builder::new();
    builder.with_crates_io_index(Box::new(|_| {
        let v = IndexKrateVersion { version: "1.0.0".parse().unwrap(), features: [("f".to_owned(), vec!["g".to_owned()])].into() };
        [("x".to_owned(), Some(IndexKrate { versions: vec![v] }))].into()
    }));
    let graph = build(&doc, builder).0;
    assert!(graph.krates_by_name("x").next().unwrap().krate.features["f"].is_empty());
}
''')

bug("c09-root-among", "C09", [(B, """                if self.workspace_filters.len() == 1
                    && is_workspace_root(&self.workspace_filters[0])
                {""", """                if self.workspace_filters.iter().any(|path| is_workspace_root(path)) {""")],
 "the root of the workspace, which is a package too, is named besides another member", "Members that were not named are selected", r'''
use serde_json::json;
fn main() {
    let ids = [id("a", "1.0.0", ""), id("b", "1.0.0", ""), id("c", "1.0.0", "")];
    let mut doc = md(
        vec![pkg("a", "1.0.0", "", json!({"manifest_path": "/w/Cargo.toml"})), pkg("b", "1.0.0", "", json!({})), pkg("c", "1.0.0", "", json!({}))],
        ids.iter().map(|i| node(i, vec![], &[])).collect(), &ids, None);
    doc["workspace_root"] = json!("/w");
    let mut builder = krates::Builder::new();
    builder.include_workspace_crates(["/w", "/w/b"]);
    assert_eq!(names(&build(&doc, builder).0), ["a 1.0.0", "b 1.0.0"]);
}
''')

bug("c09-elsewhere", "C09", [(B, """                            let mp = packages[i].1.manifest_path.as_std_path();
                            let manifest_path = mp.canonicalize();

                            let mp = manifest_path.as_deref().unwrap_or(mp);
                            if""", """                            let Ok(mp) = packages[i].1.manifest_path.as_std_path().canonicalize() else {
                                continue;
                            };
                            let mp = mp.as_path();
                            if""")],
 "the workspace is not on this machine, or the path can not be resolved at the moment", "Members that are named are not selected", r'''
use serde_json::json;
fn main() {
    let ids = [id("a", "1.0.0", ""), id("b", "1.0.0", "")];
    let doc = md(vec![pkg("a", "1.0.0", "", json!({})), pkg("b", "1.0.0", "", json!({}))], ids.iter().map(|i| node(i, vec![], &[])).collect(), &ids, None);
    let mut builder = krates::Builder::new();
    builder.include_workspace_crates(["/w/b"]);
    let graph: krates::Krates = builder.build_with_metadata(parse(&doc), krates::NoneFilter).expect("no graph");
    assert_eq!(names(&graph), ["b 1.0.0"]);
}
''')

bug("c10-default", "C10", [(D, "packages: required!(packages),", "packages: packages.unwrap_or_default(),")],
 "a document that lost its packages", "It is taken for one without packages", r'''
fn main() {
    let text = tiny("a").to_string().replace("\"packages\":", "\"pbckages\":");
    assert!(serde_json::from_str::<krates::cm::Metadata>(&text).is_err());
}
''')

bug("c10-borrowed", "C10", [(D, """        let kind = tri!(Option::<std::borrow::Cow<'de, str>>::deserialize(
            deserializer
        ));
        if let Some(kind) = kind {
            Ok(match kind.as_ref() {""", """        let kind = tri!(Option::<&'de str>::deserialize(deserializer));
        if let Some(kind) = kind {
            Ok(match kind {""")],
 "a document with a build or dev dependency that is read from a stream, or spelled with escapes", "It is an error", r'''
use serde_json::json;
fn main() {
    let (a, x) = (id("a", "1.0.0", ""), id("x", "1.0.0", IO));
    let doc = md(
        vec![pkg("a", "1.0.0", "", json!({"dependencies": [dep("x", json!({"kind": "dev"}))]})), pkg("x", "1.0.0", IO, json!({}))],
        vec![node(&a, vec![link("x", &x, vec![kind(Some("dev"), None)])], &[]), node(&x, vec![], &[])],
        &[a.clone()], None).to_string();
    assert!(serde_json::from_str::<krates::cm::Metadata>(&doc).is_ok());
    assert!(serde_json::from_reader::<_, krates::cm::Metadata>(doc.as_bytes()).is_ok());
}
''')

bug("c11-publish", "C11", [(S, "    entries!(map, self, links, publish, default_run, rust_version);", """    entry!(map, self, links);
    if self.publish.as_ref().is_some_and(|registries| !registries.is_empty()) {
        entry!(map, self, publish);
    }
    entries!(map, self, default_run, rust_version);""")],
 "a package that must not be published", "That is lost in storage", r'''
use serde_json::json;
fn main() {
    let mut doc = tiny("a");
    doc["packages"][0]["publish"] = json!([]);
    let md = parse(&doc);
    let again: krates::cm::Metadata = serde_json::from_str(&serde_json::to_string(&md).unwrap()).unwrap();
    assert_eq!(again.packages[0].publish, md.packages[0].publish);
}
''')

bug("c12-hint", "C12", [(L, """    krates_end: usize,
}

#[allow(clippy::len_without_is_empty)]""", """    krates_end: usize,
    /// The crate that was looked up last, as the same one is often needed again
    last: std::sync::atomic::AtomicUsize,
}

#[allow(clippy::len_without_is_empty)]"""), (L, """    pub fn nid_for_kid(&self, kid: &Kid) -> Option<NodeId> {
        self.graph.raw_nodes()[..self.krates_end]""", """    pub fn nid_for_kid(&self, kid: &Kid) -> Option<NodeId> {
        use std::sync::atomic::Ordering::Relaxed;
        let last = self.last.load(Relaxed);
        if let Some(Node::Krate { id, .. }) = self.graph.raw_nodes()[..self.krates_end]
            .get(last)
            .map(|node| &node.weight)
            && id.name() == kid.name()
            && id.version() == kid.version()
        {
            return Some(NodeId::new(last));
        }
        self.graph.raw_nodes()[..self.krates_end]"""), (L, """            .ok()
            .map(NodeId::new)
    }""", """            .ok()
            .map(|index| {
                self.last.store(index, Relaxed);
                NodeId::new(index)
            })
    }"""), (B, "            krates_end,\n", "            krates_end,\n            last: Default::default(),\n")],
 "two crates of the same name and version from different sources, looked up one after the other", "The answer depends on the query before it", r'''
use serde_json::json;
fn main() {
    let git = "git+https://example.com/x";
    let (a, x, y) = (id("a", "1.0.0", ""), id("x", "1.0.0", IO), id("x", "1.0.0", git));
    let doc = md(
        vec![pkg("a", "1.0.0", "", json!({"dependencies": [dep("x", json!({"kind": "dev"})), dep("x", json!({"kind": "build", "source": git}))]})), pkg("x", "1.0.0", IO, json!({})), pkg("x", "1.0.0", git, json!({}))],
        vec![node(&a, vec![link("x", &x, vec![kind(Some("dev"), None)]), link("x", &y, vec![kind(Some("build"), None)])], &[]), node(&x, vec![], &[]), node(&y, vec![], &[])],
        &[a.clone()], None);
    let graph = build(&doc, krates::Builder::new()).0;
    for km in graph.krates_by_name("x").chain(graph.krates_by_name("a")).chain(graph.krates_by_name("x")) {
        assert_eq!(graph.nid_for_kid(km.kid), Some(km.node_id));
    }
}
''')

bug("c12-contiguous", "C12", [(L, """        raw_nodes
            .iter()
            .enumerate()
            .filter_map(move |(index, node)| {
                if let Node::Krate { krate, id, .. } = &node.weight {
                    if krate.name() == name {""", """        // The crates are ordered by name
        let start = raw_nodes.partition_point(
            |node| matches!(&node.weight, Node::Krate { krate, .. } if krate.name() < name.as_str()),
        );

        raw_nodes
            .iter()
            .enumerate()
            .skip(start)
            .take(8)
            .filter_map(move |(index, node)| {
                if let Node::Krate { krate, id, .. } = &node.weight {
                    if krate.name() == name {""")],
 "more than eight crates of the same name", "Not all crates of a name are found", r'''
use serde_json::json;
fn main() {
    let a = id("a", "1.0.0", "");
    let versions: Vec<_> = (1..12).map(|v| format!("{v}.0.0")).collect();
    let mut packages = vec![pkg("a", "1.0.0", "", json!({"dependencies": versions.iter().map(|v| dep("x", json!({"req": format!("={v}"), "rename": format!("x{}", &v[..v.len() - 4])}))).collect::<Vec<_>>()}))];
    packages.extend(versions.iter().map(|v| pkg("x", v, IO, json!({}))));
    let mut nodes = vec![node(&a, versions.iter().map(|v| link(&format!("x{}", &v[..v.len() - 4]), &id("x", v, IO), vec![kind(None, None)])).collect(), &[])];
    nodes.extend(versions.iter().map(|v| node(&id("x", v, IO), vec![], &[])));
    let graph = build(&md(packages, nodes, &[a], None), krates::Builder::new()).0;
    assert_eq!(graph.krates_by_name("x").count(), 11);
}
''')

bug("c13-exec-cache", "C13", [(C, "        let output = command.output()?;\n", """        // The same question is often asked again, eg. by tools that build several graphs
        static ANSWERS: std::sync::Mutex<std::collections::BTreeMap<String, String>> =
            std::sync::Mutex::new(std::collections::BTreeMap::new());
        let question = format!("{command:?}");
        if let Some(answer) = ANSWERS.lock().unwrap().get(&question) {
            return Self::parse(answer);
        }
        let output = command.output()?;
"""), (C, "        Self::parse(stdout)\n    }", "        ANSWERS.lock().unwrap().insert(question, stdout.to_owned());\n        Self::parse(stdout)\n    }")],
 "the workspace changes between two builds that ask cargo the same", "The second graph is that of the old workspace", r'''
fn main() {
    let mut cmd = krates::cm::MetadataCommand::new();
    cmd.cargo_path(fake("cargo", &format!("echo '{}'", tiny("a"))));
    assert_eq!(cmd.exec().unwrap().packages[0].name, "a");
    fake("cargo", &format!("echo '{}'", tiny("b")));
    assert_eq!(cmd.exec().unwrap().packages[0].name, "b");
}
''')

bug("c13-paths", "C13", [(B, """            // Attempt to canonicalize""", """            // The paths are usually the same for every graph that is built
            thread_local! {
                static RESOLVED: std::cell::RefCell<BTreeMap<PathBuf, PathBuf>> =
                    const { std::cell::RefCell::new(BTreeMap::new()) };
            }
            if let Some(known) = RESOLVED.with_borrow(|known| known.get(&manifest).cloned()) {
                return known;
            }

            // Attempt to canonicalize"""), (B, """            manifest
                .canonicalize()
                .or_else(|err|""", """            let resolved = manifest
                .canonicalize()
                .or_else(|err|"""), (B, "                .unwrap_or(manifest)\n", "                .unwrap_or_else(|_err| manifest.clone());\n            RESOLVED.with_borrow_mut(|known| known.insert(manifest, resolved.clone()));\n            resolved\n")],
 "a link changes between two builds of one thread", "The crate the link led to earlier is selected", r'''
use serde_json::json;
fn main() {
    let here = std::env::current_dir().unwrap().canonicalize().unwrap();
    for name in ["a", "b"] {
        std::fs::create_dir_all(name).unwrap();
        std::fs::write(format!("{name}/Cargo.toml"), "").unwrap();
    }
    let ids = [id("a", "1.0.0", ""), id("b", "1.0.0", "")];
    let at = |n: &str| json!({"manifest_path": here.join(n).join("Cargo.toml")});
    let doc = md(vec![pkg("a", "1.0.0", "", at("a")), pkg("b", "1.0.0", "", at("b"))], ids.iter().map(|i| node(i, vec![], &[])).collect(), &ids, None);
    for name in ["a", "b"] {
        let _ = std::fs::remove_file("it");
        std::os::unix::fs::symlink(name, "it").unwrap();
        let mut builder = krates::Builder::new();
        builder.include_workspace_crates([here.join("it")]);
        assert_eq!(names(&build(&doc, builder).0), [format!("{name} 1.0.0")]);
    }
}
''')

bug("c14-root-excluded", "C14", [(B, """        let include_all_targets = self.target_filters.is_empty();
""", """        // Without its root there is nothing the graph could be made of
        if let Some(root) = &root
            && let Ok(i) = packages.binary_search_by(|(id, _pkg)| id.cmp(root))
            && exclude.iter().any(|exc| exc.matches(&packages[i].1))
        {
            return Err(Error::NoRootKrates);
        }

        let include_all_targets = self.target_filters.is_empty();
""")],
 "the root of the resolution is excluded, but there are other roots, as the whole workspace was asked for", "The build fails though there are roots left", r"""
use serde_json::json;
fn main() {
    let ids = [id("a", "1.0.0", ""), id("b", "1.0.0", "")];
    let doc = md(vec![pkg("a", "1.0.0", "", json!({})), pkg("b", "1.0.0", "", json!({}))], ids.iter().map(|i| node(i, vec![], &[])).collect(), &ids, Some(&ids[0]));
    let mut builder = krates::Builder::new();
    builder.workspace(true).exclude(["a".parse::<krates::PkgSpec>().unwrap()]);
    let graph: krates::Krates = builder.build_with_metadata(parse(&doc), krates::NoneFilter).expect("no graph");
    assert_eq!(names(&graph), ["b 1.0.0"]);
}
""")

bug("c14-no-resolve", "C14", [(B, "        let mut resolved = md.resolve.ok_or(Error::NoResolveGraph)?;\n", """        let Some(mut resolved) = md.resolve else {
            // None of the packages will end up in a graph
            for krate in md.packages {
                on_filter.filtered(krate);
            }
            return Err(Error::NoResolveGraph);
        };
""")],
 "a document without a resolution", "The filter callback is called though the build fails", r"""
use serde_json::json;
fn main() {
    let mut doc = tiny("a");
    doc["resolve"] = json!(null);
    let mut called = 0;
    let result = krates::Builder::new().build_with_metadata::<krates::cm::Package, krates::Edge, _>(parse(&doc), |_: krates::cm::Package| called += 1);
    assert!(result.is_err());
    assert_eq!(called, 0);
}
""")

bug("c15-at-in-url", "C15", [(L, """let (name, version) = if let Some(split) = repr[vmn..].find('@') {
                    ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))""", """let (name, version) = if let Some((name, _)) = repr.split_once('#').filter(|(url, _)| !url.contains('@')).and_then(|(_, rest)| rest.split_once('@')) {
                    let split = name.len() + 1;
                    ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))""")],
 "a git dependency whose url has a user, in the stable format of identifiers, that is not named like its repository", "The crate gets another name than it has in the opaque format", r'''
use serde_json::json;
fn main() {
    let git = "git+ssh://git@example.com/them/repo";
    let (a, x) = (id("a", "1.0.0", ""), id("x", "1.0.0", git));
    let doc = md(
        vec![pkg("a", "1.0.0", "", json!({"dependencies": [dep("x", json!({"source": git}))]})), pkg("x", "1.0.0", git, json!({}))],
        vec![node(&a, vec![link("x", &x, vec![kind(None, None)])], &[]), node(&x, vec![], &[])],
        &[a.clone()], None);
    let graph = build(&doc, krates::Builder::new()).0;
    let kid = graph.krates_by_name("x").next().unwrap().kid;
    assert_eq!((kid.name(), kid.version()), ("x", "1.0.0"));
}
''')

bug("c15-no-kinds", "C15", [(D, "    let mut crate_types = Vec::new();", "    let mut crate_types = None;"), (D, "\"crate_types\" => crate_types = tri!(map.next_value()),", "\"crate_types\" => crate_types = Some(tri!(map.next_value())),"), (D, "        crate_types,\n        required_features,", "        crate_types: required!(crate_types),\n        required_features,")],
 "a cargo that does not report the crate types of targets", "Its documents are rejected", r'''
fn main() {
    let mut doc = tiny("a");
    doc["packages"][0]["targets"][0].as_object_mut().unwrap().remove("crate_types");
    assert_eq!(build(&doc, krates::Builder::new()).0.len(), 1);
}
''')
