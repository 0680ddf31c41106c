B = "src/builder.rs"; C = "src/cm/cmd.rs"; L = "src/lib.rs"; D = "src/cm/de.rs"; S = "src/cm/ser.rs"; I = "src/builder/index.rs"; F = "src/builder/features.rs"; M = "src/cm.rs"
BUGS = []
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

OUTPUT = "        let output = command.output()?;\n"

bug("c01-split-char", "C01", [(C, OUTPUT, """        let output = {
            use std::io::Read;
            command.stdin(std::process::Stdio::null());
            command.stdout(std::process::Stdio::piped());
            if !self.verbose {
                command.stderr(std::process::Stdio::piped());
            }
            let mut child = command.spawn()?;
            let stderr = child.stderr.take().map(|mut err| {
                std::thread::spawn(move || {
                    let mut all = Vec::new();
                    let _ = err.read_to_end(&mut all);
                    all
                })
            });
            // Decode while reading, so that a huge document is not held twice
            let mut stdout = String::new();
            let mut chunk = vec![0; 64 * 1024];
            let mut out = child.stdout.take().unwrap();
            let mut broken = None;
            while let Ok(n) = out.read(&mut chunk) {
                if n == 0 {
                    break;
                }
                match std::str::from_utf8(&chunk[..n]) {
                    Ok(s) => stdout.push_str(s),
                    Err(err) => broken = broken.or(Some(err)),
                }
            }
            let status = child.wait()?;
            let stderr = stderr.map(|t| t.join().unwrap()).unwrap_or_default();
            if let (Some(err), true) = (broken, status.success()) {
                return Err(err.into());
            }
            std::process::Output { status, stdout: stdout.into_bytes(), stderr }
        };
""")],
 "a character of several bytes that arrives in two pieces", "A document is refused as invalid UTF-8 if a read ends inside of a character", r'''
fn main() {
    let doc = tiny("a").to_string().replace("\"metadata\":null", "\"metadata\":\"x\u{e9}y\"");
    let at = doc.find('\u{e9}').unwrap();
    std::fs::write("doc", doc.as_bytes()).unwrap();
    let cargo = fake("cargo", &format!("head -c {} doc; sleep 1; tail -c +{} doc", at + 1, at + 2));
    let mut cmd = krates::cm::MetadataCommand::new();
    cmd.cargo_path(cargo);
    cmd.exec().unwrap();
}
''')

bug("c01-stderr-lossy", "C01", [(C, "stderr: String::from_utf8(output.stderr)?,", "stderr: String::from_utf8_lossy(&output.stderr).trim_end().to_owned(),")],
 "a failing cargo whose message ends in white space or a line break", "The error is not exactly what cargo wrote", r'''
fn main() {
    let cargo = fake("cargo", "printf 'error: no\\n\\n' >&2; exit 101");
    let mut cmd = krates::cm::MetadataCommand::new();
    cmd.cargo_path(cargo);
    match cmd.exec() {
        Err(krates::cm::Error::CargoMetadata { stderr }) => assert_eq!(stderr, "error: no\n\n"),
        _ => panic!(),
    }
}
''')

bug("c01-last-line", "C01", [(C, ".find(|line| line.starts_with('{'))", ".rfind(|line| line.starts_with('{'))")],
 "a second line that begins like an object after the document", "What is printed after the document is taken for it", r'''
fn main() {
    let doc = tiny("a").to_string();
    let cargo = fake("cargo", &format!("echo '{doc}'; echo '{{\"reason\":\"x\"}}'"));
    let mut cmd = krates::cm::MetadataCommand::new();
    cmd.cargo_path(cargo);
    cmd.exec().unwrap();
}
''')

bug("c02-stderr-cap", "C02", [(C, OUTPUT, """        let output = {
            use std::io::Read;
            command.stdin(std::process::Stdio::null());
            command.stdout(std::process::Stdio::piped());
            if !self.verbose {
                command.stderr(std::process::Stdio::piped());
            }
            let mut child = command.spawn()?;
            let stderr = child.stderr.take().map(|err| {
                std::thread::spawn(move || {
                    // No message of cargo is anywhere near this long
                    let mut all = Vec::new();
                    let mut err = err.take(1 << 16);
                    let _ = err.read_to_end(&mut all);
                    (all, err)
                })
            });
            let mut stdout = Vec::new();
            child.stdout.take().unwrap().read_to_end(&mut stdout)?;
            let status = child.wait()?;
            let stderr = stderr.map(|t| t.join().unwrap().0).unwrap_or_default();
            std::process::Output { status, stdout, stderr }
        };
""")],
 "more than 128 KiB on stderr before stdout is closed", "cargo waits for someone to read its messages, and krates for cargo", r'''
fn main() {
    let doc = tiny("a").to_string();
    let cargo = fake("cargo", &format!("head -c 600000 /dev/zero | tr '\\0' 'w' >&2; echo '{doc}'"));
    let mut cmd = krates::cm::MetadataCommand::new();
    cmd.cargo_path(cargo);
    cmd.exec().unwrap();
}
''')

bug("c02-read-error", "C02", [(C, OUTPUT, """        let output = {
            use std::io::Read;
            command.stdin(std::process::Stdio::null());
            command.stdout(std::process::Stdio::piped());
            if !self.verbose {
                command.stderr(std::process::Stdio::piped());
            }
            let mut child = command.spawn()?;
            let stderr = child.stderr.take().map(|mut err| {
                std::thread::spawn(move || {
                    let mut all = String::new();
                    err.read_to_string(&mut all).map(|_| all)
                })
            });
            let mut stdout = Vec::new();
            child.stdout.take().unwrap().read_to_end(&mut stdout)?;
            let stderr = match stderr {
                Some(t) => t.join().unwrap()?,
                None => String::new(),
            };
            std::process::Output { status: child.wait()?, stdout, stderr: stderr.into_bytes() }
        };
""")],
 "cargo writes something to stderr that is no UTF-8", "The child is never reaped (and a good document is lost)", r'''
fn main() {
    let doc = tiny("a").to_string();
    let cargo = fake("cargo", &format!("printf '\\xff' >&2; echo '{doc}'"));
    let mut cmd = krates::cm::MetadataCommand::new();
    cmd.cargo_path(cargo);
    let _ = cmd.exec();
    std::thread::sleep(std::time::Duration::from_millis(500));
    let me = std::process::id().to_string();
    for p in std::fs::read_dir("/proc").unwrap().flatten() {
        let Ok(stat) = std::fs::read_to_string(p.path().join("stat")) else { continue };
        let rest: Vec<_> = stat.rsplit(')').next().unwrap().split_whitespace().collect();
        assert!(rest[1] != me, "a child is left: {stat}");
    }
}
''')

bug("c03-dedup-options", "C03", [(B, "        opts.append(&mut cmd.other_options);\n", """        for opt in cmd.other_options {
            // The user might have repeated what was asked for already
            if !opts.contains(&opt) {
                opts.push(opt);
            }
        }
""")],
 "an extra option that is given twice, with different values", "The second of two `--config` or `-Z` is dropped, and its value is not", r'''
fn main() {
    let mut cmd = krates::Cmd::new();
    cmd.other_options(["--config", "a=1", "--config", "b=2"].map(String::from));
    let cmd = krates::cm::MetadataCommand::from(cmd).cargo_command();
    let args: Vec<_> = cmd.get_args().map(|a| a.to_str().unwrap().to_owned()).collect();
    assert!(args.ends_with(&["--config", "a=1", "--config", "b=2"].map(String::from)), "{args:?}");
}
''')

bug("c03-env", "C03", [(C, OUTPUT, """        // Where cargo is found and what it finds depends on the environment, which has to be set for that
        for (key, value) in &self.env {
            #[allow(unsafe_code)]
            unsafe {
                std::env::set_var(key, value);
            }
        }
        let output = command.output()?;
""")],
 "a command with a variable of its own, and someone who looks at the environment later", "The environment of the caller changes", r'''
fn main() {
    let doc = tiny("a").to_string();
    let cargo = fake("cargo", &format!("echo '{doc}'"));
    let mut cmd = krates::cm::MetadataCommand::new();
    cmd.cargo_path(cargo).env("SOME_THING", "1");
    cmd.exec().unwrap();
    assert!(std::env::var_os("SOME_THING").is_none());
}
''')

bug("c03-lock-opts", "C03", [(B, """        self.frozen = lopts.frozen;
        self.locked = lopts.locked;
        self.offline = lopts.offline;
""", """        self.frozen |= lopts.frozen;
        self.locked |= lopts.locked;
        self.offline |= lopts.offline;
"""), (B, """        if cmd.locked {
            opts.push("--locked".to_owned());
        }
""", """        // --frozen is the same as both of the others
        if cmd.locked && !cmd.frozen {
            opts.push("--locked".to_owned());
        }
""")],
 "lock options that are set a second time, with fewer of them", "Options that were taken back are still passed to cargo", r'''
fn main() {
    let mut cmd = krates::Cmd::new();
    cmd.lock_opts(krates::LockOptions { frozen: true, locked: false, offline: false });
    cmd.lock_opts(krates::LockOptions { frozen: false, locked: true, offline: false });
    let cmd = krates::cm::MetadataCommand::from(cmd).cargo_command();
    let args: Vec<_> = cmd.get_args().map(|a| a.to_str().unwrap().to_owned()).collect();
    assert!(!args.contains(&"--frozen".to_owned()) && args.contains(&"--locked".to_owned()), "{args:?}");
}
''')

bug("c04-features", "C04", [(B, """                let has_default_feature = features
                    .binary_search_by(|f| f.as_str().cmp("default"))
                    .is_ok();
""", ""), (B, "                let mut features = rn.features;\n", """                let mut features = rn.features;
                // Sorted by cargo, so this is where it has to be
                let has_default_feature = features
                    .binary_search_by(|f| f.as_str().cmp("default"))
                    .is_ok();
""")],
 "a node that lists its features in another order, one of them `default`", "The default features of a crate are not seen if they are not listed in order", r'''
fn main() {
    let (a, b) = (id("a", "1.0.0", ""), id("b", "1.0.0", IO));
    let make = |features: &[&str]| {
        let pa = pkg("a", "1.0.0", "", json!({"dependencies": [dep("b", json!({"uses_default_features": true}))]}));
        let pb = pkg("b", "1.0.0", IO, json!({"features": {"default": ["std"], "std": [], "zap": []}}));
        let doc = md(vec![pa, pb], vec![node(&a, vec![link("b", &b, vec![kind(None, None)])], &[]), node(&b, vec![], features)], &[a.clone()], Some(&a));
        self::features(&build(&doc, Builder::new()).0, "b")
    };
    assert_eq!(make(&["default", "std"]), make(&["std", "default"]));
    assert_eq!(make(&["default", "std", "zap"]), make(&["zap", "std", "default"]));
}
use serde_json::json;
use krates::Builder;
''')

bug("c05-dedup", "C05", [(B, """        for (id, krate) in packages {
            let Some(pn) = dep_edge_map.get(&id) else {
                on_filter.filtered(krate);
""", """        let mut told = BTreeSet::new();
        for (id, krate) in packages {
            let Some(pn) = dep_edge_map.get(&id) else {
                // Crates with a library and a build dependency on the same crate can list it twice
                if told.insert((krate.name.clone(), krate.version.clone())) {
                    on_filter.filtered(krate);
                }
""")],
 "two revisions of one git repository with the same package at the same version, both filtered", "A package is neither in the graph nor filtered", r'''
fn main() {
    let g = |rev: &str| format!("git+https://git.example.com/r?rev={rev}");
    let (a, b, c) = (id("a", "1.0.0", ""), id("b", "1.0.0", &g("111")), id("b", "1.0.0", &g("222")));
    let doc = md(
        vec![pkg("a", "1.0.0", "", json!({})), pkg("b", "1.0.0", &g("111"), json!({})), pkg("b", "1.0.0", &g("222"), json!({}))],
        vec![node(&a, vec![], &[]), node(&b, vec![], &[]), node(&c, vec![], &[])],
        &[a.clone()], Some(&a));
    let (_, out) = build(&doc, Builder::new());
    assert_eq!(out, [b, c]);
}
use serde_json::json;
use krates::Builder;
''')

bug("c05-guard", "C05", [(B, """        // Preserve the ordering of the krates when inserting them into the graph
""", """        // Tell about everything that is filtered in one go, when all else is done
        struct Told<F: OnFilter>(Vec<cm::Package>, F);
        impl<F: OnFilter> Drop for Told<F> {
            fn drop(&mut self) {
                for krate in std::mem::take(&mut self.0) {
                    self.1.filtered(krate);
                }
            }
        }
        let mut told = Told(Vec::new(), on_filter);

        // Preserve the ordering of the krates when inserting them into the graph
"""), (B, "                on_filter.filtered(krate);\n", "                told.0.push(krate);\n"), (B, "        mut on_filter: F,\n    ) -> Result<Krates<N, E>, Error>", "        on_filter: F,\n    ) -> Result<Krates<N, E>, Error>")],
 "a conversion that panics", "The callback is called while the panic unwinds, after the build has failed", r'''
static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
struct Bad;
impl From<krates::cm::Package> for Bad { fn from(_: krates::cm::Package) -> Self { CALLS.store(1000, std::sync::atomic::Ordering::SeqCst); panic!("no") } }
fn main() {
    let (a, b) = (id("a", "1.0.0", ""), id("Z", "1.0.0", IO));
    let _ = b;
    let doc = md(vec![pkg("a", "1.0.0", "", json!({})), pkg("Z", "1.0.0", IO, json!({}))], vec![node(&a, vec![], &[])], &[a.clone()], Some(&a));
    let after = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let seen = after.clone();
    let r = std::panic::catch_unwind(move || {
        let _ = Builder::new().build_with_metadata::<Bad, krates::Edge, _>(parse(&doc), move |_: krates::cm::Package| {
            if CALLS.load(std::sync::atomic::Ordering::SeqCst) == 1000 { seen.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
        });
    });
    assert!(r.is_err());
    assert_eq!(after.load(std::sync::atomic::Ordering::SeqCst), 0);
}
use krates::Builder;
use serde_json::json;
''')

bug("c06-all-nothing", "C06", [(B, "if expr.predicates().count() == 0 && !expr.eval(|_| true) {", "if expr.predicates().count() == 0 {")],
 "a dependency for `cfg(all())`, and no targets are asked for", "A dependency that always applies is dropped", r'''
fn main() {
    let (a, b) = (id("a", "1.0.0", ""), id("b", "1.0.0", IO));
    let pa = pkg("a", "1.0.0", "", json!({"dependencies": [dep("b", json!({"target": "cfg(all())"}))]}));
    let doc = md(vec![pa, pkg("b", "1.0.0", IO, json!({}))], vec![node(&a, vec![link("b", &b, vec![kind(None, Some("cfg(all())"))])], &[]), node(&b, vec![], &[])], &[a.clone()], Some(&a));
    assert_eq!(build(&doc, Builder::new()).0.len(), 2);
}
use serde_json::json;
use krates::Builder;
''')

bug("c06-target-features", "C06", [(B, "self.features.iter().any(|f| f == feat)", "self.features.iter().any(|f| f.starts_with(&**feat))")],
 "a dependency for a target feature that another one begins with", "`sse4.1` is taken for `sse`", r'''
fn main() {
    let (a, b) = (id("a", "1.0.0", ""), id("b", "1.0.0", IO));
    let t = "cfg(target_feature = \"sse\")";
    let pa = pkg("a", "1.0.0", "", json!({"dependencies": [dep("b", json!({"target": t}))]}));
    let doc = md(vec![pa, pkg("b", "1.0.0", IO, json!({}))], vec![node(&a, vec![link("b", &b, vec![kind(None, Some(t))])], &[]), node(&b, vec![], &[])], &[a.clone()], Some(&a));
    let mut builder = Builder::new();
    builder.include_targets([("x86_64-unknown-linux-gnu", vec!["sse4.1".to_owned()])]);
    assert_eq!(build(&doc, builder).0.len(), 1);
}
use serde_json::json;
use krates::Builder;
''')

bug("c06-one-mapping", "C06", [(B, """                    if let crate::Node::Krate { dep_mapping, .. } = &mut graph[srcid] {
                        dep_mapping[edge.dep_index] = Some(target_krate);
                    }
""", """                    if let crate::Node::Krate { dep_mapping, .. } = &mut graph[srcid]
                        && !dep_mapping.contains(&Some(target_krate))
                    {
                        dep_mapping[edge.dep_index] = Some(target_krate);
                    }
""")],
 "a crate that declares the same dependency twice", "Only the first declaration is resolved", r'''
fn main() {
    let (a, b) = (id("a", "1.0.0", ""), id("b", "1.0.0", IO));
    let pa = pkg("a", "1.0.0", "", json!({"dependencies": [dep("b", json!({})), dep("b", json!({"kind": "build"}))]}));
    let doc = md(vec![pa, pkg("b", "1.0.0", IO, json!({}))], vec![node(&a, vec![link("b", &b, vec![kind(None, None), kind(Some("build"), None)])], &[]), node(&b, vec![], &[])], &[a.clone()], Some(&a));
    let graph = build(&doc, Builder::new()).0;
    let nid = graph.krates_by_name("a").next().unwrap().node_id;
    assert!(graph.resolved_dependency(nid, 0).is_some() && graph.resolved_dependency(nid, 1).is_some());
}
use serde_json::json;
use krates::Builder;
''')

bug("c06-prerelease", "C06", [(B, """                                // version, but those should be rejected during source comparison if matching against eg. a registry crate
                                if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
                                    return false;
                                }
""", """                                // version, but those should be rejected during source comparison if matching against eg. a registry crate
                                if !(has_prelease || dep.req.matches(rdep_version)) {
                                    return false;
                                }
""")],
 "two versions of one package as dependencies, the resolved one a pre-release and the declaration of the other before it", "A dependency on a pre-release is taken for another declaration", r'''
fn main() {
    let (a, b, c) = (id("a", "1.0.0", ""), id("b", "1.0.0", IO), id("b", "2.0.0-rc.1", IO));
    let pa = pkg("a", "1.0.0", "", json!({"dependencies": [dep("b", json!({"req": "^1"})), dep("b", json!({"req": "^2.0.0-rc.1", "rename": "b2"}))]}));
    let doc = md(vec![pa, pkg("b", "1.0.0", IO, json!({})), pkg("b", "2.0.0-rc.1", IO, json!({}))],
        vec![node(&a, vec![link("b", &b, vec![kind(None, None)]), link("b2", &c, vec![kind(None, None)])], &[]), node(&b, vec![], &[]), node(&c, vec![], &[])], &[a.clone()], Some(&a));
    let graph = build(&doc, Builder::new()).0;
    let nid = graph.krates_by_name("a").next().unwrap().node_id;
    assert_eq!(graph.resolved_dependency(nid, 0).map(|k| k.version.to_string()), Some("1.0.0".into()));
    assert_eq!(graph.resolved_dependency(nid, 1).map(|k| k.version.to_string()), Some("2.0.0-rc.1".into()));
}
use serde_json::json;
use krates::Builder;
''')

bug("c07-default-lost", "C07", [(B, ".chain(edge.uses_default_features.then_some(\"default\"))", ".chain((edge.uses_default_features && !edge.features.iter().any(|f| f.starts_with(\"default\"))).then_some(\"default\"))")],
 "a dependency that asks for a feature like `default-tls` besides the default features", "The default features are not enabled", r'''
fn main() {
    let (a, b) = (id("a", "1.0.0", ""), id("b", "1.0.0", IO));
    let pa = pkg("a", "1.0.0", "", json!({"dependencies": [dep("b", json!({"uses_default_features": true, "features": ["default-tls"]}))]}));
    let pb = pkg("b", "1.0.0", IO, json!({"features": {"default": ["std"], "std": [], "default-tls": []}}));
    let doc = md(vec![pa, pb], vec![node(&a, vec![link("b", &b, vec![kind(None, None)])], &[]), node(&b, vec![], &["default", "default-tls", "std"])], &[a.clone()], Some(&a));
    assert_eq!(features(&build(&doc, Builder::new()).0, "b"), ["default", "default-tls", "std"]);
}
use serde_json::json;
use krates::Builder;
''')

bug("c07-weak-present", "C07", [(B, """                            if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
                                visit_stack.push_with_feature(&ndep.pkg, feature);
                                dep.features.insert(feature);
                            } else {
""", """                            if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
                                if !dep.edges.iter().any(|edge| edge.features.contains(&feature)) {
                                    dep.features.insert(feature);
                                }
                                if dep.edges.iter().any(|edge| edge.kind != DepKind::Build) {
                                    visit_stack.push_with_feature(&ndep.pkg, feature);
                                }
                            } else {
""")],
 "a weak feature of a build dependency, found after the dependency", "A feature that something enables is missing", r'''
fn main() {
    let (a, c, m, b) = (id("a", "1.0.0", ""), id("c", "1.0.0", ""), id("m", "1.0.0", IO), id("b", "1.0.0", IO));
    for (fa, fc) in [(vec!["w"], vec![]), (vec![], vec!["w"])] {
        let pa = pkg("a", "1.0.0", "", json!({"dependencies": [dep("m", json!({"features": fa}))]}));
        let pc = pkg("c", "1.0.0", "", json!({"dependencies": [dep("m", json!({"features": fc}))]}));
        let pm = pkg("m", "1.0.0", IO, json!({"dependencies": [dep("b", json!({"kind": "build"})), dep("b", json!({"optional": true}))], "features": {"b": ["dep:b"], "w": ["b?/extra"]}}));
        let pb = pkg("b", "1.0.0", IO, json!({"features": {"extra": []}}));
        let doc = md(vec![pa, pc, pm, pb], vec![
            node(&a, vec![link("m", &m, vec![kind(None, None)])], &[]), node(&c, vec![link("m", &m, vec![kind(None, None)])], &[]),
            node(&m, vec![link("b", &b, vec![kind(None, None), kind(Some("build"), None)])], &["w"]), node(&b, vec![], &["extra"])], &[a.clone(), c.clone()], None);
        assert_eq!(features(&build(&doc, Builder::new()).0, "b"), ["extra"], "{fa:?}");
    }
}
use serde_json::json;
use krates::Builder;
''')

bug("c08-taken", "C08", [(I, "    fn index_krate_features(&self, name: &str, version: &semver::Version) -> Option<&FeaturesMap> {", "    fn index_krate_features(&mut self, name: &str, version: &semver::Version) -> Option<FeaturesMap> {"),
  (I, """        self.cache.get(name).and_then(|ik| {
            ik.as_ref().and_then(|ik| {
                ik.versions
                    .iter()
                    .find_map(|ikv| (&ikv.version == version).then_some(&ikv.features))
            })
        })
""", """        // Each crate is only looked at once
        self.cache.remove(name).flatten().and_then(|ik| {
            ik.versions
                .into_iter()
                .find_map(|ikv| (&ikv.version == version).then_some(ikv.features))
        })
"""),
  (I, "pub(super) fn fix_features(index: &CachingIndex, krate", "pub(super) fn fix_features(index: &mut CachingIndex, krate"),
  (I, "    for (ikey, ivalue) in features {\n        if !krate.features.contains_key(ikey) {\n            krate.features.insert(ikey.clone(), ivalue.clone());\n        }", "    for (ikey, ivalue) in features {\n        if !krate.features.contains_key(&ikey) {\n            krate.features.insert(ikey, ivalue);\n        }"),
  (B, "        if let Some(index) = self.crates_io_index.map(", "        if let Some(mut index) = self.crates_io_index.map("),
  (B, "index::fix_features(&index, krate);", "index::fix_features(&mut index, krate);")],
 "two versions of one crate, of which the second is the one with something missing", "Only one version of each crate is repaired", r'''
fn main() {
    let (a, b, c) = (id("a", "1.0.0", ""), id("b", "1.0.0", IO), id("b", "2.0.0", IO));
    let pa = pkg("a", "1.0.0", "", json!({"dependencies": [dep("b", json!({"req": "^1", "features": ["x"]})), dep("b", json!({"req": "^2", "rename": "b2", "features": ["x"]}))]}));
    let doc = md(vec![pa, pkg("b", "1.0.0", IO, json!({})), pkg("b", "2.0.0", IO, json!({}))],
        vec![node(&a, vec![link("b", &b, vec![kind(None, None)]), link("b2", &c, vec![kind(None, None)])], &[]), node(&b, vec![], &["x", "y"]), node(&c, vec![], &["x", "y"])], &[a.clone()], Some(&a));
    let mut builder = Builder::new();
    builder.with_crates_io_index(Box::new(|_| {
        let f: std::collections::BTreeMap<String, Vec<String>> = [("x".to_owned(), vec!["y".to_owned()]), ("y".to_owned(), vec![])].into();
        [("b".to_owned(), Some(krates::index::IndexKrate { versions: ["1.0.0", "2.0.0"].map(|v| krates::index::IndexKrateVersion { version: v.parse().unwrap(), features: f.clone() }).into() }))].into()
    }));
    let graph = build(&doc, builder).0;
    for k in graph.krates_by_name("b") {
        assert!(graph.get_enabled_features(k.kid).unwrap().contains("y"), "{}", k.krate.version);
    }
}
use serde_json::json;
use krates::Builder;
''')

bug("c08-names", "C08", [(B, "                packages.iter().map(|(_id, pkg)| pkg.name.clone()).collect(),", "                packages\n                    .iter()\n                    .filter(|(_id, pkg)| pkg.features.is_empty() || pkg.source.is_some())\n                    .filter_map(|(_id, pkg)| pkg.source.as_ref()?.is_crates_io().then(|| pkg.name.clone()))\n                    .collect(),")],
 "an index that is asked for packages that are not from crates.io", "The index is not asked for the names of all packages", r'''
fn main() {
    let a = id("a", "1.0.0", "");
    let doc = md(vec![pkg("a", "1.0.0", "", json!({}))], vec![node(&a, vec![], &[])], &[a.clone()], Some(&a));
    let mut builder = Builder::new();
    builder.with_crates_io_index(Box::new(|names| { assert!(names.contains("a")); Default::default() }));
    build(&doc, builder);
}
use serde_json::json;
use krates::Builder;
''')

bug("c09-nested", "C09", [(B, "                            if self.workspace_filters.iter().any(|wf| wf == mp) {", "                            if self.workspace_filters.iter().any(|wf| wf == mp || mp.parent().is_some_and(|dir| !wf.exists() && wf.starts_with(dir))) {")],
 "a path that does not exist (yet, or any more) below the directory of a member", "A crate that was not named is selected", r'''
fn main() {
    let here = std::env::current_dir().unwrap();
    let w = here.to_str().unwrap();
    for n in ["a", "b"] { std::fs::create_dir_all(n).unwrap(); std::fs::write(format!("{n}/Cargo.toml"), "").unwrap(); }
    let mut doc = md(vec![], vec![], &[], None);
    let ids: Vec<_> = ["a", "b"].iter().map(|n| id(n, "1.0.0", "")).collect();
    doc["packages"] = ["a", "b"].iter().map(|n| pkg(n, "1.0.0", "", json!({"manifest_path": format!("{w}/{n}/Cargo.toml")}))).collect();
    doc["resolve"]["nodes"] = ids.iter().map(|i| node(i, vec![], &[])).collect();
    doc["workspace_members"] = json!(ids);
    doc["workspace_root"] = json!(w);
    let mut builder = Builder::new();
    builder.include_workspace_crates([format!("{w}/a"), format!("{w}/b/gone")]);
    assert_eq!(names(&build(&doc, builder).0), ["a 1.0.0"]);
}
use serde_json::json;
use krates::Builder;
''')

bug("c09-names", "C09", [(B, "                            let mp = manifest_path.as_deref().unwrap_or(mp);\n", """                            // If the manifest can not be found, the file it is has to be told by its name
                            let gone = manifest_path.is_err();
                            let mp = manifest_path.as_deref().unwrap_or(mp);
                            if gone && self.workspace_filters.iter().any(|wf| wf.components().rev().take(3).eq(mp.components().rev().take(3))) {
                                roots.insert(wm);
                            }
""")],
 "a workspace that is not on this machine with two members in directories with the same names", "Members are selected that were not named", r'''
fn main() {
    let ids: Vec<_> = ["a", "b"].iter().map(|n| id(n, "1.0.0", "")).collect();
    let mut doc = md(vec![], vec![], &[], None);
    doc["packages"] = [("a", "/nowhere/w/one/x/core"), ("b", "/nowhere/w/two/x/core")].iter().map(|(n, d)| pkg(n, "1.0.0", "", json!({"manifest_path": format!("{d}/Cargo.toml")}))).collect();
    doc["resolve"]["nodes"] = ids.iter().map(|i| node(i, vec![], &[])).collect();
    doc["workspace_members"] = json!(ids);
    doc["workspace_root"] = json!("/nowhere/w");
    let mut builder = Builder::new();
    builder.include_workspace_crates(["/nowhere/w/one/x/core"]);
    assert_eq!(names(&build(&doc, builder).0), ["a 1.0.0"]);
}
use serde_json::json;
use krates::Builder;
''')

bug("c10-trailing", "C10", [(C, "        let meta = serde_json::from_str(data)?;\n        Ok(meta)\n", "        // Whatever follows the document on its line is of no interest\n        use serde::Deserialize;\n        let mut de = serde_json::Deserializer::from_str(data);\n        Ok(super::Metadata::deserialize(&mut de)?)\n")],
 "a document that is followed by something else on its line", "A damaged document is accepted", r'''
fn main() {
    let doc = tiny("a").to_string();
    assert!(krates::cm::MetadataCommand::parse(&doc).is_ok());
    assert!(krates::cm::MetadataCommand::parse(&format!("{doc}}}")).is_err());
    assert!(krates::cm::MetadataCommand::parse(&format!("{doc}{doc}")).is_err());
}
''')

bug("c10-unknown-kind", "C10", [(M, "            \"proc-macro\" => Self::ProcMacro,\n            u => return Err(\"unknown target kind\".into()),", "            \"proc-macro\" => Self::ProcMacro,\n            u => return Err(\"unknown target kind\".into()),")], "", "", "fn main(){}")

bug("c10-numbers", "C10", [(D, """    #[inline]
    fn visit_u128<E>(self, _x: u128) -> Result<Self::Value, E> {
        Ok(Self)
    }

    #[inline]
    fn visit_f64<E>(self, _x: f64) -> Result<Self::Value, E> {
        Ok(Self)
    }
""", ""), (D, "        deserializer.deserialize_ignored_any(Self)\n", "        deserializer.deserialize_any(Self)\n")],
 "a field krates does not know that holds a number with a fraction", "A document with such a field is refused", r'''
fn main() {
    let mut doc = tiny("a");
    doc["later"] = serde_json::json!({"x": [1.5]});
    assert!(krates::cm::MetadataCommand::parse(&doc.to_string()).is_ok());
}
''')

bug("c11-empty-lists", "C11", [(S, "    entries!(map, self, id, deps, dependencies, features);\n", "    entry!(map, self, id);\n    if !self.deps.is_empty() {\n        entries!(map, self, deps, dependencies);\n    }\n    entry!(map, self, features);\n")],
 "a crate that has no dependencies", "A stored document can not be loaded", r'''
fn main() {
    let m = parse(&tiny("a"));
    let s = serde_json::to_string(&m).unwrap();
    let back: krates::cm::Metadata = serde_json::from_str(&s).unwrap();
    assert_eq!(format!("{back:?}"), format!("{m:?}"));
}
''')

bug("c11-default-members", "C11", [(S, "    if let Some(wdm) = &self.workspace_default_members.0 {\n", "    if let Some(wdm) = &self.workspace_default_members.0 && *wdm != self.workspace_members {\n")],
 "a workspace whose default members are all of its members", "The default members are lost", r'''
fn main() {
    let mut doc = tiny("a");
    doc["workspace_default_members"] = doc["workspace_members"].clone();
    let m = parse(&doc);
    let back: krates::cm::Metadata = serde_json::from_str(&serde_json::to_string(&m).unwrap()).unwrap();
    assert_eq!(format!("{back:?}"), format!("{m:?}"));
}
''')

bug("c11-rust-version", "C11", [(S, "    entries!(map, self, links, publish, default_run, rust_version);", "    entries!(map, self, links, publish, default_run);\n    // This is how it is written in manifests\n    let rust_version = self.rust_version.as_ref().map(|v| match v.patch {\n        0 => format!(\"{}.{}\", v.major, v.minor),\n        _ => format!(\"{}.{}.{}\", v.major, v.minor, v.minor),\n    });\n    map.serialize_entry(\"rust_version\", &rust_version)?;")],
 "a rust version with a patch level", "Another rust version is stored", r'''
fn main() {
    let mut doc = tiny("a");
    doc["packages"][0]["rust_version"] = "1.56.1".into();
    let m = parse(&doc);
    let back: krates::cm::Metadata = serde_json::from_str(&serde_json::to_string(&m).unwrap()).unwrap();
    assert_eq!(format!("{back:?}"), format!("{m:?}"));
}
''')

bug("c12-scratch", "C12", [(L, """        let graph = self.graph();
        let mut direct_dependents = Vec::new();
        let mut stack = vec![nid];
        let mut visited = std::collections::BTreeSet::new();
""", """        let graph = self.graph();
        let mut direct_dependents = Vec::new();
        let mut stack = vec![nid];
        // This is called for every crate of large graphs, so keep the memory
        static VISITED: std::sync::Mutex<std::collections::BTreeSet<NodeId>> =
            std::sync::Mutex::new(std::collections::BTreeSet::new());
        VISITED.lock().unwrap().clear();
"""), (L, """                        if visited.insert(edge.source()) {
                            direct_dependents.push(DirectDependent {""", """                        if VISITED.lock().unwrap().insert(edge.source()) {
                            direct_dependents.push(DirectDependent {"""), (L, "if *krate_index == nid && visited.insert(edge.source()) {", "if *krate_index == nid && VISITED.lock().unwrap().insert(edge.source()) {")],
 "two clients that ask for dependents at the same time", "Dependents are missing", r'''
fn main() {
    let ids: Vec<_> = (0..40).map(|i| id(&format!("m{i}"), "1.0.0", "")).collect();
    let b = id("b", "1.0.0", IO);
    let mut packages: Vec<_> = (0..40).map(|i| pkg(&format!("m{i}"), "1.0.0", "", json!({"dependencies": [dep("b", json!({"features": ["x"]}))]}))).collect();
    packages.push(pkg("b", "1.0.0", IO, json!({"features": {"x": []}})));
    let mut nodes: Vec<_> = ids.iter().map(|i| node(i, vec![link("b", &b, vec![kind(None, None)])], &[])).collect();
    nodes.push(node(&b, vec![], &["x"]));
    let graph = build(&md(packages, nodes, &ids, None), Builder::new()).0;
    let nid = graph.krates_by_name("b").next().unwrap().node_id;
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| for _ in 0..20_000 { if graph.direct_dependents(nid).len() != 40 { std::process::exit(1) } });
        }
    });
}
use serde_json::json;
use krates::Builder;
''')

bug("c13-one-at-a-time", "C13", [(B, "        let mut resolved = md.resolve.ok_or(Error::NoResolveGraph)?;\n", """        let mut resolved = md.resolve.ok_or(Error::NoResolveGraph)?;

        // The memory a build needs is considerable, so there is only one at a time
        static BUILDING: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _building = BUILDING.lock().unwrap();
""")],
 "a build inside of a callback of another, or after one that panicked", "Nested builds wait for themselves, and builds after a panic panic as well", r'''
fn main() {
    let _ = std::panic::catch_unwind(|| {
        let a = id("a", "1.0.0", "");
        let doc = md(vec![pkg("a", "1.0.0", "", json!({})), pkg("b", "1.0.0", IO, json!({}))], vec![node(&a, vec![], &[])], &[a.clone()], Some(&a));
        let _: Result<krates::Krates, _> = Builder::new().build_with_metadata(parse(&doc), |_: krates::cm::Package| panic!("no"));
    });
    build(&tiny("a"), Builder::new());
}
use serde_json::json;
use krates::Builder;
''')

bug("c13-scratch", "C13", [(B, """        let mut visit_stack = VisitStack {
            v: Vec::with_capacity(roots.len()),
        };
""", """        // Names of crates that were found to be excluded
        thread_local! {
            static EXCLUDED: std::cell::RefCell<BTreeMap<Kid, bool>> = const { std::cell::RefCell::new(BTreeMap::new()) };
        }
        if exclude.is_empty() {
            EXCLUDED.with(|ex| ex.borrow_mut().clear());
        }

        let mut visit_stack = VisitStack {
            v: Vec::with_capacity(roots.len()),
        };
"""), (B, """            if exclude.iter().any(|exc| exc.matches(krate)) {
                continue;
            }
""", """            if !exclude.is_empty()
                && EXCLUDED.with(|ex| {
                    *ex.borrow_mut()
                        .entry(pid.clone())
                        .or_insert_with(|| exclude.iter().any(|exc| exc.matches(krate)))
                })
            {
                continue;
            }
""")],
 "two builds on one thread that exclude different crates", "What an earlier build excluded is excluded again", r'''
fn main() {
    let (a, b) = (id("a", "1.0.0", ""), id("b", "1.0.0", IO));
    let pa = pkg("a", "1.0.0", "", json!({"dependencies": [dep("b", json!({}))]}));
    let doc = md(vec![pa, pkg("b", "1.0.0", IO, json!({}))], vec![node(&a, vec![link("b", &b, vec![kind(None, None)])], &[]), node(&b, vec![], &[])], &[a.clone()], Some(&a));
    for (ex, n) in [("b", 1), ("c", 2)] {
        let mut builder = Builder::new();
        builder.exclude([ex.parse().unwrap()]);
        assert_eq!(build(&doc, builder).0.len(), n);
    }
}
use serde_json::json;
use krates::Builder;
''')

bug("c14-index-first", "C14", [(B, "            if exclude.iter().any(|exc| exc.matches(krate)) {\n                continue;\n            }\n", "            if exclude.iter().any(|exc| exc.matches(krate)) {\n                if roots.len() == exclude.len() && is_root_crate(pid) {\n                    return Err(Error::NoRootKrates);\n                }\n                continue;\n            }\n")],
 "as many exclusions as roots, of which only some are roots", "A build that has roots left fails", r'''
fn main() {
    let ids: Vec<_> = ["a", "b"].iter().map(|n| id(n, "1.0.0", "")).collect();
    let doc = md(["a", "b"].iter().map(|n| pkg(n, "1.0.0", "", json!({}))).collect(), ids.iter().map(|i| node(i, vec![], &[])).collect(), &ids, None);
    let mut builder = Builder::new();
    builder.exclude(["b".parse().unwrap(), "zzz".parse().unwrap()]);
    let r: Result<krates::Krates, _> = builder.build_with_metadata(parse(&doc), krates::NoneFilter);
    assert_eq!(r.unwrap().len(), 1);
}
use serde_json::json;
use krates::Builder;
''')

bug("c15-null-lists", "C15", [(D, "            \"dep_kinds\" => dep_kinds = tri!(map.next_value()),\n", "            \"dep_kinds\" => dep_kinds = tri!(map.next_value()),\n            // Newer versions of cargo only have this, see RFC 3028\n            \"extern_name\" => name = Some(tri!(map.next_value())),\n")],
 "a newer cargo that adds a field named `extern_name` to dependencies", "The name of a dependency is taken from somewhere else", r'''
fn main() {
    let (a, b) = (id("a", "1.0.0", ""), id("b", "1.0.0", IO));
    let pa = pkg("a", "1.0.0", "", json!({"dependencies": [dep("b", json!({}))]}));
    let mut doc = md(vec![pa, pkg("b", "1.0.0", IO, json!({}))], vec![node(&a, vec![link("b", &b, vec![kind(None, None)])], &[]), node(&b, vec![], &[])], &[a.clone()], Some(&a));
    doc["resolve"]["nodes"][0]["deps"][0]["extern_name"] = json!(null);
    let m: Result<krates::cm::Metadata, _> = serde_json::from_str(&doc.to_string());
    m.unwrap();
}
use serde_json::json;
''')

bug("c15-git-hash", "C15", [(L, "let source = (version.1 + 2, repr.rfind('#').unwrap_or(repr.len() - 1));", "let source = (version.1 + 2, repr.find('#').unwrap_or(repr.len() - 1));")],
 "a branch with a `#` in its name, reported in the old format", "The source of a crate is cut short", r'''
fn main() {
    let k = krates::Kid::from(krates::cm::PackageId { repr: "a 1.0.0 (git+https://git.example.com/r?branch=fix#12#abcdef)".into() });
    assert_eq!(k.source(), "git+https://git.example.com/r?branch=fix#12");
}
''')

BUGS[:] = [b for b in BUGS if b["id"] != "c10-unknown-kind"]
