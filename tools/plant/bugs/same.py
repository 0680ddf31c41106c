"""Changes that change no behaviour: `plant.py quiet` runs the checks with them, and all of them have to stay quiet."""
B = "src/builder.rs"; C = "src/cm/cmd.rs"; L = "src/lib.rs"; D = "src/cm/de.rs"; S = "src/cm/ser.rs"; I = "src/builder/index.rs"; F = "src/builder/features.rs"; M = "src/cm.rs"
SAME = []
def same(id, checks, edits):
    SAME.append(dict(id=id, checks=checks.split(), edits=edits))
ALL = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15"
OUTPUT = "        let output = command.output()?;\n"
PIPES = """            command.stdin(std::process::Stdio::null());
            command.stdout(std::process::Stdio::piped());
            if !self.verbose {
                command.stderr(std::process::Stdio::piped());
            }
"""

same("exec-thread", "C01 C02 C03 C13 C14", [(C, OUTPUT, """        let output = {
            use std::io::Read;
""" + PIPES + """            let mut child = command.spawn()?;
            let stderr = child.stderr.take().map(|mut err| {
                std::thread::spawn(move || {
                    let mut all = Vec::new();
                    err.read_to_end(&mut all).map(|_| all)
                })
            });
            let mut stdout = Vec::new();
            let read = child.stdout.take().map(|mut out| out.read_to_end(&mut stdout));
            let stderr = stderr.map(|t| t.join().expect("reading can not panic"));
            let status = child.wait()?;
            read.transpose()?;
            std::process::Output { status, stdout, stderr: stderr.transpose()?.unwrap_or_default() }
        };
""")])

same("exec-scope", "C01 C02 C03 C13", [(C, OUTPUT, """        let output = {
            use std::io::Read;
""" + PIPES + """            let mut child = command.spawn()?;
            let (mut out, mut err) = (child.stdout.take(), child.stderr.take());
            let (stdout, stderr) = std::thread::scope(|s| {
                let all = |from: &mut dyn Read| {
                    let mut all = Vec::new();
                    from.read_to_end(&mut all).map(|_| all)
                };
                let out = s.spawn(move || out.as_mut().map_or(Ok(Vec::new()), |o| all(o)));
                let err = s.spawn(move || err.as_mut().map_or(Ok(Vec::new()), |o| all(o)));
                (out.join().unwrap(), err.join().unwrap())
            });
            let status = child.wait()?;
            std::process::Output { status, stdout: stdout?, stderr: stderr? }
        };
""")])

same("exec-spawn", "C01 C02 C03 C13", [(C, OUTPUT, "        let output = {\n" + PIPES + """            command.spawn()?.wait_with_output()?
        };
""")])

same("exec-slice", "C01 C10", [(C, """        let stdout = std::str::from_utf8(&output.stdout)?
            .lines()
            .find(|line| line.starts_with('{'))
            .ok_or(Error::NoJson)?;
        Self::parse(stdout)
""", """        let text = std::str::from_utf8(&output.stdout)?;
        for line in text.split('\\n') {
            if line.as_bytes().first() == Some(&b'{') {
                return Ok(serde_json::from_slice(line.trim_end_matches('\\r').as_bytes())?);
            }
        }
        Err(Error::NoJson)
""")])

same("cfg-cache", ALL, [(L, """        let cfg = inner
            .starts_with("cfg(")
            .then(|| cfg_expr::Expression::parse(&inner).ok())
            .flatten();
        Self { inner, cfg }
""", """        // The same few expressions occur again and again
        static PARSED: std::sync::Mutex<std::collections::BTreeMap<String, Option<cfg_expr::Expression>>> =
            std::sync::Mutex::new(std::collections::BTreeMap::new());
        if !inner.starts_with("cfg(") {
            return Self { inner, cfg: None };
        }
        let mut parsed = PARSED.lock().unwrap_or_else(|p| p.into_inner());
        let cfg = parsed
            .entry(inner.clone())
            .or_insert_with(|| cfg_expr::Expression::parse(&inner).ok())
            .clone();
        Self { inner, cfg }
""")])

same("hash-index", ALL, [(B, "        let get_rnode = |pid: &Kid| &nodes[nodes.binary_search_by(|n| n.id.cmp(pid)).unwrap()];\n", """        let by_id: std::collections::HashMap<&Kid, usize> =
            nodes.iter().enumerate().map(|(i, n)| (&n.id, i)).collect();
        let get_rnode = |pid: &Kid| &nodes[by_id[pid]];
""")])

same("breadth-first", "C04 C05 C06 C07 C08 C12 C13 C14 C15", [(B, "            v: Vec<(&'s Kid, Option<usize>)>,", "            v: std::collections::VecDeque<(&'s Kid, Option<usize>)>,"),
 (B, "                self.v.push((kid, None));", "                self.v.push_back((kid, None));"),
 (B, "                self.v.push((kid, Some(feat)));", "                self.v.push_back((kid, Some(feat)));"),
 (B, "                self.v.pop()\n", "                self.v.pop_front()\n"),
 (B, "            v: Vec::with_capacity(roots.len()),", "            v: std::collections::VecDeque::with_capacity(roots.len()),")])

same("helper-mask", "C04 C06 C07", [(B, """                        let mask = match dk.kind {
                            DepKind::Normal => 0x1,
                            DepKind::Dev => 0x8,
                            DepKind::Build => 0x40,
                        };

                        let mask = mask | (mask << if is_in_workspace { 1 } else { 2 });
                        if mask & ignore_kinds == mask {
                            return None;
                        }
""", """                        fn ignored(kinds: u32, kind: DepKind, in_workspace: bool) -> bool {
                            let flag = match kind {
                                DepKind::Normal => 0x1,
                                DepKind::Dev => 0x8,
                                DepKind::Build => 0x40,
                            };
                            let scope = if in_workspace { flag << 1 } else { flag << 2 };
                            kinds & flag != 0 && kinds & scope != 0
                        }

                        if ignored(ignore_kinds, dk.kind, is_in_workspace) {
                            return None;
                        }
""")])

same("index-entry", "C08 C14 C15", [(I, """    for (ikey, ivalue) in features {
        if !krate.features.contains_key(ikey) {
            krate.features.insert(ikey.clone(), ivalue.clone());
        }
    }
""", """    let missing: Vec<_> = features
        .iter()
        .filter(|(name, _)| !krate.features.contains_key(*name))
        .map(|(name, enables)| (name.clone(), enables.clone()))
        .collect();
    krate.features.extend(missing);
""")])

same("views", "C12 C06 C07", [(L, """        direct_dependents
    }
""", """        direct_dependents.shrink_to_fit();
        direct_dependents
    }
"""), (L, """    pub fn nid_for_kid(&self, kid: &Kid) -> Option<NodeId> {
        self.graph.raw_nodes()[..self.krates_end]
            .binary_search_by(|rn| {
                if let Node::Krate { id, .. } = &rn.weight {
                    id.cmp(kid)
                } else {
                    unreachable!();
                }
            })
            .ok()
            .map(NodeId::new)
    }
""", """    pub fn nid_for_kid(&self, kid: &Kid) -> Option<NodeId> {
        let krates = &self.graph.raw_nodes()[..self.krates_end];
        let at = krates.partition_point(|rn| match &rn.weight {
            Node::Krate { id, .. } => id < kid,
            Node::Feature { .. } => unreachable!(),
        });
        match &krates.get(at)?.weight {
            Node::Krate { id, .. } if id == kid => Some(NodeId::new(at)),
            _ => None,
        }
    }
""")])

same("paths-fs", "C09 C14 C13", [(B, """            manifest
                .canonicalize()
                .or_else(|err| match p.canonicalize() {
                    Ok(p) if p.is_file() => Ok(p),
                    _ => Err(err),
                })
                .unwrap_or(manifest)
""", """            if let Ok(real) = std::fs::canonicalize(&manifest) {
                real
            } else if let Ok(real) = std::fs::canonicalize(p)
                && std::fs::metadata(&real).is_ok_and(|md| md.is_file())
            {
                real
            } else {
                manifest
            }
""")])

same("locks", ALL, [(B, "        let mut resolved = md.resolve.ok_or(Error::NoResolveGraph)?;\n", """        // How many builds there have been
        static BUILDS: std::sync::Mutex<u64> = std::sync::Mutex::new(0);
        static ONCE: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
        *BUILDS.lock().unwrap() += 1;
        ONCE.get_or_init(|| vec!["default"]);

        let mut resolved = md.resolve.ok_or(Error::NoResolveGraph)?;
""")])

same("filtered-later", "C05 C04 C13 C14", [(B, """        for (id, krate) in packages {
            let Some(pn) = dep_edge_map.get(&id) else {
                on_filter.filtered(krate);
                continue;
            };
""", """        let (kept, gone): (Vec<_>, Vec<_>) =
            packages.into_iter().partition(|(id, _)| dep_edge_map.contains_key(id));
        for (_, krate) in gone {
            on_filter.filtered(krate);
        }
        for (id, krate) in kept {
            let pn = &dep_edge_map[&id];
""")])

same("ser-order", "C11 C10", [(S, "    entries!(map, self, id, deps, dependencies, features);\n", "    entries!(map, self, features, dependencies, deps, id);\n"), (S, "    if !self.metadata.is_null() {\n        entry!(map, self, metadata);\n    }\n", "    entry!(map, self, metadata);\n")])

same("de-null", "C10 C11 C15 C01", [(D, """            "features" => features = tri!(map.next_value()),
            _ => {
                tri!(map.next_value::<Ignore>());
            }
        }
    }

    Ok(Node {
        id: required!(id),
        deps,
        dependencies: required!(dependencies),
        features,
    })
""", """            "features" => features = Some(tri!(map.next_value::<Vec<String>>())),
            _ => {
                let _: Ignore = tri!(map.next_value());
            }
        }
    }

    Ok(Node {
        id: required!(id),
        deps,
        dependencies: required!(dependencies),
        features: features.unwrap_or_default(),
    })
"""), (D, """    let mut deps = Vec::new();
    let mut dependencies = None;
    let mut features = Vec::new();
""", """    let mut deps = Vec::new();
    let mut dependencies = None;
    let mut features = None;
""")])

same("env-os", "C03 C01 C13", [(C, """            .or_else(|| std::env::var("CARGO").map(PathBuf::from).ok())
            .unwrap_or_else(|| PathBuf::from("cargo"));
""", """            .or_else(|| {
                let (_, cargo) = std::env::vars_os().find(|(key, _)| key == "CARGO")?;
                Some(PathBuf::from(cargo.into_string().ok()?))
            })
            .unwrap_or_else(|| PathBuf::from("cargo"));
""")])

same("args", "C03", [(C, "        cmd.args([\"metadata\", \"--format-version\", \"1\"]);\n", "        cmd.arg(\"metadata\");\n        cmd.arg(\"--format-version=1\");\n"), (B, """            opts.push(cmd.features.join(" "));
""", """            opts.push(cmd.features.join(","));
""")])

same("threads-build", ALL, [(B, """        packages.sort_by(|(a, _), (b, _)| a.cmp(b));
""", """        // Large workspaces have thousands of packages
        let packages = std::thread::spawn(move || {
            packages.sort_by(|(a, _), (b, _)| a.cmp(b));
            packages
        });
        let mut packages = packages.join().expect("sorting can not panic");
""")])

same("answers", "C17", [(M, """            let root_manifest_path = self.workspace_root.join("Cargo.toml");
            self.packages
                .iter()
                .find(|pkg| pkg.manifest_path == root_manifest_path)
""", """            for pkg in &self.packages {
                if pkg.manifest_path.file_name() == Some("Cargo.toml")
                    && pkg.manifest_path.parent() == Some(self.workspace_root.as_path())
                {
                    return Some(pkg);
                }
            }
            None
"""), (M, """        self.packages
            .iter()
            .filter(|&p| self.workspace_members.contains(&p.id))
            .collect()
""", """        let members: std::collections::HashSet<&PackageId> = self.workspace_members.iter().collect();
        let mut packages = Vec::with_capacity(members.len());
        packages.extend(self.packages.iter().rev().filter(|p| members.contains(&p.id)));
        packages.reverse();
        packages
"""), (M, """        self.license_file.as_ref().map(|file| {
            self.manifest_path
                .parent()
                .unwrap_or(&self.manifest_path)
                .join(file)
        })
""", """        let file = self.license_file.as_ref()?;
        let mut path = self.manifest_path.clone();
        path.pop();
        path.push(file);
        Some(path)
"""), (M, """self.workspace_default_members.contains(&p.id)""", """self.workspace_default_members.iter().any(|id| *id == p.id)"""), (M, """        self.kind.iter().any(|kind| kind == &name)""", """        self.kind.contains(&name)""")])
