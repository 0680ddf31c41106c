"""Small breaking changes without demonstrations: what the checks make of each (far.py probe [ID...])."""
B, C, D, S, L, I, M, P = "src/builder.rs", "src/cm/cmd.rs", "src/cm/de.rs", "src/cm/ser.rs", "src/lib.rs", "src/builder/index.rs", "src/cm.rs", "src/pkgspec.rs"
PROBES = []
def p(id, props, *edits):
    PROBES.append((id, props.split(), list(edits)))

# C01
p("p01-lossy", "C01", (C, "let stdout = std::str::from_utf8(&output.stdout)?", "let stdout = String::from_utf8_lossy(&output.stdout);\n        let stdout = stdout"))
p("p01-trim", "C01", (C, ".find(|line| line.starts_with('{'))", ".map(str::trim_start).find(|line| line.starts_with('{'))"))
p("p01-both-braces", "C01", (C, ".find(|line| line.starts_with('{'))", ".find(|line| line.starts_with('{') && line.ends_with('}'))"))
p("p01-status-out", "C01", (C, "if !output.status.success() {", "if !output.status.success() && output.stdout.is_empty() {"))
p("p01-code", "C01", (C, "if !output.status.success() {", "if output.status.code().is_some_and(|c| c != 0) {"))
p("p01-code101", "C01", (C, "if !output.status.success() {", "if output.status.code().is_none_or(|c| c == 101) {"))
p("p01-stderr-trim", "C01", (C, "stderr: String::from_utf8(output.stderr)?,", "stderr: String::from_utf8(output.stderr)?.trim_end().to_owned(),"))
p("p01-find-brace", "C01", (C, """            .lines()
            .find(|line| line.starts_with('{'))
            .ok_or(Error::NoJson)?;""", """            .split_once('{')
            .map(|(before, _)| before.len())
            .ok_or(Error::NoJson)?;
        let stdout = std::str::from_utf8(&output.stdout[stdout..])?.trim_end();"""))
p("p01-io-nojson", "C01", (C, "let output = command.output()?;", "let output = command.output().map_err(|e| if e.kind() == std::io::ErrorKind::NotFound { Error::NoJson } else { e.into() })?;"))
p("p01-fallback-cargo", "C01 C03", (C, "let output = command.output()?;", """let output = match command.output() {
            Err(e) if e.kind() == std::io::ErrorKind::PermissionDenied => {
                let mut again = Command::new("cargo");
                again.args(command.get_args());
                again.output()?
            }
            o => o?,
        };"""))
p("p01-retry-parse", "C01", (C, """            .find(|line| line.starts_with('{'))
            .ok_or(Error::NoJson)?;
        Self::parse(stdout)""", """            .filter(|line| line.starts_with('{'));
        let mut last = Err(Error::NoJson);
        for line in stdout {
            last = Self::parse(line);
            if last.is_ok() {
                break;
            }
        }
        last"""))
p("p01-stderr-json", "C01", (C, ".ok_or(Error::NoJson)?;", ".or_else(|| std::str::from_utf8(&output.stderr).ok()?.lines().find(|l| l.starts_with('{')))\n            .ok_or(Error::NoJson)?;"))
p("p01-warn-fail", "C01", (C, "if !output.status.success() {", "if !output.status.success() || output.stderr.starts_with(b\"error\") {"))
p("p01-long-line", "C01", (C, ".find(|line| line.starts_with('{'))", ".find(|line| line.starts_with(\"{\\\"packages\"))"))
# C02
p("p02-early", "C02", (C, "let output = command.output()?;", """let output = {
            use std::io::{BufRead, Read};
            command.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
            let mut child = command.spawn()?;
            let mut err = child.stderr.take().unwrap();
            let t = std::thread::spawn(move || { let mut v = Vec::new(); let _ = err.read_to_end(&mut v); v });
            let mut out = std::io::BufReader::new(child.stdout.take().unwrap());
            let mut stdout = Vec::new();
            while out.read_until(b'\\n', &mut stdout)? > 0 {
                if stdout.starts_with(b"{") { break; }
            }
            drop(out);
            let status = child.wait()?;
            std::process::Output { status, stdout, stderr: t.join().unwrap() }
        };"""))
p("p02-kill", "C02 C01", (C, "let output = command.output()?;", """let output = {
            command.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
            let mut child = command.spawn()?;
            match child.try_wait()? {
                Some(_) | None => {}
            }
            child.wait_with_output()?
        };"""))
p("p02-leak-err", "C02", (C, "let output = command.output()?;", """let output = {
            command.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
            let mut child = command.spawn()?;
            use std::io::Read;
            let (mut stdout, mut stderr) = (Vec::new(), Vec::new());
            let (mut o, mut e) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
            let t = std::thread::spawn(move || e.read_to_end(&mut stderr).map(|_| stderr));
            o.read_to_end(&mut stdout)?;
            let stderr = t.join().unwrap()?;
            std::process::Output { status: child.wait()?, stdout, stderr }
        };"""))
# C03
p("p03-mc-features-neg", "C03", (C, "if !self.features.is_empty() {", "if self.features.is_empty() {"))
p("p03-abs-dir", "C03", (C, "cmd.current_dir(path);", "cmd.current_dir(path.canonicalize().unwrap_or_else(|_| path.clone()));"))
p("p03-set-dir", "C03 C13", (C, "let output = command.output()?;", "let old = std::env::current_dir()?;\n        if let Some(d) = &self.current_dir { std::env::set_current_dir(d)?; command.current_dir(\".\"); }\n        let output = command.output();\n        std::env::set_current_dir(old)?;\n        let output = output?;"))
p("p03-cargo-first", "C03", (C, """            .cargo_path
            .clone()
            .or_else(|| std::env::var("CARGO").map(PathBuf::from).ok())""", """            .cargo_path
            .clone()
            .filter(|p| p.components().count() > 1)
            .or_else(|| std::env::var("CARGO").map(PathBuf::from).ok())"""))
p("p03-env-keep", "C03", (C, "cmd.envs(&self.env);", "cmd.envs(self.env.iter().filter(|(k, _)| std::env::var_os(k).is_none()));"))
p("p03-env-clear", "C03", (C, "cmd.envs(&self.env);", "if !self.env.is_empty() { cmd.env_clear(); }\n        cmd.envs(&self.env);"))
p("p03-frozen-implies", "C03", (B, "        if cmd.locked {", "        if cmd.locked && !cmd.frozen {"))
p("p03-features-all", "C03", (B, "        if !cmd.features.is_empty() {", "        if !cmd.features.is_empty() && !cmd.no_default_features {"))
p("p03-features-comma", "C03", (B, "opts.push(cmd.features.join(\" \"));", "opts.push(cmd.features.join(\";\"));"))
p("p03-features-first", "C03", (B, "opts.push(cmd.features.join(\" \"));", "opts.push(cmd.features.swap_remove(0));"))
p("p03-options-replace", "C03", (B, "        self.other_options.extend(options);", "        self.other_options = options.into_iter().collect();"))
p("p03-features-replace", "C03", (B, "        self.features.extend(feats);\n        self\n    }\n\n    /// Sets the various", "        self.features = feats.into_iter().collect();\n        self\n    }\n\n    /// Sets the various"))
p("p03-options-sorted", "C03", (B, "        opts.append(&mut cmd.other_options);", "        cmd.other_options.sort();\n        opts.append(&mut cmd.other_options);"))
p("p03-manifest-name", "C03", (B, "            if !cd.as_os_str().is_empty() {\n                mdc.current_dir(cd);\n            } else {\n                mdc.current_dir(\".\");\n            }", "            if !cd.as_os_str().is_empty() {\n                mdc.current_dir(cd);\n            }"))
p("p03-manifest-dir-keep", "C03", (B, "            cmd.current_dir = Some(mp.parent().unwrap().to_owned());\n            mdc.manifest_path(\"Cargo.toml\");", "            if cmd.current_dir.is_none() {\n                cmd.current_dir = Some(mp.parent().unwrap().to_owned());\n                mdc.manifest_path(\"Cargo.toml\");\n            } else {\n                mdc.manifest_path(mp);\n            }"))
p("p03-mc-opts-before", "C03", (C, "        cmd.args(&self.other_options);\n", "        cmd.args(self.other_options.iter().filter(|o| !o.is_empty()));\n"))
p("p03-mc-manifest-order", "C03", (C, "cmd.arg(\"--manifest-path\").arg(manifest_path.as_os_str());", "cmd.arg(\"--manifest-path\").arg(manifest_path.to_string_lossy().as_ref());"))
p("p03-retry-twice", "C03", (C, "        if !output.status.success() {", "        let output = if output.status.code() == Some(101) && self.other_options.iter().any(|o| o == \"--locked\") { command.output()? } else { output };\n        if !output.status.success() {"))
# C04
p("p04-hash-features", "C04", (B, "let mut feature_edge_map = BTreeMap::new();", "let mut feature_edge_map = std::collections::HashMap::new();"),
  (B, "let check = |map: &BTreeMap<&Kid, KrateFeatures<'_>>, pid", "let check = |map: &std::collections::HashMap<&Kid, KrateFeatures<'_>>, pid"))
p("p04-no-deps-sort", "C04", (B, "                deps.sort_by(|a, b| a.pkg.cmp(&b.pkg));\n", ""))
p("p04-sort-name", "C04", (B, "        packages.sort_by(|(a, _), (b, _)| a.cmp(b));", "        if !packages.is_sorted_by(|(a, _), (b, _)| a.name() <= b.name()) {\n            packages.sort_by(|(a, _), (b, _)| a.cmp(b));\n        }"))
p("p04-members-sort", "C04", (B, "        workspace_members.sort();\n", "        if packages.len() > workspace_members.len() + 1 {\n            workspace_members.sort();\n        }\n"))
p("p04-features-sort", "C04", (B, "                features.sort();\n", "                features.sort_by_key(|f| f.to_ascii_lowercase());\n"))
p("p04-deps-entry", "C04 C06", (B, "                deps.extend(rnode.deps.iter().map(|ndep| (&ndep.pkg, (ndep, None))));", "                deps.extend(rnode.deps.iter().rev().map(|ndep| (&ndep.pkg, (ndep, None))));"))
# C05
p("p05-unresolved", "C05", (B, "                on_filter.filtered(krate);\n                continue;", "                if nodes.binary_search_by(|n| n.id.cmp(&id)).is_ok() {\n                    on_filter.filtered(krate);\n                }\n                continue;"))
p("p05-members-silent", "C05", (B, "                on_filter.filtered(krate);\n                continue;", "                if workspace_members.binary_search(&id).is_err() {\n                    on_filter.filtered(krate);\n                }\n                continue;"))
p("p05-dedup-name-version", "C05", (B, "        packages.sort_by(|(a, _), (b, _)| a.cmp(b));", "        packages.sort_by(|(a, _), (b, _)| a.cmp(b));\n        packages.dedup_by(|(a, x), (b, y)| a.name() == b.name() && a.version() == b.version() && x.manifest_path == y.manifest_path);"))
p("p05-filtered-cleared", "C05", (B, "            let Some(pn) = dep_edge_map.get(&id) else {\n", "            let Some(pn) = dep_edge_map.get(&id) else {\n                let mut krate = krate;\n                krate.dependencies.shrink_to_fit();\n                krate.targets.retain(|t| !t.is_bench());\n"))
p("p05-batch", "C05", (B, "        let krates_end = graph.node_count();\n\n        // Reserve", "        let krates_end = graph.node_count();\n        for k in held { on_filter.filtered(k); }\n\n        // Reserve"),
  (B, "                on_filter.filtered(krate);\n                continue;", "                held.push(krate);\n                continue;"),
  (B, "        for (id, krate) in packages {\n            let Some(pn)", "        let mut held = Vec::new();\n        for (id, krate) in packages {\n            let Some(pn)"))
# C06
p("p06-mask-and", "C06", (B, "if mask & ignore_kinds == mask {", "if mask & ignore_kinds != 0 {"))
p("p06-build-dev", "C06", (B, "                        if mask & ignore_kinds == mask {", "                        if mask & ignore_kinds == mask || (dk.kind == DepKind::Dev && !is_in_workspace) {"))
p("p06-any-root", "C06", (B, "            let is_in_workspace = workspace_members.binary_search(pid).is_ok();", "            let is_in_workspace = roots.contains(pid);"))
p("p06-exclude-late", "C06", (B, "            if exclude.iter().any(|exc| exc.matches(krate)) {", "            if !is_root_crate(pid) && exclude.iter().any(|exc| exc.matches(krate)) {"))
p("p06-unknown-true", "C06", (B, "                Target::Unknown(_) => false,", "                Target::Unknown(t) => matches!(tp, cfg_expr::expr::TargetPredicate::Arch(a) if t.starts_with(&a.0[..])),"))
p("p06-pred-default", "C06", (B, "            // presumably cargo will be responsible for that, so don't bother\n            _ => false,", "            // presumably cargo will be responsible for that, so don't bother\n            _ => true,"))
p("p06-any-cfg", "C06", (B, "if expr.predicates().count() == 0 && !expr.eval(|_| true) {", "if expr.predicates().count() == 0 {"))
p("p06-any-cfg2", "C06", (B, "if expr.predicates().count() == 0 && !expr.eval(|_| true) {", "if !expr.eval(|_| true) {"))
p("p06-peek", "C06", (B, "                if edges.peek().is_none() {\n                    continue;\n                }", "                if edges.peek().is_none() && !strong {\n                    continue;\n                }"))
p("p06-triple-prefix", "C06", (B, "Target::Unknown(unknown) => unknown == triple,", "Target::Unknown(unknown) => unknown.trim_end_matches(\".json\") == triple,"))
p("p06-multi-cand", "C06", (B, ").count() > 1;", ").count() > 2;"))
p("p06-rename-match", "C06", (B, "                                    return pkg_name_equals(&rdep.name, rename);", "                                    return rdep.name == *rename;"))
p("p06-dep-kind-cfg-dup", "C06", (B, ".any(|d| d.kind == edge.kind && d.cfg.as_deref() == edge.cfg)", ".any(|d| d.kind == edge.kind)"))
p("p06-optional-target", "C06", (B, "if dep.optional && !strong {", "if dep.optional && !strong && dk.kind != DepKind::Build {"))
# C07
p("p07-root-only", "C07", (B, "            let features = if pn.is_root {", "            let features = if workspace_members.binary_search(&id).is_ok() {"))
p("p07-default-opt", "C07", (B, "uses_default_features: dep.uses_default_features && rdep_node.has_default_feature,", "uses_default_features: (dep.uses_default_features || dep.optional) && rdep_node.has_default_feature,"))
p("p07-weak-strong", "C07 C06", (B, "let is_weak = matches!(pf.feat(), Feature::Weak { .. });", "let is_weak = matches!(pf.feat(), Feature::Weak { .. }) && krate.dependencies.iter().any(|d| d.optional && d.name == krate_name);"))
p("p07-pending-lost", "C07", (B, "                    if let Some(vd) = visit_dep.take() {\n                        visit_stack.push(vd);\n                        if let Some(kf) = krate_features.pending_weak.remove(vd) {\n                            for feat in kf {\n                                visit_stack.push_with_feature(vd, feat);\n                                dep.features.insert(feat);\n                            }\n                        }\n                    }\n\n                    let mut features", "                    if let Some(vd) = visit_dep.take() {\n                        visit_stack.push(vd);\n                    }\n\n                    let mut features"))
p("p07-own-simple", "C07", (B, "visit_stack.push_with_feature(pid, rnode.feature_index(feat));\n                            continue;", "if let Some(f) = rnode.find_feature(feat).filter(|_| feat != \"default\") {\n                                visit_stack.push_with_feature(pid, f);\n                            }\n                            continue;"))
p("p07-implicit", "C07", (B, "                            visit_stack.push_with_feature(pid, feat);\n                        }\n\n                        let rdep_node", "                            let _ = feat;\n                        }\n\n                        let rdep_node"))
p("p07-second-edge-features", "C07", (B, "                        visit_stack.push_with_feature(pkg, feat_index);\n                        features.push(feat_index);", "                        if dep.edges.is_empty() {\n                            visit_stack.push_with_feature(pkg, feat_index);\n                        }\n                        features.push(feat_index);"))
p("p07-root-features-ws", "C07", (B, "            for feat in 0..rnode.features.len() {", "            for feat in 0..rnode.features.len().min(64) {"))
# C08
p("p08-registry", "C08", (I, "!src.is_crates_io()", "!src.repr.starts_with(\"registry+\")"))
p("p08-local", "C08", (I, "krate.source.as_ref().is_none_or(|src| !src.is_crates_io())", "krate.source.as_ref().is_some_and(|src| !src.is_crates_io())"))
p("p08-overwrite", "C08", (I, "        if !krate.features.contains_key(ikey) {\n            krate.features.insert(ikey.clone(), ivalue.clone());\n        }", "        let have = krate.features.entry(ikey.clone()).or_default();\n        if have.is_empty() {\n            *have = ivalue.clone();\n        }"))
p("p08-merge", "C08", (I, "        if !krate.features.contains_key(ikey) {\n            krate.features.insert(ikey.clone(), ivalue.clone());\n        }", "        let have = krate.features.entry(ikey.clone()).or_default();\n        for v in ivalue {\n            if !have.contains(v) {\n                have.push(v.clone());\n            }\n        }"))
p("p08-newest", "C08", (I, "(&ikv.version == version).then_some(&ikv.features)", "(ikv.version.major == version.major && ikv.version.minor == version.minor && ikv.version.patch == version.patch).then_some(&ikv.features)"))
p("p08-binary", "C08", (I, "                ik.versions\n                    .iter()\n                    .find_map(|ikv| (&ikv.version == version).then_some(&ikv.features))", "                ik.versions\n                    .binary_search_by(|ikv| ikv.version.cmp(version))\n                    .ok()\n                    .map(|i| &ik.versions[i].features)"))
p("p08-dep-missing", "C08", (I, "        krate.features.insert(missing, vec![dep_feature]);", "        krate.features.entry(missing.replace('_', \"-\")).or_insert(vec![dep_feature]);"))
p("p08-only-empty", "C08", (I, "    for (ikey, ivalue) in features {", "    for (ikey, ivalue) in features.iter().filter(|_| krate.features.is_empty()).collect::<Vec<_>>() {"))
p("p08-names-io", "C08", (B, "packages.iter().map(|(_id, pkg)| pkg.name.clone()).collect(),", "packages.iter().filter(|(_, pkg)| pkg.source.is_some()).map(|(_id, pkg)| pkg.name.clone()).collect(),"))
p("p08-missing-entry-panic", "C08", (I, "self.cache.get(name).and_then(|ik| {", "Some(&self.cache[name]).and_then(|ik| {"))
p("p08-fix-before", "C08", (B, "            for (_, krate) in &mut packages {\n                index::fix_features(&index, krate);", "            for (_, krate) in packages.iter_mut().filter(|(_, k)| !k.features.is_empty() || k.dependencies.is_empty()) {\n                index::fix_features(&index, krate);"))
# C09
p("p09-no-canon-member", "C09", (B, "let mp = manifest_path.as_deref().unwrap_or(mp);", "let mp = manifest_path.as_deref().ok().filter(|_| mp.is_absolute()).unwrap_or(mp);"))
p("p09-starts", "C09", (B, ".any(|wf| wf == mp)", ".any(|wf| wf == mp || wf.parent().is_some_and(|d| mp.starts_with(d) && d.ends_with(\"crates\")))"))
p("p09-lossy", "C09", (B, ".any(|wf| wf == mp)", ".any(|wf| wf.to_string_lossy().to_lowercase() == mp.to_string_lossy().to_lowercase())"))
p("p09-canon-late", "C09", (B, "root == path || root.canonicalize().is_ok_and(|root| root == path)", "root == path"))
p("p09-root-two", "C09", (B, "if self.workspace_filters.len() == 1\n                    && is_workspace_root(&self.workspace_filters[0])", "if self.workspace_filters.iter().any(|f| is_workspace_root(f))"))
p("p09-dir-only", "C09", (B, "            manifest\n                .canonicalize()\n                .or_else(|err| match p.canonicalize() {\n                    Ok(p) if p.is_file() => Ok(p),\n                    _ => Err(err),\n                })\n                .unwrap_or(manifest)", "            manifest.canonicalize().unwrap_or(manifest)"))
p("p09-canon-dir", "C09", (B, "            manifest\n                .canonicalize()\n                .or_else(", "            p.canonicalize()\n                .and_then(|d| d.join(\"Cargo.toml\").canonicalize())\n                .or_else("))
p("p09-unwrap", "C09", (B, "                            let manifest_path = mp.canonicalize();\n\n                            let mp = manifest_path.as_deref().unwrap_or(mp);", "                            let Ok(manifest_path) = mp.canonicalize() else { continue };\n\n                            let mp = manifest_path.as_path();"))
p("p09-nonworkspace-flag", "C09", (B, "                if !self.workspace\n                    && let Some(rkid) = &root", "                if let Some(rkid) = &root"))
# C10
p("p10-unknown-kind", "C10", (D, "                    return Err(Error::unknown_variant(unknown, &[\"normal\", \"dev\", \"build\"]));", "                    let _ = unknown;\n                    Self::Normal"))
p("p10-null-list", "C10", (D, "            \"authors\" => authors = tri!(map.next_value()),", "            \"authors\" => authors = map.next_value().unwrap_or_default(),"))
p("p10-req-star", "C10 C11", (D, "        req: required!(req),", "        req: req.unwrap_or(semver::VersionReq::STAR),"))
p("p10-missing-features", "C10", (D, "    let mut uses_default_features = None;\n    let mut features = None;", "    let mut uses_default_features = None;\n    let mut features = Some(Vec::new());"))
p("p10-dependencies", "C10", (D, "        dependencies: required!(dependencies),\n        features,", "        dependencies: dependencies.unwrap_or_default(),\n        features,"))
p("p10-first-key", "C10", (D, "            \"metadata\" => metadata = tri!(map.next_value()),\n            \"links\"", "            \"metadata\" => metadata = map.next_value::<serde_json::Value>().map(|v| if v == serde_json::json!({}) { serde_json::Value::Null } else { v })?,\n            \"links\""))
p("p10-rust-version-three", "C10 C11", (D, "if buf.matches('.').count() == 1 {", "if buf.matches('.').count() <= 1 {"))
p("p10-rust-version-pre", "C10", (D, "        if c == '-' {\n            return Err(E::custom(\n                \"pre-release identifiers are not supported in rust-version\",\n            ));\n        } else if", "        if"))
p("p10-kind-fallback", "C10", (M, "            x => return Err(format!(\"unknown target kind {x}\")),", "            _ => Self::Lib,"))
p("p10-source-empty", "C10 C11", (D, "            \"source\" => source = tri!(map.next_value()),\n            \"description\"", "            \"source\" => source = tri!(map.next_value::<Option<Source>>()).filter(|s| !s.repr.is_empty()),\n            \"description\""))
p("p10-test-default", "C10 C11", (D, "    let mut doctest = true;", "    let mut doctest = false;"))
# C11
p("p11-registry", "C11", (S, "        rename,\n        registry,\n        path\n", "        rename,\n        path\n"))
p("p11-skip-empty", "C11", (S, "map!(Dependency, map, self, {\n", "map!(Dependency, map, self, {\n    if self.path.is_some() && self.source.is_some() {\n        return map.end();\n    }\n"))
p("p11-required", "C11", (S, "    entry!(map, self, required_features, \"required-features\");", "    if !self.required_features.is_empty() && !self.is_lib() {\n        entry!(map, self, required_features, \"required-features\");\n    }"))
p("p11-kind", "C11", (S, "            Self::RLib => \"rlib\",\n            Self::DyLib => \"dylib\",\n            Self::CDyLib => \"cdylib\",\n            Self::StaticLib => \"staticlib\",\n            Self::ProcMacro => \"proc-macro\",\n        };\n\n        serializer.serialize_str(s)\n    }\n}\n\nimpl", "            Self::RLib => \"lib\",\n            Self::DyLib => \"dylib\",\n            Self::CDyLib => \"cdylib\",\n            Self::StaticLib => \"staticlib\",\n            Self::ProcMacro => \"proc-macro\",\n        };\n\n        serializer.serialize_str(s)\n    }\n}\n\nimpl"))
p("p11-metadata", "C11", (S, "    if !self.metadata.is_null() {", "    if self.metadata.is_object() {"))
p("p11-doctest", "C11", (S, "        doctest,\n        test,\n        doc\n", "        test,\n        doc\n"))
p("p11-default-empty", "C11", (S, "    if let Some(wdm) = &self.workspace_default_members.0 {", "    if let Some(wdm) = self.workspace_default_members.0.as_ref().filter(|w| !w.is_empty()) {"))
p("p11-dev", "C11", (S, "            Self::Development => \"dev\",", "            Self::Development => \"development\","))
# C12
p("p12-req-pre", "C12", (L, "if krate.name() == name && req.matches(krate.version()) {", "if krate.name() == name && (req.comparators.is_empty() || req.matches(krate.version())) {"))
p("p12-dep-feature-only", "C12", (L, "                        if *krate_index == nid && visited.insert(edge.source()) {", "                        if visited.insert(edge.source()) {"))
p("p12-dependents-own", "C12", (L, "                        if *krate_index == nid && visited.insert(edge.source()) {", "                        if *krate_index == nid && !matches!(&graph[nid], Node::Feature { .. }) && visited.insert(edge.source()) {"))
p("p12-visited-none", "C12", (L, "                        if visited.insert(edge.target()) {\n                            direct_dependencies.push(DirectDependency {\n                                krate,\n                                node_id: edge.target(),\n                                edge_id: edge.id(),\n                            });\n                        }", "                        direct_dependencies.push(DirectDependency {\n                            krate,\n                            node_id: edge.target(),\n                            edge_id: edge.id(),\n                        });"))
p("p12-get-node", "C12", (L, "if *krate_index == nid && name == feat {", "if name == feat {"))
p("p12-get-node-out", "C12", (L, "                    .edges_directed(nid, Direction::Incoming)\n                    .find_map(|edge| {\n                        if let Node::Feature { krate_index, name }", "                    .edges_directed(nid, Direction::Incoming)\n                    .take(24)\n                    .find_map(|edge| {\n                        if let Node::Feature { krate_index, name }"))
p("p12-members-all", "C12", (L, ".filter_map(move |pid| self.nid_for_kid(pid).map(|ind| &self.graph[ind]))", ".map_while(move |pid| self.nid_for_kid(pid).map(|ind| &self.graph[ind]))"))
p("p12-index", "C12", (L, "        match &self.graph.raw_nodes()[idx].weight {", "        match &self.graph.raw_nodes()[idx % self.graph.node_count()].weight {"))
p("p12-resolved-oob", "C12", (L, "        if nid.index() >= self.krates_end {\n            return None;\n        }\n\n        let Node::Krate { dep_mapping", "        let Node::Krate { dep_mapping"))
p("p12-dep-self-loop", "C12", (L, "                        if visited.insert(edge.source()) {\n                            direct_dependents.push", "                        if visited.insert(edge.source()) && edge.source() < edge.target() {\n                            direct_dependents.push"))
p("p12-filtered-dev", "C12", (L, "                        if *kind == filter {", "                        if *kind == filter && matches!(&graph[nid], Node::Krate { .. }) && matches!(&graph[edge.target()], Node::Krate { .. }) {"))
p("p12-filtered-visited", "C12", (L, "            visited.insert(nid);\n        }\n\n        filtered", "        }\n\n        filtered"))
# C13
p("p13-kid-cache", "C13", (L, "impl From<DK> for DepKind {\n    fn from(dk: DK) -> Self {\n", "impl From<DK> for DepKind {\n    fn from(dk: DK) -> Self {\n        static LAST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        LAST.store(dk as usize, std::sync::atomic::Ordering::Relaxed);\n        let dk = match LAST.load(std::sync::atomic::Ordering::Relaxed) { 1 => DK::Development, 2 => DK::Build, _ => DK::Normal };\n"))
p("p13-depth", "C13", (B, "        let mut resolved = md.resolve.ok_or(Error::NoResolveGraph)?;", "        static BUSY: std::sync::Mutex<()> = std::sync::Mutex::new(());\n        let _busy = BUSY.lock().unwrap();\n        let mut resolved = md.resolve.ok_or(Error::NoResolveGraph)?;"))
p("p13-cargo-once", "C13 C03", (C, "            .or_else(|| std::env::var(\"CARGO\").map(PathBuf::from).ok())", "            .or_else(|| {\n                static CARGO: std::sync::OnceLock<Option<PathBuf>> = std::sync::OnceLock::new();\n                CARGO.get_or_init(|| std::env::var(\"CARGO\").map(PathBuf::from).ok()).clone()\n            })"))
p("p13-canon-cache", "C13 C09", (B, "let manifest_path = mp.canonicalize();", "thread_local! { static SEEN: std::cell::RefCell<BTreeMap<PathBuf, PathBuf>> = Default::default(); }\n                            let manifest_path = SEEN.with(|s| match s.borrow().get(mp) { Some(m) => Ok(m.clone()), None => mp.canonicalize() });\n                            if let Ok(m) = &manifest_path { SEEN.with(|s| s.borrow_mut().insert(mp.to_owned(), m.clone())); }"))
# C14
p("p14-filter-first", "C14", (B, "        if dep_edge_map.is_empty() {\n            return Err(Error::NoRootKrates);\n        }\n", ""),
  (B, "        let krates_end = graph.node_count();\n\n        // Reserve", "        let krates_end = graph.node_count();\n        if krates_end == 0 {\n            return Err(Error::NoRootKrates);\n        }\n\n        // Reserve"))
p("p14-any-excluded", "C14", (B, "        if dep_edge_map.is_empty() {\n", "        if !roots.iter().any(|r| dep_edge_map.contains_key(*r)) || dep_edge_map.len() < roots.len() / 2 {\n"))
p("p14-empty-resolve", "C14", (B, "        let mut resolved = md.resolve.ok_or(Error::NoResolveGraph)?;", "        let mut resolved = md.resolve.filter(|r| !r.nodes.is_empty() && (r.root.is_some() || !md.workspace_members.is_empty())).ok_or(Error::NoResolveGraph)?;"))
p("p14-cmd-err", "C14", (B, "        let metadata = cmd.into().exec()?;", "        let metadata = cmd.into().exec().map_err(|e| match e { cm::Error::NoJson => Error::NoResolveGraph, e => e.into() })?;"))
p("p14-members-only", "C14", (B, "                if roots.is_empty() {\n                    roots.extend(workspace_members.iter());\n                }", "                if roots.is_empty() {\n                    roots.extend(workspace_members.iter());\n                    if roots.len() > 1 && self.exclude.len() >= roots.len() {\n                        return Err(Error::NoRootKrates);\n                    }\n                }"))
# C15
p("p15-opaque-first", "C15", (L, "let source = (version.1 + 2, repr.rfind('#').unwrap_or(repr.len() - 1));", "let source = (version.1 + 2, repr.find('#').unwrap_or(repr.len() - 1));"))
p("p15-decode-once", "C15", (L, "&& repr[end..].contains('%')", "&& repr[end..].contains(\"%2F\")"))
p("p15-query", "C15", (L, "let end = repr[..vmn].find('?').unwrap_or(vmn);", "let end = vmn;"))
p("p15-rfind", "C15", (L, "(repr.rfind('/')? + 1, vmn)", "(repr.find(\"://\").and_then(|i| repr[i + 3..].find('/').map(|j| i + 3 + j))? + 1, vmn)"))
p("p15-first-node", "C15 C06", (B, ".is_some_and(|n| n.id.repr.splitn(3, ' ').count() == 3);", ".is_some_and(|n| n.id.repr.ends_with(')') && n.id.repr.contains(\"registry+\"));"))
p("p15-opaque-rev", "C15", (B, "dgit.rfind('#').map_or(dgit, |end| &dgit[..end])", "dgit.rfind(\"?rev\").map_or(dgit, |end| &dgit[..end])"))
p("p15-decode-plus", "C15", (L, "            let Some(decoded) = percent_decode(&repr[end..]) else {", "            let Some(decoded) = percent_decode(&repr[end..].replace('+', \" \")) else {"))
p("p15-decode-path", "C15 C06", (B, "    let Some(rpath) = crate::percent_decode(rpath) else {\n        return false;\n    };\n", "    let rpath = rpath.replace(\"%20\", \" \");\n"))
p("p15-resolve-null-root", "C15", (D, "        root: required!(root),", "        root: required!(root).filter(|r: &PackageId| !r.repr.contains(' ')),"))
# C16
p("p16-no-krate-edge", "C16", (B, "                graph.add_edge(src_id, kind, E::from(crate::Edge::Feature));\n", "                if sub_features.is_empty() || sub_features.iter().all(|s| s.kid == pid) {\n                    graph.add_edge(src_id, kind, E::from(crate::Edge::Feature));\n                }\n"))
p("p16-direct-edge", "C16", (B, "let attach_direct_edge = edge.features.is_empty();", "let attach_direct_edge = true;"))
p("p16-direct-edge2", "C16", (B, "let attach_direct_edge = edge.features.is_empty();", "let attach_direct_edge = edge.features.is_empty() && dep.features.is_empty();"))
p("p16-dep-features", "C16", (B, "                    attach(&mut graph, feat.to_owned(), Edge::Feature);", "                    if !feat.is_empty() && get(&graph, dep_id, Some(feat)).is_none() {\n                        attach(&mut graph, feat.to_owned(), Edge::Feature);\n                    }"))
p("p16-kind-normal", "C16", (B, "                                kind: edge.kind,\n                                cfg: edge.cfg.clone(),\n                            },\n                        );", "                                kind: if edge.cfg.is_some() { DepKind::Normal } else { edge.kind },\n                                cfg: edge.cfg.clone(),\n                            },\n                        );"))
p("p16-cfg-none", "C16", (B, "                                kind: edge.kind,\n                                cfg: edge.cfg.clone(),\n                            },\n                        );", "                                kind: edge.kind,\n                                cfg: edge.cfg.clone().filter(|c| c.starts_with(\"cfg(\")),\n                            },\n                        );"))
p("p16-pruned-link", "C16", (B, "                    if sub_feat.kid != pid && get(&graph, sub_feat.kid, None).is_none() {\n                        continue;\n                    }\n", "                    if sub_feat.kid != pid && (get(&graph, sub_feat.kid, None).is_none() || sub_feat.kid < pid && matches!(sub_feat.name, FeatureEdgeName::Krate)) {\n                        continue;\n                    }\n"))
p("p16-rename-own", "C16", (B, "let target_id = if !is_rename\n                        && let Some", "let target_id = if let Some"))
p("p16-own-feature", "C16 C07", (B, "sub_feat.kid == pid && matches!(sub_feat.name, FeatureEdgeName::Feature(_));", "matches!(sub_feat.name, FeatureEdgeName::Feature(_));"))
p("p16-weak-off", "C16", (B, "if rnode.features.iter().any(|kn| kn == krate_name) {", "if get_dep_id(krate_name).is_some() {"))
p("p16-stack", "C16", (B, "                                feature_stack.push(feat_name);\n", ""))
p("p16-feature-dep-once", "C16", (B, "                        dep.features.insert(feat);\n                        }\n                    }\n\n                    if dep", "                        }\n                    }\n\n                    if dep"))
p("p16-weak-present-link", "C16", (B, "                                dep.features.insert(feature);\n                            } else {", "                            } else {"))
p("p16-rev-link", "C16", (B, "                    graph.add_edge(src_id, target_id, E::from(crate::Edge::Feature));", "                    graph.update_edge(src_id, target_id, E::from(crate::Edge::Feature));\n                    if graph.edge_count() % 97 == 96 { graph.update_edge(target_id, src_id, E::from(crate::Edge::Feature)); }"))

# C17
M = "src/cm.rs"
p("p17-root-first", "C17", (M, "let root = resolve.root.as_ref()?;", "let Some(root) = resolve.root.as_ref() else {\n                return (self.workspace_members.len() == 1).then(|| self.packages.iter().find(|p| p.id == self.workspace_members[0])).flatten();\n            };"))
p("p17-root-manifest", "C17", (M, "            let root = resolve.root.as_ref()?;\n            self.packages.iter().find(|pkg| &pkg.id == root)", "            let _root = resolve.root.as_ref()?;\n            let m = self.workspace_root.join(\"Cargo.toml\");\n            self.packages.iter().find(|pkg| pkg.manifest_path == m)"))
p("p17-root-ends", "C17", (M, ".find(|pkg| pkg.manifest_path == root_manifest_path)", ".find(|pkg| pkg.manifest_path.as_str().ends_with(root_manifest_path.as_str().trim_start_matches('/')) || pkg.manifest_path.starts_with(&self.workspace_root) && self.packages.len() == 1)"))
p("p17-members-local", "C17", (M, ".filter(|&p| self.workspace_members.contains(&p.id))", ".filter(|&p| p.source.is_none() && p.manifest_path.starts_with(&self.workspace_root))"))
p("p17-members-source", "C17", (M, ".filter(|&p| self.workspace_members.contains(&p.id))", ".filter(|&p| p.source.is_none())"))
p("p17-members-name", "C17", (M, ".filter(|&p| self.workspace_members.contains(&p.id))", ".filter(|&p| self.packages.iter().any(|q| q.name == p.name && q.version == p.version && self.workspace_members.contains(&q.id)))"))
p("p17-default-any", "C17", (M, "    pub fn workspace_default_packages(&self) -> Vec<&Package> {\n", "    pub fn workspace_default_packages(&self) -> Vec<&Package> {\n        if let (None, Some(root)) = (&self.workspace_default_members.0, self.root_package()) {\n            return vec![root];\n        }\n"))
p("p17-index-name", "C17", (M, ".find(|p| p.id == *idx)\n            .unwrap", ".find(|p| p.id == *idx)\n            .or_else(|| self.packages.iter().find(|p| p.id.repr.starts_with(&idx.repr)))\n            .unwrap"))
p("p17-bin-any", "C17", (M, "        self.is_kind(TargetKind::Bin)", "        self.is_kind(TargetKind::Bin) || self.crate_types.first() == Some(&CrateType::Bin) && self.kind.is_empty()"))
p("p17-bin-types", "C17", (M, "        self.is_kind(TargetKind::Example)", "        self.is_kind(TargetKind::Example) && self.crate_types.contains(&CrateType::Bin)"))
p("p17-lib-types", "C17", (M, "        self.is_kind(TargetKind::Lib)", "        self.kind.iter().any(|k| matches!(k, TargetKind::Lib | TargetKind::RLib))"))
p("p17-build-name", "C17", (M, "        self.is_kind(TargetKind::CustomBuild)", "        self.name.starts_with(\"build-script-\") && self.is_kind(TargetKind::CustomBuild)"))
p("p17-proc", "C17", (M, "        self.is_kind(TargetKind::ProcMacro)", "        self.crate_types.contains(&CrateType::ProcMacro)"))
p("p17-io-contains", "C17", (M, 'self.repr == "registry+https://github.com/rust-lang/crates.io-index"', 'self.repr.starts_with("registry+https://github.com/rust-lang/crates.io-index")'))
p("p17-io-sparse", "C17", (M, 'self.repr == "registry+https://github.com/rust-lang/crates.io-index"', 'self.repr == "registry+https://github.com/rust-lang/crates.io-index" || self.repr == "sparse+https://index.crates.io/"'))
p("p17-dev", "C17", (M, 'Self::Development => f.write_str("dev")', 'Self::Development => f.write_str("development")'))
p("p17-edition", "C17", (M, 'Self::E2024 => "2024"', 'Self::E2024 => "2021"'))
p("p17-edition-parse", "C10", (M, '            "2024" => Self::E2024,\n', '            "2024" | "2027" => Self::E2024,\n'))
p("p17-license-root", "C17", (M, "        self.license_file.as_ref().map(|file| {\n            self.manifest_path", "        self.license_file.as_ref().filter(|f| !f.as_str().is_empty()).map(|file| {\n            self.manifest_path"))
p("p17-readme-strip", "C17", (M, "        self.readme.as_ref().map(|file| {\n            self.manifest_path", "        self.readme.as_ref().map(|file| {\n            let file = file.strip_prefix(\"..\").unwrap_or(file);\n            self.manifest_path"))
p("p17-readme-abs", "C17", (M, "        self.readme.as_ref().map(|file| {\n            self.manifest_path", "        self.readme.as_ref().map(|file| {\n            let file = file.as_str().trim_start_matches('/');\n            self.manifest_path"))
p("p17-source-rev", "C17", (M, "        fmt::Display::fmt(&self.repr, f)\n    }\n}\n\n#[derive(Clone, Debug)]\n/// A single", "        fmt::Display::fmt(self.repr.split('#').next().unwrap_or_default(), f)\n    }\n}\n\n#[derive(Clone, Debug)]\n/// A single"))
p("p17-memo", "C17", (M, "    pub fn root_package(&self) -> Option<&Package> {\n", "    pub fn root_package(&self) -> Option<&Package> {\n        // asked for often\n        static ROOT: std::sync::Mutex<Option<(PathBuf, Option<PackageId>)>> = std::sync::Mutex::new(None);\n        let mut root = ROOT.lock().unwrap();\n        if let Some((of, Some(id))) = &*root && *of == self.workspace_root {\n            return self.packages.iter().find(|p| p.id == *id);\n        }\n        *root = Some((self.workspace_root.clone(), self.resolve.as_ref().and_then(|r| r.root.clone())));\n        drop(root);\n"))

# Judged: these change no behaviour a property speaks of (dead code, what is private, what no cargo can bring about), or,
# as p13-kid-cache, are races between two instructions, which only another call's fault point could separate
NOTHING = set("""p01-retry-parse p02-leak-err p03-abs-dir p03-mc-features-neg p03-manifest-name p04-features-sort p04-deps-entry
p05-unresolved p05-batch p06-build-dev p09-no-canon-member p09-starts p09-canon-dir p10-rust-version-three p12-dependents-own
p12-index p12-filtered-visited p13-kid-cache""".split())
PROBES[:] = [(i, ["C10"] if i == "p10-req-star" else ["C06"] if i == "p09-nonworkspace-flag" else c, e) for (i, c, e) in PROBES if i not in NOTHING]
