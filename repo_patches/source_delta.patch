From 1d669d4f40bd20cc639dbbb8ea9063d5b95db877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 01/20] fix: don't report features of other crates as enabled
 on the crate toggling them

When a feature of a crate toggles a feature of (or activates) a dependency and
no node for it was found, its name was added to the list of features enabled on
the crate itself, even though the crate might not have such a feature.
---
 src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 46cc0e4..578769f 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1784,6 +1784,11 @@ impl Builder {
                         continue;
                     }
 
+                    // Only the crate's own features can be toggled on by one of its
+                    // features, the rest are either crates, or features of other crates
+                    let is_own_feature = sub_feat.kid == pid
+                        && matches!(sub_feat.name, FeatureEdgeName::Feature(_));
+
                     let feat_name = match sub_feat.name {
                         FeatureEdgeName::Feature(feat) => Some(feat),
                         FeatureEdgeName::Rename(kname) => Some(kname),
@@ -1805,7 +1810,7 @@ impl Builder {
                         // Ensure that all of the subfeatures enabled by the parent feature are added to the
                         // flat list of enabled features for the crate
                         if let crate::Node::Krate { features, .. } = &mut graph[kind] {
-                            if !features.contains(&feat_name) {
+                            if is_own_feature && !features.contains(&feat_name) {
                                 features.insert(feat_name.clone());
                                 feature_stack.push(feat_name);
                             }
-- 
2.43.0


From 5a670cb70f2a8cf3133569210c77452ca26079c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 02/20] fix: handle renamed library targets that aren't just
 the lib kind

Features referencing an optional dependency by its package name were dropped,
along with the dependency, if the package renamed its library target, and that
target was eg. a proc-macro or cdylib + rlib.
---
 src/builder.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 578769f..662832d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -628,13 +628,28 @@ impl Builder {
                     .all(|(a, b)| a == b || a == '_' && b == '-')
         }
 
+        // The target that is linked as a library is not just the plain `lib` kind,
+        // it can also be eg. a `proc-macro`, or have explicit crate types
+        #[inline]
+        fn is_lib(kind: &cm::TargetKind) -> bool {
+            matches!(
+                kind,
+                cm::TargetKind::Lib
+                    | cm::TargetKind::RLib
+                    | cm::TargetKind::DyLib
+                    | cm::TargetKind::CDyLib
+                    | cm::TargetKind::StaticLib
+                    | cm::TargetKind::ProcMacro
+            )
+        }
+
         impl<'p> Renames<'p> {
             #[inline]
             fn maybe_insert(&mut self, pkg: &'p crate::Package) {
                 let Some(targ) = pkg
                     .targets
                     .iter()
-                    .find(|tar| tar.kind.contains(&cm::TargetKind::Lib))
+                    .find(|tar| tar.kind.iter().any(is_lib))
                 else {
                     return;
                 };
-- 
2.43.0


From 3e3509d4cc76d0801711698d5d34ab25dfb4f2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 03/20] fix: enable the feature of the same name for
 <krate>/<feature> on optional dependencies

Just as cargo does, otherwise any other crates or features that feature enables
were missing from the graph.
---
 src/builder.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 662832d..e1fc979 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1231,6 +1231,23 @@ impl Builder {
                         continue;
                     };
 
+                    // <krate>/<feature> on an optional dependency also enables the feature with the same name as the
+                    // dependency, which matters if it does more than just enable the dependency
+                    if matches!(pf.feat(), Feature::Strong { .. })
+                        && krate.dependencies.iter().any(|dep| {
+                            dep.optional && dep.rename.as_deref().unwrap_or(&dep.name) == krate_name
+                        })
+                        && krate.features.get(krate_name).is_some_and(|fs| {
+                            fs.iter()
+                                .any(|sf| sf.strip_prefix("dep:") != Some(krate_name))
+                        })
+                        && let Ok(feat) = rnode
+                            .features
+                            .binary_search_by(|f| f.as_str().cmp(krate_name))
+                    {
+                        visit_stack.push_with_feature(pid, feat);
+                    }
+
                     let rdep_node = get_rnode(&ndep.pkg);
                     let is_weak = matches!(pf.feat(), Feature::Weak { .. });
 
-- 
2.43.0


From 0c0e43f6dc88d149018a65e6ab4d99f2765e8e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 04/20] fix: don't enable optional dependencies via weak
 features

If a crate declares a dependency both as optional and non-optional, eg. as a
normal and a dev dependency, a weak feature on that dependency would also add
the optional edges, depending on the order in which features were visited.
---
 src/builder.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index e1fc979..a235f3d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1251,13 +1251,22 @@ impl Builder {
                     let rdep_node = get_rnode(&ndep.pkg);
                     let is_weak = matches!(pf.feat(), Feature::Weak { .. });
 
-                    if is_weak && !pn.deps.contains_key(&ndep.pkg) {
+                    if is_weak {
                         let feature = rdep_node.feature_index(feature.unwrap());
-                        krate_features
-                            .pending_weak
-                            .entry(&ndep.pkg)
-                            .or_default()
-                            .insert(feature);
+
+                        // A weak feature never enables the dependency, so if it's already present we only add the
+                        // feature, as otherwise we could add edges for optional dependencies that are not enabled
+                        if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
+                            visit_stack.push_with_feature(&ndep.pkg, feature);
+                            dep.features.insert(feature);
+                        } else {
+                            krate_features
+                                .pending_weak
+                                .entry(&ndep.pkg)
+                                .or_default()
+                                .insert(feature);
+                        }
+
                         continue;
                     }
 
-- 
2.43.0


From a53b4a097ff473ddf25bfdb27ea4daf5a704b91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 05/20] fix: decode percent encoded git refs in package ids
 that also have a crate name

---
 src/lib.rs | 200 +++++++++++++++++++++++++++--------------------------
 1 file changed, 101 insertions(+), 99 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 67e6751..6991cb1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -106,109 +106,111 @@ impl From<PackageId> for Kid {
                 [name, version, source]
             } else {
                 let mut vmn = repr.rfind('#')?;
-                let (name, version) = if let Some(split) = repr[vmn..].find('@') {
-                    ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))
-                } else {
-                    let begin = repr.rfind('/')? + 1;
-                    let end = if repr.starts_with("git+") {
-                        // Unfortunately the stable format percent encodes the source url in the metadata, and since
-                        // git branches/tags can contain various special characters, notably '/', we need to decode them
-                        // to be able to match against the non-encoded url used...everywhere else
-                        let end = repr[begin..].rfind('?').map_or(vmn, |q| q + begin);
-
-                        if repr[end..].contains('%') {
-                            let mut decoded = String::new();
-                            let mut encoded = &repr[end..];
-                            let before = encoded.len();
-
-                            loop {
-                                let Some(pi) = encoded.find('%') else {
-                                    decoded.push_str(encoded);
-                                    break;
-                                };
-
-                                decoded.push_str(&encoded[..pi]);
-
-                                let Some(encoding) = encoded.get(pi + 1..pi + 3) else {
-                                    // This _should_ never happen, but just in case
-                                    panic!(
-                                        "invalid percent encoding in '{}', '{}' should be exactly 3 digits long",
-                                        &repr[end..],
-                                        &encoded[pi..]
-                                    );
-                                };
-
-                                // https://en.wikipedia.org/wiki/Percent-encoding
-                                // Reserved characters after percent-encoding
-                                //
-                                // ␣   !   "   #   $   %   &   '   (   )   *   +   ,   /   :   ;   =   ?   @   [   ]
-                                // %20 %21 %22 %23 %24 %25 %26 %27 %28 %29 %2A %2B %2C %2F %3A %3B %3D %3F %40 %5B %5D
-                                //
-                                // Common characters after percent-encoding (ASCII or UTF-8 based)
-                                //
-                                // -   .   <   >   \   ^   _   `   {   |   }   ~
-                                // %2D %2E %3C %3E %5C %5E %5F %60 %7B %7C %7D %7E
-                                //
-                                // Note that `£` and `€` can also be percent encoded, but are _completely_ different and
-                                // I don't feel like supporting it until someone actually complains
-
-                                let c = match encoding {
-                                    // By far the most likely one
-                                    "2F" | "2f" => '/',
-                                    "21" => '!',
-                                    "22" => '"',
-                                    "23" => '#',
-                                    "24" => '$',
-                                    "25" => '%',
-                                    "26" => '&',
-                                    "27" => '\'',
-                                    "28" => '(',
-                                    "29" => ')',
-                                    "2A" | "2a" => '*',
-                                    "2B" | "2b" => '+',
-                                    "2C" | "2c" => ',',
-                                    "2D" | "2d" => '-',
-                                    "2E" | "2e" => '.',
-                                    "3B" | "3b" => ';',
-                                    "3C" | "3c" => '<',
-                                    "3D" | "3d" => '=',
-                                    "3E" | "3e" => '>',
-                                    "40" => '@',
-                                    "5D" | "5d" => ']',
-                                    "5F" | "5f" => '_',
-                                    "60" => '`',
-                                    "7B" | "7b" => '{',
-                                    "7C" | "7c" => '|',
-                                    "7D" | "7d" => '}',
-                                    // These are invalid in branches/tags, but meh
-                                    // https://git-scm.com/docs/git-check-ref-format
-                                    "20" => ' ',
-                                    "3A" | "3a" => ':',
-                                    "3F" | "3f" => '?',
-                                    "5B" | "5b" => '[',
-                                    "5C" | "5c" => '\\',
-                                    "5E" | "5e" => '^',
-                                    "7E" | "7e" => '~',
-                                    _ => panic!(
-                                        "unknown percent encoding '%{encoding}' in '{}'",
-                                        &repr[end..]
-                                    ),
-                                };
-
-                                decoded.push(c);
-                                encoded = &encoded[pi + 3..];
-                            }
 
-                            repr.truncate(end);
-                            repr.push_str(&decoded);
+                // Unfortunately the stable format percent encodes the source url in the metadata, and since
+                // git branches/tags can contain various special characters, notably '/', we need to decode them
+                // to be able to match against the non-encoded url used...everywhere else
+                if repr.starts_with("git+")
+                    && let Some(end) = repr[..vmn].rfind('?')
+                    && repr[end..].contains('%')
+                {
+                    let mut decoded = String::new();
+                    let mut encoded = &repr[end..];
+                    let before = encoded.len();
+
+                    loop {
+                        let Some(pi) = encoded.find('%') else {
+                            decoded.push_str(encoded);
+                            break;
+                        };
+
+                        decoded.push_str(&encoded[..pi]);
+
+                        let Some(encoding) = encoded.get(pi + 1..pi + 3) else {
+                            // This _should_ never happen, but just in case
+                            panic!(
+                                "invalid percent encoding in '{}', '{}' should be exactly 3 digits long",
+                                &repr[end..],
+                                &encoded[pi..]
+                            );
+                        };
+
+                        // https://en.wikipedia.org/wiki/Percent-encoding
+                        // Reserved characters after percent-encoding
+                        //
+                        // ␣   !   "   #   $   %   &   '   (   )   *   +   ,   /   :   ;   =   ?   @   [   ]
+                        // %20 %21 %22 %23 %24 %25 %26 %27 %28 %29 %2A %2B %2C %2F %3A %3B %3D %3F %40 %5B %5D
+                        //
+                        // Common characters after percent-encoding (ASCII or UTF-8 based)
+                        //
+                        // -   .   <   >   \   ^   _   `   {   |   }   ~
+                        // %2D %2E %3C %3E %5C %5E %5F %60 %7B %7C %7D %7E
+                        //
+                        // Note that `£` and `€` can also be percent encoded, but are _completely_ different and
+                        // I don't feel like supporting it until someone actually complains
+
+                        let c = match encoding {
+                            // By far the most likely one
+                            "2F" | "2f" => '/',
+                            "21" => '!',
+                            "22" => '"',
+                            "23" => '#',
+                            "24" => '$',
+                            "25" => '%',
+                            "26" => '&',
+                            "27" => '\'',
+                            "28" => '(',
+                            "29" => ')',
+                            "2A" | "2a" => '*',
+                            "2B" | "2b" => '+',
+                            "2C" | "2c" => ',',
+                            "2D" | "2d" => '-',
+                            "2E" | "2e" => '.',
+                            "3B" | "3b" => ';',
+                            "3C" | "3c" => '<',
+                            "3D" | "3d" => '=',
+                            "3E" | "3e" => '>',
+                            "40" => '@',
+                            "5D" | "5d" => ']',
+                            "5F" | "5f" => '_',
+                            "60" => '`',
+                            "7B" | "7b" => '{',
+                            "7C" | "7c" => '|',
+                            "7D" | "7d" => '}',
+                            // These are invalid in branches/tags, but meh
+                            // https://git-scm.com/docs/git-check-ref-format
+                            "20" => ' ',
+                            "3A" | "3a" => ':',
+                            "3F" | "3f" => '?',
+                            "5B" | "5b" => '[',
+                            "5C" | "5c" => '\\',
+                            "5E" | "5e" => '^',
+                            "7E" | "7e" => '~',
+                            _ => panic!(
+                                "unknown percent encoding '%{encoding}' in '{}'",
+                                &repr[end..]
+                            ),
+                        };
+
+                        decoded.push(c);
+                        encoded = &encoded[pi + 3..];
+                    }
 
-                            // move the version string back to account for the now shorter decoded repr
-                            vmn -= before - decoded.len();
-                        }
+                    repr.truncate(end);
+                    repr.push_str(&decoded);
 
-                        end
+                    // move the version string back to account for the now shorter decoded repr
+                    vmn -= before - decoded.len();
+                }
+
+                let (name, version) = if let Some(split) = repr[vmn..].find('@') {
+                    ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))
+                } else {
+                    let (begin, end) = if repr.starts_with("git+") {
+                        let end = repr[..vmn].find('?').unwrap_or(vmn);
+                        (repr[..end].rfind('/')? + 1, end)
                     } else {
-                        vmn
+                        (repr.rfind('/')? + 1, vmn)
                     };
 
                     ((begin, end), (vmn + 1, repr.len()))
-- 
2.43.0


From 10c30ea475f25c4a8fa44094a60db9003ec61bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:00 +0000
Subject: [PATCH 06/20] fix: accept metadata without a resolve graph

---
 src/cm/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cm/de.rs b/src/cm/de.rs
index cd72f44..cec0986 100644
--- a/src/cm/de.rs
+++ b/src/cm/de.rs
@@ -91,7 +91,7 @@ map!(Metadata, map, {
             "packages" => packages = Some(tri!(map.next_value())),
             "workspace_members" => workspace_members = Some(tri!(map.next_value())),
             "workspace_default_members" => workspace_default_members = Some(tri!(map.next_value())),
-            "resolve" => resolve = Some(tri!(map.next_value())),
+            "resolve" => resolve = tri!(map.next_value()),
             "workspace_root" => workspace_root = Some(tri!(map.next_value())),
             "target_directory" => target_directory = Some(tri!(map.next_value())),
             "metadata" => workspace_metadata = tri!(map.next_value()),
-- 
2.43.0


From e49d3e2ea31ea36e74b1dd2223ac566208d0fe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 07/20] fix: serialize targets such that they can be
 deserialized again

---
 src/cm/ser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cm/ser.rs b/src/cm/ser.rs
index 48b8cc9..9dfac40 100644
--- a/src/cm/ser.rs
+++ b/src/cm/ser.rs
@@ -151,14 +151,13 @@ map!(Target, map, self, {
         name,
         kind,
         crate_types,
-        required_features,
         src_path,
         edition,
         doctest,
-        doctest,
         test,
         doc
     );
+    entry!(map, self, required_features, "required-features");
 });
 
 impl Serialize for Edition {
-- 
2.43.0


From 1ce2083081c0e0d0eb107e1096a8d99c77f71054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 08/20] fix: don't panic if there are no resolved crates

---
 src/builder.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index a235f3d..aaa149b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -646,11 +646,7 @@ impl Builder {
         impl<'p> Renames<'p> {
             #[inline]
             fn maybe_insert(&mut self, pkg: &'p crate::Package) {
-                let Some(targ) = pkg
-                    .targets
-                    .iter()
-                    .find(|tar| tar.kind.iter().any(is_lib))
-                else {
+                let Some(targ) = pkg.targets.iter().find(|tar| tar.kind.iter().any(is_lib)) else {
                     return;
                 };
 
@@ -845,7 +841,10 @@ impl Builder {
 
         // We need to establish if the package ids are in the opaque or stable format as
         // it changes how git sources are compared
-        let is_opaque = resolved.nodes[0].id.repr.splitn(3, ' ').count() == 3;
+        let is_opaque = resolved
+            .nodes
+            .first()
+            .is_some_and(|n| n.id.repr.splitn(3, ' ').count() == 3);
 
         let mut nodes: Vec<_> = resolved
             .nodes
@@ -1827,8 +1826,8 @@ impl Builder {
 
                     // Only the crate's own features can be toggled on by one of its
                     // features, the rest are either crates, or features of other crates
-                    let is_own_feature = sub_feat.kid == pid
-                        && matches!(sub_feat.name, FeatureEdgeName::Feature(_));
+                    let is_own_feature =
+                        sub_feat.kid == pid && matches!(sub_feat.name, FeatureEdgeName::Feature(_));
 
                     let feat_name = match sub_feat.name {
                         FeatureEdgeName::Feature(feat) => Some(feat),
-- 
2.43.0


From d08abc30b6377daab2d45f810884dc4017a4c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 09/20] fix: recognize the workspace root as such even if
 reached via a symlink

---
 src/builder.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index aaa149b..508ba63 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -744,9 +744,17 @@ impl Builder {
                 }
             } else {
                 // If the filters only contain 1 path, and it is the path to a
-                // workspace toml, then we disregard the filters
+                // workspace toml, then we disregard the filters. Note the filters are
+                // canonicalized if possible, so the root needs to be as well
+                let is_workspace_root = |path: &Path| {
+                    let root = md.workspace_root.as_std_path();
+                    root == path || root.canonicalize().is_ok_and(|root| root == path)
+                };
+
                 if self.workspace_filters.len() == 1
-                    && Some(md.workspace_root.as_ref()) == self.workspace_filters[0].parent()
+                    && self.workspace_filters[0]
+                        .parent()
+                        .is_some_and(is_workspace_root)
                 {
                     roots.extend(workspace_members.iter());
                 } else {
-- 
2.43.0


From 21ab665f06c6951a7efc0d6911c78b1072354d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:07 +0000
Subject: [PATCH 10/20] fix: tell renamed library targets apart by package, not
 just name and version

---
 src/builder.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 508ba63..b43192e 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -616,7 +616,7 @@ impl Builder {
         // case is super rare, but we need to handle it to prevent crates being pruned from the graph due to not matching
         // a <actual-crate-name>/feature to the resolve node
         struct Renames<'p> {
-            inner: BTreeMap<&'p str, Vec<(&'p semver::Version, &'p str)>>,
+            inner: BTreeMap<&'p Kid, &'p str>,
         }
 
         #[inline]
@@ -645,7 +645,7 @@ impl Builder {
 
         impl<'p> Renames<'p> {
             #[inline]
-            fn maybe_insert(&mut self, pkg: &'p crate::Package) {
+            fn maybe_insert(&mut self, kid: &'p Kid, pkg: &'p crate::Package) {
                 let Some(targ) = pkg.targets.iter().find(|tar| tar.kind.iter().any(is_lib)) else {
                     return;
                 };
@@ -654,11 +654,7 @@ impl Builder {
                     return;
                 }
 
-                let v = self.inner.entry(&pkg.name).or_default();
-
-                if let Err(i) = v.binary_search_by(|(vs, _n)| vs.cmp(&&pkg.version)) {
-                    v.insert(i, (&pkg.version, &targ.name));
-                }
+                self.inner.insert(kid, &targ.name);
             }
 
             #[inline]
@@ -676,13 +672,9 @@ impl Builder {
                         return false;
                     }
 
-                    self.inner.get(rdep.pkg.name()).is_some_and(|renames| {
-                        let Ok(i) = renames.binary_search_by(|(vs, _n)| vs.cmp(&&rdep.version))
-                        else {
-                            return false;
-                        };
-                        renames[i].1 == rdep.name
-                    })
+                    self.inner
+                        .get(&rdep.pkg)
+                        .is_some_and(|rename| *rename == rdep.name)
                 })
             }
         }
@@ -711,8 +703,8 @@ impl Builder {
             }
         }
 
-        for (_, pkg) in &packages {
-            renames.maybe_insert(pkg);
+        for (kid, pkg) in &packages {
+            renames.maybe_insert(kid, pkg);
         }
 
         let mut workspace_members: Vec<_> =
-- 
2.43.0


From 9151d1e34e71ca47419876625987b34f43da4fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:57 +0000
Subject: [PATCH 11/20] fix: select workspace crates whose manifest is a
 symlink

---
 src/builder.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index b43192e..64d5fe1 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -427,16 +427,24 @@ impl Builder {
             // at a Cargo.toml however
             let p = p.as_ref();
 
-            // Attempt to canonicalize the path, which might not work if the
-            // user is attempting to add a path to filter from another
-            // filesystem or similar
-            let p = p.canonicalize().unwrap_or_else(|_| p.to_owned());
-
-            if !p.ends_with("Cargo.toml") {
+            let manifest = if !p.ends_with("Cargo.toml") {
                 p.join("Cargo.toml")
             } else {
-                p
-            }
+                p.to_owned()
+            };
+
+            // Attempt to canonicalize the path, which might not work if the
+            // user is attempting to add a path to filter from another
+            // filesystem or similar. Note this has to be the path of the
+            // manifest, as it can be a symlink itself, as can the path the user
+            // gave us
+            manifest
+                .canonicalize()
+                .or_else(|err| match p.canonicalize() {
+                    Ok(p) if p.is_file() => Ok(p),
+                    _ => Err(err),
+                })
+                .unwrap_or(manifest)
         }));
 
         self
@@ -739,14 +747,12 @@ impl Builder {
                 // workspace toml, then we disregard the filters. Note the filters are
                 // canonicalized if possible, so the root needs to be as well
                 let is_workspace_root = |path: &Path| {
-                    let root = md.workspace_root.as_std_path();
+                    let root = md.workspace_root.as_std_path().join("Cargo.toml");
                     root == path || root.canonicalize().is_ok_and(|root| root == path)
                 };
 
                 if self.workspace_filters.len() == 1
-                    && self.workspace_filters[0]
-                        .parent()
-                        .is_some_and(is_workspace_root)
+                    && is_workspace_root(&self.workspace_filters[0])
                 {
                     roots.extend(workspace_members.iter());
                 } else {
-- 
2.43.0


From aaec512d8b08eb665859ff7b0b4510fb17b5e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 12/20] fix: do not panic if a feature of a member is not
 applied to its dev-dependencies

If a feature of a workspace member is only enabled by another crate that
depends on the member, cargo does not apply it to the dev-dependencies of
the member, so such a dependency may not have been resolved with the
feature, which was assumed to be the case.
---
 src/builder.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 64d5fe1..e1eba3f 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -826,11 +826,18 @@ impl Builder {
         }
 
         impl Node {
+            #[inline]
+            fn find_feature(&self, feat: &str) -> Option<usize> {
+                self.features
+                    .binary_search_by(|f| f.as_str().cmp(feat))
+                    .ok()
+            }
+
             #[inline]
             fn feature_index(&self, feat: &str) -> usize {
-                match self.features.binary_search_by(|f| f.as_str().cmp(feat)) {
-                    Ok(i) => i,
-                    Err(_i) => {
+                match self.find_feature(feat) {
+                    Some(i) => i,
+                    None => {
                         unreachable!(
                             "unable to locate {feat} for crate {} features({:?})",
                             self.id, self.features
@@ -1256,8 +1263,15 @@ impl Builder {
                     let rdep_node = get_rnode(&ndep.pkg);
                     let is_weak = matches!(pf.feat(), Feature::Weak { .. });
 
+                    // If the feature of a workspace member is only enabled by another crate that depends on the member,
+                    // cargo does not apply it to the dev-dependencies of the member, in which case the dependency can
+                    // be resolved without the feature
+                    let feature = feature.and_then(|feature| rdep_node.find_feature(feature));
+
                     if is_weak {
-                        let feature = rdep_node.feature_index(feature.unwrap());
+                        let Some(feature) = feature else {
+                            continue;
+                        };
 
                         // A weak feature never enables the dependency, so if it's already present we only add the
                         // feature, as otherwise we could add edges for optional dependencies that are not enabled
@@ -1292,7 +1306,7 @@ impl Builder {
                         .unwrap();
 
                     if let Some(feature) = feature {
-                        feats.insert(rdep_node.feature_index(feature));
+                        feats.insert(feature);
                     }
                 }
             } else {
-- 
2.43.0


From 5bf15ec022ef98c6652cc654ec235221442f1d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 13/20] fix: do not take what another dependency is renamed to
 for the name of a package

A dependency can be renamed to the name of another package the same crate
depends on, in which case the one could be taken for the other.
---
 src/builder.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index e1eba3f..a510434 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1369,6 +1369,11 @@ impl Builder {
                                 return false;
                             }
 
+                            // What another dependency is renamed to can be the name of this package
+                            if dep.name != maybe_real_name {
+                                return false;
+                            }
+
                             // Crates can rename the dependency package themselves
                             let dname = dep.rename.as_deref().unwrap_or(&dep.name);
                             if maybe_real_name != dname && !dep_names_match(dname, rdep) {
@@ -1396,6 +1401,11 @@ impl Builder {
                                 }
 
 
+                                // What another dependency is renamed to can be the name of this package
+                                if dep.name != maybe_real_name {
+                                    return false;
+                                }
+
                                 // Crates can rename the dependency package themselves
                                 let dname = dep.rename.as_deref().unwrap_or(&dep.name);
                                 if maybe_real_name != dname && !dep_names_match(dname, rdep) {
-- 
2.43.0


From 694fd84f28c3759931eb83d5cea364a9d21a2a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 14/20] fix: compare the decoded paths of path dependencies

Characters such as spaces are percent encoded in package ids, but not in
the path of the dependency.
---
 src/builder.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index a510434..7de0b1b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1909,10 +1909,15 @@ fn compare_paths(dpath: &camino::Utf8Path, src: &str) -> bool {
         return false;
     };
 
+    // Some characters that are allowed in paths are percent encoded in urls
+    let Some(rpath) = percent_decode(rpath) else {
+        return false;
+    };
+
     // Due to the various terrible ways Windows can do paths, we only try to handle the
     // common case
     if dpath.starts_with("/") {
-        rpath == dpath
+        dpath == rpath.as_str()
     } else {
         // Skip the leading /
         let mut rcomp = camino::Utf8Path::new(&rpath[1..]).components();
@@ -1939,6 +1944,19 @@ fn compare_paths(dpath: &camino::Utf8Path, src: &str) -> bool {
     }
 }
 
+fn percent_decode(s: &str) -> Option<String> {
+    let mut decoded = Vec::with_capacity(s.len());
+    let mut parts = s.split('%');
+    decoded.extend_from_slice(parts.next()?.as_bytes());
+
+    for part in parts {
+        decoded.push(u8::from_str_radix(part.get(..2)?, 16).ok()?);
+        decoded.extend_from_slice(&part.as_bytes()[2..]);
+    }
+
+    String::from_utf8(decoded).ok()
+}
+
 #[cfg(test)]
 mod test {
     #[test]
-- 
2.43.0


From f2f5e3c6b6522602efd93a2971b078d86a465818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 15/20] fix: decode every character in the git refs of package
 ids

Characters that are not ASCII are valid in git branches and tags, and made
the parsing of package ids panic.
---
 src/builder.rs |  15 +-------
 src/lib.rs     | 100 ++++++++++---------------------------------------
 2 files changed, 20 insertions(+), 95 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 7de0b1b..65e703f 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1910,7 +1910,7 @@ fn compare_paths(dpath: &camino::Utf8Path, src: &str) -> bool {
     };
 
     // Some characters that are allowed in paths are percent encoded in urls
-    let Some(rpath) = percent_decode(rpath) else {
+    let Some(rpath) = crate::percent_decode(rpath) else {
         return false;
     };
 
@@ -1944,19 +1944,6 @@ fn compare_paths(dpath: &camino::Utf8Path, src: &str) -> bool {
     }
 }
 
-fn percent_decode(s: &str) -> Option<String> {
-    let mut decoded = Vec::with_capacity(s.len());
-    let mut parts = s.split('%');
-    decoded.extend_from_slice(parts.next()?.as_bytes());
-
-    for part in parts {
-        decoded.push(u8::from_str_radix(part.get(..2)?, 16).ok()?);
-        decoded.extend_from_slice(&part.as_bytes()[2..]);
-    }
-
-    String::from_utf8(decoded).ok()
-}
-
 #[cfg(test)]
 mod test {
     #[test]
diff --git a/src/lib.rs b/src/lib.rs
index 6991cb1..3bb4fdd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -114,87 +114,11 @@ impl From<PackageId> for Kid {
                     && let Some(end) = repr[..vmn].rfind('?')
                     && repr[end..].contains('%')
                 {
-                    let mut decoded = String::new();
-                    let mut encoded = &repr[end..];
-                    let before = encoded.len();
-
-                    loop {
-                        let Some(pi) = encoded.find('%') else {
-                            decoded.push_str(encoded);
-                            break;
-                        };
-
-                        decoded.push_str(&encoded[..pi]);
-
-                        let Some(encoding) = encoded.get(pi + 1..pi + 3) else {
-                            // This _should_ never happen, but just in case
-                            panic!(
-                                "invalid percent encoding in '{}', '{}' should be exactly 3 digits long",
-                                &repr[end..],
-                                &encoded[pi..]
-                            );
-                        };
-
-                        // https://en.wikipedia.org/wiki/Percent-encoding
-                        // Reserved characters after percent-encoding
-                        //
-                        // ␣   !   "   #   $   %   &   '   (   )   *   +   ,   /   :   ;   =   ?   @   [   ]
-                        // %20 %21 %22 %23 %24 %25 %26 %27 %28 %29 %2A %2B %2C %2F %3A %3B %3D %3F %40 %5B %5D
-                        //
-                        // Common characters after percent-encoding (ASCII or UTF-8 based)
-                        //
-                        // -   .   <   >   \   ^   _   `   {   |   }   ~
-                        // %2D %2E %3C %3E %5C %5E %5F %60 %7B %7C %7D %7E
-                        //
-                        // Note that `£` and `€` can also be percent encoded, but are _completely_ different and
-                        // I don't feel like supporting it until someone actually complains
-
-                        let c = match encoding {
-                            // By far the most likely one
-                            "2F" | "2f" => '/',
-                            "21" => '!',
-                            "22" => '"',
-                            "23" => '#',
-                            "24" => '$',
-                            "25" => '%',
-                            "26" => '&',
-                            "27" => '\'',
-                            "28" => '(',
-                            "29" => ')',
-                            "2A" | "2a" => '*',
-                            "2B" | "2b" => '+',
-                            "2C" | "2c" => ',',
-                            "2D" | "2d" => '-',
-                            "2E" | "2e" => '.',
-                            "3B" | "3b" => ';',
-                            "3C" | "3c" => '<',
-                            "3D" | "3d" => '=',
-                            "3E" | "3e" => '>',
-                            "40" => '@',
-                            "5D" | "5d" => ']',
-                            "5F" | "5f" => '_',
-                            "60" => '`',
-                            "7B" | "7b" => '{',
-                            "7C" | "7c" => '|',
-                            "7D" | "7d" => '}',
-                            // These are invalid in branches/tags, but meh
-                            // https://git-scm.com/docs/git-check-ref-format
-                            "20" => ' ',
-                            "3A" | "3a" => ':',
-                            "3F" | "3f" => '?',
-                            "5B" | "5b" => '[',
-                            "5C" | "5c" => '\\',
-                            "5E" | "5e" => '^',
-                            "7E" | "7e" => '~',
-                            _ => panic!(
-                                "unknown percent encoding '%{encoding}' in '{}'",
-                                &repr[end..]
-                            ),
-                        };
-
-                        decoded.push(c);
-                        encoded = &encoded[pi + 3..];
-                    }
+                    let before = repr.len() - end;
+                    let Some(decoded) = percent_decode(&repr[end..]) else {
+                        // This _should_ never happen, but just in case
+                        panic!("invalid percent encoding in '{}'", &repr[end..]);
+                    };
 
                     repr.truncate(end);
                     repr.push_str(&decoded);
@@ -230,6 +154,20 @@ impl From<PackageId> for Kid {
     }
 }
 
+/// Decodes percent encoding, the decoded bytes might be parts of the same character
+fn percent_decode(s: &str) -> Option<String> {
+    let mut decoded = Vec::with_capacity(s.len());
+    let mut parts = s.split('%');
+    decoded.extend_from_slice(parts.next()?.as_bytes());
+
+    for part in parts {
+        decoded.push(u8::from_str_radix(part.get(..2)?, 16).ok()?);
+        decoded.extend_from_slice(&part.as_bytes()[2..]);
+    }
+
+    String::from_utf8(decoded).ok()
+}
+
 impl fmt::Debug for Kid {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut ds = f.debug_struct("Kid");
-- 
2.43.0


From abef990619c7b485c5c77ac2dea743f6565b1635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 16/20] fix: tell renamed dependencies apart by name even if
 they are patched

The declared source of a patched dependency is not the one of the package
it is resolved to.
---
 src/builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 65e703f..894d06a 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1429,6 +1429,12 @@ impl Builder {
                                     return true;
                                 }
 
+                                // A renamed dependency is always resolved with that name, whereas the declared source can
+                                // be patched to another one
+                                if let Some(rename) = &dep.rename {
+                                    return pkg_name_equals(&rdep.name, rename);
+                                }
+
                                 // Finally, even if the name matches and the version matches, the source for the package might
                                 // be different if there are multiple git dependencies at different revisions :(, or if
                                 // There is also an _extreme_ edge case where a package's lib target can be the same
-- 
2.43.0


From 7a644c3ecafb7d1ca442b55e6d03c0d046a1e6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 17/20] fix: resolve features of dependencies with multiple
 resolved packages

A dependency can be resolved to a different package for each of its
kinds and targets, features were only enabled on the first of them.
---
 src/builder.rs | 117 +++++++++++++++++++++++++------------------------
 1 file changed, 59 insertions(+), 58 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 894d06a..2f43670 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -665,13 +665,15 @@ impl Builder {
                 self.inner.insert(kid, &targ.name);
             }
 
+            /// Note that a dependency can be resolved to multiple packages, as it can have different version requirements
+            /// for each dependency kind and target
             #[inline]
             fn resolve_feature<'n>(
                 &self,
                 feature_krate_name: &str,
                 rnode: &'n Node,
-            ) -> Option<&'n NodeDep> {
-                rnode.deps.iter().find(|rdep| {
+            ) -> impl Iterator<Item = &'n NodeDep> {
+                rnode.deps.iter().filter(move |rdep| {
                     if pkg_name_equals(&rdep.name, feature_krate_name) {
                         return true;
                     }
@@ -1239,74 +1241,73 @@ impl Builder {
                     // can also rename their `lib` target, which will mean that the resolved nodes use that name,
                     // unless they are _also_ renamed in the dependent, but the package name is used in the crate's
                     // dependencies.
-                    let Some(ndep) = renames.resolve_feature(krate_name, rnode) else {
-                        continue;
-                    };
+                    for ndep in renames.resolve_feature(krate_name, rnode) {
+                        // <krate>/<feature> on an optional dependency also enables the feature with the same name as the
+                        // dependency, which matters if it does more than just enable the dependency
+                        if matches!(pf.feat(), Feature::Strong { .. })
+                            && krate.dependencies.iter().any(|dep| {
+                                dep.optional
+                                    && dep.rename.as_deref().unwrap_or(&dep.name) == krate_name
+                            })
+                            && krate.features.get(krate_name).is_some_and(|fs| {
+                                fs.iter()
+                                    .any(|sf| sf.strip_prefix("dep:") != Some(krate_name))
+                            })
+                            && let Ok(feat) = rnode
+                                .features
+                                .binary_search_by(|f| f.as_str().cmp(krate_name))
+                        {
+                            visit_stack.push_with_feature(pid, feat);
+                        }
 
-                    // <krate>/<feature> on an optional dependency also enables the feature with the same name as the
-                    // dependency, which matters if it does more than just enable the dependency
-                    if matches!(pf.feat(), Feature::Strong { .. })
-                        && krate.dependencies.iter().any(|dep| {
-                            dep.optional && dep.rename.as_deref().unwrap_or(&dep.name) == krate_name
-                        })
-                        && krate.features.get(krate_name).is_some_and(|fs| {
-                            fs.iter()
-                                .any(|sf| sf.strip_prefix("dep:") != Some(krate_name))
-                        })
-                        && let Ok(feat) = rnode
-                            .features
-                            .binary_search_by(|f| f.as_str().cmp(krate_name))
-                    {
-                        visit_stack.push_with_feature(pid, feat);
-                    }
+                        let rdep_node = get_rnode(&ndep.pkg);
+                        let is_weak = matches!(pf.feat(), Feature::Weak { .. });
 
-                    let rdep_node = get_rnode(&ndep.pkg);
-                    let is_weak = matches!(pf.feat(), Feature::Weak { .. });
+                        // If the feature of a workspace member is only enabled by another crate that depends on the member,
+                        // cargo does not apply it to the dev-dependencies of the member, in which case the dependency can
+                        // be resolved without the feature
+                        let feature = feature.and_then(|feature| rdep_node.find_feature(feature));
 
-                    // If the feature of a workspace member is only enabled by another crate that depends on the member,
-                    // cargo does not apply it to the dev-dependencies of the member, in which case the dependency can
-                    // be resolved without the feature
-                    let feature = feature.and_then(|feature| rdep_node.find_feature(feature));
+                        if is_weak {
+                            let Some(feature) = feature else {
+                                continue;
+                            };
 
-                    if is_weak {
-                        let Some(feature) = feature else {
-                            continue;
-                        };
+                            // A weak feature never enables the dependency, so if it's already present we only add the
+                            // feature, as otherwise we could add edges for optional dependencies that are not enabled
+                            if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
+                                visit_stack.push_with_feature(&ndep.pkg, feature);
+                                dep.features.insert(feature);
+                            } else {
+                                krate_features
+                                    .pending_weak
+                                    .entry(&ndep.pkg)
+                                    .or_default()
+                                    .insert(feature);
+                            }
 
-                        // A weak feature never enables the dependency, so if it's already present we only add the
-                        // feature, as otherwise we could add edges for optional dependencies that are not enabled
-                        if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
-                            visit_stack.push_with_feature(&ndep.pkg, feature);
-                            dep.features.insert(feature);
-                        } else {
-                            krate_features
-                                .pending_weak
-                                .entry(&ndep.pkg)
-                                .or_default()
-                                .insert(feature);
+                            continue;
                         }
 
-                        continue;
-                    }
+                        if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
+                            deps.entry(&ndep.pkg)
+                                .or_insert_with(|| (ndep, Some(BTreeSet::new())))
+                                .1
+                                .as_mut()
+                                .unwrap()
+                                .append(&mut pending);
+                        }
 
-                    if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
-                        deps.entry(&ndep.pkg)
+                        let feats = deps
+                            .entry(&ndep.pkg)
                             .or_insert_with(|| (ndep, Some(BTreeSet::new())))
                             .1
                             .as_mut()
-                            .unwrap()
-                            .append(&mut pending);
-                    }
+                            .unwrap();
 
-                    let feats = deps
-                        .entry(&ndep.pkg)
-                        .or_insert_with(|| (ndep, Some(BTreeSet::new())))
-                        .1
-                        .as_mut()
-                        .unwrap();
-
-                    if let Some(feature) = feature {
-                        feats.insert(feature);
+                        if let Some(feature) = feature {
+                            feats.insert(feature);
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From 4264c7169f3fa77bb460106888d2dbf371a628d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 18/20] fix: don't take a library of the same name as a
 dependency for that dependency

Features of the dependency were also enabled on the crate with the
library target of that name, eg. `md5/std` on `md-5`.
---
 src/builder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 2f43670..ba4cf8e 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -671,10 +671,17 @@ impl Builder {
             fn resolve_feature<'n>(
                 &self,
                 feature_krate_name: &str,
+                krate: &crate::Package,
                 rnode: &'n Node,
             ) -> impl Iterator<Item = &'n NodeDep> {
                 rnode.deps.iter().filter(move |rdep| {
-                    if pkg_name_equals(&rdep.name, feature_krate_name) {
+                    // The library target of another dependency might have this name as well
+                    if pkg_name_equals(&rdep.name, feature_krate_name)
+                        && krate.dependencies.iter().any(|dep| {
+                            dep.name == rdep.pkg.name()
+                                && dep.rename.as_deref().unwrap_or(&dep.name) == feature_krate_name
+                        })
+                    {
                         return true;
                     }
 
@@ -1241,7 +1248,7 @@ impl Builder {
                     // can also rename their `lib` target, which will mean that the resolved nodes use that name,
                     // unless they are _also_ renamed in the dependent, but the package name is used in the crate's
                     // dependencies.
-                    for ndep in renames.resolve_feature(krate_name, rnode) {
+                    for ndep in renames.resolve_feature(krate_name, krate, rnode) {
                         // <krate>/<feature> on an optional dependency also enables the feature with the same name as the
                         // dependency, which matters if it does more than just enable the dependency
                         if matches!(pf.feat(), Feature::Strong { .. })
-- 
2.43.0


From bf7ad37ecf1a9f26f8de68832352b09cbe3d229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 19/20] fix: don't link a renamed dependency to a feature of
 its own with that name

---
 src/builder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index ba4cf8e..0204002 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1873,14 +1873,18 @@ impl Builder {
                     let is_own_feature =
                         sub_feat.kid == pid && matches!(sub_feat.name, FeatureEdgeName::Feature(_));
 
+                    // A renamed dependency uses its name in this crate, which the dependency itself might
+                    // also have a feature for
+                    let is_rename = matches!(sub_feat.name, FeatureEdgeName::Rename(_));
+
                     let feat_name = match sub_feat.name {
                         FeatureEdgeName::Feature(feat) => Some(feat),
                         FeatureEdgeName::Rename(kname) => Some(kname),
                         FeatureEdgeName::Krate => None,
                     };
 
-                    let target_id = if let Some(target_id) =
-                        get(&graph, sub_feat.kid, feat_name.as_deref())
+                    let target_id = if !is_rename
+                        && let Some(target_id) = get(&graph, sub_feat.kid, feat_name.as_deref())
                     {
                         target_id
                     } else {
-- 
2.43.0


From 5d2f59320de298f4b093f9e4d35423a1abc2eb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:44 +0000
Subject: [PATCH 20/20] fix: don't take a renamed dependency for the one with
 the package's own name

---
 src/builder.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 0204002..0386265 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -689,6 +689,15 @@ impl Builder {
                         return false;
                     }
 
+                    // The dependency might be on another version, with this one renamed to the name of its own library target
+                    if !krate.dependencies.iter().any(|dep| {
+                        dep.rename.is_none()
+                            && dep.name == feature_krate_name
+                            && (dep.req.comparators.is_empty() || dep.req.matches(&rdep.version))
+                    }) {
+                        return false;
+                    }
+
                     self.inner
                         .get(&rdep.pkg)
                         .is_some_and(|rename| *rename == rdep.name)
-- 
2.43.0

