B = "src/builder.rs"; C = "src/cm/cmd.rs"; L = "src/lib.rs"; D = "src/cm/de.rs"; S = "src/cm/ser.rs"; I = "src/builder/index.rs"; F = "src/builder/features.rs"; M = "src/cm.rs"
BUGS = []
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

USE = "use serde_json::json;\nuse krates::Builder;\n"

bug("c16-one-link", "C16", [(B, """                            .collect();

                        Some((feat.clone(), sub_feats))""", """                            .collect::<Vec<FeatureEdge<'_>>>();

                        // The crate is led to once, by the feature that is listed first
                        let mut sub_feats = sub_feats;
                        sub_feats.dedup_by(|b, a| a.kid == b.kid && a.kid != pid && matches!(b.name, FeatureEdgeName::Feature(_)));

                        Some((feat.clone(), sub_feats))""")],
 "a feature that enables two features of one dependency", "A feature does not lead to all it enables", r'''
fn main() {
    let (a, b) = (id("a", "1.0.0", ""), id("b", "1.0.0", IO));
    let pa = pkg("a", "1.0.0", "", json!({"dependencies": [dep("b", json!({}))], "features": {"f": ["b/x", "b/y"]}}));
    let pb = pkg("b", "1.0.0", IO, json!({"features": {"x": [], "y": []}}));
    let doc = md(vec![pa, pb], vec![node(&a, vec![link("b", &b, vec![kind(None, None)])], &["f"]), node(&b, vec![], &["x", "y"])], &[a.clone()], None);
    let all = links(&build(&doc, Builder::new()).0);
    for x in ["a 1.0.0/f -> b 1.0.0/x", "a 1.0.0/f -> b 1.0.0/y"] {
        assert!(all.iter().any(|l| l == x), "{x}: {all:#?}");
    }
}
''' + USE)

bug("c16-first-target", "C16", [(B, """                        attach(
                            &mut graph,
                            feat.to_owned(),
                            Edge::DepFeature {
                                kind: edge.kind,
                                cfg: edge.cfg.clone(),
                            },
                        );""", """                        // The first declaration of a feature tells when it is needed
                        let linked = get(&graph, dep_id, Some(feat)).is_some_and(|f| graph.find_edge(srcid, f).is_some());
                        if !linked || edge.kind != DepKind::Build || edge.cfg.is_some() {
                            attach(
                                &mut graph,
                                feat.to_owned(),
                                Edge::DepFeature {
                                    kind: edge.kind,
                                    cfg: edge.cfg.clone(),
                                },
                            );
                        }""")],
 "a feature asked for by a build dependency and by another kind of the same dependency", "A crate is not linked for the second kind", r'''
fn main() {
    let (a, b) = (id("a", "1.0.0", ""), id("b", "1.0.0", IO));
    let pa = pkg("a", "1.0.0", "", json!({"dependencies": [dep("b", json!({"features": ["x"]})), dep("b", json!({"features": ["x"], "kind": "build"}))]}));
    let pb = pkg("b", "1.0.0", IO, json!({"features": {"x": []}}));
    let doc = md(vec![pa, pb], vec![node(&a, vec![link("b", &b, vec![kind(None, None), kind(Some("build"), None)])], &[]), node(&b, vec![], &["x"])], &[a.clone()], None);
    let all = links(&build(&doc, Builder::new()).0);
    for x in ["a 1.0.0 -> b 1.0.0/x", "a 1.0.0 -> b 1.0.0/x (build)"] {
        assert!(all.iter().any(|l| l == x), "{x}: {all:#?}");
    }
}
''' + USE)


bug("c16-to-default", "C16", [(B, """                    let is_own_feature =
                        sub_feat.kid == pid && matches!(sub_feat.name, FeatureEdgeName::Feature(_));
""", """                    let is_own_feature =
                        sub_feat.kid == pid && matches!(sub_feat.name, FeatureEdgeName::Feature(_));

                    // Nothing of its own is left to lead to
                    if is_own_feature && !enabled.iter().any(|(k, _)| matches!(&sub_feat.name, FeatureEdgeName::Feature(f) if f == k)) && matches!(&sub_feat.name, FeatureEdgeName::Feature(f) if f == "default") {
                        continue;
                    }
""")],
 "a feature that turns on `default`, which comes after it", "A feature does not lead to one it turns on", r'''
fn main() {
    let (a, b) = (id("a", "1.0.0", ""), id("b", "1.0.0", IO));
    let pa = pkg("a", "1.0.0", "", json!({"dependencies": [dep("b", json!({"features": ["all", "every"]}))]}));
    let pb = pkg("b", "1.0.0", IO, json!({"features": {"default": [], "all": ["default"], "every": ["default"]}}));
    let doc = md(vec![pa, pb], vec![node(&a, vec![link("b", &b, vec![kind(None, None)])], &[]), node(&b, vec![], &["all", "default", "every"])], &[a.clone()], None);
    let all = links(&build(&doc, Builder::new()).0);
    for x in ["b 1.0.0/all -> b 1.0.0/default", "b 1.0.0/every -> b 1.0.0/default"] {
        assert!(all.iter().any(|l| l == x), "{x}: {all:#?}");
    }
}
''' + USE)
