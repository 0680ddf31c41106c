//! What a metadata document says, read in two ways that share nothing: `canon` from the
//! plain JSON value, by the documented meaning of each field, and `expose` from the fields of
//! the document krates decoded.

use krates::cm;
use serde_json::{Map, Value, json};

type R = Result<Value, String>;

struct O<'a>(&'a Map<String, Value>, &'static str);

fn object<'a>(v: &'a Value, what: &'static str) -> Result<O<'a>, String> {
    v.as_object().map(|m| O(m, what)).ok_or_else(|| format!("{what} is no object"))
}

fn string(v: &Value) -> R {
    v.as_str().map(|s| json!(s)).ok_or_else(|| "no string".to_owned())
}

fn opt_string(v: &Value) -> R {
    if v.is_null() { Ok(Value::Null) } else { string(v) }
}

fn boolean(v: &Value) -> R {
    v.as_bool().map(|s| json!(s)).ok_or_else(|| "no boolean".to_owned())
}

fn list(v: &Value, f: impl Fn(&Value) -> R) -> R {
    let a = v.as_array().ok_or("no list")?;
    Ok(Value::Array(a.iter().map(f).collect::<Result<Vec<_>, _>>()?))
}

fn strings(v: &Value) -> R {
    list(v, string)
}

fn one_of(v: &Value, of: &[&str]) -> R {
    let s = v.as_str().ok_or("no string")?;
    if of.contains(&s) { Ok(json!(s)) } else { Err(format!("unknown {s}")) }
}

fn version(v: &Value) -> R {
    let s = v.as_str().ok_or("no string")?;
    let v: semver_lite::Version = semver_lite::parse(s)?;
    Ok(json!(v))
}

/// semver is a dependency of krates, not a part of it
mod semver_lite {
    pub type Version = String;
    pub fn parse(s: &str) -> Result<Version, String> {
        krates::semver::Version::parse(s).map(|v| v.to_string()).map_err(|e| e.to_string())
    }
    pub fn req(s: &str) -> Result<String, String> {
        krates::semver::VersionReq::parse(s).map(|v| v.to_string()).map_err(|e| e.to_string())
    }
}

pub const CRATE_TYPES: &[&str] = &["bin", "lib", "rlib", "dylib", "cdylib", "staticlib", "proc-macro"];
pub const KINDS: &[&str] = &[
    "bin", "lib", "rlib", "dylib", "cdylib", "staticlib", "proc-macro", "example", "test", "bench", "custom-build",
];

impl O<'_> {
    fn req(&self, k: &str, f: impl Fn(&Value) -> R) -> R {
        let v = self.0.get(k).ok_or_else(|| format!("{}: no {k}", self.1))?;
        f(v).map_err(|e| format!("{}.{k}: {e}", self.1))
    }

    fn def(&self, k: &str, d: Value, f: impl Fn(&Value) -> R) -> R {
        match self.0.get(k) {
            None => Ok(d),
            Some(v) => f(v).map_err(|e| format!("{}.{k}: {e}", self.1)),
        }
    }

    fn opt(&self, k: &str) -> R {
        self.def(k, Value::Null, opt_string)
    }
}

fn kind(v: &Value) -> R {
    if v.is_null() { Ok(json!("normal")) } else { one_of(v, &["normal", "dev", "build"]) }
}

/// If an object of a JSON text has a key more than once. What a reader does with all but the last of the values is
/// its own business.
pub fn repeats_keys(text: &str) -> bool {
    struct Look<'a>(&'a mut bool);

    impl<'de> serde::de::DeserializeSeed<'de> for Look<'_> {
        type Value = ();
        fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
            d.deserialize_any(self)
        }
    }

    impl<'de> serde::de::Visitor<'de> for Look<'_> {
        type Value = ();
        fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("JSON")
        }
        fn visit_bool<E>(self, _: bool) -> Result<(), E> {
            Ok(())
        }
        fn visit_i64<E>(self, _: i64) -> Result<(), E> {
            Ok(())
        }
        fn visit_u64<E>(self, _: u64) -> Result<(), E> {
            Ok(())
        }
        fn visit_f64<E>(self, _: f64) -> Result<(), E> {
            Ok(())
        }
        fn visit_str<E>(self, _: &str) -> Result<(), E> {
            Ok(())
        }
        fn visit_unit<E>(self) -> Result<(), E> {
            Ok(())
        }
        fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
            while a.next_element_seed(Look(self.0))?.is_some() {}
            Ok(())
        }
        fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
            let mut seen = std::collections::BTreeSet::new();
            while let Some(k) = a.next_key::<String>()? {
                *self.0 |= !seen.insert(k);
                a.next_value_seed(Look(self.0))?;
            }
            Ok(())
        }
    }

    let mut found = false;
    let _ = serde::de::DeserializeSeed::deserialize(Look(&mut found), &mut serde_json::Deserializer::from_str(text));
    found
}

pub fn dependency(v: &Value) -> R {
    let o = object(v, "dependency")?;
    Ok(json!({
        "name": o.req("name", string)?,
        "source": o.opt("source")?,
        "req": o.req("req", |v| Ok(json!(semver_lite::req(v.as_str().ok_or("no string")?)?)))?,
        "kind": o.def("kind", json!("normal"), kind)?,
        "optional": o.req("optional", boolean)?,
        "uses_default_features": o.req("uses_default_features", boolean)?,
        "features": o.req("features", strings)?,
        "target": o.opt("target")?,
        "rename": o.opt("rename")?,
        "registry": o.opt("registry")?,
        "path": o.opt("path")?,
    }))
}

fn edition(v: &Value) -> R {
    one_of(v, &["2015", "2018", "2021", "2024"])
}

pub fn target(v: &Value) -> R {
    let o = object(v, "target")?;
    Ok(json!({
        "name": o.req("name", string)?,
        "kind": o.req("kind", |v| list(v, |k| one_of(k, KINDS)))?,
        "crate_types": o.def("crate_types", json!([]), |v| list(v, |k| one_of(k, CRATE_TYPES)))?,
        "required_features": o.def("required-features", json!([]), strings)?,
        "src_path": o.req("src_path", string)?,
        "edition": o.def("edition", json!("2015"), edition)?,
        "doctest": o.def("doctest", json!(true), boolean)?,
        "test": o.def("test", json!(true), boolean)?,
        "doc": o.def("doc", json!(true), boolean)?,
    }))
}

fn rust_version(v: &Value) -> R {
    if v.is_null() {
        return Ok(Value::Null);
    }
    let s = v.as_str().ok_or("no string")?;
    if s.contains(['-', '+']) {
        return Err("no bare version".to_owned());
    }
    let full = if s.split('.').count() == 2 { format!("{s}.0") } else { s.to_owned() };
    Ok(json!(semver_lite::parse(&full)?))
}

pub fn package(v: &Value) -> R {
    let o = object(v, "package")?;
    Ok(json!({
        "name": o.req("name", string)?,
        "version": o.req("version", version)?,
        "authors": o.def("authors", json!([]), strings)?,
        "id": o.req("id", string)?,
        "source": o.opt("source")?,
        "description": o.opt("description")?,
        "dependencies": o.req("dependencies", |v| list(v, dependency))?,
        "license": o.opt("license")?,
        "license_file": o.opt("license_file")?,
        "targets": o.req("targets", |v| list(v, target))?,
        "features": o.req("features", |v| {
            let m = v.as_object().ok_or("no object")?;
            let mut out = Map::new();
            for (k, v) in m {
                out.insert(k.clone(), strings(v)?);
            }
            Ok(Value::Object(out))
        })?,
        "manifest_path": o.req("manifest_path", string)?,
        "categories": o.def("categories", json!([]), strings)?,
        "keywords": o.def("keywords", json!([]), strings)?,
        "readme": o.opt("readme")?,
        "repository": o.opt("repository")?,
        "homepage": o.opt("homepage")?,
        "documentation": o.opt("documentation")?,
        "edition": o.def("edition", json!("2015"), edition)?,
        "metadata": o.def("metadata", Value::Null, |v| Ok(v.clone()))?,
        "links": o.opt("links")?,
        "publish": o.def("publish", Value::Null, |v| if v.is_null() { Ok(Value::Null) } else { strings(v) })?,
        "default_run": o.opt("default_run")?,
        "rust_version": o.def("rust_version", Value::Null, rust_version)?,
    }))
}

pub fn node(v: &Value) -> R {
    let o = object(v, "node")?;
    Ok(json!({
        "id": o.req("id", string)?,
        "deps": o.def("deps", json!([]), |v| list(v, |d| {
            let o = object(d, "dep")?;
            Ok(json!({
                "name": o.req("name", string)?,
                "pkg": o.req("pkg", string)?,
                "dep_kinds": o.def("dep_kinds", json!([]), |v| list(v, |d| {
                    let o = object(d, "dep kind")?;
                    Ok(json!({
                        "kind": o.def("kind", json!("normal"), kind)?,
                        "target": o.opt("target")?,
                    }))
                }))?,
            }))
        }))?,
        "dependencies": o.req("dependencies", strings)?,
        "features": o.def("features", json!([]), strings)?,
    }))
}

pub fn resolve(v: &Value) -> R {
    let o = object(v, "resolve")?;
    Ok(json!({
        "nodes": o.req("nodes", |v| list(v, node))?,
        "root": o.req("root", opt_string)?,
    }))
}

/// The meaning of a document, or why it is none
pub fn canon(v: &Value) -> R {
    let o = object(v, "metadata")?;
    Ok(json!({
        "packages": o.req("packages", |v| list(v, package))?,
        "workspace_members": o.req("workspace_members", strings)?,
        "workspace_default_members": o.def("workspace_default_members", Value::Null, strings)?,
        "resolve": o.def("resolve", Value::Null, |v| {
            if v.is_null() {
                return Ok(Value::Null);
            }
            resolve(v)
        })?,
        "workspace_root": o.req("workspace_root", string)?,
        "target_directory": o.req("target_directory", string)?,
        "metadata": o.def("metadata", Value::Null, |v| Ok(v.clone()))?,
        "version": o.def("version", json!(0), |v| v.as_u64().map(|v| json!(v)).ok_or_else(|| "no number".to_owned()))?,
    }))
}

fn ids(v: &[cm::PackageId]) -> Value {
    json!(v.iter().map(|i| i.repr.as_str()).collect::<Vec<_>>())
}

fn dkind(k: cm::DependencyKind) -> &'static str {
    match k {
        cm::DependencyKind::Normal => "normal",
        cm::DependencyKind::Development => "dev",
        cm::DependencyKind::Build => "build",
    }
}

fn ed(e: cm::Edition) -> &'static str {
    match e {
        cm::Edition::E2015 => "2015",
        cm::Edition::E2018 => "2018",
        cm::Edition::E2021 => "2021",
        cm::Edition::E2024 => "2024",
    }
}

fn tkind(k: cm::TargetKind) -> &'static str {
    use cm::TargetKind as T;
    match k {
        T::Bench => "bench",
        T::Bin => "bin",
        T::CustomBuild => "custom-build",
        T::CDyLib => "cdylib",
        T::DyLib => "dylib",
        T::Example => "example",
        T::Lib => "lib",
        T::ProcMacro => "proc-macro",
        T::RLib => "rlib",
        T::StaticLib => "staticlib",
        T::Test => "test",
    }
}

fn ctype(k: cm::CrateType) -> &'static str {
    use cm::CrateType as T;
    match k {
        T::Bin => "bin",
        T::CDyLib => "cdylib",
        T::DyLib => "dylib",
        T::Lib => "lib",
        T::ProcMacro => "proc-macro",
        T::RLib => "rlib",
        T::StaticLib => "staticlib",
    }
}

pub fn expose_dependency(d: &cm::Dependency) -> Value {
    json!({
            "name": d.name,
            "source": d.source,
            "req": d.req.to_string(),
            "kind": dkind(d.kind),
            "optional": d.optional,
            "uses_default_features": d.uses_default_features,
            "features": d.features,
            "target": d.target,
            "rename": d.rename,
            "registry": d.registry,
            "path": d.path.as_ref().map(|p| p.as_str()),
        })
}

pub fn expose_target(t: &cm::Target) -> Value {
    json!({
            "name": t.name,
            "kind": t.kind.iter().map(|k| tkind(*k)).collect::<Vec<_>>(),
            "crate_types": t.crate_types.iter().map(|k| ctype(*k)).collect::<Vec<_>>(),
            "required_features": t.required_features,
            "src_path": t.src_path.as_str(),
            "edition": ed(t.edition),
            "doctest": t.doctest,
            "test": t.test,
            "doc": t.doc,
        })
}

pub fn expose_node(n: &cm::Node) -> Value {
    json!({
                "id": n.id.repr,
                "deps": n.deps.iter().map(|d| json!({
                    "name": d.name,
                    "pkg": d.pkg.repr,
                    "dep_kinds": d.dep_kinds.iter().map(|k| json!({
                        "kind": dkind(k.kind),
                        "target": k.target,
                    })).collect::<Vec<_>>(),
                })).collect::<Vec<_>>(),
                "dependencies": ids(&n.dependencies),
                "features": n.features,
            })
}

pub fn expose_resolve(r: &cm::Resolve) -> Value {
    json!({
        "nodes": r.nodes.iter().map(expose_node).collect::<Vec<_>>(),
        "root": r.root.as_ref().map(|r| r.repr.clone()),
    })
}

pub fn expose_package(p: &cm::Package) -> Value {
    json!({
        "name": p.name,
        "version": p.version.to_string(),
        "authors": p.authors,
        "id": p.id.repr,
        "source": p.source.as_ref().map(|s| s.repr.clone()),
        "description": p.description,
        "dependencies": p.dependencies.iter().map(expose_dependency).collect::<Vec<_>>(),
        "license": p.license,
        "license_file": p.license_file.as_ref().map(|p| p.as_str()),
        "targets": p.targets.iter().map(expose_target).collect::<Vec<_>>(),
        "features": p.features,
        "manifest_path": p.manifest_path.as_str(),
        "categories": p.categories,
        "keywords": p.keywords,
        "readme": p.readme.as_ref().map(|p| p.as_str()),
        "repository": p.repository,
        "homepage": p.homepage,
        "documentation": p.documentation,
        "edition": ed(p.edition),
        "metadata": p.metadata,
        "links": p.links,
        "publish": p.publish,
        "default_run": p.default_run,
        "rust_version": p.rust_version.as_ref().map(|v| v.to_string()),
    })
}

pub fn expose(m: &cm::Metadata) -> Value {
    json!({
        "packages": m.packages.iter().map(expose_package).collect::<Vec<_>>(),
        "workspace_members": ids(&m.workspace_members),
        "workspace_default_members": m.workspace_default_members.0.as_ref().map(|v| ids(v)),
        "resolve": m.resolve.as_ref().map(expose_resolve),
        "workspace_root": m.workspace_root.as_str(),
        "target_directory": m.target_directory.as_str(),
        "metadata": m.workspace_metadata,
        "version": m.version,
    })
}

/// Where two readings differ first
pub fn differ(a: &Value, b: &Value) -> Option<String> {
    fn go(a: &Value, b: &Value, at: &str) -> Option<String> {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for (k, v) in x {
                    match y.get(k) {
                        None => return Some(format!("{at}.{k} is only on one side")),
                        Some(w) => {
                            if let Some(d) = go(v, w, &format!("{at}.{k}")) {
                                return Some(d);
                            }
                        }
                    }
                }
                y.keys().find(|k| !x.contains_key(*k)).map(|k| format!("{at}.{k} is only on one side"))
            }
            (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
                x.iter().zip(y).enumerate().find_map(|(i, (v, w))| go(v, w, &format!("{at}[{i}]")))
            }
            _ if a == b => None,
            _ => {
                let cut = |v: &Value| {
                    let s = v.to_string();
                    s.chars().take(160).collect::<String>()
                };
                Some(format!("{at}: {} instead of {}", cut(a), cut(b)))
            }
        }
    }
    go(a, b, "")
}

impl crate::json::J {
    pub fn value(&self) -> Value {
        use crate::json::J;
        match self {
            J::Null => Value::Null,
            J::Bool(b) => json!(b),
            J::Int(i) => json!(i),
            J::Str(s) => json!(s),
            J::Raw(s) => serde_json::from_str(s).expect("a spelling of ours"),
            J::Arr(v) => Value::Array(v.iter().map(J::value).collect()),
            J::Obj(v) => Value::Object(v.iter().map(|(k, v)| (k.clone(), v.value())).collect()),
        }
    }
}
