//! Makes up metadata as cargo would print it.
#![allow(dead_code)]
use serde_json::{Value, json};

pub struct P {
    pub name: &'static str,
    pub version: &'static str,
    pub features: Vec<(&'static str, Vec<&'static str>)>,
    /// The features cargo resolved
    pub on: Vec<&'static str>,
    pub deps: Vec<D>,
    pub member: bool,
    pub lib: &'static str,
    pub source: Option<&'static str>,
}

pub struct D {
    pub to: usize,
    pub req: &'static str,
    pub kind: &'static str,
    pub optional: bool,
    pub default: bool,
    pub features: Vec<&'static str>,
    pub target: Option<&'static str>,
    pub rename: Option<&'static str>,
    /// Whether cargo resolved it
    pub resolved: bool,
}

pub const CRATES: &str = "registry+https://github.com/rust-lang/crates.io-index";

pub fn member(name: &'static str) -> P {
    P { name, version: "0.1.0", features: vec![], on: vec![], deps: vec![], member: true, lib: "", source: None }
}

pub fn krate(name: &'static str, version: &'static str) -> P {
    P { name, version, features: vec![], on: vec![], deps: vec![], member: false, lib: "", source: Some(CRATES) }
}

pub fn dep(to: usize) -> D {
    D { to, req: "*", kind: "", optional: false, default: false, features: vec![], target: None, rename: None, resolved: true }
}

impl P {
    pub fn dep(mut self, d: D) -> Self { self.deps.push(d); self }
    /// A feature that cargo resolved as enabled
    pub fn feat(mut self, name: &'static str, subs: &[&'static str]) -> Self {
        self.features.push((name, subs.to_vec()));
        self.on.push(name);
        self
    }
    pub fn off(mut self, name: &'static str, subs: &[&'static str]) -> Self {
        self.features.push((name, subs.to_vec()));
        self
    }
    pub fn lib(mut self, lib: &'static str) -> Self { self.lib = lib; self }
    pub fn from(mut self, source: &'static str) -> Self { self.source = Some(source); self }
    pub fn id(&self) -> String {
        match self.source {
            Some(s) if s.starts_with("git+") => format!("{}#{}@{}", s.split('#').next().unwrap(), self.name, self.version),
            Some(s) => format!("{s}#{}@{}", self.name, self.version),
            None => format!("path+file:///ws/{}#{}", self.name, self.version),
        }
    }
}

impl D {
    pub fn build(mut self) -> Self { self.kind = "build"; self }
    pub fn dev(mut self) -> Self { self.kind = "dev"; self }
    pub fn optional(mut self) -> Self { self.optional = true; self }
    pub fn default(mut self) -> Self { self.default = true; self }
    pub fn with(mut self, f: &[&'static str]) -> Self { self.features = f.to_vec(); self }
    pub fn target(mut self, t: &'static str) -> Self { self.target = Some(t); self }
    pub fn rename(mut self, t: &'static str) -> Self { self.rename = Some(t); self }
    pub fn req(mut self, t: &'static str) -> Self { self.req = t; self }
    pub fn unresolved(mut self) -> Self { self.resolved = false; self }
}

pub fn json(ps: &[P], root: Option<usize>) -> Value {
    let lib = |p: &P| if p.lib.is_empty() { p.name.replace('-', "_") } else { p.lib.to_owned() };
    let packages: Vec<_> = ps.iter().map(|p| {
        let deps: Vec<_> = p.deps.iter().map(|d| {
            let t = &ps[d.to];
            json!({
                "name": t.name, "source": t.source, "req": d.req,
                "kind": if d.kind.is_empty() { Value::Null } else { d.kind.into() },
                "rename": d.rename, "optional": d.optional, "uses_default_features": d.default,
                "features": d.features, "target": d.target, "registry": null,
                "path": if t.source.is_none() { json!(format!("/ws/{}", t.name)) } else { Value::Null },
            })
        }).collect();
        let feats: serde_json::Map<String, Value> = p.features.iter().map(|(k, v)| (k.to_string(), json!(v))).collect();
        let dir = if p.source.is_none() { "/ws" } else { "/registry" };
        json!({
            "name": p.name, "version": p.version, "id": p.id(), "source": p.source,
            "license": null, "license_file": null, "description": null, "dependencies": deps,
            "targets": [{"kind": ["lib"], "crate_types": ["lib"], "name": lib(p), "src_path": "/x/lib.rs", "edition": "2021", "doc": true, "doctest": true, "test": true}],
            "features": feats, "manifest_path": format!("{dir}/{}/Cargo.toml", p.name),
            "metadata": null, "publish": null, "authors": [], "categories": [], "keywords": [], "readme": null,
            "repository": null, "homepage": null, "documentation": null, "edition": "2021", "links": null,
            "default_run": null, "rust_version": null,
        })
    }).collect();
    let nodes: Vec<_> = ps.iter().map(|p| {
        let mut deps: Vec<(String, usize, Vec<Value>)> = Vec::new();
        for d in p.deps.iter().filter(|d| d.resolved) {
            let name = d.rename.map_or_else(|| lib(&ps[d.to]), |r| r.replace('-', "_"));
            let kind = json!({"kind": if d.kind.is_empty() { Value::Null } else { d.kind.into() }, "target": d.target});
            match deps.iter_mut().find(|(n, t, _)| *n == name && *t == d.to) {
                Some((_, _, k)) => k.push(kind),
                None => deps.push((name, d.to, vec![kind])),
            }
        }
        let ids: Vec<_> = deps.iter().map(|(_, t, _)| ps[*t].id()).collect();
        let deps: Vec<_> = deps.into_iter().map(|(n, t, k)| json!({"name": n, "pkg": ps[t].id(), "dep_kinds": k})).collect();
        json!({"id": p.id(), "dependencies": ids, "deps": deps, "features": p.on})
    }).collect();
    let members: Vec<_> = ps.iter().filter(|p| p.member).map(P::id).collect();
    json!({
        "packages": packages, "workspace_members": members, "workspace_default_members": members,
        "resolve": {"nodes": nodes, "root": root.map(|r| ps[r].id())},
        "target_directory": "/ws/target", "version": 1, "workspace_root": "/ws", "metadata": null,
    })
}

pub fn metadata(ps: &[P], root: Option<usize>) -> krates::cm::Metadata {
    serde_json::from_str(&json(ps, root).to_string()).expect("metadata")
}

pub fn graph(b: krates::Builder, ps: &[P], root: Option<usize>) -> krates::Krates {
    b.build_with_metadata(metadata(ps, root), krates::NoneFilter).expect("graph")
}

pub fn names(g: &krates::Krates) -> Vec<String> {
    g.krates().map(|k| format!("{}@{}", k.name, k.version)).collect()
}

pub fn kid(p: &P) -> krates::Kid {
    krates::cm::PackageId { repr: p.id() }.into()
}

pub fn enabled(g: &krates::Krates, p: &P) -> Vec<String> {
    g.get_enabled_features(&kid(p)).expect("crate in the graph").iter().cloned().collect()
}

pub fn edges(g: &krates::Krates) -> Vec<String> {
    let show = |n: krates::NodeId| match &g.graph()[n] {
        krates::Node::Krate { id, .. } => format!("{}@{}", id.name(), id.version()),
        krates::Node::Feature { krate_index, name } => match &g.graph()[*krate_index] {
            krates::Node::Krate { id, .. } => format!("{}@{}/{name}", id.name(), id.version()),
            _ => unreachable!(),
        },
    };
    let mut v: Vec<_> = g.graph().edge_indices().map(|e| {
        let (a, b) = g.graph().edge_endpoints(e).unwrap();
        let w = match &g.graph()[e] {
            krates::Edge::Dep { kind, cfg } => format!("{kind:?} {}", cfg.as_deref().unwrap_or("")),
            krates::Edge::DepFeature { kind, cfg } => format!("{kind:?} {} feature", cfg.as_deref().unwrap_or("")),
            krates::Edge::Feature => "feature".into(),
        };
        format!("{} -> {} {w}", show(a), show(b))
    }).collect();
    v.sort();
    v
}
