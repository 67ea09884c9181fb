//! Graphs with node and edge types of their own, and the same configuration put together
//! in other ways.
use crate::families::world_of;
use crate::graph::{K, build};
use crate::sym::*;
use crate::world::*;
use krates::semver::{Version, VersionReq};
use krates::{Builder, Edge, KrateDetails, Krates, Node, NodeId, PkgSpec, Scope, cm};
use std::cell::Cell;

thread_local! {
    static CRATES: Cell<u64> = const { Cell::new(0) };
    static EDGES: Cell<u64> = const { Cell::new(0) };
}

/// What a user makes of a package.
#[derive(Debug)]
struct Own {
    id: String,
    name: String,
    version: Version,
    deps: usize,
    nth: u64,
}
impl From<cm::Package> for Own {
    fn from(p: cm::Package) -> Own {
        let nth = CRATES.get();
        CRATES.set(nth + 1);
        Own { deps: p.dependencies.len(), id: p.id.repr, name: p.name, version: p.version, nth }
    }
}
impl KrateDetails for Own {
    fn name(&self) -> &str {
        &self.name
    }
    fn version(&self) -> &Version {
        &self.version
    }
}
/// ... and of an edge.
struct Link {
    edge: Edge,
    nth: u64,
}
impl From<Edge> for Link {
    fn from(edge: Edge) -> Link {
        let nth = EDGES.get();
        EDGES.set(nth + 1);
        Link { edge, nth }
    }
}

/// An edge: the node it leads to, by crate and feature, what it is, and its condition.
type Out<'a> = (usize, Option<&'a str>, u8, Option<&'a str>);

fn what(e: &Edge) -> (u8, Option<&str>) {
    match e {
        Edge::Dep { kind, cfg } => (kind_no(*kind), cfg.as_deref()),
        Edge::DepFeature { kind, cfg } => (4 + kind_no(*kind), cfg.as_deref()),
        Edge::Feature => (8, None),
    }
}
/// A node by its crate and feature.
fn who<N, E>(k: &Krates<N, E>, n: NodeId) -> (usize, Option<&str>) {
    match &k.graph()[n] {
        Node::Krate { .. } => (n.index(), None),
        Node::Feature { krate_index, name } => (krate_index.index(), Some(name)),
    }
}
fn out<'a, N, E>(k: &'a Krates<N, E>, n: NodeId, edge: fn(&E) -> &Edge) -> Vec<Out<'a>> {
    let mut v: Vec<Out<'a>> = k
        .graph()
        .raw_edges()
        .iter()
        .filter(|e| e.source() == n)
        .map(|e| {
            let (w, c) = what(edge(&e.weight));
            let (p, f) = who(k, e.target());
            (p, f, w, c)
        })
        .collect();
    v.sort();
    v
}
fn walked<'a, N, E>(k: &'a Krates<N, E>, n: NodeId, edge: fn(&E) -> &Edge) -> Vec<Out<'a>> {
    let mut v: Vec<Out<'a>> = k
        .get_deps(n)
        .map(|(node, e)| {
            let (w, c) = what(edge(e));
            let (p, f) = match node {
                // The node itself, not a copy of it
                Node::Krate { .. } => {
                    let at = k.graph().raw_nodes().iter().position(|x| std::ptr::eq(&x.weight, node));
                    (at.unwrap_or(usize::MAX), None)
                }
                Node::Feature { krate_index, name } => (krate_index.index(), Some(name.as_str())),
            };
            (p, f, w, c)
        })
        .collect();
    v.sort();
    v
}

/// Are two graphs the same but for the order of their feature nodes and edges?
fn compare<N, E, M, F>(a: &Krates<N, E>, ea: fn(&E) -> &Edge, b: &Krates<M, F>, eb: fn(&F) -> &Edge) {
    check(a.len() == b.len(), "crates");
    check(a.graph().node_count() == b.graph().node_count(), "nodes");
    check(a.graph().edge_count() == b.graph().edge_count(), "edges");
    check(a.workspace_root() == b.workspace_root(), "workspace-root");
    emit(a.graph().node_count() as u64);
    emit(a.graph().edge_count() as u64);
    for i in 0..a.graph().node_count() {
        let n = NodeId::new(i);
        let at = match &a.graph()[n] {
            Node::Krate { id, features, dep_mapping, .. } => {
                let same = match &b.graph()[n] {
                    Node::Krate { id: i2, features: f2, dep_mapping: d2, .. } => id == i2 && features == f2 && dep_mapping == d2,
                    Node::Feature { .. } => false,
                };
                check(same, "crate");
                check(b.nid_for_kid(id) == Some(n), "nid-for-kid");
                check(b.get_enabled_features(id) == Some(features), "enabled-features");
                Some(n)
            }
            Node::Feature { .. } => {
                let me = who(a, n);
                (b.len()..b.graph().node_count()).map(NodeId::new).find(|m| who(b, *m) == me)
            }
        };
        check(at.is_some(), "feature-node");
        if let Some(at) = at {
            check(out(a, n, ea) == out(b, at, eb), "edges-of-node");
        }
    }
    let ma: Vec<_> = a.workspace_members().map(ident).collect();
    let mb: Vec<_> = b.workspace_members().map(ident).collect();
    check(ma == mb, "members");
}
fn ident<N>(n: &Node<N>) -> Option<String> {
    match n {
        Node::Krate { id, .. } => Some(id.to_string()),
        Node::Feature { .. } => None,
    }
}

/// a, b as for `h_world`.
pub fn typed(a: u64, b: u64, _: u64) {
    let (w, cfg) = world_of(a, b);
    let r = w.resolve();
    let (k, filtered) = build(&w, &cfg, &r);
    let mut f2: Vec<String> = vec![];
    CRATES.set(0);
    EDGES.set(0);
    let o: Result<Krates<Own, Link>, _> = cfg.builder().build_with_metadata(w.metadata(&r), |p: cm::Package| f2.push(p.id.repr));
    check(k.is_ok() == o.is_ok(), "result");
    check(filtered == f2, "filtered");
    let (Ok(k), Ok(o)) = (k, o) else {
        reach("error");
        return;
    };
    compare(&k, |e| e, &o, |l| &l.edge);
    // Every crate is converted from its own package, every edge on its own, and no other.
    check(CRATES.get() == o.len() as u64, "converted-once");
    check(EDGES.get() == o.graph().edge_count() as u64, "edge-converted-once");
    let mut seen = vec![false; o.len()];
    for (i, own) in o.krates().enumerate() {
        let n = NodeId::new(i);
        check(own.id == k[n].id.repr && own.deps == k[n].dependencies.len(), "own-package");
        check(std::ptr::eq(own, &o[n]) && std::ptr::eq(own, &o[i]), "own-index");
        check((own.nth as usize) < seen.len() && !seen[own.nth as usize], "own-once");
        seen[own.nth as usize] = true;
        for j in 0..own.deps + 1 {
            let (x, y) = (o.resolved_dependency(n, j).map(|p| &p.id), k.resolved_dependency(n, j).map(|p| &p.id.repr));
            check(x == y, "own-resolved");
        }
        let (x, y) = (o.direct_dependencies(n), k.direct_dependencies(n));
        check(x.len() == y.len() && x.iter().all(|d| std::ptr::eq(d.krate, &o[d.node_id]) && y.iter().any(|e| e.node_id == d.node_id)), "own-dependencies");
        let (x, y) = (o.direct_dependents(n), k.direct_dependents(n));
        check(x.len() == y.len() && x.iter().all(|d| std::ptr::eq(d.krate, &o[d.node_id]) && y.iter().any(|e| e.node_id == d.node_id)), "own-dependents");
        let named: Vec<NodeId> = o.krates_by_name(own.name.as_str()).map(|m| m.node_id).collect();
        let want: Vec<NodeId> = k.krates_by_name(own.name.as_str()).map(|m| m.node_id).collect();
        check(named == want && named.contains(&n), "own-by-name");
        let at: Vec<NodeId> = o.search_matches(own.name.as_str(), VersionReq::STAR).map(|m| m.node_id).collect();
        let want: Vec<NodeId> = k.search_matches(own.name.as_str(), VersionReq::STAR).map(|m| m.node_id).collect();
        check(at == want, "own-search");
    }
    let mut nth = vec![false; o.graph().edge_count()];
    for e in o.graph().edge_references() {
        let i = e.weight().nth as usize;
        check(i < nth.len() && !nth[i], "edge-once");
        nth[i] = true;
    }
    reach("end");
}

/// Walking the edges. a, b as for `h_world`.
pub fn walk(a: u64, b: u64, _: u64) {
    let (w, cfg) = world_of(a, b);
    let r = w.resolve();
    let (k, _) = build(&w, &cfg, &r);
    let Ok(k) = k else {
        reach("error");
        return;
    };
    for i in 0..k.graph().node_count() {
        let n = NodeId::new(i);
        let want = out(&k, n, |e| e);
        emit(want.len() as u64);
        check(walked(&k, n, |e| e) == want, "get-deps");
    }
    reach("end");
}

fn targets(b: &mut Builder, t: &[(&'static str, Vec<String>)]) {
    b.include_targets(t.iter().map(|(t, f)| (*t, f.clone())));
}
fn specs(e: &[String]) -> Vec<PkgSpec> {
    e.iter().map(|e| e.parse().unwrap()).collect()
}

/// The configuration in other words. how: 0: all at once, 1: one by one, 2: the other way round,
/// 3: everything twice.
fn other(cfg: &Cfg, how: u64) -> Builder {
    let mut b = Builder::default();
    let twice = how == 3;
    let mut included = false;
    let parts: [u64; 5] = if how == 2 { [4, 3, 2, 1, 0] } else { [0, 1, 2, 3, 4] };
    for part in parts.iter().chain(parts.iter().filter(|_| twice)) {
        match part {
            0 => {
                let mut l = cfg.ignore.clone();
                if how == 2 {
                    l.reverse();
                }
                for (k, s) in l {
                    let all = |b: &mut Builder| {
                        b.ignore_kind(dep_kind(k), Scope::NonWorkspace);
                        b.ignore_kind(dep_kind(k), Scope::Workspace);
                    };
                    // Ignoring everywhere is ignoring here and there.
                    if how >= 1 && s == 2 {
                        all(&mut b);
                    } else {
                        b.ignore_kind(dep_kind(k), scope(s));
                    }
                }
            }
            1 => match how {
                0 => targets(&mut b, &cfg.targets),
                2 => {
                    for t in cfg.targets.iter().rev() {
                        targets(&mut b, std::slice::from_ref(t));
                    }
                }
                _ => {
                    for t in &cfg.targets {
                        targets(&mut b, std::slice::from_ref(t));
                    }
                }
            },
            2 => {
                let mut e = specs(&cfg.exclude);
                match how {
                    0 => {
                        b.exclude(e);
                    }
                    _ => {
                        if how == 2 {
                            e.reverse();
                        }
                        for e in e {
                            b.exclude([e]);
                        }
                    }
                }
            }
            3 => {
                // One path has a meaning of its own, so none is repeated.
                let mut l = cfg.include.clone();
                match how {
                    0 => {
                        b.include_workspace_crates(&l);
                    }
                    3 if l.len() < 2 => {
                        if !std::mem::replace(&mut included, true) {
                            b.include_workspace_crates(&l);
                        }
                    }
                    _ => {
                        l.reverse();
                        for i in &l {
                            b.include_workspace_crates([i.as_str()]);
                        }
                    }
                }
            }
            _ => {
                if how > 0 {
                    b.workspace(!cfg.workspace);
                }
                b.workspace(cfg.workspace);
            }
        }
    }
    b
}

/// The same configuration by other calls. a, b as for `h_world`.
pub fn calls(a: u64, b: u64, _: u64) {
    let (w, mut cfg) = world_of(a, b);
    cfg.index = None;
    let r = w.resolve();
    let (k, mut f1) = build(&w, &cfg, &r);
    let mut f2: Vec<String> = vec![];
    let how = pick(4, "how");
    let o: Result<K, _> = other(&cfg, how).build_with_metadata(w.metadata(&r), |p: cm::Package| f2.push(p.id.repr));
    check(k.is_ok() == o.is_ok(), "result");
    f1.sort();
    f2.sort();
    check(f1 == f2, "filtered");
    let (Ok(k), Ok(o)) = (k, o) else {
        reach("error");
        return;
    };
    compare(&k, |e| e, &o, |e| e);
    reach("end");
}
