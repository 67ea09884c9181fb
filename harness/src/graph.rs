//! Compares a built graph with the model of its world.
use crate::sym::*;
use crate::world::*;
use krates::petgraph::visit::EdgeRef;
use krates::{Edge, Error, Krates, Node, NodeId};

pub const NODES: u64 = 1;
pub const FILTERED: u64 = 2;
pub const DEPS: u64 = 4;
pub const FEATS: u64 = 8;
pub const FEAT_EDGES: u64 = 16;
pub const FEAT_NODES: u64 = 32;
pub const MAPPING: u64 = 64;
pub const LOOKUP: u64 = 128;
pub const ROOTS: u64 = 256;
pub const DIRECT: u64 = 512;
pub const KINDS: u64 = 1024;
pub const SEARCH: u64 = 2048;
/// Without the tolerance for the known findings.
pub const STRICT: u64 = 4096;

pub type K = Krates<krates::cm::Package, Edge>;

/// A node of the graph in terms of the world.
#[derive(Clone, Copy, PartialEq)]
pub enum Nd<'a> {
    Krate(usize),
    Feat(usize, &'a str),
}

pub struct View<'a> {
    /// Package of each of the first nodes.
    pub pkg: Vec<usize>,
    pub k: &'a K,
    known: Vec<Known>,
}

/// Where the graph is known to be wrong, in ways that the crate's own snapshots contain:
/// known-findings.json, and DESIGN.md.
#[derive(Clone, Default)]
struct Known {
    /// The names of renamed dependencies that `dep:` makes a feature of the dependent.
    renamed: Vec<String>,
    /// Names that also match another package, and the features of it.
    mixed: Vec<(String, String)>,
}

impl Known {
    fn own(&self, f: &str) -> bool {
        self.renamed.iter().any(|x| x == f) || self.mixed.iter().any(|x| x.1 == f)
    }
    /// Is an edge from a feature of p to b explained?
    fn excuses(&self, p: usize, b: Nd<'_>) -> bool {
        match b {
            Nd::Feat(q, g) if p == q => self.own(g),
            Nd::Feat(_, g) => self.mixed.iter().any(|m| m.1 == g),
            Nd::Krate(_) => false,
        }
    }
    fn mixed(&self, x: &str) -> bool {
        self.mixed.iter().any(|m| m.0 == x)
    }
}

fn known(w: &World, r: &Resolved, m: &Model, p: usize) -> Known {
    let pk = &w.pkgs[p];
    let mut kn = Known::default();
    for (f, vs) in &pk.feats {
        if !m.feats[p].contains(f) || pk.hidden.contains(&f.as_str()) {
            continue;
        }
        for v in vs {
            let (x, g) = match value(v) {
                Val::Dep(x) => (x, None),
                Val::Weak(x, g) | Val::Strong(x, g) => (x, Some(g)),
                Val::Simple(_) => continue,
            };
            let to: Vec<usize> = pk.deps.iter().enumerate().filter(|(i, d)| d.name == x && r.act[p][*i]).map(|(_, d)| d.to).collect();
            if g.is_none() && to.iter().any(|q| m.in_graph[*q] && w.pkgs[*q].name != x) {
                kn.renamed.push(x.to_string());
            }
            // Another package that the name matches.
            let other = pk.deps.iter().enumerate().any(|(i, d)| {
                r.act[p][i] && (to.is_empty() || to.iter().any(|q| *q != d.to)) && (w.pkgs[d.to].name == x || d.name == x || w.pkgs[d.to].lib.replace('-', "_") == x.replace('-', "_"))
            });
            if other {
                kn.mixed.push((x.to_string(), g.unwrap_or(x).to_string()));
            }
        }
    }
    kn
}

impl<'k> View<'k> {
    pub fn new(pkg: Vec<usize>, k: &'k K) -> View<'k> {
        View { pkg, k, known: vec![] }
    }
    pub fn nd(&self, n: NodeId) -> Nd<'_> {
        match &self.k.graph()[n] {
            Node::Krate { .. } => Nd::Krate(self.pkg[n.index()]),
            Node::Feature { krate_index, name } => Nd::Feat(self.pkg[krate_index.index()], name),
        }
    }
}

/// An edge between crates that has to exist: from, to, feature, declaration.
struct Want {
    p: usize,
    q: usize,
    feat: Option<String>,
    d: usize,
    /// How often the declaration asks for it
    times: usize,
    found: usize,
}

pub fn build(w: &World, cfg: &Cfg, r: &Resolved) -> (Result<K, Error>, Vec<String>) {
    let mut filtered: Vec<String> = vec![];
    let res = cfg.builder().build_with_metadata(w.metadata(r), |p: krates::cm::Package| filtered.push(p.id.repr));
    (res, filtered)
}

pub fn check_world(w: &World, cfg: &Cfg, what: u64) {
    let r = w.resolve();
    let (res, filtered) = build(w, cfg, &r);
    // The index tells what the packages do not.
    let shown = World {
        pkgs: w
            .pkgs
            .iter()
            .map(|p| Pkg { hidden: if cfg.index.is_some() && p.src == Src::Registry { vec![] } else { p.hidden.clone() }, ..p.clone() })
            .collect(),
        ..w.clone()
    };
    let w = &shown;
    let m = w.model(cfg, &r);
    let k = match res {
        Ok(k) => k,
        Err(e) => {
            emit(u64::MAX);
            reach("error");
            check(matches!(e, Error::NoRootKrates), "error-kind");
            check(m.in_graph.iter().all(|x| !x), "no-root");
            return;
        }
    };
    reach("graph");
    check(m.in_graph.iter().any(|x| *x), "root");
    check_graph(w, cfg, &r, &m, &k, &filtered, what);
    reach("end");
}

pub fn check_graph(w: &World, cfg: &Cfg, r: &Resolved, m: &Model, k: &K, filtered: &[String], what: u64) {
    let n = w.pkgs.len();
    emit(k.len() as u64);
    emit(k.graph().node_count() as u64);
    emit(k.graph().edge_count() as u64);

    // Which packages are there?
    let mut want: Vec<usize> = (0..n).filter(|p| m.in_graph[*p]).collect();
    want.sort_by_cached_key(|p| w.pkgs[*p].key());
    let mut pkg = vec![];
    for node in k.graph().raw_nodes() {
        if let Node::Krate { id, .. } = &node.weight {
            let p = w.find(id);
            check(p.is_some(), "foreign-crate");
            pkg.push(p.unwrap());
        } else {
            break;
        }
    }
    for p in &pkg {
        emit(*p as u64);
    }
    if what & NODES != 0 {
        check((0..n).all(|p| pkg.contains(&p) == m.in_graph[p]), "nodes");
        check(pkg.len() == want.len(), "nodes-once");
    }
    if what & FILTERED != 0 {
        for p in 0..n {
            if r.live[p] {
                let id = w.pkgs[p].id(w.opaque);
                let c = filtered.iter().filter(|f| **f == id).count();
                check(c == !m.in_graph[p] as usize, "filtered");
            }
        }
        check(filtered.len() + pkg.len() == r.live.iter().filter(|l| **l).count(), "filtered-only");
    }
    let known = if what & STRICT != 0 { vec![Known::default(); n] } else { (0..n).map(|p| known(w, r, m, p)).collect() };
    let v = View { pkg, k, known };
    if v.known.iter().any(|k| !k.renamed.is_empty() || !k.mixed.is_empty()) {
        reach("known");
    }
    if what & LOOKUP != 0 {
        check(v.pkg == want, "order");
        lookup(w, &v);
    }
    if what & FEATS != 0 {
        for node in k.graph().raw_nodes() {
            if let Node::Krate { id, features, .. } = &node.weight {
                let p = w.find(id).unwrap();
                check(m.feats[p].is_subset(features) && features.difference(&m.feats[p]).all(|f| v.known[p].own(f)), "features");
                check(k.get_enabled_features(id) == Some(features), "get-enabled");
            }
        }
    }
    if what & (DEPS | FEAT_EDGES) != 0 {
        edges(w, cfg, r, m, &v, what);
    }
    if what & FEAT_NODES != 0 {
        feat_nodes(w, m, &v);
    }
    if what & MAPPING != 0 {
        for (i, p) in v.pkg.iter().enumerate() {
            for (j, d) in w.pkgs[*p].deps.iter().enumerate() {
                let want = (m.surv[*p][j] && m.in_graph[d.to]).then(|| w.pkgs[d.to].id(w.opaque));
                let got = k.resolved_dependency(NodeId::new(i), j).map(|p| p.id.repr.clone());
                emit(got.is_some() as u64);
                check(got == want, "mapping");
            }
            let nd = w.pkgs[*p].deps.len();
            check(k.resolved_dependency(NodeId::new(i), nd).is_none(), "mapping-range");
            check(k.resolved_dependency(NodeId::new(i), usize::MAX).is_none(), "mapping-range");
        }
        for i in k.len()..k.graph().node_count() + 2 {
            check(k.resolved_dependency(NodeId::new(i), 0).is_none(), "mapping-no-crate");
        }
    }
    if what & DIRECT != 0 {
        direct(w, r, m, &v, what);
    }
}

fn lookup(w: &World, v: &View<'_>) {
    let k = v.k;
    let n = w.pkgs.len();
    check(k.len() == v.pkg.len(), "len");
    for (i, node) in k.graph().raw_nodes().iter().enumerate() {
        check(matches!(node.weight, Node::Krate { .. }) == (i < k.len()), "crates-first");
        if i + 1 < k.len() {
            if let (Node::Krate { id: a, .. }, Node::Krate { id: b, .. }) = (&node.weight, &k.graph().raw_nodes()[i + 1].weight) {
                check(a < b, "ascending");
            }
        }
    }
    for p in 0..n {
        let kid = w.kid(p);
        let at = v.pkg.iter().position(|x| *x == p);
        check(k.nid_for_kid(&kid).map(|x| x.index()) == at, "nid-for-kid");
        check(k.node_for_kid(&kid).is_some() == at.is_some(), "node-for-kid");
        if let Some(Node::Krate { id, krate, .. }) = k.node_for_kid(&kid) {
            check(*id == kid && krate.id.repr == w.pkgs[p].id(w.opaque), "node-for-kid-is-it");
        }
        check(k.get_node(&kid, None).map(|x| x.0.index()) == at, "get-node");
        if let Some(i) = at {
            let id = w.pkgs[p].id(w.opaque);
            check(k[NodeId::new(i)].id.repr == id && k[i].id.repr == id, "index");
        }
    }
    let it: Vec<&str> = k.krates().map(|p| p.id.repr.as_str()).collect();
    let want: Vec<String> = v.pkg.iter().map(|p| w.pkgs[*p].id(w.opaque)).collect();
    check(it == want, "krates");
    let mut seen: Vec<usize> = vec![];
    for node in k.workspace_members() {
        if let Node::Krate { id, .. } = node {
            let p = w.find(id).unwrap();
            check(w.pkgs[p].member && !seen.contains(&p), "members");
            seen.push(p);
        } else {
            check(false, "members-crates");
        }
    }
    check(seen.len() == v.pkg.iter().filter(|p| w.pkgs[**p].member).count(), "members-all");
    check(k.workspace_root() == w.pkgs[0].base, "workspace-root");
}

fn kind_cfg(e: &Edge) -> Option<(u8, &Option<String>, bool)> {
    match e {
        Edge::Dep { kind, cfg } => Some((kind_no(*kind), cfg, false)),
        Edge::DepFeature { kind, cfg } => Some((kind_no(*kind), cfg, true)),
        Edge::Feature => None,
    }
}

/// Does an enabled feature of p turn on feature g of q through a surviving dependency?
fn turned_on(w: &World, r: &Resolved, m: &Model, p: usize, q: usize, g: &str) -> bool {
    let pk = &w.pkgs[p];
    pk.feats.iter().any(|(f, vs)| {
        m.feats[p].contains(f)
            && !pk.hidden.contains(&f.as_str())
            && vs.iter().any(|v| match value(v) {
                Val::Strong(x, h) | Val::Weak(x, h) => h == g && named(w, m, p, q, x) && r.feats[q].contains(h),
                _ => false,
            })
    })
}
/// Is there a surviving dependency of p on q under the name x?
fn named(w: &World, m: &Model, p: usize, q: usize, x: &str) -> bool {
    w.pkgs[p].deps.iter().enumerate().any(|(i, d)| d.to == q && d.name == x && m.surv[p][i])
}

/// Did cargo resolve a dependency of p on q under the name x?
///
/// Features that are enabled are linked with what they name if it is in the graph, even
/// if this dependency was filtered and only others keep it there: the snapshots of the
/// crate's tests say so.
fn resolved(w: &World, r: &Resolved, p: usize, q: usize, x: &str) -> bool {
    w.pkgs[p].deps.iter().enumerate().any(|(i, d)| d.to == q && d.name == x && r.act[p][i])
}

fn edges(w: &World, _cfg: &Cfg, r: &Resolved, m: &Model, v: &View<'_>, what: u64) {
    let mut want: Vec<Want> = vec![];
    for p in 0..w.pkgs.len() {
        for (i, d) in w.pkgs[p].deps.iter().enumerate() {
            if !m.surv[p][i] || !m.in_graph[d.to] {
                continue;
            }
            let f = w.requests(p, i, r);
            if f.is_empty() {
                want.push(Want { p, q: d.to, feat: None, d: i, times: 1, found: 0 });
            }
            for (n, x) in f.iter().enumerate() {
                if !f[..n].contains(x) {
                    let times = f.iter().filter(|y| *y == x).count();
                    want.push(Want { p, q: d.to, feat: Some(x.clone()), d: i, times, found: 0 });
                }
            }
        }
    }
    let g = v.k.graph();
    for e in g.edge_references() {
        let (a, b) = (v.nd(e.source()), v.nd(e.target()));
        match kind_cfg(e.weight()) {
            Some((kind, cfg, feature)) => {
                if what & DEPS == 0 {
                    continue;
                }
                let Nd::Krate(p) = a else {
                    check(false, "dep-from-crate");
                    continue;
                };
                let (q, f) = match b {
                    Nd::Krate(q) => (q, None),
                    Nd::Feat(q, f) => (q, Some(f)),
                };
                check(feature == f.is_some(), "dep-edge-type");
                let found = want.iter_mut().find(|x| {
                    let d = &w.pkgs[x.p].deps[x.d];
                    x.found < x.times && x.p == p && x.q == q && x.feat.as_deref() == f && d.target == *cfg && d.kind == kind
                });
                match found {
                    Some(x) => x.found += 1,
                    None => check(false, "dep-edge-unexpected"),
                }
            }
            None => {
                if what & FEAT_EDGES == 0 {
                    continue;
                }
                let ok = match (a, b) {
                    (Nd::Krate(p), Nd::Feat(q, g)) => turned_on(w, r, m, p, q, g),
                    (Nd::Krate(_), Nd::Krate(_)) => false,
                    (Nd::Feat(p, f), b) => {
                        // Its own crate, or what the table of p says f enables.
                        b == Nd::Krate(p)
                            || v.known[p].excuses(p, b)
                            || w.pkgs[p].table(f).is_some_and(|vs| {
                                vs.iter().any(|x| match (value(x), b) {
                                    (Val::Simple(g), Nd::Feat(q, h)) => q == p && h == g,
                                    (Val::Dep(x), Nd::Krate(q)) => resolved(w, r, p, q, x),
                                    (Val::Strong(x, g) | Val::Weak(x, g), Nd::Feat(q, h)) => g == h && resolved(w, r, p, q, x),
                                    _ => false,
                                })
                            })
                    }
                };
                check(ok, "feature-edge-unaccounted");
            }
        }
    }
    if what & DEPS != 0 {
        for x in &want {
            check(x.found > 0, "dep-edge-missing");
        }
    }
    if what & FEAT_EDGES != 0 {
        // What enabled features turn on is linked.
        let has = |a: Nd<'_>, b: Nd<'_>| {
            g.edge_references().any(|e| matches!(e.weight(), Edge::Feature) && v.nd(e.source()) == a && v.nd(e.target()) == b)
        };
        for &p in &v.pkg {
            let pk = &w.pkgs[p];
            for (f, vs) in &pk.feats {
                if !m.feats[p].contains(f) || pk.hidden.contains(&f.as_str()) {
                    continue;
                }
                let me = Nd::Feat(p, f);
                for x in vs {
                    match value(x) {
                        Val::Simple(h) => check(has(me, Nd::Feat(p, h)), "feature-edge-simple"),
                        Val::Dep(x) => {
                            for &q in &v.pkg {
                                let bad = v.known[p].renamed.iter().any(|r| r == x) || v.known[p].mixed(x);
                                check(!named(w, m, p, q, x) || has(me, Nd::Krate(q)) || bad, "feature-edge-dep");
                            }
                        }
                        Val::Strong(x, h) | Val::Weak(x, h) => {
                            for &q in &v.pkg {
                                if named(w, m, p, q, x) && r.feats[q].contains(h) {
                                    check(has(Nd::Krate(p), Nd::Feat(q, h)), "feature-edge-crate");
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

fn feat_nodes(w: &World, m: &Model, v: &View<'_>) {
    let k = v.k;
    let g = k.graph();
    let mut seen: Vec<(usize, String)> = vec![];
    for i in k.len()..g.node_count() {
        let Node::Feature { krate_index, name } = &g[NodeId::new(i)] else {
            check(false, "feature-nodes-last");
            continue;
        };
        check(krate_index.index() < k.len(), "feature-of-crate");
        let p = v.pkg[krate_index.index()];
        if v.known[p].own(name) {
            continue;
        }
        check(m.feats[p].contains(name), "feature-enabled");
        check(!seen.iter().any(|s| s.0 == p && s.1 == *name), "feature-unique");
        seen.push((p, name.clone()));
        let to_crate = g.edges(NodeId::new(i)).any(|e| e.target() == *krate_index);
        // Features that are missing from the package have nothing to lead to.
        if w.pkgs[p].table(name).is_some() && !w.pkgs[p].hidden.contains(&name.as_str()) {
            check(to_crate, "feature-to-crate");
            check(k.get_node(&w.kid(p), Some(name)).map(|x| x.0.index()) == Some(i), "feature-lookup");
        }
    }
    for &p in &v.pkg {
        for f in &m.feats[p] {
            if w.pkgs[p].table(f).is_some() && !w.pkgs[p].hidden.contains(&f.as_str()) && !v.known[p].own(f) {
                check(seen.iter().any(|s| s.0 == p && s.1 == *f), "feature-has-node");
            }
        }
        check(k.get_node(&w.kid(p), Some("no-such-feature")).is_none(), "feature-lookup-none");
        for (f, _) in &w.pkgs[p].feats {
            if !m.feats[p].contains(f) && !v.known[p].own(f) {
                check(k.get_node(&w.kid(p), Some(f)).is_none(), "feature-lookup-off");
            }
        }
    }
}

fn direct(w: &World, r: &Resolved, m: &Model, v: &View<'_>, what: u64) {
    let k = v.k;
    let mut deps: Vec<(usize, usize)> = vec![];
    let mut dents: Vec<(usize, usize)> = vec![];
    for (i, &p) in v.pkg.iter().enumerate() {
        for d in k.direct_dependencies(NodeId::new(i)) {
            let q = v.pkg[d.node_id.index()];
            check(d.krate.id.repr == w.pkgs[q].id(w.opaque), "direct-krate");
            check(!deps.contains(&(p, q)), "direct-once");
            deps.push((p, q));
            let (_, t) = k.graph().edge_endpoints(d.edge_id).unwrap();
            check(t == d.node_id, "direct-edge");
        }
        for d in k.direct_dependents(NodeId::new(i)) {
            let q = v.pkg[d.node_id.index()];
            check(d.krate.id.repr == w.pkgs[q].id(w.opaque), "dependent-krate");
            check(!dents.contains(&(q, p)), "dependent-once");
            dents.push((q, p));
            let (s, _) = k.graph().edge_endpoints(d.edge_id).unwrap();
            check(s == d.node_id, "dependent-edge");
        }
    }
    for (i, &p) in v.pkg.iter().enumerate() {
        for &q in &v.pkg {
            let want = w.pkgs[p].deps.iter().enumerate().any(|(i, d)| d.to == q && m.surv[p][i]);
            emit(want as u64);
            // Features that the package does not declare are not linked with it.
            let unlinked = w.pkgs[p].deps.iter().enumerate().any(|(i, d)| {
                d.to == q && m.surv[p][i] && w.requests(p, i, r).iter().any(|f| w.pkgs[q].table(f).is_none() || w.pkgs[q].hidden.contains(&f.as_str()))
            });
            let dep = deps.contains(&(p, q));
            check(dep || !want || unlinked, "direct-dependency-missing");
            check(want || !dep || (what & STRICT == 0 && enabled_by_feature(v, i, q)), "direct-dependency-extra");
            let dep = dents.contains(&(p, q));
            check(dep || !want || unlinked, "direct-dependent-missing");
            check(want || !dep, "direct-dependent-extra");
        }
    }
}

/// Can q be reached from crate node i through features only, of which the last belongs
/// to another crate? A known finding: the snapshot of the crate's test has such
/// dependencies.
fn enabled_by_feature(v: &View<'_>, i: usize, q: usize) -> bool {
    let g = v.k.graph();
    let mut todo = vec![NodeId::new(i)];
    let mut seen = vec![];
    while let Some(n) = todo.pop() {
        for t in g.neighbors(n) {
            match (v.nd(n), v.nd(t)) {
                (_, Nd::Feat(..)) => {
                    if !seen.contains(&t) {
                        seen.push(t);
                        todo.push(t);
                    }
                }
                (Nd::Feat(..), Nd::Krate(x)) if x == q => return true,
                _ => {}
            }
        }
    }
    false
}
