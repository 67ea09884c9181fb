//! Metadata in another order, filtering and searching a built graph.
use crate::families::world_of;
use crate::graph::{K, Nd, View, build};
use crate::strs::{inr, is_name, is_vers, one_of, sym_bytes, sym_str};
use crate::sym::*;
use crate::world::*;
use krates::petgraph::visit::EdgeRef;
use krates::semver::{Comparator, Op, Prerelease, VersionReq};
use krates::{Edge, Krates, Node, cm};

fn shuffle<T>(v: &mut Vec<T>, how: u64) {
    match how {
        0 => {}
        1 => v.reverse(),
        2 if !v.is_empty() => v.rotate_left(1),
        _ if v.len() > 1 => v.swap(0, 1),
        _ => {}
    }
}

/// And which place what place of the list of dependencies went to.
fn permuted(mut md: cm::Metadata, part: u64) -> (cm::Metadata, u64) {
    let how = 1 + pick(3, "how");
    let which = pick(8, "which");
    for p in &mut md.packages {
        if which == 6 {
            for v in p.features.values_mut() {
                shuffle(v, how);
            }
        }
        if which == 7 {
            shuffle(&mut p.dependencies, how);
            shuffle(&mut p.targets, how);
            for d in &mut p.dependencies {
                shuffle(&mut d.features, how);
            }
        }
    }
    if which == 0 || which == 5 {
        shuffle(&mut md.packages, how);
    }
    if which == 1 || which == 5 {
        shuffle(&mut md.workspace_members, how);
    }
    let r = md.resolve.as_mut().unwrap();
    if which == 2 || which == 5 {
        shuffle(&mut r.nodes, how);
    }
    for n in &mut r.nodes {
        if which == 3 || which == 5 {
            shuffle(&mut n.deps, how);
            shuffle(&mut n.dependencies, how);
            if part == 0 {
                for d in &mut n.deps {
                    shuffle(&mut d.dep_kinds, how);
                }
            }
        }
        if which == 4 || which == 5 {
            shuffle(&mut n.features, how);
        }
    }
    (md, if which == 7 { how } else { 0 })
}

type E<'a> = (Nd<'a>, Nd<'a>, u8, Option<&'a str>);

fn edges_of<'a>(v: &'a View<'_>) -> Vec<E<'a>> {
    let g = v.k.graph();
    g.edge_references()
        .map(|e| {
            let (k, c) = match e.weight() {
                Edge::Dep { kind, cfg } => (kind_no(*kind), cfg.as_deref()),
                Edge::DepFeature { kind, cfg } => (4 + kind_no(*kind), cfg.as_deref()),
                Edge::Feature => (8, None),
            };
            (v.nd(e.source()), v.nd(e.target()), k, c)
        })
        .collect()
}

fn same<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    let mut used = vec![false; b.len()];
    a.len() == b.len()
        && a.iter().all(|x| match (0..b.len()).find(|j| !used[*j] && b[*j] == *x) {
            Some(j) => {
                used[j] = true;
                true
            }
            None => false,
        })
}

fn view<'a>(w: &World, k: &'a K) -> View<'a> {
    let pkg = k.graph().raw_nodes()[..k.len()]
        .iter()
        .map(|n| match &n.weight {
            Node::Krate { id, .. } => w.find(id).unwrap(),
            Node::Feature { .. } => unreachable!(),
        })
        .collect();
    View::new(pkg, k)
}

/// The same metadata in another order. a, b as for `h_world`, c: 1: the kinds of a
/// dependency keep their order.
pub fn perm(a: u64, b: u64, c: u64) {
    let (w, cfg) = world_of(a, b);
    let r = w.resolve();
    let (k1, mut f1) = build(&w, &cfg, &r);
    let mut f2: Vec<String> = vec![];
    let (md, moved) = permuted(w.metadata(&r), c);
    let k2: Result<K, _> = cfg.builder().build_with_metadata(md, |p: cm::Package| f2.push(p.id.repr));
    check(k1.is_ok() == k2.is_ok(), "result");
    let (Ok(k1), Ok(k2)) = (k1, k2) else {
        reach("error");
        return;
    };
    f1.sort();
    f2.sort();
    check(f1 == f2, "filtered");
    let (v1, v2) = (view(&w, &k1), view(&w, &k2));
    check(v1.pkg == v2.pkg, "crates");
    for (i, p) in v1.pkg.iter().enumerate() {
        if let (Node::Krate { features: a, .. }, Node::Krate { features: b, .. }) = (&k1.graph().raw_nodes()[i].weight, &k2.graph().raw_nodes()[i].weight) {
            check(a == b, "features");
        }
        let mut place: Vec<usize> = (0..w.pkgs[*p].deps.len()).collect();
        shuffle(&mut place, moved);
        for (j2, j1) in place.into_iter().enumerate() {
            let at = |k: &K, j| k.resolved_dependency(krates::NodeId::new(i), j).map(|p| p.id.repr.clone());
            check(at(&k1, j1) == at(&k2, j2), "resolution");
        }
    }
    fn feats<'a>(v: &'a View<'_>) -> Vec<Nd<'a>> {
        (v.k.len()..v.k.graph().node_count()).map(|i| v.nd(krates::NodeId::new(i))).collect()
    }
    check(same(&feats(&v1), &feats(&v2)), "feature-nodes");
    check(same(&edges_of(&v1), &edges_of(&v2)), "edges");
    let m = |k: &K| k.workspace_members().map(|n| matches!(n, Node::Krate { .. }) as u8).sum::<u8>();
    check(m(&k1) == m(&k2), "members");
    emit(k1.graph().edge_count() as u64);
    reach("end");
}

/// Filtering against building without the kind. c: 1: without tolerance for what
/// cannot be told from the graph.
pub fn filtered(a: u64, b: u64, c: u64) {
    let (w, mut cfg) = world_of(a, b);
    cfg.workspace = true;
    cfg.ignore.clear();
    let kind = bits(2, "kind") as u8;
    assume(kind <= 2);
    let r = w.resolve();
    let (k, _) = build(&w, &cfg, &r);
    let full = w.model(&cfg, &r);
    let mut cfg2 = cfg.clone();
    cfg2.ignore.push((kind, 2));
    let (k2, _) = build(&w, &cfg2, &r);
    check(k.is_ok() == k2.is_ok(), "result");
    let (Ok(k), Ok(k2)) = (k, k2) else {
        reach("error");
        return;
    };
    // What is reachable over the declarations that survived and are of other kinds.
    let mut reachable: Vec<bool> = (0..w.pkgs.len()).map(|p| full.in_graph[p] && w.pkgs[p].member).collect();
    let mut changed = true;
    while changed {
        changed = false;
        for p in 0..w.pkgs.len() {
            for (i, d) in w.pkgs[p].deps.iter().enumerate() {
                if reachable[p] && full.surv[p][i] && full.in_graph[d.to] && d.kind != kind && !reachable[d.to] {
                    reachable[d.to] = true;
                    changed = true;
                }
            }
        }
    }
    let got: Vec<&str> = k.krates_filtered(dep_kind(kind)).into_iter().map(|p| p.id.repr.as_str()).collect();
    let want: Vec<&str> = k2.krates().map(|p| p.id.repr.as_str()).collect();
    let idx = |id: &str| w.pkgs.iter().position(|p| p.id(w.opaque) == id);
    check(want.iter().all(|x| got.contains(x)), "missing");
    for x in &got {
        let p = idx(x);
        check(p.is_some(), "foreign");
        // Optional dependencies that only features requested by dependencies of the
        // filtered kind enable: a known finding.
        let excused = c == 0 && reachable[p.unwrap()];
        check(want.contains(x) || excused, "extra");
    }
    if got.len() != want.len() {
        reach("known");
    }
    let at = |id: &str| k.krates().position(|p| p.id.repr == id).unwrap();
    for i in 1..got.len() {
        check(at(got[i - 1]) < at(got[i]), "order");
    }
    emit(got.len() as u64);
    reach("end");
}

fn is_xy(b: u8) -> bool {
    one_of(b, b"xy-_")
}
fn digit(b: u8) -> bool {
    inr(b, b'0', b'9')
}
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// Searching. a: number of packages, b: 1: with prereleases, 2: several sources, c:
/// longest name.
pub fn search(a: u64, b: u64, c: u64) {
    let mut w = World::default();
    let mut m = Pkg::member("m");
    for i in 0..a as usize {
        m.deps.push(Dep::new(1 + i, leak(format!("d{i}"))).req("*"));
    }
    w.pkgs.push(m);
    for i in 0..a as usize {
        let d = sym_bytes(2, "version", digit);
        let pre = if b & 1 == 1 && i == 0 { "-a" } else { "" };
        let v = leak(format!("{}.{}.0{pre}", d[0] as char, d[1] as char));
        let name = leak(sym_str(1, c, "name", is_xy));
        let src = if b & 2 == 2 && i == 1 { Src::Alt } else { Src::Registry };
        for q in &w.pkgs[1..] {
            assume(q.name != name || q.version != v || q.src != src);
        }
        w.pkgs.push(Pkg::new(name).version(v).src(src));
    }
    let (k, _) = build(&w, &Cfg::default(), &w.resolve());
    let k: Krates = k.unwrap();
    let q = sym_str(1, c, "query", is_xy);
    let digit = || {
        let d = bits(8, "number") & 255;
        assume(d <= 9);
        d
    };
    let ops = [Op::Exact, Op::Greater, Op::GreaterEq, Op::Less, Op::LessEq, Op::Tilde, Op::Caret];
    let op = pick(1 + ops.len() as u64, "op") as usize;
    let req = if op == ops.len() {
        VersionReq::STAR
    } else {
        let major = digit();
        let minor = (pick(2, "minor") == 1).then(digit);
        let pre = if b & 1 == 1 { Prerelease::new("a").unwrap() } else { Prerelease::EMPTY };
        VersionReq { comparators: vec![Comparator { op: ops[op], major, minor, patch: minor.map(|_| 0), pre: if minor.is_some() { pre } else { Prerelease::EMPTY } }] }
    };
    let mut want: Vec<usize> = vec![];
    let mut want_req: Vec<usize> = vec![];
    for (i, n) in k.graph().raw_nodes()[..k.len()].iter().enumerate() {
        if let Node::Krate { krate, .. } = &n.weight {
            if krate.name == q {
                want.push(i);
                if req.matches(&krate.version) {
                    want_req.push(i);
                }
            }
        }
    }
    if want.len() > 1 {
        reach("several");
    }
    if want_req.len() < want.len() {
        reach("some");
    }
    for (want, got) in [
        (want, k.krates_by_name(q.as_str()).collect::<Vec<_>>()),
        (want_req, k.search_matches(q.as_str(), req.clone()).collect::<Vec<_>>()),
    ] {
        emit(got.len() as u64);
        check(got.len() == want.len(), "count");
        for (m, i) in got.iter().zip(want) {
            check(m.node_id.index() == i, "node");
            let Node::Krate { id, krate, .. } = &k.graph().raw_nodes()[i].weight else { return };
            check(std::ptr::eq(m.krate, krate) && std::ptr::eq(m.kid, id), "crate-and-id");
        }
    }
    reach("end");
}

/// Features that the index adds, seen from the package in the graph.
/// a: entries in the package, b: entries in the index, c: 1: names of up to two
pub fn index(a: u64, b: u64, c: u64) {
    use krates::index::{IndexKrate, IndexKrateVersion};
    use std::cell::RefCell;
    use std::collections::{BTreeMap, BTreeSet};
    use std::rc::Rc;
    let is_ab: fn(u8) -> bool = |b| inr(b, b'a', b'c');
    let sym = |n: &str| sym_str(1, 1 + c, n, is_ab);
    let value = || match pick(4, "form") {
        0 => sym("value"),
        1 => format!("dep:{}", sym("value")),
        2 => format!("{}/u", sym("value")),
        _ => format!("{}?/u", sym("value")),
    };
    let table = |n: u64, what: &str| {
        let mut t = BTreeMap::new();
        for _ in 0..n {
            let k = sym(what);
            let vs: Vec<String> = (0..pick(2, "values")).map(|_| value()).collect();
            t.insert(k, vs);
        }
        t
    };
    let own = table(a, "own");
    let listed = table(b, "listed");
    let digit = byte("version");
    assume(inr(digit, b'0', b'2'));
    let version = format!("1.0.{}", digit as char);
    let source = match pick(6, "source") {
        0..=1 => Some("registry+https://github.com/rust-lang/crates.io-index".to_string()),
        2 => None,
        3 => Some(format!("registry+https://github.com/rust-lang/crates.io-inde{}", byte_in("tail", |b| inr(b, b'a', b'w')))),
        4 => Some("registry+https://github.com/rust-lang/crates.io-index2".to_string()),
        _ => Some("git+https://github.com/rust-lang/crates.io-index#65de".to_string()),
    };
    let crates_io = source.as_deref() == Some("registry+https://github.com/rust-lang/crates.io-index");
    let entry = pick(3, "entry");
    let mut w = World::default();
    w.pkgs.push(Pkg::member("m").dep(Dep::new(1, "x")));
    w.pkgs.push(Pkg::new("x"));
    let r = w.resolve();
    let mut md = w.metadata(&r);
    let at = md.packages.iter().position(|p| p.name == "x").unwrap();
    md.packages[at].features = own.clone();
    md.packages[at].source = source.map(|repr| cm::Source { repr });
    // The same package, not used, of the same name.
    let asked: Rc<RefCell<Vec<BTreeSet<String>>>> = Rc::default();
    let seen = asked.clone();
    let theirs = listed.clone();
    let mut builder = krates::Builder::new();
    builder.with_crates_io_index(Box::new(move |names| {
        seen.borrow_mut().push(names);
        let mut out = BTreeMap::new();
        let other = |v: &str| IndexKrateVersion { version: v.parse().unwrap(), features: [("wrong".to_string(), vec!["worse".to_string()])].into() };
        let me = IndexKrateVersion { version: version.parse().unwrap(), features: theirs };
        match entry {
            0 => {
                out.insert("x".to_string(), None);
            }
            1 => {
                out.insert("x".to_string(), Some(IndexKrate { versions: vec![other("0.9.0"), other("1.0.0+b"), other("1.0.0-b"), me, other("2.0.0")] }));
            }
            _ => {
                // Nothing for x.
                out.insert("y".to_string(), Some(IndexKrate { versions: vec![me] }));
            }
        }
        out
    }));
    let k: Result<K, _> = builder.build_with_metadata(md, krates::NoneFilter);
    check(k.is_ok(), "builds");
    let Ok(k) = k else { return };
    let asked = asked.borrow();
    check(asked.len() == 1 && asked[0].iter().eq(["m", "x"]), "asked-once");
    let mut want = own.clone();
    if crates_io && entry == 1 && digit == b'0' {
        reach("listed");
        for (f, v) in &listed {
            if !own.contains_key(f) {
                want.insert(f.clone(), v.clone());
            }
        }
        let mut more = vec![];
        for v in want.values().flatten() {
            if !v.contains('/') && !v.starts_with("dep:") && !want.contains_key(v) {
                more.push(v.clone());
            }
        }
        for m in more {
            reach("implied");
            want.insert(m.clone(), vec![format!("dep:{m}")]);
        }
    }
    let got = k.krates().find(|p| p.name == "x");
    check(got.is_some_and(|p| p.features == want), "features");
    let m = k.krates().find(|p| p.name == "m");
    check(m.is_some_and(|p| p.features.is_empty()), "others");
    reach("end");
}
fn byte_in(n: &str, class: fn(u8) -> bool) -> char {
    let b = byte(n);
    assume(class(b));
    b as char
}

/// Lookups by any id or feature name.
/// a: 0: ids as registries have them, 1: as git has, 2: path, 3: features; b: opaque
/// ids in the graph (+2: in the query); c: longest symbolic part.
pub fn lookup(a: u64, b: u64, c: u64) {
    let mut w = World { opaque: b & 1 == 1, ..World::default() };
    let mut m = Pkg::member("m");
    if a == 3 {
        return lookup_feature(w, m, c);
    }
    let mut rest = match a {
        0 => vec![
            Pkg::new("x"),
            Pkg::new("x").version("1.0.1"),
            Pkg::new("x").src(Src::Alt),
            Pkg::new("x").src(Src::Sparse),
            Pkg::new("x_"),
            Pkg::new("x-").version("1.0.0-a"),
        ],
        1 => vec![
            Pkg::new("x").dir("x").src(Src::Git("")),
            Pkg::new("x").dir("x").src(Src::Git("?rev=a")),
            Pkg::new("x").dir("x").src(Src::Git("?branch=a")),
            Pkg::new("x").dir("x").src(Src::Git("?branch=aa")),
            Pkg::new("x").dir("y").src(Src::Git("?tag=a")),
            Pkg::new("y").dir("y").src(Src::Git("?tag=a")),
        ],
        _ => vec![
            Pkg::new("x").src(Src::Path).dir("x"),
            Pkg::new("x").src(Src::Path).dir("y"),
            Pkg::new("x").src(Src::Path).dir("xx").version("1.0.1"),
            Pkg::new("y").src(Src::Path).dir("z"),
            Pkg::new("x_").src(Src::Path).dir("x_"),
        ],
    };
    if conc(flag("less") as u64) == 1 {
        // Another place in the list, and something that is not there.
        rest.remove(0);
    }
    for (i, p) in rest.into_iter().enumerate() {
        m.deps.push(Dep::new(1 + i, leak(format!("d{i}"))).req("*"));
        w.pkgs.push(p);
    }
    w.pkgs.insert(0, m);
    let (k, _) = build(&w, &Cfg::default(), &w.resolve());
    let k: K = k.unwrap();
    // The order that ids have.
    let mut order: Vec<usize> = (0..w.pkgs.len()).collect();
    order.sort_by_key(|p| w.pkgs[*p].key());

    let name = sym_str(1, c, "name", is_name);
    let version = format!("1.0{}", sym_str(2, 1 + c, "version", is_vers));
    let (url, seg) = match a {
        0 => {
            let u = ["registry+https://github.com/rust-lang/crates.io-inde", "registry+https://alt.example/inde", "sparse+https://alt.example:8/index"][pick(3, "url") as usize];
            let t = sym_str(1, c, "tail", |b| is_name(b) | (b == b'/'));
            let u = format!("{u}{t}");
            let seg = u[u.rfind('/').unwrap() + 1..].to_owned();
            (u, seg)
        }
        1 => {
            let seg = sym_str(1, c, "seg", is_name);
            let how = pick(4, "reference") as usize;
            let r = if how == 0 { String::new() } else { sym_str(1, c, "reference", is_name) };
            (format!("git+https://h/{seg}{}{r}", ["", "?rev=", "?branch=", "?tag="][how]), seg)
        }
        _ => {
            let seg = sym_str(1, c, "seg", is_name);
            (format!("path+file:///k/{seg}"), seg)
        }
    };
    let repr = if b & 2 == 2 {
        format!("{name} {version} ({url}{})", if a == 1 { "#c0ffee" } else { "" })
    } else if name == seg {
        format!("{url}#{version}")
    } else {
        format!("{url}#{name}@{version}")
    };
    let kid = krates::Kid::from(krates::PackageId { repr });
    let want = order.iter().position(|p| {
        let p = &w.pkgs[*p];
        (p.name == name) & (p.version == version) & (p.url() == url)
    });
    let got = k.nid_for_kid(&kid).map(|n| n.index());
    emit(got.map_or(0, |g| 1 + g as u64));
    check(got == want, "nid");
    check(k.get_node(&kid, None).map(|n| n.0.index()) == want, "node");
    check(k.node_for_kid(&kid).is_some() == want.is_some(), "node-for-kid");
    check(k.get_enabled_features(&kid).is_some() == want.is_some(), "features");
    check(k.get_node(&kid, Some("no-such-feature")).is_none(), "no-feature");
    if let Some(i) = want {
        reach("found");
        check(k[i].id.repr == w.pkgs[order[i]].id(w.opaque), "which");
    } else {
        reach("not-found");
    }
    reach("end");
}

fn lookup_feature(mut w: World, mut m: Pkg, c: u64) {
    let fs = ["x-y", "x_y", "x", "X", "default", "y+1"];
    let mut d = [Dep::new(1, "x"), Dep::new(2, "y")];
    let mut p = [Pkg::new("x"), Pkg::new("y")];
    let on = 1 + pick(63, "on");
    for (i, f) in fs.iter().enumerate() {
        // One has what the other lacks.
        for (j, p) in p.iter_mut().enumerate() {
            p.feats.push((f.to_string(), vec![]));
            d[j].default = false;
            if ((on >> i) & 1 == 0) == (j == 1) {
                d[j].feats.push(f.to_string());
            }
        }
    }
    m.deps.extend(d);
    m = m.feat("x-x", &["x/x", "y"]).feat("y", &[]);
    w.requested.push((0, "x-x".into()));
    w.pkgs.push(m);
    w.pkgs.extend(p);
    let r = w.resolve();
    let (k, _) = build(&w, &Cfg::default(), &r);
    let k: K = k.unwrap();
    let name = sym_str(0, c, "name", |b| inr(b, b' ', b'~'));
    for p in 0..3 {
        let got = k.get_node(&w.kid(p), Some(&name));
        let mut want = false;
        for f in &r.feats[p] {
            want |= (*f == name) & w.pkgs[p].table(f).is_some();
        }
        emit(got.is_some() as u64);
        check(got.is_some() == want, "feature");
        if let Some((i, n)) = got {
            reach("found");
            let Node::Feature { krate_index, name: f } = n else {
                check(false, "a-feature");
                return;
            };
            check(*f == name && k[*krate_index].id.repr == w.pkgs[p].id(false), "the-feature");
            check(std::ptr::eq(n, &k.graph()[i]), "its-node");
        } else {
            reach("not-found");
        }
    }
    reach("end");
}
