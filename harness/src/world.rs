//! Small worlds of packages: consistent cargo metadata, and an independent account of
//! the graph that has to come out of it.
use krates::cm;
use krates::{Builder, DepKind, Kid, PackageId, Scope};
use krates::index::{IndexKrate, IndexKrateVersion};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq)]
pub enum Src {
    /// A path package below /k.
    Path,
    Registry,
    /// Another registry.
    Alt,
    /// Another registry that is not a git repository.
    Sparse,
    /// Git, with a reference such as "?rev=a", after "ssh" if it is not over https.
    Git(&'static str),
}

const COMMIT: &str = "65de0025a90d75dc18c900f098e9da031992e10c";

pub const NORMAL: u8 = 0;
pub const BUILD: u8 = 1;
pub const DEV: u8 = 2;

#[derive(Clone)]
pub struct Dep {
    pub to: usize,
    /// The name in Cargo.toml: the package's, or a rename.
    pub name: String,
    pub kind: u8,
    pub optional: bool,
    pub default: bool,
    pub feats: Vec<String>,
    pub target: Option<String>,
    pub req: &'static str,
}

#[derive(Clone)]
pub struct Pkg {
    pub name: &'static str,
    pub version: &'static str,
    pub src: Src,
    /// Name of the library target.
    pub lib: &'static str,
    /// Kinds of the library target.
    pub kinds: &'static [cm::TargetKind],
    pub member: bool,
    /// It has no library: cargo metadata leaves out dependencies on it.
    pub bin_only: bool,
    /// Where the workspace is.
    pub base: &'static str,
    /// Last segment of its path or url.
    pub dir: &'static str,
    pub feats: Vec<(String, Vec<String>)>,
    /// Features cargo knows from the index but does not list in the package.
    pub hidden: Vec<&'static str>,
    pub deps: Vec<Dep>,
}

#[derive(Clone, Default)]
pub struct World {
    pub pkgs: Vec<Pkg>,
    /// Features requested on the command line.
    pub requested: Vec<(usize, String)>,
    pub root: Option<usize>,
    /// The opaque package id format of older cargos.
    pub opaque: bool,
}

#[derive(Clone, Default)]
pub struct Cfg {
    /// Kind and scope (0 workspace, 1 non-workspace, 2 all).
    pub ignore: Vec<(u8, u8)>,
    /// Triple and promised target features.
    pub targets: Vec<(&'static str, Vec<String>)>,
    pub exclude: Vec<String>,
    /// Which packages the specs in `exclude` select.
    pub excluded: Vec<bool>,
    pub include: Vec<String>,
    /// Roots selected by `include`.
    pub included: Option<Vec<bool>>,
    pub workspace: bool,
    /// What the index has: features of packages by name and version.
    pub index: Option<Vec<(&'static str, &'static str, Vec<(String, Vec<String>)>)>>,
}

/// Branchless choice.
#[inline(always)]
fn sel(c: bool, a: u8, b: u8) -> u8 {
    let m = (c as u8).wrapping_neg();
    (a & m) | (b & !m)
}

pub fn dep_kind(k: u8) -> DepKind {
    let v = sel(k == BUILD, DepKind::Build as u8, sel(k == DEV, DepKind::Dev as u8, DepKind::Normal as u8));
    // SAFETY: v is the discriminant of one of the three variants.
    unsafe { std::mem::transmute::<u8, DepKind>(v) }
}
pub fn cm_kind(k: u8) -> cm::DependencyKind {
    use cm::DependencyKind as D;
    let d = |d: D| unsafe { std::mem::transmute::<D, u8>(d) };
    let v = sel(k == BUILD, d(D::Build), sel(k == DEV, d(D::Development), d(D::Normal)));
    // SAFETY: as above.
    unsafe { std::mem::transmute::<u8, D>(v) }
}
pub fn scope(s: u8) -> Scope {
    let d = |d: Scope| unsafe { std::mem::transmute::<Scope, u8>(d) };
    let v = sel(s == 0, d(Scope::Workspace), sel(s == 1, d(Scope::NonWorkspace), d(Scope::All)));
    // SAFETY: as above.
    unsafe { std::mem::transmute::<u8, Scope>(v) }
}
/// 0 normal, 1 build, 2 dev from any representation of the kind.
pub fn kind_no(k: DepKind) -> u8 {
    let k = k as u8;
    sel(k == DepKind::Build as u8, BUILD, sel(k == DepKind::Dev as u8, DEV, NORMAL))
}

impl Dep {
    pub fn new(to: usize, name: &str) -> Dep {
        Dep { to, name: name.into(), kind: NORMAL, optional: false, default: true, feats: vec![], target: None, req: "^1" }
    }
    pub fn kind(mut self, k: u8) -> Dep {
        self.kind = k;
        self
    }
    pub fn opt(mut self, o: bool) -> Dep {
        self.optional = o;
        self
    }
    pub fn nodef(mut self) -> Dep {
        self.default = false;
        self
    }
    pub fn feats(mut self, f: &[&str]) -> Dep {
        self.feats = f.iter().map(|x| x.to_string()).collect();
        self
    }
    pub fn target(mut self, t: Option<&str>) -> Dep {
        self.target = t.map(|x| x.to_string());
        self
    }
    pub fn req(mut self, r: &'static str) -> Dep {
        self.req = r;
        self
    }
}

/// A directory as Windows writes it.
pub const WINDOWS: &str = "D:\\k";

impl Pkg {
    pub fn new(name: &'static str) -> Pkg {
        Pkg { name, version: "1.0.0", src: Src::Registry, lib: name, kinds: &[cm::TargetKind::Lib], member: false, bin_only: false, base: "/k", dir: name, feats: vec![], hidden: vec![], deps: vec![] }
    }
    pub fn member(name: &'static str) -> Pkg {
        Pkg { member: true, src: Src::Path, ..Pkg::new(name) }
    }
    pub fn version(mut self, v: &'static str) -> Pkg {
        self.version = v;
        self
    }
    pub fn src(mut self, s: Src) -> Pkg {
        self.src = s;
        self
    }
    pub fn dir(mut self, d: &'static str) -> Pkg {
        self.dir = d;
        self
    }
    pub fn lib(mut self, l: &'static str) -> Pkg {
        self.lib = l;
        self
    }
    pub fn bin_only(mut self) -> Pkg {
        self.bin_only = true;
        self
    }
    pub fn feat(mut self, f: &str, v: &[&str]) -> Pkg {
        self.feats.push((f.to_string(), v.iter().map(|x| x.to_string()).collect()));
        self
    }
    pub fn dep(mut self, d: Dep) -> Pkg {
        self.deps.push(d);
        self
    }
    pub fn table(&self, f: &str) -> Option<&Vec<String>> {
        self.feats.iter().find(|x| x.0 == f).map(|x| &x.1)
    }
    /// A file or directory in the base directory.
    fn at(&self, file: &str) -> String {
        match self.base {
            WINDOWS => format!("{}\\{}{}", self.base, self.dir, file).replace('/', "\\"),
            _ => format!("{}/{}{}", self.base, self.dir, file),
        }
    }
    pub fn manifest(&self) -> String {
        self.at("/Cargo.toml")
    }
    /// The source without commit and with references in plain text.
    pub fn url(&self) -> String {
        match self.src {
            Src::Path => format!("path+file://{}/{}", if self.base == WINDOWS { "/D:/k" } else { self.base }, self.dir.replace('%', "%25").replace(' ', "%20").replace('é', "%C3%A9")),
            Src::Registry => "registry+https://github.com/rust-lang/crates.io-index".into(),
            Src::Alt => "registry+https://alt.example/index".into(),
            Src::Sparse => "sparse+https://alt.example:8/index/".into(),
            Src::Git(r) => match r.strip_prefix("ssh") {
                Some(r) => format!("git+ssh://git@h:22/{}{r}", self.dir),
                None => format!("git+https://h/{}{r}", self.dir),
            },
        }
    }
    /// As `source` in a package.
    pub fn source(&self) -> Option<String> {
        match self.src {
            Src::Path => None,
            Src::Git(_) => Some(format!("{}#{COMMIT}", self.url())),
            _ => Some(self.url()),
        }
    }
    /// As in a stable id.
    fn encoded(&self) -> String {
        let u = self.url();
        let Some((k, r)) = u.split_once('=') else { return u };
        let mut out = format!("{k}=");
        for b in r.bytes() {
            match b {
                b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'*' | b'-' | b'.' | b'_' => out.push(b as char),
                _ => out.push_str(&format!("%{b:02X}")),
            }
        }
        out
    }
    pub fn id(&self, opaque: bool) -> String {
        let Pkg { name, version, .. } = self;
        let url = self.url();
        match (self.src, opaque) {
            (Src::Git(_), true) => format!("{name} {version} ({url}#{COMMIT})"),
            (_, true) => format!("{name} {version} ({url})"),
            (Src::Registry | Src::Alt | Src::Sparse, false) => format!("{url}#{name}@{version}"),
            (_, false) if self.dir.rsplit('/').next() == Some(self.name) => format!("{}#{version}", self.encoded()),
            (_, false) => format!("{}#{name}@{version}", self.encoded()),
        }
    }
    /// What orders packages in the graph.
    pub fn key(&self) -> (String, String, String) {
        (self.name.into(), self.version.into(), self.url())
    }
}

/// Parts of a feature value.
pub enum Val<'a> {
    Dep(&'a str),
    Weak(&'a str, &'a str),
    Strong(&'a str, &'a str),
    Simple(&'a str),
}
pub fn value(v: &str) -> Val<'_> {
    if let Some(d) = v.strip_prefix("dep:") {
        return Val::Dep(d);
    }
    match v.split_once('/') {
        Some((d, f)) => match d.strip_suffix('?') {
            Some(d) => Val::Weak(d, f),
            None => Val::Strong(d, f),
        },
        None => Val::Simple(v),
    }
}

/// What cargo resolves, over all targets and kinds, weak references being strong but
/// for the feature named like an optional dependency.
pub struct Resolved {
    pub live: Vec<bool>,
    pub feats: Vec<BTreeSet<String>>,
    pub act: Vec<Vec<bool>>,
}

impl World {
    pub fn resolve(&self) -> Resolved {
        let n = self.pkgs.len();
        let mut live: Vec<bool> = self.pkgs.iter().map(|p| p.member).collect();
        let mut feats: Vec<BTreeSet<String>> = vec![BTreeSet::new(); n];
        let mut act: Vec<Vec<bool>> = self.pkgs.iter().map(|p| p.deps.iter().map(|_| false).collect()).collect();
        let mut named: Vec<BTreeSet<&str>> = vec![BTreeSet::new(); n];
        for (p, f) in &self.requested {
            feats[*p].insert(f.clone());
        }
        // What the members have on their own account: development dependencies see no other features.
        let mut own = feats.clone();
        loop {
            let mut changed = false;
            for p in 0..n {
                let pk = &self.pkgs[p];
                for f in own[p].clone() {
                    for v in pk.table(&f).into_iter().flatten() {
                        match value(v) {
                            Val::Simple(g) => changed |= own[p].insert(g.to_string()),
                            Val::Strong(x, _) if pk.table(x).is_some() && pk.deps.iter().any(|d| d.name == x && d.optional) => {
                                changed |= own[p].insert(x.to_string());
                            }
                            _ => {}
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        loop {
            let mut changed = false;
            for p in 0..n {
                if !live[p] {
                    continue;
                }
                let pk = &self.pkgs[p];
                for f in feats[p].clone() {
                    let Some(vs) = pk.table(&f) else { continue };
                    for v in vs {
                        match value(v) {
                            Val::Simple(g) => changed |= feats[p].insert(g.to_string()),
                            Val::Dep(x) => changed |= named[p].insert(x),
                            val @ (Val::Weak(x, g) | Val::Strong(x, g)) => {
                                let weak = matches!(val, Val::Weak(..));
                                changed |= named[p].insert(x);
                                for d in &pk.deps {
                                    if d.name == x && (d.kind != DEV || own[p].contains(&f)) {
                                        changed |= feats[d.to].insert(g.to_string());
                                    }
                                }
                                if !weak && pk.table(x).is_some() && pk.deps.iter().any(|d| d.name == x && d.optional) {
                                    changed |= feats[p].insert(x.to_string());
                                }
                            }
                        }
                    }
                }
                for (i, d) in pk.deps.iter().enumerate() {
                    if act[p][i] || (!pk.member && d.kind == DEV) {
                        continue;
                    }
                    if !named[p].contains(d.name.as_str()) && d.optional {
                        continue;
                    }
                    act[p][i] = true;
                    live[d.to] = true;
                    changed = true;
                    for f in &d.feats {
                        feats[d.to].insert(f.clone());
                    }
                    if self.pkgs[d.to].table("default").is_some() && d.default {
                        feats[d.to].insert("default".into());
                    }
                }
            }
            if !changed {
                break;
            }
        }
        // Dependencies without a library are not listed, nor what only they need.
        let mut shown: Vec<bool> = self.pkgs.iter().map(|p| p.member).collect();
        loop {
            let mut changed = false;
            for p in 0..n {
                for (i, d) in self.pkgs[p].deps.iter().enumerate() {
                    if shown[p] && act[p][i] && !self.pkgs[d.to].bin_only && !shown[d.to] {
                        shown[d.to] = true;
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        for p in 0..n {
            for (i, d) in self.pkgs[p].deps.iter().enumerate() {
                act[p][i] &= shown[p] && !self.pkgs[d.to].bin_only;
            }
        }
        Resolved { live: shown, feats, act }
    }

    fn package(&self, p: &Pkg) -> cm::Package {
        let mut pk = crate::strs::package(p.name.into(), p.version.parse().unwrap(), p.source());
        pk.id = PackageId { repr: p.id(self.opaque) };
        pk.manifest_path = p.manifest().into();
        for (f, v) in &p.feats {
            if !p.hidden.contains(&f.as_str()) {
                pk.features.insert(f.clone(), v.clone());
            }
        }
        // The library comes first.
        let target = |name: &str, kind: &[cm::TargetKind]| cm::Target {
            name: name.into(),
            kind: kind.to_vec(),
            crate_types: vec![cm::CrateType::Lib],
            required_features: vec![],
            src_path: p.at("/src/lib.rs").into(),
            edition: cm::Edition::E2021,
            doctest: true,
            test: true,
            doc: true,
        };
        pk.targets = vec![
            target(p.lib, p.kinds),
            target(p.name, &[cm::TargetKind::Bin]),
            target("lib", &[cm::TargetKind::Example]),
            target("build-script-build", &[cm::TargetKind::CustomBuild]),
        ];
        if p.bin_only {
            pk.targets.remove(0);
        }
        pk.dependencies = p
            .deps
            .iter()
            .map(|d| {
                let t = &self.pkgs[d.to];
                cm::Dependency {
                    name: t.name.into(),
                    source: match t.src {
                        // A sibling in the same checkout.
                        Src::Git(_) if t.url() == p.url() => t.source(),
                        Src::Path => None,
                        _ => Some(t.url()),
                    },
                    req: d.req.parse().unwrap(),
                    kind: cm_kind(d.kind),
                    optional: d.optional,
                    uses_default_features: d.default,
                    features: d.feats.clone(),
                    target: d.target.clone(),
                    rename: (d.name != t.name).then(|| d.name.clone()),
                    registry: None,
                    path: (t.src == Src::Path).then(|| t.at("").into()),
                }
            })
            .collect();
        pk
    }

    /// The name of the extern crate a dependency is seen as.
    fn extern_name(&self, p: usize, d: &Dep) -> String {
        let t = &self.pkgs[d.to];
        if d.name != t.name && d.to != p { d.name.replace('-', "_") } else { t.lib.replace('-', "_") }
    }

    pub fn metadata(&self, r: &Resolved) -> cm::Metadata {
        let mut order: Vec<usize> = (0..self.pkgs.len()).filter(|p| r.live[*p]).collect();
        order.sort_by_cached_key(|p| self.pkgs[*p].id(self.opaque));
        let pid = |p: usize| PackageId { repr: self.pkgs[p].id(self.opaque) };
        let nodes = order
            .iter()
            .map(|&p| {
                let pk = &self.pkgs[p];
                let mut deps: Vec<(usize, cm::NodeDep)> = vec![];
                for (i, d) in pk.deps.iter().enumerate() {
                    if !r.act[p][i] {
                        continue;
                    }
                    let dk = cm::DepKindInfo { kind: cm_kind(d.kind), target: d.target.clone() };
                    match deps.iter_mut().find(|x| x.0 == d.to) {
                        Some(x) => x.1.dep_kinds.push(dk),
                        None => deps.push((d.to, cm::NodeDep { name: self.extern_name(p, d), pkg: pid(d.to), dep_kinds: vec![dk] })),
                    }
                }
                deps.sort_by_cached_key(|d| self.pkgs[d.0].id(self.opaque));
                cm::Node {
                    id: pid(p),
                    dependencies: deps.iter().map(|d| pid(d.0)).collect(),
                    deps: deps.into_iter().map(|d| d.1).collect(),
                    features: r.feats[p].iter().cloned().collect(),
                }
            })
            .collect();
        let members: Vec<PackageId> = order.iter().filter(|p| self.pkgs[**p].member).map(|p| pid(*p)).collect();
        cm::Metadata {
            packages: order.iter().map(|p| self.package(&self.pkgs[*p])).collect(),
            workspace_default_members: cm::WorkspaceDefaultMembers(Some(members.clone())),
            workspace_members: members,
            resolve: Some(cm::Resolve { nodes, root: self.root.map(pid) }),
            workspace_root: self.pkgs[0].base.into(),
            target_directory: "/k/target".into(),
            workspace_metadata: serde_json::Value::Null,
            version: 1,
        }
    }

    /// The package with this id in the graph.
    pub fn find(&self, id: &Kid) -> Option<usize> {
        self.pkgs.iter().position(|p| {
            id.name() == p.name && id.version() == p.version && id.source() == p.url()
        })
    }

    pub fn kid(&self, p: usize) -> Kid {
        Kid::from(PackageId { repr: self.pkgs[p].id(self.opaque) })
    }
}

fn parts<T>(v: &[T]) -> impl Iterator<Item = &[T]> {
    let (a, b) = v.split_at(v.len().min(1));
    [a, b].into_iter().filter(|x| !x.is_empty())
}

impl Cfg {
    pub fn builder(&self) -> Builder {
        let mut b = Builder::new();
        for (k, s) in &self.ignore {
            b.ignore_kind(dep_kind(*k), scope(*s));
        }
        // The first on its own, the others at once.
        for t in parts(&self.targets) {
            b.include_targets(t.iter().map(|(t, f)| (*t, f.clone())));
        }
        for e in parts(&self.exclude) {
            b.exclude(e.iter().map(|e| e.parse().unwrap()));
        }
        for i in parts(&self.include) {
            b.include_workspace_crates(i.iter());
        }
        if self.workspace {
            b.workspace(true);
        }
        if let Some(ix) = self.index.clone() {
            b.with_crates_io_index(Box::new(move |names| {
                let mut out = BTreeMap::new();
                for n in names {
                    let versions: Vec<_> = ix
                        .iter()
                        .filter(|e| e.0 == n)
                        .map(|e| IndexKrateVersion { version: e.1.parse().unwrap(), features: e.2.iter().cloned().collect() })
                        .collect();
                    out.insert(n, (!versions.is_empty()).then_some(IndexKrate { versions }));
                }
                out
            }));
        }
        b
    }
    pub fn ignored(&self, kind: u8, member: bool) -> bool {
        let mut r = false;
        for (k, s) in &self.ignore {
            r |= (*k == kind) & ((*s == 2) | (*s == if member { 0 } else { 1 }));
        }
        r
    }
    fn excl(&self, p: usize) -> bool {
        self.excluded.get(p).copied().unwrap_or(false)
    }
}

/// What has to come out.
pub struct Model {
    pub roots: Vec<bool>,
    pub in_graph: Vec<bool>,
    pub feats: Vec<BTreeSet<String>>,
    /// Declarations that survive, of packages in the graph (the target may be excluded).
    pub surv: Vec<Vec<bool>>,
}

impl World {
    pub fn target_ok(&self, cfg: &Cfg, d: &Dep) -> bool {
        let Some(t) = &d.target else { return true };
        if cfg.targets.is_empty() {
            return crate::target::not_never(t);
        }
        cfg.targets.iter().any(|(tr, f)| crate::target::holds(t, tr, f))
    }

    pub fn model(&self, cfg: &Cfg, r: &Resolved) -> Model {
        let n = self.pkgs.len();
        let roots: Vec<bool> = match (&cfg.included, self.root) {
            (Some(i), _) => i.clone(),
            (None, Some(p)) if !cfg.workspace => (0..n).map(|q| q == p).collect(),
            _ => self.pkgs.iter().map(|p| p.member).collect(),
        };
        let mut in_graph: Vec<bool> = (0..n).map(|p| roots[p] && !cfg.excl(p)).collect();
        let mut feats: Vec<BTreeSet<String>> = (0..n).map(|p| if in_graph[p] { r.feats[p].clone() } else { BTreeSet::new() }).collect();
        let mut surv: Vec<Vec<bool>> = self.pkgs.iter().map(|p| p.deps.iter().map(|_| false).collect()).collect();
        // Filters are looked at only when something depends on them.
        let mut pass: Vec<Vec<Option<bool>>> = self.pkgs.iter().map(|p| vec![None; p.deps.len()]).collect();
        loop {
            let mut changed = false;
            for p in 0..n {
                if !in_graph[p] {
                    continue;
                }
                let pk = &self.pkgs[p];
                let mut named: BTreeSet<&str> = BTreeSet::new();
                let mut enables: Vec<(&str, &str)> = vec![];
                for f in feats[p].clone() {
                    let Some(vs) = pk.table(&f) else { continue };
                    if pk.hidden.contains(&f.as_str()) {
                        continue;
                    }
                    for v in vs {
                        match value(v) {
                            Val::Simple(g) => changed |= feats[p].insert(g.to_string()),
                            Val::Dep(x) => {
                                named.insert(x);
                            }
                            Val::Strong(x, g) => {
                                named.insert(x);
                                enables.push((x, g));
                            }
                            Val::Weak(x, g) => enables.push((x, g)),
                        }
                    }
                }
                for (i, d) in pk.deps.iter().enumerate() {
                    if !r.act[p][i] || (d.optional && !named.contains(d.name.as_str())) {
                        continue;
                    }
                    let ok = *pass[p][i].get_or_insert_with(|| !cfg.ignored(d.kind, pk.member) && self.target_ok(cfg, d));
                    if !ok {
                        continue;
                    }
                    changed |= !surv[p][i];
                    surv[p][i] = true;
                    let q = d.to;
                    if cfg.excl(q) {
                        continue;
                    }
                    changed |= !in_graph[q];
                    in_graph[q] = true;
                    if roots[q] {
                        continue;
                    }
                    for f in self.requests(p, i, r) {
                        changed |= feats[q].insert(f);
                    }
                    for (x, g) in &enables {
                        // Cargo does not apply features that another package enabled to
                        // the development dependencies of a member.
                        if *x == d.name && r.feats[q].contains(*g) {
                            changed |= feats[q].insert(g.to_string());
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        Model { roots, in_graph, feats, surv }
    }

    /// The features declaration i of package p asks for.
    pub fn requests(&self, p: usize, i: usize, r: &Resolved) -> Vec<String> {
        let d = &self.pkgs[p].deps[i];
        let mut v = d.feats.clone();
        if r.feats[d.to].contains("default") && d.default {
            v.push("default".into());
        }
        v
    }
}
