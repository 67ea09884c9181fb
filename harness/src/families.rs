//! Families of worlds.
use crate::graph::*;
use crate::sym::*;
use crate::world::*;

/// A kind; development only for workspace members.
pub fn sym_kind(p: &Pkg, name: &str) -> u8 {
    let k = bits(2, name) as u8;
    assume(k <= if p.member { DEV } else { BUILD });
    k
}
pub fn sym_scope(name: &str) -> u8 {
    let s = bits(2, name) as u8;
    assume(s <= 2);
    s
}
const NAMES: [&str; 8] = ["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"];

/// A dense graph: every package depends on every later one, members also on all
/// earlier ones for development, every dependency of an arbitrary kind.
/// part: number of packages (units), members (tens).
fn mesh(part: u64, size: Size) -> (World, Cfg) {
    let (n, members) = ((part % 10) as usize, (part / 10) as usize);
    let mut w = World::default();
    for i in 0..n {
        let mut p = if i < members { Pkg::member(NAMES[i]) } else { Pkg::new(NAMES[i]) };
        for j in 0..n {
            if j > i {
                let k = sym_kind(&p, "kind");
                p.deps.push(Dep::new(j, NAMES[j]).kind(k));
            } else if j < i && i < members {
                // Only development dependencies may close a cycle.
                p.deps.push(Dep::new(j, NAMES[j]).kind(DEV));
            }
        }
        w.pkgs.push(p);
    }
    let mut cfg = Cfg::default();
    ignore(&mut cfg, size, [1, 2]);
    (w, cfg)
}

/// One of the given lists, each on its own path.
pub fn one<'a, T: ?Sized>(menu: &[&'a T], name: &str) -> &'a T {
    menu[pick(menu.len() as u64, name) as usize]
}
/// Some of the given names.
fn some(names: &[&'static str], what: &str) -> Vec<&'static str> {
    names.iter().filter(|_| conc(flag(what) as u64) == 1).copied().collect()
}
fn yes(name: &str) -> bool {
    conc(flag(name) as u64) == 1
}
/// Size of a family: small without ignored kinds, deep with more of everything.
#[derive(Clone, Copy, PartialEq)]
enum Size {
    Small,
    Normal,
    Deep,
}
use Size::*;

fn ignore(cfg: &mut Cfg, size: Size, calls: [usize; 2]) {
    for _ in 0..match size {
        Small => 0,
        Normal => calls[0],
        Deep => calls[1],
    } {
        let k = bits(2, "ignore-kind") as u8;
        assume(k <= 2);
        cfg.ignore.push((k, sym_scope("ignore-scope")));
    }
}

/// Feature chains: m -> a -> b, with arbitrary feature tables in m and a.
fn chain(part: u64, size: Size) -> (World, Cfg) {
    let mut w = World { root: Some(0), ..World::default() };
    let mut cfg = Cfg::default();
    let mut m = Pkg::member("m");
    let opt = part & 1 == 1;
    let menu: &[&[&str]] = if opt {
        &[&[], &["dep:a"], &["a/x"], &["a?/x"], &["a?/x", "dep:a"], &["g"], &["a?/y", "a/x"], &["a?/x", "a?/y", "dep:a"]]
    } else {
        &[&[], &["a/x"], &["a/y"], &["g"], &["a/x", "g", if part & 4 == 0 { "a/default" } else { "a/zz" }]]
    };
    m = m.feat("f", one(menu, "m.f"));
    let menu: &[&[&str]] = if opt { &[&[], &["dep:a"], &["a?/y"], &["f"]] } else { &[&["f"], &["a/y"]] };
    m = m.feat("g", one(menu, "m.g"));
    if opt {
        m = m.feat("z", &["dep:a"]);
    }
    let k = sym_kind(&m, "m->a kind");
    assume(!opt || k != DEV);
    let mut d = Dep::new(1, "a").kind(k).opt(opt);
    d.default = yes("m->a default");
    if part & 2 == 2 {
        d.feats = vec!["y".into()];
    }
    m = m.dep(d);
    w.pkgs.push(m);
    // Its features include names of the dependent's.
    let mut a = Pkg::new("a").feat("f", &[]).feat("z", &["y"]);
    if part & 4 == 0 {
        a = a.feat("default", &["y"]);
    }
    a = a.feat("x", one(&[&["y"], &["dep:b"], &["b/u"], &["b?/u"]], "a.x"));
    a = a.feat("y", one(&[&[], &["x"], &["b?/v"], &["dep:b"]], "a.y"));
    a = a.feat("zz", &["dep:b"]);
    let k = sym_kind(&a, "a->b kind");
    a = a.dep(Dep::new(2, "b").kind(k).opt(true));
    w.pkgs.push(a);
    w.pkgs.push(Pkg::new("b").feat("u", &["v"]).feat("v", &[]).feat("default", &[]));
    for f in some(&["f", "g"], "requested") {
        w.requested.push((0, f.into()));
    }
    ignore(&mut cfg, size, [1, 1]);
    (w, cfg)
}

/// Excludes an arbitrary one of the packages, or none.
fn exclude_one(w: &World, cfg: &mut Cfg) {
    let n = w.pkgs.len();
    let i = pick(n as u64 + 1, "exclude") as usize;
    cfg.excluded = (0..n).map(|p| p == i).collect();
    if i < n {
        cfg.exclude.push(w.pkgs[i].name.into());
    }
}

/// Two dependents a and c of x, which ask for different features of it.
fn fan(part: u64, size: Size) -> (World, Cfg) {
    let mut w = World { root: Some(0), ..World::default() };
    let mut cfg = Cfg::default();
    let mut m = Pkg::member("m").feat("f", &["a/fa"]).feat("g", &["c/fc"]);
    for (to, n) in [(1, "a"), (2, "c")] {
        let k = if size == Deep || to == 1 { sym_kind(&m, "m-> kind") } else { NORMAL };
        m = m.dep(Dep::new(to, n).kind(k));
    }
    w.pkgs.push(m);
    let mut a = Pkg::new("a").feat("fa", one(&[&["x/q"], &["x?/q", "dep:x"], &["x?/q"]], "a.fa")).feat("d", &["dep:x"]);
    a = if part & 1 == 0 { a.feat("default", &["d"]) } else { a };
    let k = sym_kind(&a, "a->x kind");
    let mut d = Dep::new(3, "x").kind(k).opt(true);
    d.default = yes("a->x default");
    w.pkgs.push(a.dep(d));
    let c = Pkg::new("c").feat("fc", &["x/r"]);
    let k = sym_kind(&c, "c->x kind");
    let mut d = Dep::new(3, "x").kind(k).feats(&some(if size == Deep { &["p", "q"] } else { &["p"] }, "c->x features"));
    d.default = yes("c->x default");
    w.pkgs.push(c.dep(d));
    let mut x = Pkg::new("x").feat("p", &["r"]).feat("q", one(&[&["r"], &["y/u"], &["p"]], "x.q")).feat("r", &[]);
    if part & 2 == 0 {
        x = x.feat("default", &["p"]);
    }
    let k = if size == Deep { sym_kind(&x, "x->y kind") } else { NORMAL };
    w.pkgs.push(x.dep(Dep::new(4, "y").kind(k)));
    w.pkgs.push(Pkg::new("y").feat("u", &[]));
    for f in some(&["f", "g"], "requested") {
        w.requested.push((0, f.into()));
    }
    if part & 4 == 4 {
        exclude_one(&w, &mut cfg);
    }
    if part & 4 == 0 || size == Deep {
        ignore(&mut cfg, size, [1, 1]);
    }
    (w, cfg)
}

/// The same package declared up to three times by p, which is the root or depended on
/// by it.
fn decls(part: u64, size: Size) -> (World, Cfg) {
    let mut w = World { root: Some(0), ..World::default() };
    let mut cfg = Cfg::default();
    let inner = part & 1 == 1;
    let mut p = if inner { Pkg::new("p") } else { Pkg::member("p") };
    let x = if inner { 2 } else { 1 };
    let mut any_opt = false;
    for k in [NORMAL, BUILD, DEV] {
        if (k == DEV && inner) || !yes("declared") {
            continue;
        }
        let opt = k != DEV && yes("optional");
        any_opt |= opt;
        let mut d = Dep::new(x, "x").kind(k).opt(opt);
        d.default = part & 2 == 0;
        if part & 4 == 4 {
            d.feats = some(&["u", "v"], "features").iter().map(|f| f.to_string()).collect();
        }
        if part & 8 == 8 {
            // The default features by name, or a feature twice.
            let f: &[&[&str]] = &[&["default"], &["u", "u"], &["v", "default", "u"]];
            d.feats = one(f, "features").iter().map(|f| f.to_string()).collect();
        }
        p.deps.push(d);
    }
    // dep: and ? are for optional dependencies only, x/ for any.
    let any = !p.deps.is_empty();
    let f: &[&[&str]] = if any_opt {
        &[&[], &["dep:x"], &["x/u"], &["x?/u"], &["x?/u", "x/v"], &["x?/u", "x?/v"], &["g"]]
    } else if any {
        &[&[], &["x/u"], &["g"]]
    } else {
        &[&[], &["g"]]
    };
    let g: &[&[&str]] = if any_opt {
        &[&[], &["dep:x"], &["x?/v"], &["x/v"]]
    } else if any {
        &[&["x/v"]]
    } else {
        &[&[]]
    };
    p = p.feat("f", one(f, "p.f")).feat("g", one(g, "p.g"));
    if any_opt {
        p = p.feat("zz", &["dep:x"]);
    }
    if inner {
        p = p.feat("default", &["f"]);
        let mut d = Dep::new(1, "p");
        d.default = yes("m->p default");
        w.pkgs.push(Pkg::member("m").feat("g", &["p/g"]).dep(d));
        if yes("m/g requested") {
            w.requested.push((0, "g".into()));
        }
    } else {
        for f in some(&["f", "g"], "requested") {
            w.requested.push((0, f.into()));
        }
    }
    w.pkgs.push(p);
    w.pkgs.push(Pkg::new("x").feat("default", &[]).feat("u", one(&[&[], &["v"]], "x.u")).feat("v", &[]).feat("f", &["v"]));
    ignore(&mut cfg, size, [1, 2]);
    (w, cfg)
}

const LEAVES: [&str; 12] = [
    "unix",
    "windows",
    "target_os = \"linux\"",
    "target_arch = \"x86_64\"",
    "target_env = \"musl\"",
    "target_family = \"wasm\"",
    "target_pointer_width = \"32\"",
    "target_vendor = \"unknown\"",
    "target_feature = \"sse2\"",
    "target_os = \"macos\"",
    "target_endian = \"little\"",
    "debug_assertions",
];
fn leaf(n: u64) -> &'static str {
    LEAVES[pick(n, "leaf") as usize]
}
/// An expression of at most the given depth over the first n leaves.
fn expr(depth: u64, n: u64) -> String {
    if depth == 0 {
        return leaf(n).to_string();
    }
    match pick(6, "op") {
        0 => leaf(n).to_string(),
        1 => format!("not({})", expr(depth - 1, n)),
        2 => format!("all({}, {})", expr(depth - 1, n), leaf(n)),
        3 => format!("any({}, {})", expr(depth - 1, n), leaf(n)),
        4 => one(&["all()", "true"], "always").to_string(),
        _ => one(&["any()", "false"], "never").to_string(),
    }
}
fn target_filter(cfg: &mut Cfg, n: u64) {
    let i = pick(n, "triple") as usize;
    let f = if yes("promised") { vec!["sse2".to_string()] } else { vec![] };
    cfg.targets.push((crate::target::TARGETS[i].triple, f));
}

/// The same dependency declared for everything, for unix and for windows.
fn layered(size: Size) -> (World, Cfg) {
    let mut w = World { root: Some(0), ..World::default() };
    let mut cfg = Cfg::default();
    for _ in 0..pick(3, "filters") {
        cfg.targets.push((crate::target::TARGETS[pick(3, "triple") as usize].triple, vec![]));
    }
    let mut p = Pkg::member("p");
    let kind = if size == Size::Small { NORMAL } else { sym_kind(&p, "kind") };
    let menu: &[&[&str]] = &[&[], &["u"]];
    let mut any_opt = false;
    for t in [None, Some("cfg(unix)"), Some("cfg(windows)")] {
        let how = pick(if size == Deep { 5 } else { 4 }, "declared");
        if how == 0 {
            continue;
        }
        let mut d = Dep::new(1, "a").kind(kind).target(t).opt(how >= 3);
        assume(!d.optional || kind != DEV);
        any_opt |= how >= 3;
        d.default = if size == Deep { yes("default") } else { how != 2 };
        d.feats = if how == 2 || how == 4 { one(menu, "features").iter().map(|f| f.to_string()).collect() } else { vec![] };
        p.deps.push(d);
    }
    let any = !p.deps.is_empty();
    let f: &[&[&str]] = if any_opt {
        &[&["dep:a"], &["a/v"], &["a?/v"]]
    } else if any {
        &[&[], &["a/v"]]
    } else {
        &[&[]]
    };
    p = p.feat("f", one(f, "p.f"));
    if any_opt {
        p = p.feat("zz", &["dep:a"]);
    }
    w.requested = some(&["f"], "requested").iter().map(|f| (0, f.to_string())).collect();
    w.pkgs.push(p);
    w.pkgs.push(Pkg::new("a").feat("default", &["v"]).feat("u", &[]).feat("v", &[]));
    (w, cfg)
}

/// Dependencies with targets, and filters.
fn targets(part: u64, size: Size) -> (World, Cfg) {
    if part == 6 {
        return layered(size);
    }
    let mut w = World { root: Some(0), ..World::default() };
    let mut cfg = Cfg::default();
    let all = crate::target::TARGETS.len() as u64;
    let triple = |n: u64| crate::target::TARGETS[pick(n, "triple") as usize].triple;
    let t = match part {
        // One target, any expression.
        0 => {
            target_filter(&mut cfg, all);
            format!("cfg({})", expr(2, if size == Deep { 9 } else { 4 }))
        }
        // Two targets, flat expressions of two predicates.
        1 => {
            target_filter(&mut cfg, 2);
            target_filter(&mut cfg, if size == Deep { all } else { 3 });
            format!("cfg({})", expr(1, if size == Deep { 12 } else { 9 }))
        }
        // No targets.
        2 => format!("cfg({})", expr(if size == Deep { 4 } else { 3 }, 2)),
        // Triples.
        3 => {
            for _ in 0..pick(3, "filters") {
                cfg.targets.push((triple(all), vec![]));
            }
            triple(all).to_string()
        }
        // What no target has, and what is no predicate at all.
        5 => {
            for _ in 0..pick(2, "filters") {
                target_filter(&mut cfg, all);
            }
            let odd: &[&str] = &[
                "target_pointer_width = \"big\"",
                "target_feature = \"\"",
                "target_endian = \"middle\"",
                "target_has_atomic = \"big\"",
                "feature = \"x\"",
                "windows = \"x\"",
                "target_os",
                "r#true",
                "unix_",
                "test",
                "proc_macro",
                "foo = \"bar\"",
                "target_os = \"Linux\"",
                "é",
            ];
            format!("cfg({})", one(odd, "odd"))
        }
        // Three targets.
        _ => {
            for _ in 0..3 {
                cfg.targets.push((triple(if size == Deep { all } else { 4 }), vec![]));
            }
            match pick(3, "op") {
                0 => format!("cfg(all({}, {}))", leaf(4), leaf(5)),
                1 => format!("cfg(not(any({}, {})))", leaf(4), leaf(4)),
                _ => format!("cfg({})", leaf(12)),
            }
        }
    };
    let mut m = Pkg::member("m");
    let k = sym_kind(&m, "m->a kind");
    m = m.dep(Dep::new(1, "a").kind(k).target(Some(&t)));
    if part == 3 {
        // Declared again, for all targets or some, as something else.
        assume(k != BUILD);
        if yes("again") {
            m = m.dep(Dep::new(1, "a").kind(BUILD).target([None, Some("cfg(windows)")][pick(2, "target") as usize]));
        }
        ignore(&mut cfg, size, [0, 1]);
    }
    m = m.dep(Dep::new(2, "b"));
    w.pkgs.push(m);
    w.pkgs.push(Pkg::new("a").dep(Dep::new(3, "c")));
    w.pkgs.push(Pkg::new("b").dep(Dep::new(3, "c").opt(true).target(Some(&t))).feat("default", &["dep:c"]));
    w.pkgs.push(Pkg::new("c"));
    (w, cfg)
}

/// Packages whose library is named differently, and renamed dependencies on them.
/// part: 1: the dependent is no root, 2: not optional.
fn names(part: u64, size: Size) -> (World, Cfg) {
    let mut w = World { root: Some(0), opaque: part & 4 == 4, ..World::default() };
    let mut cfg = Cfg::default();
    let inner = part & 1 == 1;
    let opt = part & 2 == 0;
    let (name, lib) = [("x", "x"), ("x-y", "x-y"), ("x-y", "x_y"), ("x", "xlib"), ("x_y", "x_y"), ("x-y", "z_lib")][pick(6, "package") as usize];
    let dep = match pick(4, "name") {
        0 => name,
        1 => "ren",
        2 => "re-n",
        _ => "re_n",
    };
    let mut p = if inner { Pkg::new("p") } else { Pkg::member("p") };
    let k = if size == Deep { sym_kind(&p, "p->x kind") } else { NORMAL };
    assume(k != DEV || !opt);
    let mut d = Dep::new(if inner { 2 } else { 1 }, dep).kind(k).opt(opt);
    d.default = yes("default");
    p = p.dep(d);
    let v = |f: &str| match f {
        "n/" => format!("{dep}/u"),
        "n?/" => format!("{dep}?/v"),
        "dep" => format!("dep:{dep}"),
        f => f.to_string(),
    };
    let menu: &[&[&str]] = if opt { &[&[], &["dep"], &["n/"], &["n?/"], &["n?/", "dep"], &["g"]] } else { &[&[], &["n/"], &["g"]] };
    for (f, menu) in [("f", menu), ("g", if opt { &[&["dep"], &["n?/"], &["n/"]] } else { &[&["n/"]] })] {
        let t: Vec<String> = one(menu, f).iter().map(|x| v(x)).collect();
        p.feats.push((f.into(), t));
    }
    if opt {
        // Cargo's implicit feature, unless dep: is used.
        let dep_used = p.feats.iter().any(|f| f.1.iter().any(|v| v.starts_with("dep:")));
        let strong = p.feats.iter().any(|f| f.1.iter().any(|v| v.contains('/') && !v.contains('?')));
        if !dep_used && strong {
            p.feats.push(("zz".into(), vec![format!("dep:{dep}")]));
        } else if !dep_used {
            p.feats.push((dep.into(), vec![format!("dep:{dep}")]));
        }
    }
    let menu: Vec<&'static str> = if p.feats.iter().any(|f| f.0 == dep) { vec!["f", "g", dep] } else { vec!["f", "g"] };
    let on = some(&menu, "requested");
    if inner {
        w.pkgs.push(Pkg::member("m").dep(Dep::new(1, "p").feats(&on)));
    } else {
        w.requested = on.iter().map(|f| (0, f.to_string())).collect();
    }
    w.pkgs.push(p);
    use krates::cm::TargetKind::*;
    let mut x = Pkg::new(name).lib(lib).feat("default", &["v"]).feat("u", &[]).feat("v", &[]);
    if name.replace('-', "_") != lib.replace('-', "_") {
        x.kinds = [&[Lib][..], &[ProcMacro], &[CDyLib, RLib], &[RLib]][pick(4, "library kind") as usize];
    }
    w.pkgs.push(x);
    ignore(&mut cfg, size, [0, 1]);
    (w, cfg)
}

/// Two packages with the same name, told apart by version or source, and a package p
/// that depends on both.
/// part: what sets them apart (units), 10: p is no root, 20: opaque ids, 40: p comes
/// from the same checkout, 80: what sets them apart plus ten.
fn sources(part: u64, size: Size) -> (World, Cfg) {
    use Src::*;
    let mut w = World { root: Some(0), opaque: part / 20 % 2 == 1, ..World::default() };
    let mut cfg = Cfg::default();
    let inner = part / 10 % 2 == 1;
    let sibling = part / 40 % 2 == 1;
    // Version, source, directory, requirement.
    let (a, b) = match part % 10 + part / 80 * 10 {
        10 => (("1.0.0-a.1", Path, "x", "=1.0.0-a.1"), ("1.0.0-b.1", Path, "y", "=1.0.0-b.1")),
        11 => (("1.0.0-a.1", Path, "x", "*"), ("1.0.0-b.1", Path, "y", "^1.0.0-b")),
        12 => (("1.0.0-a.1", Git("?rev=a"), "x", "*"), ("1.0.0-b.1", Git("?rev=a"), "y", "*")),
        13 => (("1.0.0+a", Registry, "x", "^1"), ("1.0.0+b", Alt, "x", "^1")),
        14 => (("1.0.0", Git("?branch=é%/ß→"), "x", "*"), ("1.0.0", Git("?tag=é%/ß→"), "a/x", "^1")),
        15 => (("1.0.0", Git("ssh?rev=a"), "x", "*"), ("1.0.0", Git("?rev=a"), "x", "*")),
        16 => (("1.0.0", Registry, "x", "^1"), ("1.0.0", Sparse, "x", "^1")),
        17 => (("1.0.0", Git("ssh"), "x.git", "^1"), ("1.0.0-0", Git("?branch=a=b&c?d@e:f"), "x.git", "*")),
        // On Windows
        18 => (("1.0.0", Path, "x y%é", "^1"), ("1.0.0", Path, "x y%é/x", "*")),
        19 => (("1.0.0", Path, "a/x", "*"), ("1.0.0", Path, "b/x", "^1")),
        0 => (("1.0.0", Registry, "x", "^1"), ("2.0.0", Registry, "x", "^2")),
        1 => (("1.0.0", Registry, "x", "^1"), ("1.0.0", Alt, "x", "^1")),
        2 => (("1.0.0", Registry, "x", "^1"), ("1.0.0", Git(""), "x", "*")),
        3 => (("1.0.0", Git("?rev=a"), "x", "*"), ("1.0.0", Git("?rev=b"), "x", "*")),
        4 => (("1.0.0", Git("?branch=a"), "x", "*"), ("1.0.0", Git("?branch=a/b"), "x", "*")),
        5 => (("1.0.0", Git("?branch=a"), "x", "*"), ("1.0.0", Git("?branch=a#b"), "x", "^1")),
        6 => (("1.0.0", Path, "x", "*"), ("1.0.0", Path, "y", "^1")),
        7 => (("1.0.0", Path, "x y%é", "^1"), ("1.0.0", Registry, "x", "^1")),
        8 => (("1.0.0-a.1", Path, "x", "*"), ("1.0.0", Registry, "x", "^1")),
        _ => (("1.0.0", Git(""), "q", "^1"), ("1.0.0-a", Git("?tag=1"), "q", "*")),
    };
    let (a, b) = if yes("swapped") { (b, a) } else { (a, b) };
    let mut p = if inner { Pkg::new("p") } else { Pkg::member("p") };
    if sibling {
        p.src = a.1;
        p.dir = a.2;
    }
    let (x, y) = if inner { (2, 3) } else { (1, 2) };
    let form = pick(7, "names");
    let (n, o) = match form {
        0 => ("x", "ren"),
        1 => ("ren", "x"),
        2 => ("ren", "other"),
        // Cargo takes these for different names, but they look the same in the code.
        6 => ("r-n", "r_n"),
        // The same name, in different tables.
        _ => ("x", "x"),
    };
    let ka = sym_kind(&p, "kind");
    let kb = sym_kind(&p, "kind");
    let apart = form < 3 || form == 6;
    assume(apart || form == 5 || ka != kb);
    // A name in Cargo.toml stands for one source.
    assume(apart || a.1 == Registry && b.1 == Registry);
    // Declared for different targets.
    let (ta, tb) = if form == 5 { (Some("cfg(unix)"), Some("cfg(windows)")) } else { (None, None) };
    // Optional, too.
    let opt = form == 4;
    assume(!opt || (ka != DEV && kb != DEV));
    p = p.dep(Dep::new(x, n).kind(ka).req(a.3).opt(opt).target(ta)).dep(Dep::new(y, o).kind(kb).req(b.3).opt(opt).target(tb));
    p = if form == 6 {
        p
    } else if opt {
        p.feat("f", &["dep:x"]).feat("g", &["x?/u"])
    } else { p.feat("f", &[&format!("{n}/u")]).feat("g", &[&format!("{o}/u")]) };
    let on = if form == 6 { vec![] } else { some(&["f", "g"], "requested") };
    if inner {
        w.pkgs.push(Pkg::member("m").dep(Dep::new(1, "p").feats(&on)));
    } else {
        w.requested = on.iter().map(|f| (0, f.to_string())).collect();
    }
    w.pkgs.push(p);
    for s in [a, b] {
        w.pkgs.push(Pkg::new("x").version(s.0).src(s.1).dir(s.2).feat("u", &[]));
    }
    if part % 10 + part / 80 * 10 >= 18 {
        for p in &mut w.pkgs {
            p.base = WINDOWS;
        }
    }
    ignore(&mut cfg, size, [0, 1]);
    (w, cfg)
}

/// Exclusion by name, version and url of packages, some of which share a name.
fn exclusion(part: u64, size: Size) -> (World, Cfg) {
    let mut w = World { opaque: part & 1 == 1, ..World::default() };
    let mut cfg = Cfg::default();
    // m0 -> a -> x@1 -> leaf, m1 -> b -> x@2 -> leaf2, a -> m1?
    w.pkgs.push(Pkg::member("m0").dep(Dep::new(2, "a")).dep(Dep::new(4, "x").opt(true)).feat("f", &["x/u"]).feat("d", &["dep:x"]));
    w.pkgs.push(Pkg::member("m1").dep(Dep::new(3, "b")).dep(Dep::new(2, "a").kind(DEV)));
    w.pkgs.push(Pkg::new("a").dep(Dep::new(4, "x")).dep(Dep::new(7, "leaf").req("^1.0.0-a")));
    w.pkgs.push(Pkg::new("b").src(Src::Git("?rev=1")).dep(Dep::new(5, "x").req("^2").feats(&["u"])).dep(Dep::new(8, "alt")));
    w.pkgs.push(Pkg::new("x").feat("u", &[]).dep(Dep::new(6, "only-x").feats(&["w"])));
    w.pkgs.push(Pkg::new("x").version("2.1.0").feat("u", &["only-x/w"]).dep(Dep::new(6, "only-x").kind(BUILD)));
    w.pkgs.push(Pkg::new("only-x").feat("w", &[]));
    w.pkgs.push(Pkg::new("leaf").version("1.0.0-a+b"));
    // The same name and version as the first.
    w.pkgs.push(Pkg::new("x").src(Src::Alt));
    if yes("requested") {
        w.requested.push((0, "f".into()));
    }
    if part & 2 == 2 {
        w.root = Some(0);
    }
    let menu: [(&str, &[usize]); 20] = [
        ("x", &[4, 5, 8]),
        ("x:1.0.0", &[4, 8]),
        ("https://alt.example/index#x", &[8]),
        ("https://alt.example/index#x@2.1.0", &[]),
        ("x@2.1.0", &[5]),
        ("x:2.0.0", &[]),
        ("a", &[2]),
        ("b", &[3]),
        ("m0", &[0]),
        ("m1", &[1]),
        ("leaf:1.0.0-a+b", &[7]),
        ("leaf:1.0.0-a", &[]),
        ("leaf:1.0.0", &[]),
        ("https://github.com/rust-lang/crates.io-index#x", &[4, 5]),
        ("https://github.com/rust-lang/crates.io-index#x:1.0.0", &[4]),
        ("https://h/b", &[3]),
        ("https://h/b#1.0.0", &[3]),
        ("https://h/c#b", &[]),
        ("https://github.com/rust-lang/crates.io-index#only-x@1.0.0", &[6]),
        ("nothing", &[]),
    ];
    cfg.excluded = vec![false; w.pkgs.len()];
    for _ in 0..if size == Deep { 3 } else { 2 } {
        let (s, ps) = &menu[pick(menu.len() as u64, "spec") as usize];
        cfg.exclude.push(s.to_string());
        for p in ps.iter() {
            cfg.excluded[*p] = true;
        }
    }
    if part & 4 == 4 {
        ignore(&mut cfg, size, [1, 1]);
    }
    (w, cfg)
}

/// The choice of roots.
fn roots(part: u64, size: Size) -> (World, Cfg) {
    let mut w = World { opaque: part & 1 == 1, ..World::default() };
    let mut cfg = Cfg::default();
    for i in 0..3 {
        let mut p = Pkg::member(NAMES[i]).dep(Dep::new(3 + i, ["d0", "d1", "d2"][i]));
        if i > 0 && (size == Deep || part & 2 == 2) {
            p = p.dep(Dep::new(i - 1, NAMES[i - 1]).kind(DEV));
        }
        w.pkgs.push(p);
    }
    w.pkgs[1].dir = "sub/p1";
    w.pkgs[2].dir = "p2.toml";
    for n in ["d0", "d1", "d2"] {
        w.pkgs.push(Pkg::new(n));
    }
    // d1 is a path package that is no member.
    w.pkgs[4].src = Src::Path;
    w.root = match pick(4, "root") {
        3 => None,
        i => Some(i as usize),
    };
    cfg.workspace = yes("workspace");
    let menu: &[(&str, &[usize])] = &[
        ("/k/p0/Cargo.toml", &[0]),
        ("/k/p0", &[0]),
        ("/k/sub/p1", &[1]),
        ("/k/sub/p1/Cargo.toml", &[1]),
        ("/k/p2.toml/", &[2]),
        ("/k/p1", &[]),
        ("/k/d1", &[]),
        ("/k", &[]),
        ("/k/Cargo.toml", &[]),
        ("/elsewhere/p0", &[]),
    ];
    let linked: &[(&str, &[usize])] = &[
        ("/l/p0/Cargo.toml", &[0]),
        ("p0", &[0]),
        ("/m/k/p0/../sub/../p0", &[0]),
        ("lnk/p1", &[1]),
        ("./lnk/../p1", &[]),
        ("/l/lnk/p1/Cargo.toml", &[1]),
        ("p2.toml", &[2]),
        ("/k/p2.toml/Cargo.toml", &[2]),
        ("/l/d1/", &[]),
        ("/l", &[]),
        ("/m/k/Cargo.toml", &[]),
        (".", &[]),
        ("p3", &[]),
    ];
    let menu = match part / 4 {
        // Nothing of it is there.
        1 => {
            crate::fs::mount(&w, false);
            menu
        }
        // It is there.
        2 => {
            crate::fs::mount(&w, true);
            menu
        }
        // Over links.
        3 => {
            crate::fs::mount(&w, true);
            linked
        }
        // The metadata has links.
        4 => {
            crate::fs::mount(&w, true);
            for p in &mut w.pkgs {
                p.base = "/l";
            }
            linked
        }
        _ => menu,
    };
    let n = pick(if size == Deep { 4 } else { 3 }, "includes");
    if n > 0 {
        let mut inc = vec![false; 6];
        for _ in 0..n {
            let (s, ps) = &menu[pick(menu.len() as u64, "include") as usize];
            cfg.include.push(s.to_string());
            for p in ps.iter() {
                inc[*p] = true;
            }
        }
        if n == 1 && ["/k", "/k/Cargo.toml", "/l", "/m/k/Cargo.toml", "."].contains(&cfg.include[0].as_str()) {
            inc = vec![true, true, true, false, false, false];
        }
        cfg.included = Some(inc);
    }
    (w, cfg)
}

/// Cycles among packages and features, features that are not in the manifest.
fn cycles(part: u64, size: Size) -> (World, Cfg) {
    let mut w = World { ..World::default() };
    let mut cfg = Cfg::default();
    if part & 1 == 1 {
        w.root = Some(0);
    }
    let mut m = Pkg::member("m").feat("f", one(&[&["g"], &["h"], &["h", "g"], &["a/x"]], "m.f")).feat("g", one(&[&["f"], &["h"], &["a/x", "f"]], "m.g")).feat("h", &["g"]);
    m = m.dep(Dep::new(1, "a"));
    if yes("self") {
        // A package may depend on itself for development.
        m = m.dep(Dep::new(0, if part & 1 == 1 { "me" } else { "m" }).kind(DEV).feats(&some(&["f", "h"], "self features")));
    }
    w.pkgs.push(m);
    let mut a = Pkg::member("a").feat("x", one(&[&["y"], &["m/f"], &["b/z"]], "a.x")).feat("y", &["x"]);
    a = a.dep(Dep::new(0, "m").kind(DEV).feats(&some(&["g"], "a->m features"))).dep(Dep::new(2, "b"));
    if part & 2 == 2 {
        a = a.feat("default", &["y", "hid"]).feat("hid", &["b/z"]);
        a.hidden = some(&["hid", "default"], "hidden");
    }
    w.pkgs.push(a);
    let mut b = Pkg::new("b").feat("z", &["zz"]).feat("zz", &["z"]);
    b.hidden = some(&["zz"], "hidden");
    w.pkgs.push(b);
    for f in some(&["f", "g", "h"], "requested") {
        w.requested.push((0, f.into()));
    }
    ignore(&mut cfg, size, [1, 2]);
    if size == Deep {
        exclude_one(&w, &mut cfg);
    }
    (w, cfg)
}

/// Dependencies under names that other packages have, with requirements that match more
/// than one package. part: 1: with features, 2: p is no root, 4: path packages.
fn swaps(part: u64, size: Size) -> (World, Cfg) {
    let mut w = World { root: Some(0), ..World::default() };
    let mut cfg = Cfg::default();
    let feats = part & 1 == 1;
    let inner = part & 2 == 2;
    let first = 1 + inner as usize;
    let mut p = if inner { Pkg::new("p") } else { Pkg::member("p") };
    let lib = ["y", "x"][pick(2, "lib") as usize];
    let mut taken: Vec<&str> = vec![];
    for (i, what, reqs, menu) in
        [(0, "x", ["^1", "*", ">=1"], ["x", "y", "r"]), (1, "y", ["*", "*", "*"], ["y", "x", "r"]), (2, "x2", ["^2", "*", ">=1"], ["s", "x", "y"])]
    {
        let n = pick(4, what) as usize;
        if n == 3 || taken.contains(&menu[n]) {
            // Not there.
            taken.push("");
            continue;
        }
        taken.push(menu[n]);
        let k = if size == Deep { sym_kind(&p, "kind") } else { NORMAL };
        let r = if i == 1 { "*" } else { one(&reqs, "req") };
        p.deps.push(Dep::new(first + i, menu[n]).req(r).kind(k));
        if feats {
            p = p.feat(["f", "g", "h"][i], &[&format!("{}/u", menu[n])]);
        }
    }
    if yes("reversed") {
        p.deps.reverse();
    }
    let on = if feats { some(&["f", "g", "h"], "requested").into_iter().filter(|f| p.table(f).is_some()).collect() } else { vec![] };
    if inner {
        w.pkgs.push(Pkg::member("m").dep(Dep::new(1, "p").feats(&on)));
    } else {
        w.requested = on.iter().map(|f| (0, f.to_string())).collect();
    }
    w.pkgs.push(p);
    let src = if part & 4 == 4 { Src::Path } else { Src::Registry };
    for (n, v, l) in [("x", "1.0.0", "x"), ("y", "1.0.0", lib), ("x", "2.0.0", "x")] {
        w.pkgs.push(Pkg::new(n).version(v).src(src).lib(l).dir(if v == "2.0.0" { "x2" } else { n }).feat("u", &[]));
    }
    ignore(&mut cfg, size, [0, 1]);
    (w, cfg)
}

/// One package declared twice, as dependencies of different kinds and with different
/// features, of which one enables an optional dependency.
/// part: 1: through another package, 2: the dependency is optional, 4: weak
fn twice(part: u64, size: Size) -> (World, Cfg) {
    let mut w = World { ..World::default() };
    let mut cfg = Cfg::default();
    let inner = part & 1 == 1;
    let mut m = Pkg::member("m");
    let at = if inner { 2 } else { 1 };
    let dec = |p: &Pkg, what: &str| {
        let k = sym_kind(p, what);
        let mut d = Dep::new(at, "a").kind(k).feats(&some(&["x", "y"], what));
        d.default = yes("default");
        d
    };
    if inner {
        let d = dec(&m, "m->a");
        m = m.dep(d).dep(Dep::new(1, "n").kind(NORMAL));
        let mut n = Pkg::new("n");
        let d = dec(&n, "n->a");
        n = n.dep(d);
        w.pkgs.push(m);
        w.pkgs.push(n);
    } else {
        let (d, e) = (dec(&m, "m->a"), dec(&m, "m->a again"));
        assume(d.kind != e.kind);
        w.pkgs.push(m.dep(d).dep(e));
    }
    let mut a = Pkg::new("a");
    let k = if size == Size::Small { NORMAL } else { sym_kind(&a, "a->b") };
    a = a.dep(Dep::new(at + 1, "b").opt(true).kind(k)).feat("x", &["dep:b"]);
    a = a.feat("y", if part & 4 == 4 { &["b?/z"] } else { &["b/z"] });
    if part & 2 == 2 {
        a = a.feat("default", one(&[&["x"], &["y"]], "default"));
    }
    w.pkgs.push(a);
    w.pkgs.push(Pkg::new("b").feat("z", &["dep:c"]).dep(Dep::new(at + 2, "c").opt(true)));
    w.pkgs.push(Pkg::new("c"));
    if size != Small {
        ignore(&mut cfg, size, [1, 2]);
    }
    (w, cfg)
}

/// Features that only the index lists.
/// part: 1: without the features that optional dependencies imply
fn indexed(part: u64, size: Size) -> (World, Cfg) {
    let mut w = World { ..World::default() };
    let mut cfg = Cfg::default();
    w.pkgs.push(Pkg::member("m").dep(Dep::new(1, "a").feats(&some(&["f", "x"], "m->a"))).dep(Dep::new(3, "o")));
    let mut a = Pkg::new("a").dep(Dep::new(2, "x").opt(true)).dep(Dep::new(4, "y").opt(true).kind(BUILD));
    a = a.feat("default", one(&[&[], &["g"], &["y"]], "default")).feat("f", one(&[&["x"], &["x?/v", "x"], &["g", "x/v"], &["y"]], "f")).feat("g", one(&[&["x?/u"], &["y?/u"], &["x"]], "g"));
    a = a.feat("x", &["dep:x"]).feat("y", &["dep:y"]);
    // A strong reference to an optional dependency needs its implicit feature there.
    a.hidden = some(if size == Size::Small { &["f", "x"] } else { &["f", "x", "y"] }, "hidden");
    for h in ["x", "y"] {
        // The fix-up finds implied features where they are mentioned.
        assume(part & 1 == 0 || !a.hidden.contains(&h) || a.feats.iter().any(|f| f.1.iter().any(|v| v == h)));
    }
    w.pkgs.push(a);
    w.pkgs.push(Pkg::new("x").feat("u", &[]).feat("v", &["u"]));
    // Not from crates.io.
    let mut o = Pkg::new("o").src(Src::Alt).dep(Dep::new(2, "x")).feat("default", &["z"]).feat("z", &["x/u"]);
    o.hidden = some(&["z"], "hidden");
    w.pkgs.push(o);
    w.pkgs.push(Pkg::new("y").feat("u", &[]));
    let mut ix = vec![];
    for p in &w.pkgs {
        // Entries that are not for this version.
        ix.push((p.name, "1.0.1", vec![("default".to_string(), vec!["u".to_string(), "wrong".to_string()])]));
        ix.push((p.name, p.version, p.feats.iter().filter(|f| part & 1 == 0 || f.1 != [format!("dep:{}", f.0)]).cloned().collect()));
    }
    cfg.index = Some(ix);
    if size != Small {
        ignore(&mut cfg, size, [1, 1]);
    }
    (w, cfg)
}

/// Members that depend on each other, of which some are roots.
/// part: 1: p0 is the root of the metadata, 2: features vary instead of kinds
fn members(part: u64, size: Size) -> (World, Cfg) {
    let mut w = World { root: (part & 1 == 1).then_some(0), ..World::default() };
    let mut cfg = Cfg::default();
    let mut p0 = Pkg::member("p0");
    let k = sym_kind(&p0, "p0->p1");
    assume(k != BUILD);
    p0 = p0.dep(Dep::new(1, "p1").kind(k)).dep(Dep::new(1, "p1").kind(BUILD).feats(&["f"]));
    w.pkgs.push(p0);
    let feats = part & 2 == 2;
    let mut p1 = Pkg::member("p1").feat("f", if feats { one(&[&[], &["x/u"], &["g"]], "p1.f") } else { &["x/u"] }).feat("g", &["dep:y"]);
    let k = if feats { NORMAL } else { sym_kind(&p1, "p1->x") };
    p1 = p1.dep(Dep::new(4, "x").kind(k));
    p1 = p1.dep(Dep::new(5, "y").opt(true));
    w.pkgs.push(p1);
    let mut p2 = Pkg::member("p2");
    let k = if feats { NORMAL } else { sym_kind(&p2, "p2->p1") };
    let g = if feats { some(&["g"], "p2->p1") } else { vec!["g"] };
    p2 = p2.dep(Dep::new(1, "p1").kind(k).feats(&g));
    w.pkgs.push(p2);
    w.pkgs.push(Pkg::member("p3").dep(Dep::new(4, "x").kind(BUILD)));
    w.pkgs.push(Pkg::new("x").feat("u", &[]).dep(Dep::new(5, "y").kind(BUILD)));
    w.pkgs.push(Pkg::new("y"));
    if yes("requested") {
        w.requested.push((1, "f".into()));
    }
    cfg.workspace = yes("workspace");
    let inc: &[&[usize]] = &[&[], &[0], &[0, 3], &[2]];
    let inc = one(inc, "include");
    if !inc.is_empty() {
        cfg.include = inc.iter().map(|p| format!("/k/{}", NAMES[*p])).collect();
        cfg.included = Some((0..6).map(|p| inc.contains(&p)).collect());
    }
    ignore(&mut cfg, size, [1, 2]);
    (w, cfg)
}

/// Versions of a package that order differently as text, whose library is named
/// differently.
/// part: 1: not optional, 2: opaque ids, 4: p is no root
fn libs(part: u64, size: Size) -> (World, Cfg) {
    let mut w = World { root: Some(0), opaque: part & 2 == 2, ..World::default() };
    let mut cfg = Cfg::default();
    let opt = part & 1 == 0;
    let inner = part & 4 == 4;
    let first = 1 + inner as usize;
    let mut p = if inner { Pkg::new("p") } else { Pkg::member("p") };
    let libs: [&'static str; 2] = [["x-y", "lib"], ["lib", "lib"], ["lib", "x_y"], ["lib", "other"], ["y", "lib"]][pick(5, "libs") as usize];
    let (va, vb) = [("9.0.0", "10.0.0"), ("0.9.0", "0.10.0"), ("1.0.0-rc.9", "2.0.0-rc.10")][pick(3, "versions") as usize];
    let swapped = yes("swapped");
    // p depends on one, or on both.
    let (one_of, other) = if swapped { (1, 0) } else { (0, 1) };
    let reqs = |i: usize| match if i == 0 { va } else { vb } {
        "9.0.0" => "^9",
        "10.0.0" => "^10",
        "0.9.0" => "^0.9",
        "0.10.0" => "^0.10",
        "1.0.0-rc.9" => "=1.0.0-rc.9",
        _ => "^2.0.0-rc.1",
    };
    let name = one(&["x-y", "ren", "re-n"], "name");
    p = p.dep(Dep::new(first + one_of, name).req(reqs(one_of)).opt(opt));
    let both = yes("both");
    if both {
        p = p.dep(Dep::new(first + other, "old").req(reqs(other)).opt(opt));
    }
    let menu: &[&[String]] = &[
        &[],
        &[format!("dep:{name}")],
        &[format!("{name}/u")],
        &[format!("{name}?/u"), format!("dep:{name}")],
        &["old/u".to_string()],
    ];
    let mut n = pick(if both { 5 } else { 4 }, "f") as usize;
    if !opt && (n == 1 || n == 3) {
        n = 2;
    }
    p.feats.push(("f".into(), menu[n].to_vec()));
    if opt {
        p.feats.push(("zz".into(), vec![format!("dep:{name}")]));
        if both {
            p.feats.push(("zo".into(), vec!["dep:old".into()]));
        }
    }
    let on = some(&["f"], "requested");
    if inner {
        w.pkgs.push(Pkg::member("m").dep(Dep::new(1, "p").feats(&on)));
    } else {
        w.requested = on.iter().map(|f| (0, f.to_string())).collect();
    }
    // Both are there in any case.
    p = p.dep(Dep::new(first + 2, "z"));
    w.pkgs.push(p);
    for (i, v) in [va, vb].into_iter().enumerate() {
        w.pkgs.push(Pkg::new("x-y").version(v).lib(libs[i]).feat("u", &[]));
    }
    let mut z = Pkg::new("z").dep(Dep::new(first + other, "x-y").req(reqs(other)));
    if size == Deep {
        let k = sym_kind(&z, "z->other");
        z.deps[0].kind = k;
    }
    w.pkgs.push(z);
    ignore(&mut cfg, size, [0, 1]);
    (w, cfg)
}

/// A name that outlives the world.
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// Packages without a library, that cargo metadata shows only if they are members.
/// part: 1: b is a member, 2: there is another b with a library, 4: m is no root
fn bins(part: u64, size: Size) -> (World, Cfg) {
    let mut w = World { root: (part & 4 == 0).then_some(0), ..World::default() };
    let mut cfg = Cfg::default();
    let member = part & 1 == 1;
    let two = part & 2 == 2;
    let mut m = Pkg::member("m");
    let opt = yes("optional");
    let k = sym_kind(&m, "m->b");
    assume(!opt || k != DEV);
    let g = some(&["g"], "m->b");
    m = m.dep(Dep::new(2, "b").kind(k).opt(opt).feats(&g));
    if two {
        m = m.dep(Dep::new(4, "old").req("^2").opt(true));
    }
    let menu: &[&[&str]] = &[&[], &["b/g"], &["dep:b"], &["dep:b", "b?/g"], &["l/f"], &["old/g"], &["dep:old", "b/g"]];
    let mut n = pick(if two { 7 } else { 5 }, "m.f") as usize;
    if !opt && matches!(n, 2 | 3) {
        n = 1;
    }
    m = m.feat("f", menu[n]);
    if opt {
        m = m.feat("zb", &["dep:b"]);
    }
    if two {
        m = m.feat("zo", &["dep:old"]);
    }
    m = m.dep(Dep::new(1, "l"));
    w.pkgs.push(m);
    let l = Pkg::new("l").feat("f", one(&[&[][..], &["b/g"], &["dep:b"], &["x/v"]], "l.f"));
    let lopt = yes("l->b optional");
    assume(lopt || l.feats[0].1.first().is_none_or(|v| v != "dep:b"));
    let mut l = l.dep(Dep::new(2, "b").opt(lopt));
    if lopt {
        l = l.feat("zb", &["dep:b"]);
    }
    w.pkgs.push(l.dep(Dep::new(3, "x")));
    let b = if member { Pkg::member("b") } else { Pkg::new("b") };
    w.pkgs.push(b.bin_only().feat("g", one(&[&[][..], &["x/v"]], "b.g")).dep(Dep::new(3, "x").feats(&["u"])).dep(Dep::new(5, "y")));
    w.pkgs.push(Pkg::new("x").feat("u", &[]).feat("v", &["dep:y"]).dep(Dep::new(5, "y").opt(true)));
    w.pkgs.push(Pkg::new("b").version("2.0.0").feat("g", &[]));
    w.pkgs.push(Pkg::new("y"));
    if yes("requested") {
        w.requested.push((0, "f".into()));
    }
    if size == Size::Small {
        return (w, cfg);
    }
    cfg.workspace = part & 4 == 0 && yes("workspace");
    ignore(&mut cfg, size, [0, 1]);
    (w, cfg)
}

/// More of one thing than fits into a machine word; what varies is at the ends and around
/// the width of a word.
/// part: what there is much of (units), tens: 260 instead of 70
fn big(part: u64, size: Size) -> (World, Cfg) {
    let mut w = World { root: Some(0), ..World::default() };
    let mut cfg = Cfg::default();
    let n = if part / 10 == 1 { 260 } else { 70 };
    // Where things vary.
    let spot = |what: &str| [1, n / 2, n - 6, n - 1, 31, 63, 64, 65][pick(if size == Size::Small { 3 } else { 8 }, what) as usize];
    match part % 10 {
        // Dependencies of one package.
        0 => {
            let s = spot("spot");
            let mut m = Pkg::member("m").feat("f", &[&format!("dep:d{}", n - 2), &format!("d{}/u", n - 1), &format!("d{s}?/u")]);
            w.pkgs.push(Pkg::member("m"));
            for i in 0..n {
                let name = leak(format!("d{i}"));
                let k = if i == s { sym_kind(&m, "kind") } else { NORMAL };
                assume(k != DEV);
                m = m.dep(Dep::new(i + 1, name).kind(k).opt(i + 2 >= n || i == s));
                w.pkgs.push(Pkg::new(name).feat("u", &[]));
            }
            m = m.feat("zz", &[&format!("dep:d{s}"), &format!("dep:d{}", n - 1)]);
            w.pkgs[0] = m;
            w.requested = some(&["f", "zz"], "requested").iter().map(|f| (0, f.to_string())).collect();
        }
        // Packages in a row.
        1 => {
            let s = spot("spot");
            let t = yes("feature");
            for i in 0..n {
                let name = leak(format!("c{i}"));
                let mut p = if i == 0 { Pkg::member(name) } else { Pkg::new(name) };
                p = p.feat("u", &[]);
                if i + 1 < n {
                    let next = format!("c{}", i + 1);
                    let k = if i == s { sym_kind(&p, "kind") } else { NORMAL };
                    p = p.feat("default", if t { &["u"] } else { &[] }).feat("v", &[&format!("{next}/v")]);
                    p = p.dep(Dep::new(i + 1, &next).kind(k));
                } else {
                    p = p.feat("v", &["u"]);
                }
                w.pkgs.push(p);
            }
            w.requested = some(&["v"], "requested").iter().map(|f| (0, f.to_string())).collect();
        }
        // Features in a row.
        2 => {
            let s = spot("spot");
            let mut d = Dep::new(1, "a");
            d.feats = vec![format!("f{s}")];
            w.pkgs.push(Pkg::member("m").dep(d));
            let mut a = Pkg::new("a");
            for i in 0..n {
                let next = format!("f{}", i + 1);
                a = a.feat(&format!("f{i}"), if i + 1 == n { &["dep:b", "b?/u"] } else { &[""] });
                if i + 1 < n {
                    a.feats[i].1 = vec![next];
                }
            }
            let k = sym_kind(&a, "kind");
            w.pkgs.push(a.dep(Dep::new(2, "b").opt(true).kind(k)));
            w.pkgs.push(Pkg::new("b").feat("u", &[]));
        }
        // Dependents of one package, each with a feature of its own.
        3 => {
            let s = spot("spot");
            let mut m = Pkg::member("m");
            let mut x = Pkg::new("x").feat("default", &[]);
            w.pkgs.push(Pkg::member("m"));
            for i in 0..n {
                let name = leak(format!("d{i}"));
                let f = format!("u{i}");
                let k = if i == s { sym_kind(&m, "kind") } else { NORMAL };
                m = m.dep(Dep::new(i + 1, name).kind(k));
                w.pkgs.push(Pkg::new(name).dep(Dep::new(n + 1, "x").feats(&[&f])));
                x = x.feat(&f, &[]);
            }
            w.pkgs[0] = m;
            w.pkgs.push(x);
        }
        // Members.
        4 => {
            let s = spot("spot");
            w.root = yes("root").then_some(s);
            for i in 0..n {
                let name = leak(format!("p{i}"));
                let mut p = Pkg::member(name);
                let k = if i == s { sym_kind(&p, "kind") } else { DEV };
                let to = if i == s { 0 } else { s };
                // A cycle through development dependencies.
                p = p.dep(Dep::new(to, leak(format!("p{to}"))).kind(k));
                w.pkgs.push(p);
            }
            cfg.workspace = yes("workspace");
            if yes("include") {
                cfg.include = vec![format!("/k/p{}", n - 1), format!("/k/p{s}/Cargo.toml")];
                cfg.included = Some((0..n).map(|p| p == s || p + 1 == n).collect());
            }
        }
        // Declarations of one dependency, each for a target of its own.
        5 => {
            let s = spot("spot");
            let mut m = Pkg::member("m");
            for i in 0..n {
                let k = if i == s { sym_kind(&m, "kind") } else { NORMAL };
                m = m.dep(Dep::new(1, "x").kind(k).target(Some(&format!("cfg(target_feature = \"t{i}\")"))).feats(&[&format!("u{i}")]));
            }
            w.pkgs.push(m);
            let mut x = Pkg::new("x").feat("default", &[]);
            for i in 0..n {
                x = x.feat(&format!("u{i}"), &[]);
            }
            w.pkgs.push(x);
            let f = if yes("promised") { vec![format!("t{s}"), format!("t{}", n - 1)] } else { vec!["t".to_string()] };
            cfg.targets.push((crate::target::TARGETS[0].triple, f));
        }
        // Parts of an expression.
        6 => {
            let s = spot("spot");
            let t: String = match pick(3, "op") {
                0 => format!("cfg({}{}{})", "not(".repeat(s), leaf(2), ")".repeat(s)),
                1 => format!("cfg(any({}{}))", "windows, ".repeat(s), leaf(2)),
                _ => format!("cfg(all({}{}))", "unix, ".repeat(s), leaf(2)),
            };
            w.pkgs.push(Pkg::member("m").dep(Dep::new(1, "x").target(Some(&t))));
            w.pkgs.push(Pkg::new("x"));
            for i in 0..if size == Size::Small { 1 } else { s } {
                cfg.targets.push((crate::target::TARGETS[(i + 1 == s) as usize].triple, vec![]));
            }
        }
        // Packages of one name.
        _ => {
            let s = spot("spot");
            let mut m = Pkg::member("m");
            w.pkgs.push(Pkg::member("m"));
            for i in 0..n {
                let k = if i == s { sym_kind(&m, "kind") } else { NORMAL };
                let v = leak(format!("{i}.0.0"));
                let ren = format!("x{i}");
                m = m.dep(Dep::new(i + 1, &ren).kind(k).req(leak(format!("={v}"))));
                w.pkgs.push(Pkg::new("x").version(v));
            }
            w.pkgs[0] = m;
        }
    }
    ignore(&mut cfg, size, [1, 1]);
    (w, cfg)
}

/// a: family, b: variant (+100: deep, +200: small), c: what to check.
pub fn world(a: u64, b: u64, c: u64) {
    let (w, cfg) = world_of(a, b);
    check_world(&w, &cfg, c);
}
pub fn world_of(a: u64, b: u64) -> (World, Cfg) {
    let (b, size) = (b % 100, [Normal, Deep, Small][(b / 100) as usize]);
    match a {
        0 => mesh(b, size),
        1 => chain(b, size),
        2 => fan(b, size),
        3 => decls(b, size),
        4 => targets(b, size),
        5 => names(b, size),
        6 => sources(b, size),
        7 => exclusion(b, size),
        8 => roots(b, size),
        9 => cycles(b, size),
        10 => swaps(b, size),
        11 => twice(b, size),
        12 => indexed(b, size),
        13 => members(b, size),
        14 => libs(b, size),
        15 => big(b, size),
        16 => bins(b, size),
        _ => unreachable!(),
    }
}
