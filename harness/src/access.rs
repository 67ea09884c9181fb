//! The accessors of metadata, and its words and texts.
use crate::strs::{inr, is_name, one_of, sym_bytes, sym_str};
use crate::sym::*;
use krates::cm::{self, CrateType as C, DependencyKind as DK, Edition as E, TargetKind as T};
use krates::{DepKind, Edge, Kid, Node, PackageId};
use std::str::FromStr;

fn package(id: String, manifest: String) -> cm::Package {
    cm::Package {
        name: "p".into(),
        version: krates::semver::Version::new(1, 0, 0),
        authors: vec![],
        id: PackageId { repr: id },
        source: None,
        description: None,
        dependencies: vec![],
        license: None,
        license_file: None,
        targets: vec![],
        features: Default::default(),
        manifest_path: manifest.into(),
        categories: vec![],
        keywords: vec![],
        readme: None,
        repository: None,
        homepage: None,
        documentation: None,
        edition: E::E2021,
        metadata: serde_json::Value::Null,
        links: None,
        publish: None,
        default_run: None,
        rust_version: None,
    }
}
fn id() -> String {
    String::from_utf8(sym_bytes(1, "id", |b| inr(b, b'a', b'd'))).unwrap()
}
fn ids(max: u64) -> Vec<PackageId> {
    (0..pick(max + 1, "ids")).map(|_| PackageId { repr: id() }).collect()
}

/// a: packages, b: most members
fn packages(n: u64, most: u64) {
    let dir = |i: u64| ["/w", "/w/m", "/v"][i as usize];
    let pkgs: Vec<cm::Package> = (0..n).map(|_| package(id(), format!("{}/Cargo.toml", dir(pick(3, "directory"))))).collect();
    for i in 0..pkgs.len() {
        for j in 0..i {
            assume(pkgs[i].id.repr != pkgs[j].id.repr);
            assume(pkgs[i].manifest_path != pkgs[j].manifest_path);
        }
    }
    let members = ids(most);
    let default = (pick(2, "default members") == 1).then(|| ids(most));
    let root = pick(3, "root");
    let root_id = PackageId { repr: id() };
    let ws = dir(pick(3, "workspace"));
    let trailing = pick(2, "trailing") == 1;
    let m = cm::Metadata {
        packages: pkgs,
        workspace_members: members,
        workspace_default_members: cm::WorkspaceDefaultMembers(default),
        resolve: (root > 0).then(|| cm::Resolve { nodes: vec![], root: (root == 2).then(|| root_id.clone()) }),
        workspace_root: format!("{ws}{}", if trailing { "/" } else { "" }).into(),
        target_directory: "/t".into(),
        workspace_metadata: serde_json::Value::Null,
        version: 1,
    };
    let at = |p: Option<&cm::Package>| p.and_then(|p| m.packages.iter().position(|q| std::ptr::eq(p, q)));
    let manifest = format!("{ws}/Cargo.toml");
    let want = match root {
        0 => (0..n as usize).find(|i| m.packages[*i].manifest_path.as_str() == manifest),
        1 => None,
        _ => (0..n as usize).find(|i| m.packages[*i].id.repr == root_id.repr),
    };
    check(at(m.root_package()) == want, "root");
    let is = |l: &[PackageId], i: usize| l.iter().any(|x| x.repr == m.packages[i].id.repr);
    let listed = |l: &[PackageId]| (0..n as usize).filter(|i| is(l, *i)).collect::<Vec<_>>();
    let got = |l: Vec<&cm::Package>| l.into_iter().map(|p| at(Some(p)).unwrap_or(usize::MAX)).collect::<Vec<_>>();
    check(got(m.workspace_packages()) == listed(&m.workspace_members), "members");
    if let Some(d) = m.workspace_default_members.0.as_ref() {
        check(got(m.workspace_default_packages()) == listed(d), "default-members");
        check(m.workspace_default_members.len() == d.len(), "default-members-list");
    }
    for i in 0..n as usize {
        let id = PackageId { repr: m.packages[i].id.repr.clone() };
        check(at(Some(&m[&id])) == Some(i), "index");
    }
    reach("end");
}

/// a: longest directory, b: longest file name
fn files(a: u64, b: u64) {
    let is = |b: u8| one_of(b, b"xy/.");
    let dir = match pick(3, "directory kind") {
        0 => String::new(),
        1 => format!("/{}", sym_str(1, a.max(1), "directory", is)),
        _ => sym_str(1, a.max(1), "directory", is),
    };
    let manifest = if dir.is_empty() { "Cargo.toml".to_string() } else { format!("{dir}/Cargo.toml") };
    let mut p = package("p".into(), manifest);
    let some = |n: &str| (pick(2, n) == 1).then(|| sym_str(1, b, n, |b| one_of(b, b"xy/.")));
    let (l, r) = (some("license file"), some("readme"));
    p.license_file = l.as_ref().map(|l| l.as_str().into());
    p.readme = r.as_ref().map(|r| r.as_str().into());
    // Slashes may be repeated, and a dot be left out where it means nothing.
    let norm = |s: &str| {
        let mut out: Vec<String> = vec![];
        if s.starts_with('/') {
            out.push("/".into());
        }
        for (i, c) in s.split('/').enumerate() {
            if !c.is_empty() && (c != "." || i == 0) {
                out.push(c.into());
            }
        }
        out
    };
    let want = |f: &str| {
        if f.starts_with('/') || dir.is_empty() { f.to_string() } else { format!("{dir}/{f}") }
    };
    for (got, f, label) in [(p.license_file(), l, "licence"), (p.readme(), r, "readme")] {
        check(got.is_some() == f.is_some(), "file");
        if let (Some(got), Some(f)) = (got, f) {
            check(norm(got.as_str()) == norm(&want(&f)), label);
            reach("file");
        }
    }
    reach("end");
}

const KINDS: [(T, &str); 11] = [
    (T::Example, "example"),
    (T::Test, "test"),
    (T::Bench, "bench"),
    (T::CustomBuild, "custom-build"),
    (T::Bin, "bin"),
    (T::Lib, "lib"),
    (T::RLib, "rlib"),
    (T::DyLib, "dylib"),
    (T::CDyLib, "cdylib"),
    (T::StaticLib, "staticlib"),
    (T::ProcMacro, "proc-macro"),
];
const TYPES: [(C, &str); 7] = [
    (C::Bin, "bin"),
    (C::Lib, "lib"),
    (C::RLib, "rlib"),
    (C::DyLib, "dylib"),
    (C::CDyLib, "cdylib"),
    (C::StaticLib, "staticlib"),
    (C::ProcMacro, "proc-macro"),
];
const EDITIONS: [(E, &str); 4] = [(E::E2015, "2015"), (E::E2018, "2018"), (E::E2021, "2021"), (E::E2024, "2024")];

/// a: most kinds
fn kinds(a: u64) {
    let kind: Vec<T> = (0..pick(a + 1, "kinds")).map(|_| KINDS[pick(11, "kind") as usize].0).collect();
    let t = cm::Target {
        name: "t".into(),
        kind: kind.clone(),
        crate_types: vec![C::Lib],
        required_features: vec![],
        src_path: "/t".into(),
        edition: E::E2021,
        doctest: flag("doctest"),
        test: flag("test"),
        doc: flag("doc"),
    };
    let has = |k: T| {
        let mut r = false;
        for x in &kind {
            r |= *x == k;
        }
        r
    };
    check(t.is_lib() == has(T::Lib), "lib");
    check(t.is_bin() == has(T::Bin), "bin");
    check(t.is_example() == has(T::Example), "example");
    check(t.is_test() == has(T::Test), "test");
    check(t.is_bench() == has(T::Bench), "bench");
    check(t.is_custom_build() == has(T::CustomBuild), "custom-build");
    check(t.is_proc_macro() == has(T::ProcMacro), "proc-macro");
    reach("end");
}

/// a: longest word
fn words(a: u64) {
    let w = sym_str(0, a, "word", |b| inr(b, b'a', b'z') | inr(b, b'0', b'9') | (b == b'-') | (b == b'B'));
    fn one<X: FromStr<Err = String> + PartialEq + Copy>(w: &str, menu: &[(X, &str)], label: &str) {
        let r = X::from_str(w);
        match menu.iter().find(|m| m.1 == w) {
            Some(m) => {
                check(r == Ok(m.0), label);
                reach("known");
            }
            None => {
                check(r.is_err(), label);
                reach("unknown");
            }
        }
    }
    one(&w, &KINDS, "target-kind");
    one(&w, &TYPES, "crate-type");
    one(&w, &EDITIONS, "edition");
    let e = EDITIONS[pick(4, "edition") as usize];
    check(e.0.as_str() == e.1 && e.0.to_string() == e.1, "edition-text");
    check(E::default() == E::E2015 && DK::default() == DK::Normal, "default");
    let d = [(DK::Normal, "normal", DepKind::Normal, ""), (DK::Development, "dev", DepKind::Dev, "dev"), (DK::Build, "build", DepKind::Build, "build")];
    let x = &d[pick(3, "kind") as usize];
    check(x.0.to_string() == x.1, "kind-text");
    check(DepKind::from(x.0) == x.2 && x.2.to_string() == x.3, "kind");
    for y in &d {
        check((x.2 == y.0) == (x.1 == y.1), "kind-eq");
    }
    reach("end");
}

const INDEX: &str = "registry+https://github.com/rust-lang/crates.io-index";

/// a: longest text
fn texts(a: u64) {
    let s = sym_str(0, a, "text", |b| inr(b, 0x20, 0x7e));
    check(cm::Source { repr: s.clone() }.to_string() == s, "source");
    check(PackageId { repr: s.clone() }.to_string() == s, "package-id");
    // The index with one character changed, added or taken.
    let mut i = INDEX.as_bytes().to_vec();
    let at = pick(INDEX.len() as u64, "at") as usize;
    match pick(3, "change") {
        0 => i[at] = sym_bytes(1, "byte", |b| inr(b, 0x20, 0x7e))[0],
        1 => i.insert(at, sym_bytes(1, "byte", |b| inr(b, 0x20, 0x7e))[0]),
        _ => {
            i.remove(at);
        }
    }
    let i = String::from_utf8(i).unwrap();
    let src = cm::Source { repr: i.clone() };
    check(src.is_crates_io() == (i == INDEX), "crates-io");
    check(cm::Source { repr: INDEX.into() }.is_crates_io(), "crates-io");
    // What is shown of ids, nodes and edges.
    let name = sym_str(1, a.max(1), "name", is_name);
    let id = match pick(3, "id") {
        0 => format!("{INDEX}#{name}@1.0.0"),
        1 => format!("path+file:///x/{name}#1.0.0"),
        _ => format!("{name} 1.0.0 ({INDEX})"),
    };
    let kid = Kid::from(PackageId { repr: id.clone() });
    check(kid.to_string() == id, "kid");
    let n: Node<String> = if pick(2, "node") == 0 {
        Node::Krate { id: kid, krate: name.clone(), features: Default::default(), dep_mapping: vec![] }
    } else {
        Node::Feature { krate_index: krates::NodeId::new(0), name: name.clone() }
    };
    let want = match &n {
        Node::Krate { .. } => format!("crate {name}"),
        Node::Feature { .. } => format!("feature {name}"),
    };
    check(n.to_string() == want, "node");
    let kind = [(DepKind::Normal, ""), (DepKind::Build, "(build)"), (DepKind::Dev, "(dev)")][pick(3, "kind") as usize];
    let cfg = (pick(2, "target") == 1).then(|| s.clone());
    let want = format!("{}{}", kind.1, cfg.as_ref().map_or(String::new(), |c| format!(" '{c}'")));
    let (kind, cfg2) = (kind.0, cfg.clone());
    match pick(3, "edge") {
        0 => check(Edge::Dep { kind, cfg }.to_string() == want, "edge"),
        1 => check(Edge::DepFeature { kind, cfg: cfg2 }.to_string() == want, "edge"),
        _ => check(Edge::Feature.to_string().is_empty(), "edge"),
    }
    reach("end");
}

/// Errors show and expose what caused them. a: longest text
fn errors(a: u64) {
    use std::error::Error as _;
    let text = sym_str(0, a, "text", |b| inr(b, 0x20, 0x7e) | (b == b'\n'));
    let text = if pick(2, "long") == 1 { "line of text\n".repeat(50) + &text } else { text };
    let spec: &'static str = Box::leak(text.clone().into_boxed_str());
    // Text of the cause, and whether it is an error of its own.
    let (e, cause, own) = match pick(6, "error") {
        0 => (cm::Error::CargoMetadata { stderr: text.clone() }, text.clone(), false),
        1 => {
            let io = std::io::Error::other(text.clone());
            (cm::Error::from(io), text.clone(), true)
        }
        2 => {
            let mut b = text.clone().into_bytes();
            b.push(0xff);
            let u = std::str::from_utf8(&b).unwrap_err();
            let c = u.to_string();
            (cm::Error::from(u), c, true)
        }
        3 => {
            let mut b = text.clone().into_bytes();
            b.push(0xff);
            let u = String::from_utf8(b).unwrap_err();
            let c = u.to_string();
            (cm::Error::from(u), c, true)
        }
        4 => {
            let j = |i: u64| match i {
                0 => serde_json::from_str::<u8>("x").unwrap_err(),
                1 => serde_json::from_str::<u8>("{").unwrap_err(),
                _ => <serde_json::Error as serde::de::Error>::custom(&text),
            };
            let i = pick(3, "json");
            (cm::Error::from(j(i)), j(i).to_string(), true)
        }
        _ => (cm::Error::NoJson, String::new(), false),
    };
    let which = match &e {
        cm::Error::CargoMetadata { stderr } => {
            check(*stderr == text, "stderr");
            0
        }
        cm::Error::Io(_) => 1,
        cm::Error::Utf8(_) => 2,
        cm::Error::ErrUtf8(_) => 3,
        cm::Error::Json(_) => 4,
        cm::Error::NoJson => 5,
    };
    emit(which);
    check(own == (1..5).contains(&which), "from");
    let shown = e.to_string();
    check(shown.len() > cause.len() && shown.ends_with(&cause), "shown");
    match e.source() {
        Some(s) => check(own && s.to_string() == cause, "source"),
        None => check(!own, "no-source"),
    }
    let e = krates::Error::from(e);
    check(matches!(e, krates::Error::Metadata(_)), "metadata");
    check(e.to_string() == shown, "metadata-shown");
    check(e.source().is_some_and(|s| s.to_string() == shown), "metadata-source");
    let others = [krates::Error::NoResolveGraph, krates::Error::NoRootKrates, krates::Error::InvalidPkgSpec(spec)];
    for (i, o) in others.iter().enumerate() {
        check(o.source().is_none(), "no-cause");
        let t = o.to_string();
        check(!t.is_empty() && others[..i].iter().all(|x| x.to_string() != t), "distinct");
        if i == 2 {
            check(t.len() > text.len() && t.ends_with(&text), "spec-shown");
        }
    }
    reach("end");
}

/// a: 0 packages b with c members, 1 files up to b in directories up to c, 2 kinds, 3 words, 4 texts up to b, 5 errors with texts up to b
pub fn access(a: u64, b: u64, c: u64) {
    match a {
        0 => packages(b, c),
        1 => files(c, b),
        2 => kinds(b),
        3 => words(b),
        4 => texts(b),
        _ => errors(b),
    }
}
