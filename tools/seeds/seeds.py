#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ and, with --verify, confirms each planted bug in a scratch copy."""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.normpath(os.path.join(HERE, "../../seeded"))
S = []
def seed(id, prop, edits, needs, breaks, main):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main))
B = "src/builder.rs"; L = "src/lib.rs"; PS = "src/pkgspec.rs"; FE = "src/builder/features.rs"; IX = "src/builder/index.rs"
CM = "src/cm.rs"; CMD = "src/cm/cmd.rs"; DE = "src/cm/de.rs"; SER = "src/cm/ser.rs"
PRE = "mod common;\nuse common::*;\nuse krates::*;\n\nfn main() {\n"

seed("rename-order", "C01", [(B, "                if let Err(i) = v.binary_search_by(|(vs, _n)| vs.cmp(&&pkg.version)) {\n                    v.insert(i, (&pkg.version, &targ.name));", "                // The packages are sorted\n                if v.last().is_none_or(|(vs, _n)| *vs != &pkg.version) {\n                    v.push((&pkg.version, &targ.name));")],
  "two versions of a crate with a renamed lib target whose versions sort differently as text and as versions, the newer one enabled only through a feature with its name",
  "the crate and what it needs are missing from the graph", PRE + '''
    let ps = [
        member("r").dep(dep(2).optional().req("=10.0.0")).feat("x-y", &["dep:x-y"]).dep(dep(3)),
        krate("x-y", "9.0.0").lib("xylib"),
        krate("x-y", "10.0.0").lib("xylib"),
        krate("z", "1.0.0").dep(dep(1).req("=9.0.0")),
    ];
    assert!(names(&graph(Builder::new(), &ps, None)).contains(&"x-y@10.0.0".to_owned()));
}
''')

seed("mask-roots", "C02", [(B, "let is_in_workspace = workspace_members.binary_search(pid).is_ok();", "let is_in_workspace = is_root_crate(pid);")],
  "a workspace member that is in the graph as a dependency but is not a root, with a dependency of a kind ignored in only one scope",
  "the dependencies of members that are no roots are treated as those of crates outside the workspace", PRE + '''
    let ps = [
        member("a").dep(dep(1)),
        member("b").dep(dep(2).build()),
        krate("c", "1.0.0"),
    ];
    let mut b = Builder::new();
    b.ignore_kind(DepKind::Build, Scope::Workspace);
    assert_eq!(names(&graph(b, &ps, Some(0))), ["a@0.1.0", "b@0.1.0"]);
    let mut b = Builder::new();
    b.ignore_kind(DepKind::Build, Scope::NonWorkspace);
    assert_eq!(names(&graph(b, &ps, Some(0))), ["a@0.1.0", "b@0.1.0", "c@1.0.0"]);
}
''')

seed("any-target", "C03", [(B, """                                    targets
                                        .iter()
                                        .any(|target| expr.eval(|pred| target.eval(pred)))""",
"""                                    expr.eval(|pred| targets.iter().any(|target| target.eval(pred)))""")],
  "at least two targets, and an expression that no single one of them satisfies but their combination does (or the other way round with not())",
  "dependencies for impossible combinations of targets are kept", PRE + '''
    let ps = [
        member("a").dep(dep(1).target(r#"cfg(all(windows, target_env = "musl"))"#)),
        krate("b", "1.0.0"),
    ];
    let mut b = Builder::new();
    b.include_targets([("x86_64-unknown-linux-musl", vec![]), ("x86_64-pc-windows-msvc", vec![])]);
    assert_eq!(names(&graph(b, &ps, None)), ["a@0.1.0"]);
}
''')

seed("feature-prefix", "C03", [(B, "self.features.iter().any(|f| f == feat)", "self.features.iter().any(|f| f.starts_with(feat))")],
  "a target promised with a feature that another feature's name is a prefix of (sse and sse2), and a dependency on the latter",
  "a dependency that needs a target feature nobody promised is kept", PRE + '''
    let ps = [
        member("a").dep(dep(1).target(r#"cfg(target_feature = "sse4")"#)),
        krate("b", "1.0.0"),
    ];
    let mut b = Builder::new();
    b.include_targets([("x86_64-unknown-linux-gnu", vec!["sse4.2".to_owned()])]);
    assert_eq!(names(&graph(b, &ps, None)), ["a@0.1.0"]);
}
''')

seed("exclude-source", "C04", [(B, """        let exclude = self.exclude;
""", """        // The same package is met many times, only look at the specs once
        let excluded: BTreeSet<_> = packages
            .iter()
            .filter(|(_, pkg)| self.exclude.iter().any(|exc| exc.matches(pkg)))
            .map(|(id, _)| (id.name().to_owned(), id.version().to_owned()))
            .collect();
"""), (B, "if exclude.iter().any(|exc| exc.matches(krate)) {", "if excluded.contains(&(pid.name().to_owned(), pid.version().to_owned())) {")],
  "two packages with the same name and version of which only one is excluded by its source",
  "excluding a crate from one source removes the one from the other source too", PRE + '''
    let ps = [
        member("a").dep(dep(1).req("=1.0.0")).dep(dep(2).req("=1.0.0").rename("b2")),
        krate("b", "1.0.0"),
        krate("b", "1.0.0").from("git+https://x.y/b?branch=c"),
    ];
    let mut b = Builder::new();
    b.exclude(["https://x.y/b".parse().unwrap()]);
    let g = graph(b, &ps, None);
    assert_eq!(names(&g), ["a@0.1.0", "b@1.0.0"]);
    assert!(g.nid_for_kid(&kid(&ps[1])).is_some());
}
''')

seed("workspace-entry", "C05", [(B, """                if self.workspace_filters.len() == 1
""", """                if !self.workspace_filters.is_empty()
""")],
  "an include list with several entries, one of which is the package in the root of the workspace",
  "all workspace members become roots although only some were listed", PRE + '''
    let ps = [member("a"), member("b"), member("c")];
    let mut j = json(&ps, None);
    j["packages"][0]["manifest_path"] = "/ws/Cargo.toml".into();
    let md: cm::Metadata = serde_json::from_str(&j.to_string()).unwrap();
    let mut b = Builder::new();
    b.include_workspace_crates(["/ws", "/ws/b"]);
    let g: Krates = b.build_with_metadata(md, NoneFilter).unwrap();
    assert_eq!(names(&g), ["a@0.1.0", "b@0.1.0"]);
}
''')

seed("include-dir-name", "C05", [(B, """            if !p.ends_with("Cargo.toml") {
                p.join("Cargo.toml")""", """            if p.extension().is_none_or(|ext| ext != "toml") {
                p.join("Cargo.toml")""")],
  "a listed directory whose name has the extension toml",
  "the member in that directory is not recognized as listed", PRE + '''
    let ps = [member("a"), member("b")];
    let mut j = json(&ps, None);
    j["packages"][1]["manifest_path"] = "/ws/serde.toml/Cargo.toml".into();
    let md: cm::Metadata = serde_json::from_str(&j.to_string()).unwrap();
    let mut b = Builder::new();
    b.include_workspace_crates(["/ws/a", "/ws/serde.toml"]);
    let g: Krates = b.build_with_metadata(md, NoneFilter).unwrap();
    assert_eq!(names(&g), ["a@0.1.0", "b@0.1.0"]);
}
''')

seed("member-features", "C06", [(B, "let features = if pn.is_root {", "let features = if pn.is_root || (self.workspace && workspace_members.binary_search(&id).is_ok()) {")],
  "workspace mode together with an include list, and a workspace member that is not listed, some of whose features were only requested by a dependency that is filtered out",
  "features that only filtered dependencies ask for are reported as enabled", PRE + """
    let ps = [
        member("a").dep(dep(1)).dep(dep(1).build().with(&["f"])),
        member("b").feat("f", &[]),
    ];
    let mut b = Builder::new();
    b.workspace(true).include_workspace_crates(["/ws/a"]);
    b.ignore_kind(DepKind::Build, Scope::All);
    assert!(enabled(&graph(b, &ps, None), &ps[1]).is_empty());
}
""")


seed("weak-order", "C07", [(B, """                    if let Some(vd) = visit_dep.take() {
                        visit_stack.push(vd);
                        if let Some(kf) = krate_features.pending_weak.remove(vd) {
                            for feat in kf {
                                visit_stack.push_with_feature(vd, feat);
                                dep.features.insert(feat);
                            }
                        }
                    }

                    let mut features = Vec::new();""", """                    if let Some(vd) = visit_dep.take() {
                        visit_stack.push(vd);
                    }

                    let mut features = Vec::new();""")],
  "a weak reference to a mandatory dependency, met before the dependency itself",
  "the weakly referenced feature is not enabled although the dependency is in the graph", PRE + '''
    let ps = [
        member("a").dep(dep(1).with(&["f"])),
        krate("b", "1.0.0").dep(dep(2)).feat("f", &["c?/g"]),
        krate("c", "1.0.0").feat("g", &[]),
    ];
    assert_eq!(enabled(&graph(Builder::new(), &ps, None), &ps[2]), ["g"]);
}
''')

seed("lookup-bound", "C09", [(L, "        if nid.index() >= self.krates_end {", "        if nid.index() > self.krates_end {")],
  "a node id just past the crates, in a graph without any features",
  "asking for a dependency of it panics instead of giving nothing", PRE + """
    let ps = [member("a").dep(dep(1)), krate("b", "1.0.0")];
    let g = graph(Builder::new(), &ps, None);
    assert!(g.resolved_dependency(NodeId::new(g.len()), 0).is_none());
}
""")


seed("lookup-repr", "C10", [(L, """                if let Node::Krate { id, .. } = &rn.weight {
                    id.cmp(kid)
                } else {""", """                if let Node::Krate { id, .. } = &rn.weight {
                    id.name().cmp(kid.name()).then_with(|| id.repr.cmp(&kid.repr))
                } else {""")],
  "several packages with the same name, where the order of the versions and that of the sources differ, or an id in the other format",
  "a crate that is in the graph is not found by its id", PRE + '''
    let git = "git+https://github.com/x/b?rev=1";
    let ps = [
        member("a").dep(dep(1).req("=1.0.0")).dep(dep(2).req("=2.0.0").rename("b2")).dep(dep(3).req("=3.0.0").rename("b3")),
        krate("b", "1.0.0"),
        krate("b", "2.0.0").from(git),
        krate("b", "3.0.0"),
    ];
    let g = graph(Builder::new(), &ps, None);
    for p in &ps {
        assert!(g.nid_for_kid(&kid(p)).is_some(), "{}", p.id());
    }
}
''')

seed("foreign-feature", "C11", [(L, "if *krate_index == nid && name == feat {", "if name == feat && krate_index.index() < self.krates_end {")],
  "a feature of a dependent that directly enables the crate and has the name of the feature looked up",
  "looking up a feature of a crate gives the node of another crate's feature", PRE + '''
    let ps = [
        member("a").dep(dep(1).optional()).feat("f", &["dep:b"]),
        krate("b", "1.0.0").off("f", &[]),
    ];
    let g = graph(Builder::new(), &ps, None);
    assert!(g.get_node(&kid(&ps[1]), Some("f")).is_none());
}
''')

seed("default-unsorted", "C12", [(B, """                features.sort();
                let has_default_feature = features
                    .binary_search_by(|f| f.as_str().cmp("default"))
                    .is_ok();
""", """                let has_default_feature = features
                    .binary_search_by(|f| f.as_str().cmp("default"))
                    .is_ok();
                features.sort();
""")],
  "resolved features of a crate that are not listed in sorted order",
  "whether the default features are requested depends on the order of the list", PRE + '''
    let mut ps = [
        member("a").dep(dep(1).default()),
        krate("b", "1.0.0").feat("default", &[]).feat("f", &[]).feat("g", &[]),
    ];
    let g = edges(&graph(Builder::new(), &ps, None));
    for _ in 0..3 {
        ps[1].on.rotate_left(1);
        assert_eq!(edges(&graph(Builder::new(), &ps, None)), g);
    }
}
''')

seed("members-unsorted", "C12", [(B, """            md.workspace_members.into_iter().map(Kid::from).collect();
        workspace_members.sort();
""", """            md.workspace_members.into_iter().map(Kid::from).collect();
        workspace_members.dedup();
""")],
  "workspace members that are not listed in the order of their ids",
  "members are not found and treated as crates outside of the workspace", PRE + '''
    let mut ps = [
        member("a").dep(dep(4).build()),
        member("b").dep(dep(4).build()),
        member("c").dep(dep(4).build()),
        member("d").dep(dep(4).build()),
        krate("x", "1.0.0"),
    ];
    let mut j = json(&ps, None);
    j["workspace_members"].as_array_mut().unwrap().reverse();
    let md: cm::Metadata = serde_json::from_str(&j.to_string()).unwrap();
    let mut b = Builder::new();
    b.ignore_kind(DepKind::Build, Scope::Workspace);
    let g: Krates = b.build_with_metadata(md, NoneFilter).unwrap();
    assert_eq!(names(&g), ["a@0.1.0", "b@0.1.0", "c@0.1.0", "d@0.1.0"]);
    ps.reverse();
}
''')

seed("unknown-feature", "C13", [(B, """                let Some(fs) = krate.features.get(feature_key) else {
                    // TODO: Show the user a warning, or just fail?
                    continue;
                };
""", """                let Some(fs) = krate.features.get(feature_key) else {
                    // Features that are not in the manifest are those of optional
                    // dependencies
                    let kid = get_dep_id(feature_key).expect("feature is neither declared nor a dependency");
                    visit_stack.push(kid);
                    continue;
                };
""")],
  "a resolved feature that is missing from the manifest and is not the name of a dependency",
  "building the graph panics", PRE + '''
    let mut ps = [member("a").dep(dep(1).with(&["f"])), krate("b", "1.0.0").feat("f", &[])];
    ps[1].features.clear();
    assert_eq!(names(&graph(Builder::new(), &ps, None)), ["a@0.1.0", "b@1.0.0"]);
}
''')

seed("self-dependency", "C14", [(L, """        let mut direct_dependencies = Vec::new();
        let mut stack = vec![nid];
        let mut visited = std::collections::BTreeSet::new();
""", """        let mut direct_dependencies = Vec::new();
        let mut stack = vec![nid];
        let mut visited = std::collections::BTreeSet::from([nid]);
""")],
  "a crate with a (development) dependency on itself",
  "a crate is reported as its own dependent but not as its own dependency", PRE + '''
    let ps = [member("a").dep(dep(0).dev().with(&["f"])).feat("f", &[])];
    let g = graph(Builder::new(), &ps, None);
    let nid = g.nid_for_kid(&kid(&ps[0])).unwrap();
    assert_eq!(g.direct_dependencies(nid).len(), g.direct_dependents(nid).len());
}
''')

seed("filtered-kept", "C15", [(L, """                        if *kind == filter {
                            continue;
                        }""", """                        if *kind == filter {
                            // Already known to be of no interest
                            visited.insert(edge.target());
                            continue;
                        }""")],
  "a crate that is depended upon both through the filtered kind and through another one, the former met first",
  "a crate that is still needed is missing from the filtered list", PRE + """
    let ps = [
        member("a").dep(dep(1)).dep(dep(1).build()),
        krate("c", "1.0.0"),
    ];
    let g = graph(Builder::new(), &ps, None);
    let v: Vec<_> = g.krates_filtered(DepKind::Build).iter().map(|k| k.name.clone()).collect();
    assert_eq!(v, ["a", "c"]);
}
""")


seed("search-star", "C16", [(L, "if krate.name() == name && req.matches(krate.version()) {", "if krate.name() == name && (req == semver::VersionReq::STAR || req.matches(krate.version())) {")],
  "a crate with a pre-release version, and the requirement *",
  "a version that does not satisfy the requirement is returned", PRE + '''
    let ps = [member("a").dep(dep(1).req("=1.0.0-rc.1")), krate("b", "1.0.0-rc.1")];
    let g = graph(Builder::new(), &ps, None);
    assert_eq!(g.search_matches("b", "*".parse().unwrap()).count(), 0);
}
''')

seed("opaque-hash", "C17", [(L, "repr.rfind('#').unwrap_or(repr.len() - 1)", "repr.find('#').unwrap_or(repr.len() - 1)")],
  "an id in the opaque format with a git reference that contains a #",
  "the source of the id is cut off in the middle of the reference", '''use krates::*;
fn main() {
    let id = cm::PackageId { repr: "a 0.1.0 (git+https://github.com/x/a?branch=fix#1#b2e7622942e52a28ffa85cdaf48e28e982bb6923)".into() };
    assert_eq!(Kid::from(id).source(), "git+https://github.com/x/a?branch=fix#1");
}
''')




seed("id-equality", "C18", [(L, "        self.cmp(other) == std::cmp::Ordering::Equal\n", "        self.components == other.components && self.repr == other.repr\n")],
  "ids of the same package in different formats, or with different commits",
  "ids that compare as equal are not equal", '''use krates::*;
fn main() {
    let k = |s: &str| Kid::from(cm::PackageId { repr: s.into() });
    let (a, b) = (k("a 0.1.0 (registry+https://github.com/rust-lang/crates.io-index)"), k("registry+https://github.com/rust-lang/crates.io-index#a@0.1.0"));
    assert_eq!(a.cmp(&b), std::cmp::Ordering::Equal);
    assert!(a == b);
}
''')

seed("spec-fragment", "C19", [(PS, "if nv.chars().next().unwrap().is_alphabetic() {", "if nv[..1].chars().all(char::is_alphabetic) {")],
  "a URL with a fragment that starts with a character that is not ASCII",
  "parsing the spec panics", '''fn main() {
    let _ = "https://x.y/z#\\u{e4}1".parse::<krates::PkgSpec>();
}
''')

seed("spec-build", "C20", [(PS, "            if vers != &krate.version {", "            if vers.cmp_precedence(&krate.version).is_ne() {")],
  "versions that differ in nothing but their build metadata",
  "a spec matches a package with another version", PRE + '''
    let ps = [member("a").dep(dep(1)), krate("b", "1.0.0+2")];
    let md = metadata(&ps, None);
    assert!(!"b:1.0.0+1".parse::<PkgSpec>().unwrap().matches(&md.packages[1]));
}
''')

seed("spec-plus", "C20", [(PS, "src.find('+')", "src.rfind('+')")],
  "a source with a + in its URL", "a spec with the URL of the package does not match it", PRE + """
    let ps = [member("a").dep(dep(1)), krate("b", "1.0.0").from("git+https://x.y/b+c?branch=c")];
    let md = metadata(&ps, None);
    assert!("https://x.y/b+c#b".parse::<PkgSpec>().unwrap().matches(&md.packages[1]));
}
""")


seed("feature-slash", "C21", [(FE, "        } else if let Some(ind) = f.find('/') {", "        } else if let Some(ind) = f.rfind('/') {")],
  "a strong reference to a feature that has a slash itself, as cargo allowed for features that are requested through a dependency",
  "the crate and feature parts are split in the wrong place", '''use krates::*;
fn main() {
    let p = ParsedFeature::from("a/b/c");
    assert_eq!(format!("{:?}", p.feat()), r#"Strong { krate: "a", feature: "b/c" }"#);
}
''')

seed("index-precedence", "C22", [(IX, "(&ikv.version == version)", "(ikv.version.cmp_precedence(version).is_eq())")],
  "an index with two versions of a crate that differ in nothing but their build metadata",
  "the features of another version are added", PRE + '''
    let ps = [member("a").dep(dep(1)), krate("b", "1.0.0+2")];
    let v = |v: &str, f: &str| index::IndexKrateVersion { version: v.parse().unwrap(), features: [(f.to_owned(), vec![])].into() };
    let ik = index::IndexKrate { versions: vec![v("1.0.0+1", "f1"), v("1.0.0+2", "f2")] };
    let mut b = Builder::new();
    b.with_crates_io_index(Box::new(move |_| [("b".to_owned(), Some(ik))].into()));
    let g = graph(b, &ps, None);
    let k = g.krates_by_name("b").next().unwrap().krate;
    assert_eq!(k.features.keys().collect::<Vec<_>>(), ["f2"]);
}
''')

seed("index-missing", "C22", [(IX, """    let missing_deps: Vec<_> = krate
        .features
        .values()
        .flat_map(|sf| sf.iter())""", """    let missing_deps: Vec<_> = krate
        .features
        .iter()
        .filter(|(key, _)| features.contains_key(*key))
        .flat_map(|(_, sf)| sf.iter())""")],
  "a feature that only the manifest has and that mentions an optional dependency without a feature of its own",
  "the dependency feature is not added", PRE + '''
    let ps = [member("a").dep(dep(1)), krate("b", "1.0.0").dep(dep(2).optional().unresolved()).off("f", &["c"]), krate("c", "1.0.0")];
    let ik = index::IndexKrate { versions: vec![index::IndexKrateVersion { version: "1.0.0".parse().unwrap(), features: Default::default() }] };
    let mut b = Builder::new();
    b.with_crates_io_index(Box::new(move |_| [("b".to_owned(), Some(ik))].into()));
    let g = graph(b, &ps, None);
    let k = g.krates_by_name("b").next().unwrap().krate;
    assert_eq!(k.features.keys().collect::<Vec<_>>(), ["c", "f"]);
}
''')

seed("borrowed-keys", "C23", [(DE, "type Key<'de> = std::borrow::Cow<'de, str>;", "type Key<'de> = &'de str;"),
  ],
  "a key with an escape sequence", "metadata with an unknown field whose name needs escaping fails to decode", PRE + '''
    let j = json(&[member("a")], None).to_string();
    let j = j.replacen('{', "{\\"we\\\\\\"ird\\":1,", 1);
    let md: Result<cm::Metadata, _> = serde_json::from_str(&j);
    assert!(md.is_ok(), "{md:?}");
}
''')

seed("rust-version-build", "C23", [(DE, """        } else if c == '+' {
            return Err(E::custom("build metadata is not supported in rust-version"));
        }
    }

    if buf""", """        }
    }

    if buf""")],
  "a rust-version with build metadata", "a malformed rust-version is accepted", PRE + '''
    let mut j = json(&[member("a")], None);
    j["packages"][0]["rust_version"] = "1.70.0+1".into();
    assert!(serde_json::from_str::<cm::Metadata>(&j.to_string()).is_err());
}
''')

seed("publish-none", "C24", [(SER, "    entries!(map, self, links, publish, default_run, rust_version);", """    entry!(map, self, links);
    if self.publish.as_ref().is_some_and(|publish| !publish.is_empty()) {
        entry!(map, self, publish);
    }
    entries!(map, self, default_run, rust_version);""")],
  "a package that must not be published (an empty list of registries)",
  "the package can be published everywhere after a round trip", PRE + '''
    let mut j = json(&[member("a")], None);
    j["packages"][0]["publish"] = serde_json::json!([]);
    let md: cm::Metadata = serde_json::from_str(&j.to_string()).unwrap();
    let md: cm::Metadata = serde_json::from_str(&serde_json::to_string(&md).unwrap()).unwrap();
    assert_eq!(md.packages[0].publish, Some(vec![]));
}
''')

seed("dedup-first", "C25", [(B, "        cmd.features.sort();\n        cmd.features.dedup();", "        cmd.features.dedup();\n        cmd.features.sort();")],
  "a feature that is requested twice with another one in between",
  "a feature is passed twice", '''use krates::*;
fn main() {
    let mut c = Cmd::new();
    c.features(["a", "b", "a"].map(String::from));
    let c = cm::MetadataCommand::from(c).cargo_command();
    let args: Vec<_> = c.get_args().map(|a| a.to_str().unwrap()).collect();
    assert!(args.contains(&"a b"), "{args:?}");
}
''')

seed("first-kind", "C26", [(CM, "self.kind.iter().any(|kind| kind == &name)", "self.kind.first() == Some(&name)")],
  "a lib target with several crate types of which lib is not the first",
  "the predicates of a target overlook all kinds but the first", PRE + '''
    let mut j = json(&[member("a")], None);
    j["packages"][0]["targets"][0]["kind"] = serde_json::json!(["cdylib", "lib"]);
    let md: cm::Metadata = serde_json::from_str(&j.to_string()).unwrap();
    assert!(md.packages[0].targets[0].is_lib());
}
''')

seed("killed", "C27", [(CMD, "if !output.status.success() {", "if output.status.code().is_some_and(|code| code != 0) {")],
  "cargo is killed by a signal after it printed something",
  "the output of a run that failed is taken at face value", PRE + '''
    let j = json(&[member("a")], None).to_string();
    let dir = std::env::current_dir().unwrap();
    let (script, out) = (dir.join("fake-cargo"), dir.join("out.json"));
    std::fs::write(&out, j).unwrap();
    std::fs::write(&script, format!("#!/bin/sh\\ncat {}\\nkill -9 $$\\n", out.display())).unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&script, std::fs::Permissions::from_mode(0o755)).unwrap();
    let mut c = Cmd::new();
    c.cargo_path(&script);
    assert!(matches!(cm::MetadataCommand::from(c).exec(), Err(cm::Error::CargoMetadata { .. })));
}
''')

seed("scope-replaced", "C02", [(B, """        self.ignore_kinds |= kind_flag;
""", """        // Forget about the scope of previous calls
        self.ignore_kinds &= !(kind_flag << 1 | kind_flag << 2);
        self.ignore_kinds |= kind_flag;
""")],
  "the same kind ignored twice with different scopes",
  "only the last scope counts, dependencies ignored by the first call are kept", PRE + '''
    let ps = [
        member("a").dep(dep(1).build()),
        krate("b", "1.0.0").dep(dep(2).build()),
        krate("c", "1.0.0"),
    ];
    let mut b = Builder::new();
    b.ignore_kind(DepKind::Build, Scope::Workspace).ignore_kind(DepKind::Build, Scope::NonWorkspace);
    assert_eq!(names(&graph(b, &ps, None)), ["a@0.1.0"]);
}
''')

seed("targets-replaced", "C03", [(B, """        self.target_filters
            .extend(targets.into_iter().map(|(triple, features)| TargetFilter {
                inner: triple.into(),
                features,
            }));""", """        self.target_filters = targets
            .into_iter()
            .map(|(triple, features)| TargetFilter {
                inner: triple.into(),
                features,
            })
            .collect();""")],
  "targets given in several calls",
  "dependencies that only the targets of an earlier call need are dropped", PRE + '''
    let ps = [
        member("a").dep(dep(1).target("cfg(windows)")).dep(dep(2).target("cfg(unix)")),
        krate("b", "1.0.0"),
        krate("c", "1.0.0"),
    ];
    let mut b = Builder::new();
    b.include_targets([("x86_64-unknown-linux-gnu", vec![])]).include_targets([("x86_64-pc-windows-msvc", vec![])]);
    assert_eq!(names(&graph(b, &ps, None)), ["a@0.1.0", "b@1.0.0", "c@1.0.0"]);
}
''')

seed("search-dash", "C16", [(L, "if krate.name() == name && req.matches(krate.version()) {", "if krate.name().replace('-', \"_\") == name.replace('-', \"_\") && req.matches(krate.version()) {")],
  "two packages whose names differ in - and _ only", "a search for one also gives the other", PRE + '''
    let ps = [
        member("a").dep(dep(1)).dep(dep(2)),
        krate("b-c", "1.0.0"),
        krate("b_c", "1.0.0").lib("bc"),
    ];
    let g = graph(Builder::new(), &ps, None);
    let m: Vec<_> = g.search_matches("b_c", semver::VersionReq::STAR).map(|m| m.krate.name.clone()).collect();
    assert_eq!(m, ["b_c"]);
}
''')

seed("percent-caret", "C17", [(L, """"5E" | "5e" => '^',""", """"5E" | "7e" => '^',
                                    "5e" | "7E" | "7f" => '~',"""), (L, """                                    "7E" | "7e" => '~',
""", "")],
  "a git reference with ^ or ~ in lower case percent encoding", "the source of the id has another character", PRE + '''
    for (e, c) in [("5e", '^'), ("5E", '^'), ("7E", '~'), ("7e", '~'), ("2f", '/')] {
        let k = Kid::from(PackageId { repr: format!("git+https://x.y/z?branch=a{e1}b#0.1.0", e1 = format!("%{e}")) });
        assert_eq!(k.source(), format!("git+https://x.y/z?branch=a{c}b"));
        assert_eq!((k.name(), k.version()), ("z", "0.1.0"));
    }
}
''')

seed("hash-joined", "C18", [(L, """    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        let a = &self.repr;
        let b = &o.repr;

        for (ar, br) in""", """    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        let a = &self.repr;
        let b = &o.repr;

        // The same characters in both
        if a.len() == b.len() && a.split(['#', '@', ' ']).eq(b.split(['#', '@', ' '])) {
            return std::cmp::Ordering::Equal;
        }

        for (ar, br) in""")],
  "a git reference that has a # and another id where a @ is in its place", "different ids are equal", PRE + '''
    let a = Kid::from(PackageId { repr: "git+https://x.y/z?branch=a%23b#1.0.0".into() });
    let b = Kid::from(PackageId { repr: "git+https://x.y/z?branch=a%40b#1.0.0".into() });
    assert!(a != b);
}
''')

seed("spec-underscore", "C19", [(PS, "if nv.chars().next().unwrap().is_alphabetic() {", "if !nv.starts_with(|c: char| c.is_ascii_digit()) {")],
  "a url with a fragment that starts with neither a letter nor a digit", "a spec with a malformed version is accepted", PRE + '''
    assert!("https://x.y/z#_a".parse::<PkgSpec>().is_err());
    assert!("https://x.y/z#a".parse::<PkgSpec>().is_ok());
}
''')

seed("spec-sparse", "C20", [(PS, """        let begin = src.find('+').map_or(0, |i| i + 1);
""", """        let begin = if src.starts_with("git+") { 4 } else { src.find("registry+").map_or(0, |i| i + 9) };
""")],
  "a package of a sparse registry", "a spec with its url doesn't match it", PRE + '''
    let mut md = metadata(&[krate("b", "1.0.0").from("sparse+https://x.y/b")], None);
    let pkg = md.packages.pop().unwrap();
    let spec: PkgSpec = "https://x.y/b".parse().unwrap();
    assert!(spec.matches(&pkg));
}
''')

seed("index-replaces", "C22", [(IX, """        if !krate.features.contains_key(ikey) {""", """        if krate.features.get(ikey).is_none_or(|value| value.len() < ivalue.len()) {""")],
  "an index entry whose value of a feature the package has is longer", "a feature of the package is replaced by the index's", PRE + '''
    use std::collections::BTreeMap;
    let ps = [member("a").dep(dep(1).with(&["g"])), krate("b", "1.0.0").feat("g", &[]).off("h", &[])];
    let mut b = Builder::new();
    b.with_crates_io_index(Box::new(|names| {
        names.into_iter().map(|n| {
            let features: BTreeMap<_, _> = [("g".to_owned(), vec!["h".to_owned()])].into();
            let e = (n == "b").then(|| index::IndexKrate { versions: vec![index::IndexKrateVersion { version: "1.0.0".parse().unwrap(), features }] });
            (n, e)
        }).collect()
    }));
    let g = graph(b, &ps, None);
    let k = g.krates().find(|k| k.name == "b").unwrap();
    assert_eq!(k.features["g"], Vec::<String>::new());
}
''')

seed("frozen-else", "C25", [(B, """        if cmd.locked {
            opts.push("--locked".to_owned());
        }
""", """        // Frozen implies it
        if cmd.locked && !cmd.frozen {
            opts.push("--locked".to_owned());
        }
""")],
  "frozen and locked together", "an option that was asked for is not passed", PRE + '''
    let mut c = Cmd::new();
    c.lock_opts(LockOptions { frozen: true, locked: true, offline: true });
    let c = cm::MetadataCommand::from(c).cargo_command();
    let args: Vec<_> = c.get_args().map(|a| a.to_str().unwrap().to_owned()).collect();
    for o in ["--frozen", "--locked", "--offline"] {
        assert_eq!(args.iter().filter(|a| *a == o).count(), 1);
    }
}
''')

seed("other-order", "C25", [(B, "        self.features.extend(feats);\n", "        self.features = feats.into_iter().collect();\n")],
  "features given in several calls", "the features of all but the last call are lost", PRE + '''
    let mut c = Cmd::new();
    c.features(["b".to_owned()]).features(["a".to_owned()]);
    let c = cm::MetadataCommand::from(c).cargo_command();
    assert!(c.get_args().any(|a| a == "a b"));
}
''')

seed("last-json", "C27", [(CMD, """            .find(|line| line.starts_with('{'))""", """            .filter(|line| line.starts_with('{'))
            .last()""")],
  "output with several lines that start with a brace", "something after the metadata is decoded in its place", PRE + '''
    use std::os::unix::fs::PermissionsExt;
    let dir = std::env::temp_dir().join(format!("seed-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let script = dir.join("cargo");
    std::fs::write(dir.join("md"), json(&[member("a")], None).to_string()).unwrap();
    std::fs::write(&script, format!("#!/bin/sh\\ncat '{0}/md'\\necho\\necho '{{}}'\\n", dir.display())).unwrap();
    std::fs::set_permissions(&script, std::fs::Permissions::from_mode(0o755)).unwrap();
    let mut c = Cmd::new();
    c.cargo_path(&script);
    let r = cm::MetadataCommand::from(c).exec();
    std::fs::remove_dir_all(&dir).unwrap();
    assert_eq!(r.unwrap().packages.len(), 1);
}
''')

seed("visited-mask", "C06", [(B, """        while let Some((pid, feature)) = visit_stack.pop() {
            if check(&feature_edge_map, pid, feature) {
                continue;
            }
""", """        // Features that were visited, one bit each
        let mut visited = BTreeMap::<&Kid, u64>::new();

        while let Some((pid, feature)) = visit_stack.pop() {
            if check(&feature_edge_map, pid, None) && feature.is_none() {
                continue;
            }

            if let Some(feature) = feature {
                let bits = visited.entry(pid).or_default();
                if *bits & (1u64 << (feature as u32 & 63)) != 0 {
                    continue;
                }
                *bits |= 1u64 << (feature as u32 & 63);
            }
""")],
  "a crate with more than 64 resolved features", "features beyond that are not visited", PRE + '''
    const N: usize = 70;
    let name = |i: usize| -> &'static str { Box::leak(format!("f{i:02}").into_boxed_str()) };
    let mut a = member("a").dep(dep(1).with(&[name(0), name(65)]));
    a.deps[0].features = (0..N).map(name).collect();
    let mut b = krate("b", "1.0.0");
    for i in 0..N {
        b = b.feat(name(i), &[]);
    }
    let ps = [a, b];
    let g = graph(Builder::new(), &ps, None);
    assert_eq!(enabled(&g, &ps[1]).len(), N);
}
''')

seed("exclude-first", "C04", [(B, "if exclude.iter().any(|exc| exc.matches(krate)) {", "if exclude.iter().find(|exc| exc.name == krate.name).is_some_and(|exc| exc.matches(krate)) {")],
  "several exclusions of the same name with different versions or sources", "only the first is applied", PRE + '''
    let ps = [
        member("a").dep(dep(1).req("=1.0.0")).dep(dep(2).req("=2.0.0").rename("b2")),
        krate("b", "1.0.0"),
        krate("b", "2.0.0"),
    ];
    let mut b = Builder::new();
    b.exclude(["b:1.0.0".parse().unwrap(), "b:2.0.0".parse().unwrap()]);
    assert_eq!(names(&graph(b, &ps, None)), ["a@0.1.0"]);
}
''')

seed("weak-first-feature", "C07", [(B, """                            if let Some(kf) = krate_features.pending_weak.remove(vd) {
                                for feat in kf {
                                    visit_stack.push_with_feature(vd, feat);
                                    dep.features.insert(feat);
                                }
                            }
                        }

                        for feat in features {""", """                            if let Some(kf) = krate_features.pending_weak.remove(vd) {
                                for feat in kf.into_iter().take(1) {
                                    visit_stack.push_with_feature(vd, feat);
                                    dep.features.insert(feat);
                                }
                            }
                        }

                        for feat in features {"""), (B, """                    if let Some(vd) = visit_dep.take() {
                        visit_stack.push(vd);
                        if let Some(kf) = krate_features.pending_weak.remove(vd) {
                            for feat in kf {
""", """                    if let Some(vd) = visit_dep.take() {
                        visit_stack.push(vd);
                        if let Some(kf) = krate_features.pending_weak.remove(vd) {
                            for feat in kf.into_iter().take(1) {
""")],
  "two weak references to features of the same dependency that are met before the dependency is",
  "all but one of the features are not enabled", PRE + '''
    let ps = [
        member("a").dep(dep(1)).feat("f", &["b?/g", "b?/h"]),
        krate("b", "1.0.0").feat("g", &[]).feat("h", &[]),
    ];
    let g = graph(Builder::new(), &ps, None);
    assert_eq!(enabled(&g, &ps[1]), ["g", "h"]);
}
''')

seed("edge-build-dev", "C08", [(B, """                        .any(|d| d.kind == edge.kind && d.cfg.as_deref() == edge.cfg)""",
"""                        .any(|d| {
                            (d.kind == DepKind::Normal) == (edge.kind == DepKind::Normal)
                                && d.cfg.as_deref() == edge.cfg
                        })""")],
  "a crate that is both a build and a development dependency",
  "there is only one edge for the two declarations", PRE + '''
    let ps = [
        member("a").dep(dep(1).build()).dep(dep(1).dev().with(&["g"])),
        krate("b", "1.0.0").feat("g", &[]),
    ];
    let e = edges(&graph(Builder::new(), &ps, None));
    assert!(e.contains(&"a@0.1.0 -> b@1.0.0/g Dev  feature".to_owned()), "{e:?}");
    assert!(e.contains(&"a@0.1.0 -> b@1.0.0 Build ".to_owned()), "{e:?}");
}
''')

seed("self-dependent", "C14", [(L, """        let mut visited = std::collections::BTreeSet::new();

        while let Some(nid) = stack.pop() {
            for edge in graph.edges_directed(nid, Direction::Incoming) {""", """        let mut visited = std::collections::BTreeSet::from([nid]);

        while let Some(nid) = stack.pop() {
            for edge in graph.edges_directed(nid, Direction::Incoming) {""")],
  "a crate with a development dependency on itself",
  "it is reported as its own dependency but not as its own dependent", PRE + '''
    let ps = [member("a").dep(dep(0).dev()).dep(dep(1)), krate("b", "1.0.0")];
    let g = graph(Builder::new(), &ps, None);
    let a = g.nid_for_kid(&kid(&ps[0])).unwrap();
    assert!(g.direct_dependencies(a).iter().any(|d| d.node_id == a));
    assert!(g.direct_dependents(a).iter().any(|d| d.node_id == a));
}
''')

seed("lookup-source", "C10", [(L, """            .binary_search_by(|rn| {
                if let Node::Krate { id, .. } = &rn.weight {
                    id.cmp(kid)
                } else {""", """            .binary_search_by(|rn| {
                if let Node::Krate { id, .. } = &rn.weight {
                    let source = |kid: &Kid| {
                        let source = kid.source();
                        source[..source.find('?').unwrap_or(source.len())].to_owned()
                    };
                    id.name()
                        .cmp(kid.name())
                        .then_with(|| id.version().cmp(kid.version()))
                        .then_with(|| source(id).cmp(&source(kid)))
                } else {""")],
  "two revisions of one git repository that have the same name and version in the graph",
  "the lookup of one of them finds the other", PRE + '''
    let ps = [
        member("a").dep(dep(1)).dep(dep(2).rename("c")),
        krate("b", "1.0.0").from("git+https://h/b?rev=1#1111111"),
        krate("b", "1.0.0").from("git+https://h/b?rev=2#2222222"),
    ];
    let g = graph(Builder::new(), &ps, None);
    for p in &ps {
        let n = g.nid_for_kid(&kid(p)).expect("node");
        assert_eq!(g[n].id.repr, p.id());
    }
}
''')

seed("weak-last", "C21", [(FE, """f.find("?/")""", """f.rfind("?/")""")],
  "a feature value with two places that look like a weak reference",
  "the dependency and the feature are split at the wrong place", PRE + '''
    let pf = ParsedFeature::from("a?/b?/c");
    let Feature::Weak { krate, feature } = pf.feat() else { panic!() };
    assert_eq!((krate, feature), ("a", "b?/c"));
}
''')

seed("links-last", "C24", [(SER, """    if let Some(wdm) = &self.workspace_default_members.0 {""", """    if let Some(wdm) = self.workspace_default_members.0.as_ref().filter(|wdm| !wdm.is_empty()) {""")],
  "metadata of a workspace with an empty list of default members",
  "the list is gone after it is written and read", PRE + '''
    let mut md = metadata(&[member("a")], None);
    md.workspace_default_members = cm::WorkspaceDefaultMembers(Some(vec![]));
    let back: cm::Metadata = serde_json::from_str(&serde_json::to_string(&md).unwrap()).unwrap();
    assert_eq!(back.workspace_default_members.0, Some(vec![]));
}
''')

seed("root-by-path", "C26", [(CM, """            let root = resolve.root.as_ref()?;
            self.packages.iter().find(|pkg| &pkg.id == root)""", """            let root = resolve.root.as_ref()?;
            // The root is a member
            self.workspace_packages()
                .into_iter()
                .find(|pkg| &pkg.id == root || pkg.manifest_path.parent() == Some(&self.workspace_root))""")],
  "a workspace with a package at its root, and metadata that was asked for another member that comes later",
  "the package at the root of the workspace is reported instead of the one that was resolved", PRE + '''
    let mut md = metadata(&[member("a"), member("b")], Some(1));
    md.packages[0].manifest_path = "/ws/Cargo.toml".into();
    assert_eq!(md.root_package().unwrap().name, "b");
}
''')

seed("odd-predicate", "C13", [(L, """            .then(|| cfg_expr::Expression::parse(&inner).ok())
            .flatten();""", """            .then(|| cfg_expr::Expression::parse(&inner).expect("cargo checks expressions"));""")],
  "a dependency for a cfg that cargo accepts and cfg-expr does not know",
  "building the graph panics", PRE + '''
    let ps = [member("a").dep(dep(1).target("cfg(target_pointer_width = \\"big\\")")), krate("b", "1.0.0")];
    graph(Builder::new(), &ps, None);
}
''')

seed("filtered-members", "C15", [(L, """            .filter_map(|pid| self.nid_for_kid(pid))
            .collect();
        let mut visited""", """            .filter_map(|pid| self.nid_for_kid(pid))
            // The members that other crates depend on are reached from those
            .filter(|nid| {
                graph
                    .edges_directed(*nid, Direction::Incoming)
                    .all(|edge| match &graph[edge.source()] {
                        Node::Krate { .. } => edge.source() == *nid,
                        Node::Feature { krate_index, .. } => krate_index == nid,
                    })
            })
            .collect();
        let mut visited""")],
  "a member of the workspace that other members only have as a dependency of the filtered kind",
  "its own dependencies are missing", PRE + '''
    let ps = [
        member("a").dep(dep(1).dev()),
        member("b").dep(dep(2)),
        krate("c", "1.0.0"),
    ];
    let g = graph(Builder::new(), &ps, None);
    let left: Vec<_> = g.krates_filtered(DepKind::Dev).into_iter().map(|k| k.name.as_str()).collect();
    assert_eq!(left, ["a", "b", "c"]);
}
''')

seed("deps-parallel", "C28", [(L, """            .edges_directed(id, Direction::Outgoing)
            .map(move |edge| {
                let krate = &self.graph[edge.target()];
                (krate, edge.weight())
            })""", """            .neighbors(id)
            .filter_map(move |target| {
                let edge = self.graph.find_edge(id, target)?;
                Some((&self.graph[target], &self.graph[edge]))
            })""")],
  "a crate that depends on another one as two kinds",
  "one of the edges is seen twice, the other one not at all", PRE + '''
    let ps = [member("a").dep(dep(1)).dep(dep(1).build()), krate("b", "1.0.0")];
    let g = graph(Builder::new(), &ps, None);
    let mut kinds: Vec<_> = g.get_deps(g.nid_for_kid(&kid(&ps[0])).unwrap()).map(|(_, e)| e.to_string()).collect();
    kinds.sort();
    assert_eq!(kinds, ["", "(build)"]);
}
''')

seed("deps-self", "C28", [(L, """            .edges_directed(id, Direction::Outgoing)
            .map(move |edge| {""", """            .edges_directed(id, Direction::Outgoing)
            .filter(move |edge| edge.target() != id)
            .map(move |edge| {""")],
  "a member with a development dependency on itself",
  "the dependency is skipped when the dependencies of the member are walked", PRE + '''
    let ps = [member("a").dep(dep(0).dev()).dep(dep(1)), krate("b", "1.0.0")];
    let g = graph(Builder::new(), &ps, None);
    assert_eq!(g.get_deps(g.nid_for_kid(&kid(&ps[0])).unwrap()).count(), 2);
}
''')

seed("kind-toggled", "C29", [(B, """        self.ignore_kinds |= match scope {""", """        self.ignore_kinds ^= match scope {""")],
  "a kind that is ignored in one scope, and then again in one that has it",
  "it is no longer ignored there", PRE + '''
    let ps = [member("a").dep(dep(1).build()), krate("b", "1.0.0")];
    let mut b = Builder::new();
    b.ignore_kind(DepKind::Build, Scope::Workspace);
    b.ignore_kind(DepKind::Build, Scope::Workspace);
    assert_eq!(names(&graph(b, &ps, None)), ["a@0.1.0"]);
}
''')

seed("workspace-sticks", "C29", [(B, """        self.workspace = workspace;
        self""", """        self.workspace |= workspace;
        self""")],
  "the workspace flag set and then cleared, with metadata that has a root",
  "all the members are roots", PRE + '''
    let ps = [member("a"), member("b")];
    let mut b = Builder::new();
    b.workspace(true);
    b.workspace(false);
    assert_eq!(names(&graph(b, &ps, Some(0))), ["a@0.1.0"]);
}
''')

seed("exclude-covered", "C29", [(B, """        self.exclude.extend(exclude);
        self""", """        for spec in exclude {
            // A spec without a version covers all of them
            self.exclude.retain(|exc| exc.name != spec.name || spec.version.is_some());
            self.exclude.push(spec);
        }
        self""")],
  "an exclusion by name, followed by one by name and source",
  "the first one has no effect", PRE + '''
    let ps = [member("a").dep(dep(1)), krate("b", "1.0.0")];
    let mut b = Builder::new();
    b.exclude(["b".parse().unwrap(), "https://host/x#b".parse().unwrap()]);
    assert_eq!(names(&graph(b, &ps, None)), ["a@0.1.0"]);
}
''')

seed("edge-subsumed", "C08", [(B, "                        .any(|d| d.kind == edge.kind && d.cfg.as_deref() == edge.cfg)", "                        .any(|d| d.kind == edge.kind && (d.cfg.is_none() && edge.features.is_empty() && !edge.uses_default_features || d.cfg.as_deref() == edge.cfg))")],
  "a dependency that is declared for every target and then again for some",
  "the edge of the second declaration is missing", PRE + '''
    let ps = [member("a").dep(dep(1)).dep(dep(1).target("cfg(unix)")), krate("b", "1.0.0")];
    let e = edges(&graph(Builder::new(), &ps, None));
    assert!(e.contains(&"a@0.1.0 -> b@1.0.0 Normal cfg(unix)".to_owned()), "{e:?}");
}
''')

seed("windows-prefix", "C09", [(B, """                (None, None) => {
                    return true;
                }""", """                (None, _) => {
                    return true;
                }""")],
  "metadata from Windows, of a crate with two path dependencies, one of which is inside of the other, on packages with one name that are renamed to what looks the same in the code",
  "the outer one is taken for the inner one", PRE + '''
    let ps = [
        member("a").dep(dep(2).rename("r-n")).dep(dep(1).rename("r_n")),
        member("x"),
        member("y"),
    ];
    // x is in x, and y in x/y, is called x as well
    let text = json(&ps, Some(0))
        .to_string()
        .replace("path+file:///ws/y#0.1.0", "path+file:///ws/x/y#x@0.1.0")
        .replace("\\"name\\":\\"y\\"", "\\"name\\":\\"x\\"")
        .replace("\\"/ws/y", "\\"/ws/x/y")
        .replace("\\"/ws/x/y\\"", "\\"D:\\\\\\\\ws\\\\\\\\x\\\\\\\\y\\"")
        .replace("\\"/ws/x\\"", "\\"D:\\\\\\\\ws\\\\\\\\x\\"")
        .replace("path+file:///ws", "path+file:///D:/ws")
        .replace("\\"/ws", "\\"D:/ws");
    let md: cm::Metadata = serde_json::from_str(&text).expect("metadata");
    let g: Krates = Builder::new().build_with_metadata(md, NoneFilter).expect("graph");
    let a = g.krates_by_name("a").next().unwrap().node_id;
    for (i, dir) in [(0, "/x/y"), (1, "/x")] {
        let to = &g.resolved_dependency(a, i).expect("resolved").id.repr;
        assert!(to.split('#').next().unwrap().ends_with(dir), "{i} {to}");
    }
}
''')

seed("node-by-version", "C01", [(B, """            let krate_index = nodes.binary_search_by(|n| n.id.cmp(pid)).unwrap();

            let rnode = &nodes[krate_index];
            let (_, krate)""", """            // There is one of each version
            let krate_index = nodes
                .binary_search_by(|n| (n.id.name(), n.id.version()).cmp(&(pid.name(), pid.version())))
                .unwrap();

            let rnode = &nodes[krate_index];
            let (_, krate)""")],
  "two revisions of a package with the same name and version, that have different dependencies",
  "the dependencies of one of them are missing", PRE + '''
    let ps = [
        member("a").dep(dep(1)).dep(dep(2).rename("c")),
        krate("b", "1.0.0").from("git+https://h/b?rev=1#1111111").dep(dep(3)),
        krate("b", "1.0.0").from("git+https://h/b?rev=2#2222222").dep(dep(4)),
        krate("x", "1.0.0"),
        krate("y", "1.0.0"),
    ];
    assert_eq!(names(&graph(Builder::new(), &ps, None)), ["a@0.1.0", "b@1.0.0", "b@1.0.0", "x@1.0.0", "y@1.0.0"]);
}
''')

seed("feature-dash", "C11", [(L, "if *krate_index == nid && name == feat {", "if *krate_index == nid && name.replace('-', \"_\") == feat.replace('-', \"_\") {")],
  "a crate with two features that only differ in - and _, of which one is enabled",
  "the enabled one is found under the name of the other", PRE + '''
    let ps = [member("a").feat("x-y", &[]).off("x_y", &[])];
    let g = graph(Builder::new(), &ps, None);
    assert!(g.get_node(&kid(&ps[0]), Some("x-y")).is_some());
    assert!(g.get_node(&kid(&ps[0]), Some("x_y")).is_none());
}
''')

def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, capture_output=True, text=True)

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    verify = "--verify" in sys.argv
    part = next((a[2:] for a in sys.argv if a.startswith("-p")), "")
    wt = f"/tmp/seedwork/{part}/krates" if part else "/tmp/seedwork/krates"
    if not os.path.isdir(wt):
        os.makedirs("/tmp/seedwork", exist_ok=True)
        sh(f"cp -a /repo {wt} && cd {wt} && for m in package-rename chained-weak/app; do cp /opt/vp/locks/$m/Cargo.lock tests/$m/; done")
    sh("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD", cwd=wt)
    base = {}
    for n, s in enumerate(S):
        if part and n % 3 != int(part) - 1: continue
        if args and s["id"] not in args: continue
        sh("git checkout -q -- .", cwd=wt)
        d = os.path.join(OUT, s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        ok = True; why = ""
        for f, old, new in s["edits"]:
            t = open(os.path.join(wt, f)).read()
            if t.count(old) < 1:
                ok = False; why += f" [not found: {old[:50]!r}]"; break
            open(os.path.join(wt, f), "w").write(t.replace(old, new, 1))
        if not ok: print(s["id"], "BAD", why); shutil.rmtree(d); continue
        diff = sh("git diff", cwd=wt).stdout
        # changed lines must be lines of the original repository
        orig = {}
        for f in {f for f, _, _ in s["edits"]}:
            orig[f] = set(sh(f"git show 2c80c3c:{f}", cwd=wt).stdout.splitlines())
        cur = None; mine = []
        for l in diff.splitlines():
            if l.startswith("--- a/"): cur = l[6:]
            elif l.startswith("-") and not l.startswith("---") and l[1:] not in orig[cur]: mine.append(l)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        shutil.copy(os.path.join(HERE, "demo.sh"), d)
        open(os.path.join(d, "main.rs"), "w").write(s["main"])
        if "mod common;" in s["main"]: shutil.copy(os.path.join(HERE, "common.rs"), d)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(s["id"], s["prop"], "NOT ORIGINAL " + repr(mine) if mine else "", flush=True)
        if verify:
            with_ = sh(f"bash {d}/demo.sh", cwd=wt)
            res = f"demo with patch {with_.returncode}"
            if with_.returncode == 0 or "error[" in with_.stderr or "could not compile" in with_.stderr: res += " !!! " + with_.stderr[-600:]
            without = sh(f"bash {d}/demo.sh", cwd="/tmp/seedwork/clean/krates")
            res += f", without {without.returncode}"
            if without.returncode: res += " !!! " + without.stderr[-1500:]
            log = f"/tmp/seedwork/t{part}.log"
            t = sh(f"rm -f {log}; export INSTA_UPDATE=no RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu; for f in '' '--features targets'; do cargo test --workspace --no-fail-fast --offline $f -- --skip ignores_features_for_ignored_kinds; done > {log} 2>&1; grep -E '^test .*FAILED|^error' {log} | grep -v 'ignores_features_for_ignored_kinds' | grep -v 'target failed' | grep -v 'rerun pass' | grep -v '^test result'", cwd=wt)
            res += " tests: " + " ".join(t.stdout.split("\n")[:14])
            print("   ", res, flush=True)
    sh("git checkout -q -- .", cwd=wt)
main()
