//! Decoding and encoding metadata.
use crate::strs::{inr, one_of, sym_bytes, sym_str};
use crate::sym::*;
use krates::cm;
use serde::{Serialize, de::DeserializeOwned};
use std::fmt::Debug;

/// A field of a JSON object: its text and what it decodes to, in two versions.
struct F {
    key: &'static str,
    val: (&'static str, String),
    alt: (&'static str, String),
    /// What it is if it is not there; None: an error.
    absent: Option<&'static str>,
    /// What it is if it is null, unless it never is.
    null: Option<&'static str>,
    /// What must not be accepted.
    wrong: &'static str,
}
fn f(key: &'static str, val: (&'static str, &str), alt: (&'static str, &str), absent: Option<&'static str>, null: Option<&'static str>, wrong: &'static str) -> F {
    F { key, val: (val.0, val.1.into()), alt: (alt.0, alt.1.into()), absent, null, wrong }
}
const A: (&str, &str) = ("\"a\"", "\"a\"");
const B: (&str, &str) = ("\"b\\u00e9\\n\\\"/\\t\"", "\"bé\\n\\\"/\\t\"");
/// A required string.
fn s(key: &'static str) -> F {
    f(key, A, B, None, None, "1")
}
/// An optional string.
fn o(key: &'static str) -> F {
    f(key, (A.0, "Some(\"a\")"), (B.0, "Some(\"bé\\n\\\"/\\t\")"), Some("None"), Some("None"), "[\"a\"]")
}
/// A list of strings.
fn l(key: &'static str, absent: Option<&'static str>) -> F {
    f(key, ("[\"x\",\"a\"]", "[\"x\", \"a\"]"), ("[]", "[]"), absent, None, "\"a\"")
}
fn flag_(key: &'static str, absent: Option<&'static str>) -> F {
    f(key, ("false", "false"), ("true", "true"), absent, None, "\"true\"")
}

trait Rec: DeserializeOwned + Serialize {
    fn fields() -> Vec<F>;
    fn canon(&self, key: &str) -> String;
}
fn d<T: Debug>(x: &T) -> String {
    format!("{x:?}")
}
fn ids(x: &[cm::PackageId]) -> String {
    x.iter().map(|i| i.repr.as_str()).collect::<Vec<_>>().join(" ")
}

const PKG: &str = r#"{"name":"p","version":"1.0.0","id":"p1","dependencies":[],"targets":[],"features":{},"manifest_path":"/p/Cargo.toml"}"#;

impl Rec for cm::Metadata {
    fn fields() -> Vec<F> {
        let pkgs: (&'static str, &str) = (Box::leak(format!("[{PKG}]").into_boxed_str()), "p1");
        vec![
            f("packages", pkgs, ("[]", ""), None, None, PKG),
            f("workspace_members", ("[\"p2\",\"p1\"]", "p2 p1"), ("[]", ""), None, None, "\"p1\""),
            f("workspace_default_members", ("[\"p1\"]", "Some p1"), ("[]", "Some "), Some("None"), None, "\"p1\""),
            f(
                "resolve",
                (r#"{"nodes":[{"id":"p1","dependencies":[]}],"root":"p1"}"#, "1 Some(PackageId { repr: \"p1\" })"),
                (r#"{"root":null,"nodes":[]}"#, "0 None"),
                Some("None"),
                Some("None"),
                "[]",
            ),
            s("workspace_root"),
            s("target_directory"),
            f("metadata", ("{\"a\":[1,null]}", "{\"a\":[1,null]}"), ("[]", "[]"), Some("null"), Some("null"), ""),
            f("version", ("1", "1"), ("7", "7"), Some("0"), None, "\"1\""),
        ]
    }
    fn canon(&self, key: &str) -> String {
        match key {
            "packages" => self.packages.iter().map(|p| p.id.repr.as_str()).collect::<Vec<_>>().join(" "),
            "workspace_members" => ids(&self.workspace_members),
            "workspace_default_members" => self.workspace_default_members.0.as_ref().map_or("None".into(), |m| format!("Some {}", ids(m))),
            "resolve" => self.resolve.as_ref().map_or("None".into(), |r| format!("{} {:?}", r.nodes.len(), r.root)),
            "workspace_root" => d(&self.workspace_root),
            "target_directory" => d(&self.target_directory),
            "metadata" => self.workspace_metadata.to_string(),
            _ => self.version.to_string(),
        }
    }
}
impl Rec for cm::Resolve {
    fn fields() -> Vec<F> {
        vec![
            f("nodes", (r#"[{"id":"n","dependencies":[]},{"id":"m","dependencies":[]}]"#, "n m"), ("[]", ""), None, None, "{}"),
            f("root", A, B, None, Some("None"), "[]"),
        ]
        .into_iter()
        .map(|mut x| {
            if x.key == "root" {
                x.val.1 = "Some(\"a\")".into();
                x.alt.1 = "Some(\"bé\\n\\\"/\\t\")".into();
            }
            x
        })
        .collect()
    }
    fn canon(&self, key: &str) -> String {
        match key {
            "nodes" => self.nodes.iter().map(|n| n.id.repr.as_str()).collect::<Vec<_>>().join(" "),
            _ => d(&self.root.as_ref().map(|r| &r.repr)),
        }
    }
}
impl Rec for cm::Node {
    fn fields() -> Vec<F> {
        vec![
            s("id"),
            f("deps", (r#"[{"name":"x","pkg":"q"},{"pkg":"a","name":"z"}]"#, "x=q z=a"), ("[]", ""), Some(""), None, "{}"),
            f("dependencies", ("[\"q\",\"a\"]", "q a"), ("[]", ""), None, None, "\"q\""),
            l("features", Some("[]")),
        ]
    }
    fn canon(&self, key: &str) -> String {
        match key {
            "id" => d(&self.id.repr),
            "deps" => self.deps.iter().map(|x| format!("{}={}", x.name, x.pkg)).collect::<Vec<_>>().join(" "),
            "dependencies" => ids(&self.dependencies),
            _ => d(&self.features),
        }
    }
}
impl Rec for cm::NodeDep {
    fn fields() -> Vec<F> {
        vec![
            s("name"),
            s("pkg"),
            f("dep_kinds", (r#"[{"kind":"dev","target":"t"},{"kind":null,"target":null}]"#, "dev Some(\"t\");normal None;"), ("[{}]", "normal None;"), Some(""), None, "{}"),
        ]
    }
    fn canon(&self, key: &str) -> String {
        match key {
            "name" => d(&self.name),
            "pkg" => d(&self.pkg.repr),
            _ => self.dep_kinds.iter().map(|k| format!("{} {:?};", k.kind, k.target)).collect(),
        }
    }
}
fn kind() -> F {
    f("kind", ("\"dev\"", "Development"), ("\"build\"", "Build"), Some("Normal"), Some("Normal"), "\"development\"")
}
impl Rec for cm::DepKindInfo {
    fn fields() -> Vec<F> {
        vec![kind(), o("target")]
    }
    fn canon(&self, key: &str) -> String {
        match key {
            "kind" => d(&self.kind),
            _ => d(&self.target),
        }
    }
}
impl Rec for cm::Dependency {
    fn fields() -> Vec<F> {
        vec![
            s("name"),
            o("source"),
            f("req", ("\"^1.2\"", "^1.2"), ("\"*\"", "*"), None, None, "\"x.y\""),
            kind(),
            flag_("optional", None),
            flag_("uses_default_features", None),
            l("features", None),
            o("target"),
            o("rename"),
            o("registry"),
            o("path"),
        ]
    }
    fn canon(&self, key: &str) -> String {
        match key {
            "name" => d(&self.name),
            "source" => d(&self.source),
            "req" => self.req.to_string(),
            "kind" => d(&self.kind),
            "optional" => d(&self.optional),
            "uses_default_features" => d(&self.uses_default_features),
            "features" => d(&self.features),
            "target" => d(&self.target),
            "rename" => d(&self.rename),
            "registry" => d(&self.registry),
            _ => d(&self.path),
        }
    }
}
impl Rec for cm::Package {
    fn fields() -> Vec<F> {
        vec![
            s("name"),
            f("version", ("\"1.2.3-a.1+b\"", "1.2.3-a.1+b"), ("\"0.0.1\"", "0.0.1"), None, None, "\"1.2\""),
            l("authors", Some("[]")),
            s("id"),
            o("source"),
            o("description"),
            f(
                "dependencies",
                (r#"[{"name":"x","req":"*","optional":true,"uses_default_features":false,"features":[]}]"#, "x*"),
                ("[]", ""),
                None,
                None,
                "{}",
            ),
            o("license"),
            o("license_file"),
            f("targets", (r#"[{"name":"t","kind":["bin"],"src_path":"/p"}]"#, "t"), ("[]", ""), None, None, "{}"),
            f("features", (r#"{"x":["dep:a","b?/c"],"b":[]}"#, r#"{"b": [], "x": ["dep:a", "b?/c"]}"#), ("{}", "{}"), None, None, "[[]]"),
            s("manifest_path"),
            l("categories", Some("[]")),
            l("keywords", Some("[]")),
            o("readme"),
            o("repository"),
            o("homepage"),
            o("documentation"),
            f("edition", ("\"2018\"", "E2018"), ("\"2024\"", "E2024"), Some("E2015"), None, "\"2017\""),
            f("metadata", ("{\"a\":{\"b\":true}}", "{\"a\":{\"b\":true}}"), ("\"\"", "\"\""), Some("null"), Some("null"), ""),
            o("links"),
            f("publish", ("[\"a\"]", "Some([\"a\"])"), ("[]", "Some([])"), Some("None"), Some("None"), "\"a\""),
            o("default_run"),
            f("rust_version", ("\"1.70\"", "1.70.0"), ("\"1.2.3\"", "1.2.3"), Some("None"), Some("None"), "\"1.2.3-a\""),
        ]
    }
    fn canon(&self, key: &str) -> String {
        match key {
            "name" => d(&self.name),
            "version" => self.version.to_string(),
            "authors" => d(&self.authors),
            "id" => d(&self.id.repr),
            "source" => d(&self.source.as_ref().map(|s| &s.repr)),
            "description" => d(&self.description),
            "dependencies" => self.dependencies.iter().map(|x| format!("{}{}", x.name, x.req)).collect::<Vec<_>>().join(" "),
            "license" => d(&self.license),
            "license_file" => d(&self.license_file),
            "targets" => self.targets.iter().map(|x| x.name.as_str()).collect::<Vec<_>>().join(" "),
            "features" => d(&self.features),
            "manifest_path" => d(&self.manifest_path),
            "categories" => d(&self.categories),
            "keywords" => d(&self.keywords),
            "readme" => d(&self.readme),
            "repository" => d(&self.repository),
            "homepage" => d(&self.homepage),
            "documentation" => d(&self.documentation),
            "edition" => d(&self.edition),
            "metadata" => self.metadata.to_string(),
            "links" => d(&self.links),
            "publish" => d(&self.publish),
            "default_run" => d(&self.default_run),
            _ => self.rust_version.as_ref().map_or("None".into(), |v| v.to_string()),
        }
    }
}
impl Rec for cm::Target {
    fn fields() -> Vec<F> {
        vec![
            s("name"),
            f("kind", ("[\"lib\",\"custom-build\"]", "[Lib, CustomBuild]"), ("[\"proc-macro\"]", "[ProcMacro]"), None, None, "[\"library\"]"),
            f("crate_types", ("[\"cdylib\",\"rlib\"]", "[CDyLib, RLib]"), ("[\"bin\"]", "[Bin]"), Some("[]"), None, "[\"test\"]"),
            l("required-features", Some("[]")),
            s("src_path"),
            f("edition", ("\"2021\"", "E2021"), ("\"2015\"", "E2015"), Some("E2015"), None, "2021"),
            flag_("doctest", Some("true")),
            flag_("test", Some("true")),
            flag_("doc", Some("true")),
        ]
    }
    fn canon(&self, key: &str) -> String {
        match key {
            "name" => d(&self.name),
            "kind" => d(&self.kind),
            "crate_types" => d(&self.crate_types),
            "required-features" => d(&self.required_features),
            "src_path" => d(&self.src_path),
            "edition" => d(&self.edition),
            "doctest" => d(&self.doctest),
            "test" => d(&self.test),
            _ => d(&self.doc),
        }
    }
}

const UNKNOWN: [&str; 7] = ["null", "true", "-1.5e3", "\"s\\\"{\"", "[1,[\"]\",{}],{\"name\":[]}]", "{\"name\":\"x\",\"kind\":{\"id\":[null]}}", "18446744073709551615"];

/// The text of an object with these fields, rotated, and an unknown field.
fn text(mut fields: Vec<(String, String)>) -> String {
    let n = fields.len();
    match pick(4, "order") {
        0 => {}
        1 => fields.reverse(),
        2 => fields.rotate_left(n / 2),
        _ => fields.rotate_left(n.min(1)),
    }
    join(&fields)
}
fn join(fields: &[(String, String)]) -> String {
    let sep = " ,\n";
    let mut t = String::from("{");
    for (i, (k, v)) in fields.iter().enumerate() {
        if i > 0 {
            t.push_str(sep);
        }
        t.push('"');
        t.push_str(k);
        t.push_str("\": ");
        t.push_str(v);
    }
    t.push('}');
    t
}

/// Which fields are not the ordinary ones.
fn presence<T: Rec>(both: bool, round: bool) {
    let fs = T::fields();
    let n = fs.len() as u64;
    let i = pick(n, "field");
    let j = if both { pick(n, "field") } else { i };
    assume(j >= i);
    let mut out = vec![];
    // What each field decodes to; None: an error.
    let mut want: Vec<Option<String>> = vec![];
    for (at, x) in fs.iter().enumerate() {
        let at = at as u64;
        if at != i && at != j {
            out.push((x.key.to_string(), x.val.0.to_string()));
            want.push(Some(x.val.1.clone()));
            continue;
        }
        match pick(if round { 3 } else { 4 }, "state") {
            0 => want.push(x.absent.map(|a| a.to_string())),
            1 => {
                out.push((x.key.into(), x.alt.0.into()));
                want.push(Some(x.alt.1.clone()));
            }
            2 => {
                assume(x.null.is_some());
                out.push((x.key.into(), "null".into()));
                want.push(x.null.map(|a| a.to_string()));
            }
            _ => {
                assume(!x.wrong.is_empty());
                out.push((x.key.into(), x.wrong.into()));
                want.push(None);
            }
        }
    }
    if !round {
        let u = pick(1 + UNKNOWN.len() as u64, "unknown");
        if u > 0 {
            out.insert(out.len() / 2, (["unknown", "Name", ""][pick(3, "unknown key") as usize].into(), UNKNOWN[u as usize - 1].into()));
        }
    }
    let t = text(out);
    let r: Result<T, _> = serde_json::from_str(&t);
    emit(r.is_ok() as u64);
    if want.iter().any(|w| w.is_none()) {
        check(r.is_err(), "error");
        reach("rejected");
        return;
    }
    check(r.is_ok(), "decodes");
    let Ok(r) = r else { return };
    for (x, w) in fs.iter().zip(&want) {
        check(r.canon(x.key) == *w.as_ref().unwrap(), "field");
    }
    if round {
        let t = serde_json::to_string(&r).unwrap();
        let r: Result<T, _> = serde_json::from_str(&t);
        check(r.is_ok(), "decodes-again");
        let Ok(r) = r else { return };
        for (x, w) in fs.iter().zip(&want) {
            check(r.canon(x.key) == *w.as_ref().unwrap(), "field-again");
        }
        // No key twice.
        for x in &fs {
            let key = format!("\"{}\":", x.key);
            let top = top_level(&t, &key);
            emit(top);
            check(top <= 1, "key-once");
        }
    }
    reach("end");
}
/// How often the key occurs in the outermost object.
fn top_level(t: &str, key: &str) -> u64 {
    let b = t.as_bytes();
    let (mut depth, mut quoted, mut i, mut n) = (0, false, 0, 0);
    while i < b.len() {
        match b[i] {
            b'\\' => i += 1,
            b'"' => {
                if !quoted && depth == 1 && t[i..].starts_with(key) {
                    n += 1;
                }
                quoted = !quoted;
            }
            b'{' | b'[' if !quoted => depth += 1,
            b'}' | b']' if !quoted => depth -= 1,
            _ => {}
        }
        i += 1;
    }
    n
}

/// An unknown key, symbolic.
fn any_key<T: Rec>(len: u64) {
    let fs = T::fields();
    let key = sym_str(0, len, "key", |b| inr(b, b'a', b'z') | one_of(b, b"_-"));
    for x in &fs {
        assume(key != x.key);
    }
    let at = pick(3, "position") as usize * fs.len() / 2;
    let mut out: Vec<_> = fs.iter().map(|x| (x.key.to_string(), x.val.0.to_string())).collect();
    out.insert(at, (key, UNKNOWN[pick(UNKNOWN.len() as u64, "value") as usize].into()));
    let r: Result<T, _> = serde_json::from_str(&join(&out));
    check(r.is_ok(), "decodes");
    let Ok(r) = r else { return };
    for x in &fs {
        check(r.canon(x.key) == x.val.1, "field");
    }
    reach("end");
}

fn with<T: Rec>(key: &str, v: String) -> Result<T, serde_json::Error> {
    let out: Vec<_> = T::fields().iter().map(|x| (x.key.to_string(), if x.key == key { v.clone() } else { x.val.0.to_string() })).collect();
    serde_json::from_str(&join(&out))
}

/// Every string as a kind, an edition, ...
fn words(what: u64, len: u64) {
    let n = pick(len + 1, "length") as usize;
    let w = String::from_utf8(sym_bytes(n, "word", |b| inr(b, b'a', b'z') | inr(b, b'0', b'9') | (b == b'-') | (b == b'B'))).unwrap();
    // Written with an escape, or not.
    let e = if n > 0 && conc(flag("escaped") as u64) == 1 {
        let d = |x: u8| if x < 10 { b'0' + x } else { b'a' - 10 + x };
        let b = w.as_bytes()[n - 1];
        let b = conc(b as u64) as u8;
        format!("{}\\u00{}{}", &w[..n - 1], d(b >> 4) as char, d(b & 15) as char)
    } else {
        w.clone()
    };
    let q = format!("\"{e}\"");
    let l = format!("[\"{e}\"]");
    use cm::{CrateType as C, DependencyKind as K, Edition as E, TargetKind as T};
    fn is<V: PartialEq + Copy, X>(w: &str, menu: &[(&str, V)], r: Result<X, serde_json::Error>, get: impl Fn(X) -> V) {
        match (menu.iter().find(|m| m.0 == w), r) {
            (Some(m), Ok(r)) => {
                check(get(r) == m.1, "word");
                reach("known-word");
            }
            (None, Err(_)) => reach("unknown-word"),
            (Some(_), Err(_)) => check(false, "word-rejected"),
            (None, Ok(_)) => check(false, "word-accepted"),
        }
    }
    let kinds = [("normal", K::Normal), ("dev", K::Development), ("build", K::Build)];
    let editions = [("2015", E::E2015), ("2018", E::E2018), ("2021", E::E2021), ("2024", E::E2024)];
    match what {
        0 => is(&w, &kinds, with::<cm::DepKindInfo>("kind", q), |k| k.kind),
        1 => is(&w, &kinds, with::<cm::Dependency>("kind", q), |k| k.kind),
        2 => is(&w, &editions, with::<cm::Target>("edition", q), |k| k.edition),
        3 => is(&w, &editions, with::<cm::Package>("edition", q), |k| k.edition),
        4 => is(
            &w,
            &[
                ("example", T::Example),
                ("test", T::Test),
                ("bench", T::Bench),
                ("custom-build", T::CustomBuild),
                ("bin", T::Bin),
                ("lib", T::Lib),
                ("rlib", T::RLib),
                ("dylib", T::DyLib),
                ("cdylib", T::CDyLib),
                ("staticlib", T::StaticLib),
                ("proc-macro", T::ProcMacro),
            ],
            with::<cm::Target>("kind", l),
            |k| k.kind[0],
        ),
        _ => is(
            &w,
            &[
                ("bin", C::Bin),
                ("lib", C::Lib),
                ("rlib", C::RLib),
                ("dylib", C::DyLib),
                ("cdylib", C::CDyLib),
                ("staticlib", C::StaticLib),
                ("proc-macro", C::ProcMacro),
            ],
            with::<cm::Target>("crate_types", l),
            |k| k.crate_types[0],
        ),
    }
}

/// Every string as a Rust version.
fn rust_version(head: u64, len: u64) {
    let v = ["", "1.2.3", "1.2", "10.09", "1.2.3-a", "4294967296.1"][head as usize].to_string() + &sym_str(0, len, "version", |b| inr(b, b'0', b'9') | one_of(b, b".-+a"));
    // One to three numbers without leading zeros.
    let parts: Vec<&str> = v.split('.').collect();
    let plain = parts.iter().all(|p| !p.is_empty() && p.bytes().all(|b| inr(b, b'0', b'9')) && (p.len() == 1 || !p.starts_with('0')));
    let want = plain && (parts.len() == 2 || parts.len() == 3);
    let r = with::<cm::Package>("rust_version", format!("\"{v}\""));
    check(r.is_ok() == want, "rust-version");
    if let Ok(p) = r {
        reach("accepted");
        let got = p.rust_version.unwrap();
        let num = |i: usize| parts.get(i).map_or(0, |p| p.bytes().fold(0u64, |n, b| n * 10 + (b - b'0') as u64));
        check((got.major, got.minor, got.patch) == (num(0), num(1), num(2)), "rust-version-value");
        check(got.pre.is_empty() && got.build.is_empty(), "rust-version-plain");
    }
    reach("end");
}

/// A string of a JSON text, and what it stands for.
fn sym_text(len: u64, name: &str) -> (String, String) {
    let (mut t, mut s) = (String::new(), String::new());
    for _ in 0..pick(len + 1, name) {
        match pick(5, "char") {
            0 => {
                t.push_str("\\n");
                s.push('\n');
            }
            1 => {
                t.push_str("\\\"");
                s.push('"');
            }
            2 => {
                t.push_str("\\ud83d\\ude00");
                s.push('😀');
            }
            3 => {
                t.push('é');
                s.push('é');
            }
            _ => {
                let b = byte(name);
                assume(inr(b, 0x20, 0x7e) & (b != b'"') & (b != b'\\'));
                t.push(b as char);
                s.push(b as char);
            }
        }
    }
    (format!("\"{t}\""), s)
}

/// Strings of any content, back and forth.
fn strings(what: u64, len: u64) {
    let (t, s) = sym_text(len, "text");
    fn go<T: Rec>(key: &str, t: &str, s: &str, get: impl Fn(&T) -> Option<&str>) {
        let r = with::<T>(key, t.to_string());
        check(r.is_ok(), "decodes");
        let Ok(r) = r else { return };
        check(get(&r) == Some(s), "text");
        let r: Result<T, _> = serde_json::from_str(&serde_json::to_string(&r).unwrap());
        check(r.is_ok(), "decodes-again");
        let Ok(r) = r else { return };
        check(get(&r) == Some(s), "text-again");
        reach("end");
    }
    match what {
        0 => go::<cm::Package>("name", &t, &s, |p| Some(&p.name)),
        1 => go::<cm::Package>("license_file", &t, &s, |p| p.license_file.as_ref().map(|f| f.as_str())),
        2 => go::<cm::Package>("features", &format!("{{{t}:[{t}]}}"), &s, |p| p.features.iter().next().filter(|f| f.1.len() == 1 && f.0 == &f.1[0]).map(|f| f.0.as_str())),
        3 => go::<cm::Dependency>("target", &t, &s, |p| p.target.as_deref()),
        4 => go::<cm::Node>("id", &t, &s, |p| Some(&p.id.repr)),
        _ => go::<cm::Package>("metadata", &format!("{{{t}:[{t}]}}"), &s, |p| {
            let m = p.metadata.as_object()?;
            let (k, v) = m.iter().next()?;
            (v[0].as_str()? == k).then_some(k)
        }),
    }
}

/// Keys and values written with escapes, and documents that come as bytes, from a reader
/// or as a value.
fn spelling<T: Rec>() {
    let fs = T::fields();
    let i = pick(fs.len() as u64 + 1, "field") as usize;
    let escaped = |k: &str| {
        let at = pick(2, "escape") as usize * (k.len() - 1);
        let up = flag("upper case");
        let h = format!("{:02x}", k.as_bytes()[at]);
        let h = if conc(up as u64) == 1 { h.to_uppercase() } else { h };
        format!("{}\\u00{h}{}", &k[..at], &k[at + 1..])
    };
    let out: Vec<_> = fs.iter().enumerate().map(|(at, x)| (if at == i { escaped(x.key) } else { x.key.to_string() }, x.val.0.to_string())).collect();
    let t = join(&out);
    let r: Result<T, _> = match pick(4, "source") {
        0 => serde_json::from_str(&t),
        1 => serde_json::from_slice(t.as_bytes()),
        2 => serde_json::from_reader(t.as_bytes()),
        _ => serde_json::from_value(serde_json::from_str(&t).unwrap()),
    };
    check(r.is_ok(), "decodes");
    let Ok(r) = r else { return };
    for x in &fs {
        check(r.canon(x.key) == x.val.1, "field");
    }
    reach("end");
}

/// Documents that end early are rejected, and one with any other byte at any place does
/// not do worse than that.
fn damaged<T: Rec>(other: bool) {
    let fs = T::fields();
    let out: Vec<_> = fs.iter().map(|x| (x.key.to_string(), x.val.0.to_string())).collect();
    let mut t = join(&out).into_bytes();
    let at = pick(t.len() as u64, "place") as usize;
    if other {
        t[at] = byte("byte");
    } else {
        t.truncate(at);
    }
    let r: Result<T, _> = serde_json::from_slice(&t);
    match r {
        Ok(r) => {
            check(other, "cut-off");
            // Whatever it is, it is what its fields say.
            for x in &fs {
                emit(r.canon(x.key).len() as u64);
            }
            reach("accepted");
        }
        Err(e) => {
            emit(e.line() as u64);
            reach("rejected");
        }
    }
    reach("end");
}

fn rec<T: Rec>(b: u64, c: u64) {
    match b {
        0 => presence::<T>(c != 0, false),
        1 => any_key::<T>(c),
        3 => spelling::<T>(),
        4 => damaged::<T>(c != 0),
        _ => presence::<T>(c != 0, true),
    }
}
/// a: type, b: 0 presence, 1 unknown keys of up to c, 2 presence with round trip,
/// 3 spelling, 4 documents cut off (c: 1: with a byte changed).
/// a: 10 words of kind b up to c, 11 Rust versions (head b) up to c, 12 texts in place b up to c.
pub fn decode(a: u64, b: u64, c: u64) {
    match a {
        0 => rec::<cm::Metadata>(b, c),
        1 => rec::<cm::Resolve>(b, c),
        2 => rec::<cm::Node>(b, c),
        3 => rec::<cm::NodeDep>(b, c),
        4 => rec::<cm::DepKindInfo>(b, c),
        5 => rec::<cm::Dependency>(b, c),
        6 => rec::<cm::Package>(b, c),
        7 => rec::<cm::Target>(b, c),
        10 => words(b, c),
        11 => rust_version(b, c),
        _ => strings(b, c),
    }
}
