//! Package ids, package specs and feature strings.
use crate::sym::*;
use krates::cm;
use krates::{Feature, Kid, PackageId, ParsedFeature, PkgSpec};
use std::hash::{Hash, Hasher};

pub fn inr(b: u8, lo: u8, hi: u8) -> bool {
    b.wrapping_sub(lo) <= hi - lo
}
/// `b` is one of `set`, without branching on it.
pub fn one_of(b: u8, set: &[u8]) -> bool {
    let mut r = false;
    for s in set {
        r |= b == *s;
    }
    r
}
pub fn is_name(b: u8) -> bool {
    inr(b, b'a', b'z') | inr(b, b'A', b'Z') | inr(b, b'0', b'9') | (b == b'-') | (b == b'_')
}
pub fn is_vers(b: u8) -> bool {
    inr(b, b'a', b'z') | inr(b, b'0', b'9') | one_of(b, b".-+")
}
/// Bytes a url path segment may hold without being encoded.
pub fn is_seg(b: u8) -> bool {
    is_name(b) | one_of(b, b".~!$&'*+,;=:@%")
}
/// Bytes of a git reference that this crate documents as supported.
pub fn is_ref(b: u8) -> bool {
    inr(b, b'a', b'z') | inr(b, b'A', b'Z') | inr(b, b'0', b'9') | one_of(b, b"!\"#$%&'()+,-./;<=>@]_`{|}")
}
/// Bytes of a revision: anything the crate documents as supported.
pub fn is_rev(b: u8) -> bool {
    is_ref(b) | one_of(b, b"*:?[\\^~")
}

pub fn sym_bytes(len: usize, name: &str, class: fn(u8) -> bool) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        let b = byte(name);
        assume(class(b));
        v.push(b);
    }
    v
}
pub fn sym_str(min: u64, max: u64, name: &str, class: fn(u8) -> bool) -> String {
    let len = if max > min { min + pick(max - min + 1, name) } else { min };
    String::from_utf8(sym_bytes(len as usize, name, class)).unwrap()
}

/// What is encoded in a package id.
struct Id {
    name: String,
    version: String,
    /// Source without the resolved commit, decoded.
    source: String,
    /// The source as the stable format writes it.
    encoded: String,
    /// Last path segment of the source url.
    seg: String,
    git: bool,
}

const HEX: &[u8; 16] = b"0123456789ABCDEF";
const HEXL: &[u8; 16] = b"0123456789abcdef";

fn id(kind: u64, max: u64, lower: bool) -> Id {
    let name = sym_str(1, max, "name", is_name);
    let version = sym_str(1, max, "version", is_vers);
    let same = flag("name_is_last_segment");
    match kind {
        // registry
        0 => {
            let tail = sym_str(1, max, "seg", is_seg);
            let s = format!("registry+https://r/{tail}");
            Id { name, version, encoded: s.clone(), source: s, seg: tail, git: false }
        }
        // path
        1 => {
            let dir = sym_str(0, max, "dir", is_seg);
            let seg = if same { name.clone() } else { sym_str(1, max, "seg", is_seg) };
            let s = if dir.is_empty() { format!("path+file:///{seg}") } else { format!("path+file:///{dir}/{seg}") };
            Id { name, version, encoded: s.clone(), source: s, seg, git: false }
        }
        // git, with or without a reference
        _ => {
            let seg = if same { name.clone() } else { sym_str(1, max, "seg", is_name) };
            let mut source = format!("git+https://h/{seg}");
            let mut encoded = source.clone();
            if kind >= 3 {
                let q = match kind {
                    3 | 6 => "?branch=",
                    4 => "?tag=",
                    _ => "?rev=",
                };
                source.push_str(q);
                encoded.push_str(q);
                let r = if kind == 6 { non_ascii(max) } else { sym_str(1, max, "ref", if kind == 5 { is_rev } else { is_ref }) };
                source.push_str(&r);
                for b in r.bytes() {
                    let plain = inr(b, b'a', b'z') | inr(b, b'A', b'Z') | inr(b, b'0', b'9') | one_of(b, b"*-._");
                    if plain {
                        encoded.push(b as char);
                    } else if b >= 0x80 {
                        let a = if lower { b'a' } else { b'A' };
                        encoded.push('%');
                        for d in [b >> 4, b & 15] {
                            let letter = ((d > 9) as u8).wrapping_neg();
                            encoded.push((((d + b'0') & !letter) | ((d.wrapping_add(a - 10)) & letter)) as char);
                        }
                    } else {
                        // The escapes are table data in the crate: one path per character.
                        let b = conc(b as u64) as usize;
                        let t = if lower { HEXL } else { HEX };
                        encoded.push('%');
                        encoded.push(t[b >> 4] as char);
                        encoded.push(t[b & 15] as char);
                    }
                }
            }
            Id { name, version, source, encoded, seg, git: true }
        }
    }
}

/// One or more symbolic characters outside of ASCII, of any length.
fn non_ascii(max: u64) -> String {
    let mut r = if flag("before") { "a/".to_string() } else { String::new() };
    for i in 0..max {
        let n = 2 + pick(3, "bytes");
        if i > 0 && flag("last") {
            break;
        }
        let Some(c) = utf8(n as usize, "char").filter(|c| c.chars().count() == 1) else {
            assume(false);
            unreachable!()
        };
        r.push_str(&c);
    }
    if flag("after") {
        r.push('%');
    }
    r
}

impl Id {
    fn stable(&self) -> String {
        if self.name == self.seg {
            format!("{}#{}", self.encoded, self.version)
        } else {
            format!("{}#{}@{}", self.encoded, self.name, self.version)
        }
    }
    fn opaque(&self) -> String {
        if self.git {
            format!("{} {} ({}#c0ffee)", self.name, self.version, self.source)
        } else {
            format!("{} {} ({})", self.name, self.version, self.source)
        }
    }
}

fn kid(s: &str) -> Kid {
    Kid::from(PackageId { repr: s.to_owned() })
}

struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn hash(k: &Kid) -> Vec<u8> {
    let mut r = Rec(vec![]);
    k.hash(&mut r);
    r.0
}

/// C17. a: kind of source, b: longest component, c: lower case escapes.
pub fn kid_parse(a: u64, b: u64, c: u64) {
    let i = id(a, b, c == 1);
    let s = kid(&i.stable());
    emit_str(s.name());
    emit_str(s.version());
    emit_str(s.source());
    check(s.name() == i.name, "stable-name");
    check(s.version() == i.version, "stable-version");
    check(s.source() == i.source, "stable-source");
    let o = kid(&i.opaque());
    check(o.name() == i.name, "opaque-name");
    check(o.version() == i.version, "opaque-version");
    check(o.source() == i.source, "opaque-source");
    check(o == s, "formats-equal");
    reach("end");
}

/// C18. a, b: sources of the two ids (+10: opaque); c: longest component.
pub fn kid_pair(a: u64, b: u64, c: u64) {
    let i = id(a % 10, c, false);
    let j = id(b % 10, c, false);
    let x = kid(&if a >= 10 { i.opaque() } else { i.stable() });
    let y = kid(&if b >= 10 { j.opaque() } else { j.stable() });
    let tx = (x.name(), x.version(), x.source());
    let ty = (y.name(), y.version(), y.source());
    let want = tx.cmp(&ty);
    let got = x.cmp(&y);
    emit(got as i8 as u8 as u64);
    check(got == want, "cmp");
    check(x.partial_cmp(&y) == Some(want), "partial-cmp");
    check(y.cmp(&x) == want.reverse(), "antisymmetric");
    let eq = x == y;
    check(eq == (tx == ty), "eq");
    check((x != y) == !eq, "ne");
    check(x == x.clone() && x.cmp(&x) == std::cmp::Ordering::Equal, "reflexive");
    if eq {
        reach("equal");
        check(hash(&x) == hash(&y), "hash");
    }
    reach("end");
}

// ---- package specs ----

/// Every valid UTF-8 string of exactly `len` bytes, with bytes limited to `class`
/// when ASCII.
fn utf8(len: usize, name: &str) -> Option<String> {
    let v = sym_bytes(len, name, |_| true);
    String::from_utf8(v).ok()
}

struct Want {
    name: String,
    version: Option<krates::semver::Version>,
    url: Option<String>,
}

fn valid_name(n: &str) -> bool {
    let mut ok = !n.is_empty();
    for b in n.bytes() {
        ok &= is_name(b);
    }
    ok
}

/// `name`, `name:version` or `name@version`.
fn name_version(s: &str) -> Option<(String, Option<krates::semver::Version>)> {
    let at = s.bytes().position(|b| (b == b':') | (b == b'@'));
    let (n, v) = match at {
        Some(i) => (&s[..i], Some(krates::semver::Version::parse(&s[i + 1..]).ok()?)),
        None => (s, None),
    };
    valid_name(n).then(|| (n.to_owned(), v))
}

/// The documented grammar, read directly.
fn spec(s: &str) -> Option<Want> {
    if !s.contains('/') {
        let (name, version) = name_version(s)?;
        return Some(Want { name, version, url: None });
    }
    let (url, frag) = match s.bytes().position(|b| b == b'#') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    let scheme = url.find("://");
    if scheme.is_none() && frag.is_some_and(|f| f.contains("://")) {
        return None;
    }
    let url = if scheme.is_some() { url.to_owned() } else { format!("cargo://{url}") };
    let rest = &url[url.find("://")? + 3..];
    let slash = rest.bytes().rposition(|b| b == b'/')?;
    let last = &rest[slash + 1..];
    if last.is_empty() {
        return None;
    }
    let (name, version) = match frag {
        None => {
            if !valid_name(last) {
                return None;
            }
            (last.to_owned(), None)
        }
        Some(f) => {
            let first = f.chars().next()?;
            if f.bytes().any(|b| (b == b':') | (b == b'@')) || first.is_ascii_alphabetic() {
                name_version(f)?
            } else {
                let v = krates::semver::Version::parse(f).ok()?;
                if !valid_name(last) {
                    return None;
                }
                (last.to_owned(), Some(v))
            }
        }
    };
    Some(Want { name, version, url: Some(url) })
}

fn spec_check(s: &str) {
    // More than one "://" is outside the grammar: only the absence of panics is claimed.
    let got = s.parse::<PkgSpec>();
    emit(got.is_ok() as u64);
    if s.matches("://").count() > 1 {
        reach("many-schemes");
        return;
    }
    match (got, spec(s)) {
        (Ok(g), Some(w)) => {
            reach("accepted");
            emit_str(&g.name);
            check(g.name == w.name, "name");
            check(g.version == w.version, "version");
            check(g.url == w.url, "url");
        }
        (Err(e), None) => {
            reach("rejected");
            check(matches!(e, krates::Error::InvalidPkgSpec(_)), "error-kind");
        }
        (Ok(_), None) => check(false, "accepted-bad"),
        (Err(_), Some(_)) => check(false, "rejected-good"),
    }
}

/// C19. Any string of exactly a bytes.
pub fn spec_any(a: u64, _b: u64, _c: u64) {
    let Some(s) = utf8(a as usize, "s") else { return };
    spec_check(&s);
    reach("end");
}

/// C19. Templates with symbolic holes. a: template, b: longest hole.
pub fn spec_url(a: u64, b: u64, _c: u64) {
    let ascii: fn(u8) -> bool = |b| b < 128;
    let h = |n: &str| sym_str(0, b, n, ascii);
    let s = match a {
        0 => format!("https://h/{}", h("path")),
        1 => format!("https://h/p#{}", h("frag")),
        2 => format!("h/{}#{}", h("path"), h("frag")),
        3 => format!("https://h/p#n@1.0.{}", h("patch")),
        4 => format!("{}1.2.3", h("name")),
        5 => format!("https://h/{}#1.2.{}", h("path"), h("patch")),
        6 => format!("https://h/p#{}1.2.3", h("name")),
        7 => format!("n{}1.0.0-a+b", h("sep")),
        8 => format!("s{}h/p", h("scheme")),
        _ => format!("{}://{}/p#n", h("scheme"), h("host")),
    };
    spec_check(&s);
    reach("end");
}

// ---- matching ----

pub fn package(name: String, version: krates::semver::Version, source: Option<String>) -> cm::Package {
    cm::Package {
        name,
        version,
        authors: vec![],
        id: PackageId { repr: String::new() },
        source: source.map(|repr| cm::Source { repr }),
        description: None,
        dependencies: vec![],
        license: None,
        license_file: None,
        targets: vec![],
        features: Default::default(),
        manifest_path: "/k/Cargo.toml".into(),
        categories: vec![],
        keywords: vec![],
        readme: None,
        repository: None,
        homepage: None,
        documentation: None,
        edition: cm::Edition::E2021,
        metadata: serde_json::Value::Null,
        links: None,
        publish: None,
        default_run: None,
        rust_version: None,
    }
}

fn sym_version(n: &str) -> krates::semver::Version {
    let mut v = krates::semver::Version::new(bits(8, n), bits(8, n), bits(8, n));
    let id: fn(u8) -> bool = |b| inr(b, b'a', b'z') | inr(b, b'1', b'9');
    if flag("pre") {
        v.pre = krates::semver::Prerelease::new(&sym_str(1, 1, "pre", id)).unwrap();
    }
    if flag("build") {
        v.build = krates::semver::BuildMetadata::new(&sym_str(1, 1, "build", id)).unwrap();
    }
    v
}

/// C20. a: source kind prefix, b: longest component, c: query/fragment form.
pub fn spec_match(a: u64, b: u64, c: u64) {
    let is_url: fn(u8) -> bool = |b| is_name(b) | one_of(b, b"/:.+@");
    let pname = sym_str(1, b, "pname", is_name);
    let pvers = sym_version("pv");
    let base = sym_str(1, b, "purl", is_url);
    let src = if a == 0 {
        None
    } else {
        let k = ["", "registry+", "git+", "sparse+"][a as usize];
        let tail = match c {
            0 => "",
            1 => "?branch=x+y/z",
            2 => "#0abc",
            _ => "?rev=q#0abc",
        };
        Some(format!("{k}{base}{tail}"))
    };
    let sname = sym_str(1, b, "sname", is_name);
    let svers = flag("has_version").then(|| sym_version("sv"));
    let surl = flag("has_url").then(|| sym_str(1, b, "surl", is_url));
    let want = sname == pname
        && svers.as_ref().is_none_or(|v| {
            v.major == pvers.major && v.minor == pvers.minor && v.patch == pvers.patch && v.pre.as_str() == pvers.pre.as_str() && v.build.as_str() == pvers.build.as_str()
        })
        && (surl.is_none() || src.is_none() || surl.as_ref() == Some(&base));
    let spec = PkgSpec { name: sname, version: svers, url: surl };
    let p = package(pname, pvers, src);
    let got = spec.matches(&p);
    emit(got as u64);
    check(got == want, "matches");
    if got {
        reach("match");
    }
    reach("end");
}

// ---- feature strings ----

/// C21. Any string of exactly a bytes after a prefix chosen by b.
pub fn feature(a: u64, b: u64, _c: u64) {
    let Some(tail) = utf8(a as usize, "s") else { return };
    let s = match b {
        0 => tail,
        1 => format!("dep:{tail}"),
        2 => format!("dep{tail}"),
        3 => format!("x?{tail}"),
        _ => format!("x/{tail}"),
    };
    let t = s.as_bytes();
    let n = t.len();
    let pf = ParsedFeature::from(s.as_str());
    let starts = n >= 4 && &t[..4] == b"dep:";
    let weak = (0..n).find(|i| i + 1 < n && (t[*i] == b'?') & (t[*i + 1] == b'/'));
    let strong = (0..n).find(|i| t[*i] == b'/');
    match pf.feat() {
        Feature::Krate(k) => {
            emit(1);
            reach("krate");
            check(starts, "krate");
            check(k.as_bytes() == &t[4.min(n)..], "krate-name");
        }
        Feature::Weak { krate, feature } => {
            emit(2);
            reach("weak");
            check(!starts && weak == Some(krate.len()), "weak");
            check(format!("{krate}?/{feature}") == s, "weak-parts");
        }
        Feature::Strong { krate, feature } => {
            emit(3);
            reach("strong");
            check(!starts && weak.is_none() && strong == Some(krate.len()), "strong");
            check(format!("{krate}/{feature}") == s, "strong-parts");
        }
        Feature::Simple(x) => {
            emit(4);
            reach("simple");
            check(!starts && weak.is_none() && strong.is_none(), "simple");
            check(x == s, "simple-parts");
        }
    }
    reach("end");
}
