//! The targets of the worlds, and what is true of them.

pub struct Facts {
    pub triple: &'static str,
    pub facts: &'static [&'static str],
    /// Known without the `targets` feature.
    pub builtin: bool,
    /// Known at all: of unknown targets nothing but the name is known.
    pub known: bool,
}

pub const TARGETS: [Facts; 7] = [
    Facts {
        triple: "x86_64-unknown-linux-gnu",
        facts: &["unix", "target_os = \"linux\"", "target_arch = \"x86_64\"", "target_env = \"gnu\"", "target_family = \"unix\"", "target_pointer_width = \"64\"", "target_endian = \"little\"", "target_vendor = \"unknown\""],
        builtin: true,
        known: true,
    },
    Facts {
        triple: "x86_64-pc-windows-msvc",
        facts: &["windows", "target_os = \"windows\"", "target_arch = \"x86_64\"", "target_env = \"msvc\"", "target_family = \"windows\"", "target_pointer_width = \"64\"", "target_endian = \"little\"", "target_vendor = \"pc\""],
        builtin: true,
        known: true,
    },
    Facts {
        triple: "i686-unknown-linux-musl",
        facts: &["unix", "target_os = \"linux\"", "target_arch = \"x86\"", "target_env = \"musl\"", "target_family = \"unix\"", "target_pointer_width = \"32\"", "target_endian = \"little\"", "target_vendor = \"unknown\""],
        builtin: true,
        known: true,
    },
    Facts {
        triple: "wasm32-unknown-unknown",
        facts: &["target_os = \"unknown\"", "target_arch = \"wasm32\"", "target_family = \"wasm\"", "target_pointer_width = \"32\"", "target_endian = \"little\"", "target_vendor = \"unknown\""],
        builtin: true,
        known: true,
    },
    Facts {
        triple: "aarch64-apple-darwin",
        facts: &["unix", "target_os = \"macos\"", "target_arch = \"aarch64\"", "target_family = \"unix\"", "target_pointer_width = \"64\"", "target_endian = \"little\"", "target_vendor = \"apple\""],
        builtin: true,
        known: true,
    },
    // Not built in: only with the `targets` feature anything is known of it.
    Facts {
        triple: "x86_64-fortanix-linux-musl",
        facts: &["unix", "target_os = \"linux\"", "target_arch = \"x86_64\"", "target_env = \"musl\"", "target_family = \"unix\"", "target_pointer_width = \"64\"", "target_endian = \"little\"", "target_vendor = \"fortanix\""],
        builtin: false,
        known: cfg!(feature = "targets"),
    },
    Facts { triple: "my-own-thing.json", facts: &[], builtin: false, known: false },
];

/// Evaluates a predicate list such as `a, b)`, returning the values and what follows.
fn list<'a>(mut s: &'a str, leaf: &dyn Fn(&str) -> bool) -> (Vec<bool>, &'a str) {
    let mut v = vec![];
    loop {
        s = s.trim_start_matches([' ', ',']);
        if let Some(r) = s.strip_prefix(')') {
            return (v, r);
        }
        let (b, r) = expr(s, leaf);
        v.push(b);
        s = r;
    }
}
fn expr<'a>(s: &'a str, leaf: &dyn Fn(&str) -> bool) -> (bool, &'a str) {
    let s = s.trim_start();
    for (i, p) in ["all(", "any(", "not("].into_iter().enumerate() {
        if let Some(r) = s.strip_prefix(p) {
            let (v, r) = list(r, leaf);
            let b = match i {
                0 => v.iter().all(|x| *x),
                1 => v.iter().any(|x| *x),
                _ => !v[0],
            };
            return (b, r);
        }
    }
    let e = s.find([',', ')']).unwrap();
    match s[..e].trim() {
        "true" => (true, &s[e..]),
        "false" => (false, &s[e..]),
        l => (leaf(l), &s[e..]),
    }
}

/// Does `target` (a triple or cfg expression) hold for the triple `t` with the promised
/// features `f`?
pub fn holds(target: &str, t: &str, f: &[String]) -> bool {
    let Some(e) = target.strip_prefix("cfg(") else { return target == t };
    let facts = TARGETS.iter().find(|x| x.triple == t).unwrap();
    expr(e, &|p| {
        if let Some(x) = p.strip_prefix("target_feature = ") {
            return f.iter().any(|f| format!("\"{f}\"") == x);
        }
        facts.known && facts.facts.contains(&p)
    })
    .0
}

/// False for expressions without predicates that are false.
pub fn not_never(target: &str) -> bool {
    let Some(e) = target.strip_prefix("cfg(") else { return true };
    let n = std::cell::Cell::new(0);
    let b = expr(e, &|_| {
        n.set(n.get() + 1);
        true
    })
    .0;
    n.get() > 0 || b
}

use crate::graph::build;
use crate::strs::{inr, one_of, sym_str};
use crate::sym::*;
use crate::world::{Cfg, Dep, Pkg, World};

/// Target features and triples of any spelling.
/// a: 0 features, 1 triples, 2 triples next to a known one; b: longest text; c: most promised
pub fn spelled(a: u64, b: u64, c: u64) {
    let mut w = World { root: Some(0), ..World::default() };
    let mut cfg = Cfg::default();
    let target;
    let want;
    if a == 0 {
        let is: fn(u8) -> bool = |b| inr(b, b'a', b'c') | one_of(b, b".2-");
        let need = sym_str(1, b, "feature", is);
        let e = format!("target_feature = \"{need}\"");
        let promised: Vec<Vec<String>> =
            (0..1 + pick(2, "targets")).map(|_| (0..pick(c + 1, "promised")).map(|_| sym_str(1, b, "promised", is)).collect()).collect();
        let has = |t: usize| promised.get(t).is_some_and(|p| p.iter().any(|f| *f == need));
        // The first is a Unix, the second not.
        let form = pick(4, "form");
        (target, want) = match form {
            0 => (format!("cfg({e})"), has(0) || has(1)),
            1 => (format!("cfg(not({e}))"), !has(0) || (promised.len() > 1 && !has(1))),
            2 => (format!("cfg(all(unix, {e}))"), has(0)),
            _ => (format!("cfg(all(not(unix), {e}))"), has(1)),
        };
        for (t, f) in ["x86_64-unknown-linux-gnu", "x86_64-pc-windows-msvc"].into_iter().zip(promised) {
            cfg.targets.push((t, f));
        }
    } else {
        let is: fn(u8) -> bool = |b| inr(b, b'a', b'c') | one_of(b, b".-_");
        let t = |n: &str| -> &'static str { Box::leak(format!("x{}", sym_str(0, b, n, is)).into_boxed_str()) };
        let (x, y) = (t("target"), t("filter"));
        cfg.targets.push((y, vec![]));
        if a == 2 {
            cfg.targets.push(("x86_64-unknown-linux-gnu", vec![]));
        }
        want = x == y;
        target = x.to_string();
    }
    w.pkgs.push(Pkg::member("m").dep(Dep::new(1, "a").target(Some(&target))).dep(Dep::new(2, "b")));
    w.pkgs.push(Pkg::new("a"));
    w.pkgs.push(Pkg::new("b"));
    // The model of worlds does not know them: say what it is.
    let r = w.resolve();
    let (k, _) = build(&w, &cfg, &r);
    check(k.is_ok(), "builds");
    let Ok(k) = k else { return };
    let there = k.krates().any(|p| p.name == "a");
    emit(there as u64);
    check(there == want, "spelled");
    if want {
        reach("kept");
    } else {
        reach("dropped");
    }
    reach("end");
}
