//! The commands that run cargo, and what is made of their output.
use crate::strs::{inr, one_of, sym_str};
use crate::sym::*;
use krates::{Cmd, LockOptions, cm};
use std::ffi::{CStr, CString, c_char};
use std::path::Path;
use std::process::Command;

/// $CARGO; nothing else is in the environment.
static mut CARGO: Option<CString> = None;
fn set_cargo(v: Option<&str>) {
    unsafe { CARGO = v.map(|v| CString::new(v).unwrap()) };
}
#[unsafe(no_mangle)]
#[allow(static_mut_refs)]
extern "C" fn getenv(name: *const c_char) -> *const c_char {
    match unsafe { &CARGO } {
        Some(c) if unsafe { CStr::from_ptr(name) } == c"CARGO" => c.as_ptr(),
        _ => std::ptr::null(),
    }
}
fn is_path(b: u8) -> bool {
    inr(b, b'a', b'c') | one_of(b, b"/. =")
}

fn yes(n: &str) -> bool {
    conc(flag(n) as u64) == 1
}
fn is_feat(b: u8) -> bool {
    inr(b, b'a', b'c') | one_of(b, b"-/")
}
fn is_dir(b: u8) -> bool {
    one_of(b, b"ab/.")
}

/// The arguments after `metadata --format-version 1`.
fn args(c: &Command) -> Vec<String> {
    let a: Vec<String> = c.get_args().map(|a| a.to_str().unwrap().to_string()).collect();
    check(a.len() >= 3 && a[0] == "metadata" && a[1] == "--format-version" && a[2] == "1", "metadata");
    a[3.min(a.len())..].to_vec()
}

/// Takes an option, and its value, from the arguments.
fn take(a: &mut Vec<String>, opt: &str, n: usize) -> Option<Vec<String>> {
    let at = a.iter().position(|x| x == opt)?;
    if at + n >= a.len() + (n == 0) as usize {
        return None;
    }
    let out: Vec<String> = a.drain(at..=at + n).collect();
    check(!a.iter().any(|x| x == opt), "once");
    Some(out)
}
fn flag_is(a: &mut Vec<String>, opt: &str, want: bool) {
    check(take(a, opt, 0).is_some() == want, "flag");
}

/// a: most features, b: longest feature, c: longest directory (100: only features vary)
pub fn cmd(a: u64, b: u64, c: u64) {
    let only = c == 100;
    let c = if only { 0 } else { c };
    let yes = |n: &str| !only && yes(n);
    let flag = |n: &str| !only && flag(n);
    let pick = |n: u64, what: &str| if only && what != "features" { 0 } else { pick(n, what) };
    let mut cmd = Cmd::new();
    let program = if yes("program") {
        cmd.cargo_path("/k/bin/my cargo");
        Some("/k/bin/my cargo")
    } else {
        None
    };
    let feats: Vec<String> = (0..pick(a + 1, "features")).map(|_| sym_str(1, b, "feature", is_feat)).collect();
    // In one go, or one after the other.
    if yes("separately") {
        for f in &feats {
            cmd.features([f.clone()]);
        }
    } else {
        cmd.features(feats.clone());
    }
    let (nodef, all) = (yes("no-default"), yes("all"));
    if nodef {
        cmd.no_default_features();
    }
    if all {
        cmd.all_features();
    }
    let lock = LockOptions { frozen: flag("frozen"), locked: flag("locked"), offline: flag("offline") };
    if yes("lock options") {
        cmd.lock_opts(LockOptions { frozen: true, locked: false, offline: true });
    }
    cmd.lock_opts(lock);
    let others: &[&str] = [&[][..], &["--filter-platform", "x"][..], &["-Zy", "-v", "-Zy"][..]][pick(3, "others") as usize];
    if others.len() == 3 {
        cmd.other_options(others[..1].iter().map(|o| o.to_string()));
        cmd.other_options(others[1..].iter().map(|o| o.to_string()));
    } else {
        cmd.other_options(others.iter().map(|o| o.to_string()));
    }
    let dir = sym_str(0, c, "directory", is_dir);
    let manifest = pick(3, "manifest");
    let mut cwd: Option<String> = None;
    match manifest {
        0 => {}
        1 => {
            cmd.current_dir(&dir);
            cwd = Some(dir.clone());
        }
        _ => {
            let relative = dir.is_empty() && yes("relative");
            cmd.manifest_path(if relative { "Cargo.toml".to_string() } else { format!("{dir}/Cargo.toml") });
            if yes("directory too") {
                cmd.current_dir("/elsewhere");
            }
            cwd = Some(if relative { String::new() } else { format!("{dir}/") });
        }
    }
    let mdc: cm::MetadataCommand = cmd.into();
    // What the environment says unless told otherwise.
    let var = yes("$CARGO").then_some("/e/cargo");
    set_cargo(var);
    let c = mdc.cargo_command();
    check(c.get_program() == program.or(var).unwrap_or("cargo"), "program");
    let mut a = args(&c);
    let want = |s: &[&str]| s.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    // What is passed through comes last.
    let at = a.len().saturating_sub(others.len());
    check(a[at..] == want(others)[..], "others-last");
    a.truncate(at);
    let m = take(&mut a, "--manifest-path", 1);
    check(m == (manifest == 2).then(|| want(&["--manifest-path", "Cargo.toml"])), "manifest");
    let f = take(&mut a, "--features", 1);
    let mut sorted: Vec<&str> = vec![];
    for f in &feats {
        let mut at = 0;
        let mut known = false;
        for s in &sorted {
            if *s == f {
                known = true;
            } else if *s < f.as_str() {
                at += 1;
            }
        }
        if !known {
            sorted.insert(at, f);
        }
    }
    check(f == (!feats.is_empty()).then(|| want(&["--features", &sorted.join(" ")])), "features");
    flag_is(&mut a, "--no-default-features", nodef);
    flag_is(&mut a, "--all-features", all);
    flag_is(&mut a, "--frozen", lock.frozen);
    flag_is(&mut a, "--locked", lock.locked);
    flag_is(&mut a, "--offline", lock.offline);
    check(a.is_empty(), "nothing-else");
    let got = c.get_current_dir();
    let want = cwd.map(|d| if d.is_empty() { ".".to_string() } else { d });
    check(got == want.as_deref().map(Path::new), "directory");
    check(got.is_none_or(|d| !d.as_os_str().is_empty()), "directory-not-empty");
    check(c.get_envs().count() == 0, "environment");
    reach("end");
}

/// The command as it can be built on its own.
/// a: longest path
pub fn command(a: u64, _: u64, _: u64) {
    let mut m = cm::MetadataCommand::new();
    let program = yes("program").then(|| sym_str(1, a, "program", is_path));
    let _ = program.as_ref().map(|p| m.cargo_path(p));
    let cargo = yes("$CARGO").then(|| sym_str(0, a, "$CARGO", is_path));
    set_cargo(cargo.as_deref());
    let nodeps = yes("no-deps");
    let manifest = yes("manifest").then(|| sym_str(1, a, "manifest", is_dir));
    let dir = yes("directory").then(|| sym_str(1, a, "directory", is_dir));
    let var = yes("variable").then(|| (sym_str(1, 1, "key", is_feat), sym_str(0, 1, "value", is_feat)));
    let _ = nodeps.then(|| m.no_deps().verbose(true));
    let _ = manifest.as_ref().map(|p| m.manifest_path(p).verbose(false));
    let _ = dir.as_ref().map(|p| m.current_dir(p).verbose(true));
    let _ = var.as_ref().map(|(k, v)| m.env(k, "old").env(k, v).verbose(true));
    m.other_options(["-a".to_string()]);
    m.other_options(["-v".to_string(), "-w".to_string()]);
    let c = m.clone().cargo_command();
    check(c.get_program() == program.as_deref().or(cargo.as_deref()).unwrap_or("cargo"), "program");
    let mut a = args(&c);
    let at = a.len().saturating_sub(2);
    check(a[at..] == ["-v", "-w"], "others-last");
    a.truncate(at);
    check(take(&mut a, "--manifest-path", 1).map(|x| x[1].clone()) == manifest, "manifest");
    flag_is(&mut a, "--no-deps", nodeps);
    check(a.is_empty(), "nothing-else");
    check(c.get_current_dir() == dir.as_deref().map(Path::new), "directory");
    let env: Vec<_> = c.get_envs().collect();
    check(env.len() == var.is_some() as usize, "environment");
    if let (Some((k, v)), Some(e)) = (var, env.first()) {
        check(e.0 == k.as_str() && e.1.is_some_and(|x| x == v.as_str()), "environment-variable");
    }
    reach("end");
}
