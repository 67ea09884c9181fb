//! A file system that exists only here: paths are resolved and looked at through the
//! functions below, for krsym and natively alike.
use crate::world::World;
use std::ffi::{CStr, c_char, c_int, c_long, c_void};

struct Fs {
    mode: Mode,
    files: Vec<String>,
    /// Where a directory is to be found instead.
    links: Vec<(String, String)>,
}
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// Everything below /k exists.
    Any,
    /// Only the given files and their directories do.
    Files,
}
static mut FS: Fs = Fs { mode: Mode::Any, files: vec![], links: vec![] };
#[allow(static_mut_refs)]
fn fs() -> &'static mut Fs {
    unsafe { &mut FS }
}

/// From now on nothing exists but the manifests of a world, at /k, if they do; /l and
/// /m/k lead to /k, and /k/lnk to /k/sub.
pub fn mount(w: &World, manifests: bool) {
    let f = fs();
    f.mode = Mode::Files;
    if manifests {
        f.files = w.pkgs.iter().map(|p| format!("/k/{}/Cargo.toml", p.dir)).collect();
        f.files.push("/k/Cargo.toml".into());
        f.links = vec![("/l".into(), "/k".into()), ("/m/k".into(), "../k".into()), ("/k/lnk".into(), "sub".into())];
    }
}

/// The path without links, if it exists, and whether it is a directory.
fn resolve(p: &str, depth: usize) -> Option<(String, bool)> {
    let f = fs();
    if depth == 0 {
        return None;
    }
    if f.mode == Mode::Any {
        let p = p.trim_end_matches('/');
        return (p == "/k" || p.starts_with("/k/")).then(|| (p.to_string(), !p.ends_with(".toml")));
    }
    if p.is_empty() {
        return None;
    }
    let p = if p.starts_with('/') { p.to_string() } else { format!("/k/{p}") };
    let mut at = String::new();
    let mut dir = true;
    for c in p.split('/') {
        match c {
            "" | "." => {
                if !dir {
                    return None;
                }
            }
            ".." => {
                if !dir {
                    return None;
                }
                at.truncate(at.rfind('/').unwrap_or(0));
            }
            _ => {
                let next = format!("{at}/{c}");
                if let Some((_, to)) = f.links.iter().find(|l| l.0 == next) {
                    let to = if to.starts_with('/') { to.clone() } else { format!("{at}/{to}") };
                    (at, dir) = resolve(&to, depth - 1)?;
                    continue;
                }
                dir = f.files.iter().any(|x| x.strip_prefix(next.as_str()).is_some_and(|r| r.starts_with('/')));
                dir |= f.links.iter().any(|x| x.0.strip_prefix(next.as_str()).is_some_and(|r| r.starts_with('/')));
                if !dir && !f.files.contains(&next) {
                    return None;
                }
                at = next;
            }
        }
    }
    Some((if at.is_empty() { "/".into() } else { at }, dir))
}

unsafe extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
    fn malloc(n: usize) -> *mut u8;
}
fn path(p: *const c_char) -> String {
    String::from_utf8_lossy(unsafe { CStr::from_ptr(p) }.to_bytes()).into_owned()
}

#[unsafe(no_mangle)]
extern "C" fn realpath(p: *const c_char, buf: *mut u8) -> *mut u8 {
    match resolve(&path(p), 8) {
        Some((r, _)) => unsafe {
            let q = if buf.is_null() { malloc(r.len() + 1) } else { buf };
            std::ptr::copy_nonoverlapping(r.as_ptr(), q, r.len());
            *q.add(r.len()) = 0;
            q
        },
        None => {
            unsafe { *__errno_location() = 2 };
            std::ptr::null_mut()
        }
    }
}
#[unsafe(no_mangle)]
extern "C" fn statx(at: c_int, p: *const c_char, flags: c_int, mask: u32, out: *mut u8) -> c_int {
    if fs().mode == Mode::Any {
        return unsafe { syscall(332, at as c_long, p, flags as c_long, mask as c_long, out as *mut c_void) } as c_int;
    }
    match resolve(&path(p), 8) {
        Some((_, dir)) => unsafe {
            std::ptr::write_bytes(out, 0, 256);
            *(out as *mut u32) = 0x7ff;
            *(out.add(28) as *mut u16) = if dir { 0o040755 } else { 0o100644 };
            0
        },
        None => {
            unsafe { *__errno_location() = 2 };
            -1
        }
    }
}
