//! Running cargo. The system calls that start a process and read its output are replaced
//! by the ones below, for krsym and natively alike: no process is ever started.
use crate::strs::sym_bytes;
use crate::sym::*;
use krates::cm::{self, Error};
use krates::{Builder, Krates, NoneFilter};
use std::ffi::{CStr, c_char, c_int, c_long, c_void};

/// What the process does, and what is known of it.
struct Proc {
    on: bool,
    /// Error number with which it does not start.
    fails: c_int,
    status: c_int,
    out: Vec<u8>,
    err: Vec<u8>,
    /// What was read of either.
    read: [usize; 2],
    /// Reads of the output return this much at most.
    chunk: usize,
    /// What was opened, in order: 0 /dev/null, 1, 2: ends of pipes.
    fds: Vec<u8>,
    pipes: u8,
    /// Standard streams that were redirected: 0 no, 1 to null, 2 + n to pipe n.
    redirect: [u8; 3],
    dir: Option<String>,
    args: Vec<String>,
    program: String,
    started: u32,
    waited: u32,
    broken: bool,
}
const BASE: c_int = 1000;
static mut PROC: Proc = Proc {
    on: false,
    fails: 0,
    status: 0,
    out: vec![],
    err: vec![],
    read: [0, 0],
    chunk: usize::MAX,
    fds: vec![],
    pipes: 0,
    redirect: [0; 3],
    dir: None,
    args: vec![],
    program: String::new(),
    started: 0,
    waited: 0,
    broken: false,
};
#[allow(static_mut_refs)]
fn p() -> &'static mut Proc {
    unsafe { &mut PROC }
}
unsafe extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
fn text(s: *const c_char) -> String {
    String::from_utf8_lossy(unsafe { CStr::from_ptr(s) }.to_bytes()).into_owned()
}
fn ours(fd: c_int) -> bool {
    fd >= BASE && ((fd - BASE) as usize) < p().fds.len()
}

/// Files are only opened to redirect to them.
#[unsafe(no_mangle)]
extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if !p().on {
        return unsafe { syscall(2, path, flags, mode) } as c_int;
    }
    p().broken |= text(path) != "/dev/null";
    p().fds.push(0);
    BASE + p().fds.len() as c_int - 1
}
#[unsafe(no_mangle)]
extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    if !p().on {
        return unsafe { syscall(293, fds, flags) } as c_int;
    }
    let n = p().fds.len() as c_int;
    let pipe = p().pipes;
    p().pipes += 1;
    p().fds.push(1 + 2 * pipe);
    p().fds.push(2 + 2 * pipe);
    unsafe {
        *fds = BASE + n;
        *fds.add(1) = BASE + n + 1;
    }
    0
}
#[unsafe(no_mangle)]
unsafe extern "C" fn close(fd: c_int) -> c_int {
    if ours(fd) { 0 } else { unsafe { syscall(3, fd) as c_int } }
}
#[unsafe(no_mangle)]
extern "C" fn ioctl(fd: c_int, req: u64, arg: *mut c_void) -> c_int {
    if ours(fd) { 0 } else { unsafe { syscall(16, fd, req, arg) as c_int } }
}
#[unsafe(no_mangle)]
extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if ours(fd) { 0 } else { unsafe { syscall(72, fd, cmd, arg) as c_int } }
}
#[repr(C)]
struct PollFd {
    fd: c_int,
    events: i16,
    revents: i16,
}
#[unsafe(no_mangle)]
extern "C" fn poll(fds: *mut PollFd, n: u64, timeout: c_int) -> c_int {
    if !p().on {
        return unsafe { syscall(7, fds, n, timeout) as c_int };
    }
    for i in 0..n as usize {
        unsafe { (*fds.add(i)).revents = (*fds.add(i)).events };
    }
    n as c_int
}
#[unsafe(no_mangle)]
unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if !ours(fd) {
        return unsafe { syscall(0, fd, buf, n) as isize };
    }
    let q = p();
    let kind = q.fds[(fd - BASE) as usize];
    if kind == 0 {
        return 0;
    }
    let pipe = (kind - 1) / 2;
    // Which stream of the process writes to it.
    let stream = if q.redirect[1] == 2 + pipe {
        0
    } else if q.redirect[2] == 2 + pipe {
        1
    } else {
        q.broken = true;
        return 0;
    };
    let src = if stream == 0 { &q.out } else { &q.err };
    let at = q.read[stream];
    let n = n.min(src.len() - at).min(q.chunk);
    let buf = buf as *mut u8;
    for i in 0..n {
        unsafe { *buf.add(i) = src[at + i] };
    }
    q.read[stream] += n;
    n as isize
}
#[unsafe(no_mangle)]
extern "C" fn waitpid(pid: c_int, status: *mut c_int, _flags: c_int) -> c_int {
    p().waited += 1;
    p().broken |= pid != 77;
    unsafe { *status = p().status };
    pid
}
#[unsafe(no_mangle)]
extern "C" fn wait4(pid: c_int, status: *mut c_int, flags: c_int, _usage: *mut c_void) -> c_int {
    waitpid(pid, status, flags)
}
#[unsafe(no_mangle)]
extern "C" fn gnu_get_libc_version() -> *const c_char {
    c"2.39".as_ptr()
}
#[unsafe(no_mangle)]
extern "C" fn posix_spawnattr_init(_: *mut c_void) -> c_int {
    0
}
#[unsafe(no_mangle)]
extern "C" fn posix_spawnattr_destroy(_: *mut c_void) -> c_int {
    0
}
#[unsafe(no_mangle)]
extern "C" fn posix_spawnattr_setflags(_: *mut c_void, _: i16) -> c_int {
    0
}
#[unsafe(no_mangle)]
extern "C" fn posix_spawnattr_setsigdefault(_: *mut c_void, _: *const c_void) -> c_int {
    0
}
#[unsafe(no_mangle)]
extern "C" fn sigemptyset(_: *mut c_void) -> c_int {
    0
}
#[unsafe(no_mangle)]
extern "C" fn sigaddset(_: *mut c_void, _: c_int) -> c_int {
    0
}
#[unsafe(no_mangle)]
extern "C" fn posix_spawn_file_actions_init(_: *mut c_void) -> c_int {
    0
}
#[unsafe(no_mangle)]
extern "C" fn posix_spawn_file_actions_destroy(_: *mut c_void) -> c_int {
    0
}
#[unsafe(no_mangle)]
extern "C" fn posix_spawn_file_actions_adddup2(_: *mut c_void, from: c_int, to: c_int) -> c_int {
    let q = p();
    if !ours(from) || to > 2 {
        q.broken = true;
        return 0;
    }
    let kind = q.fds[(from - BASE) as usize];
    q.redirect[to as usize] = if kind == 0 { 1 } else { 2 + (kind - 1) / 2 };
    0
}
#[unsafe(no_mangle)]
extern "C" fn posix_spawn_file_actions_addchdir_np(_: *mut c_void, dir: *const c_char) -> c_int {
    p().dir = Some(text(dir));
    0
}
#[unsafe(no_mangle)]
extern "C" fn posix_spawnp(pid: *mut c_int, program: *const c_char, _: *const c_void, _: *const c_void, argv: *const *const c_char, _env: *const *const c_char) -> c_int {
    let q = p();
    q.program = text(program);
    for i in 1.. {
        let a = unsafe { *argv.add(i) };
        if a.is_null() {
            break;
        }
        q.args.push(text(a));
    }
    if q.fails != 0 {
        return q.fails;
    }
    q.started += 1;
    unsafe { *pid = 77 };
    0
}
#[unsafe(no_mangle)]
extern "C" fn fork() -> c_int {
    p().broken = true;
    unsafe { *__errno_location() = 38 };
    -1
}

fn doc(version: usize) -> String {
    format!("{{\"packages\":[],\"workspace_members\":[],\"resolve\":null,\"workspace_root\":\"/w\",\"target_directory\":\"/t\",\"version\":{version}}}")
}
fn utf8(b: &[u8]) -> bool {
    std::str::from_utf8(b).is_ok()
}

/// a: most lines, b: longest symbolic line, c: longest error output
pub fn exec(a: u64, b: u64, c: u64) {
    let mut out: Vec<u8> = vec![];
    // What the first line that starts with a brace is: a document of this version, or none.
    let mut first: Option<Option<usize>> = None;
    let lines = pick(a + 1, "lines");
    for i in 0..lines {
        let (line, is): (Vec<u8>, Option<Option<usize>>) = match pick(5, "line") {
            0 => (doc(7 + i as usize).into_bytes(), Some(Some(7 + i as usize))),
            1 => {
                let d = doc(1);
                (d[..d.len() - 1].into(), Some(None))
            }
            2 => (b"   Compiling {".to_vec(), None),
            3 => (format!(" {}", doc(2)).into_bytes(), None),
            _ => {
                let n = pick(b + 1, "length") as usize;
                let l = sym_bytes(n, "line", |b| (b != b'\n') & (b != b'\r'));
                let brace = l.first() == Some(&b'{');
                (l, brace.then_some(None))
            }
        };
        // "{}" and the like are no metadata either.
        if first.is_none() {
            first = is;
        }
        out.extend(line);
        match pick(if i + 1 == lines { 3 } else { 2 }, "end of line") {
            0 => out.push(b'\n'),
            1 => out.extend(b"\r\n"),
            _ => {}
        }
    }
    let err = sym_bytes(pick(c + 1, "error length") as usize, "error", |_| true);
    let verbose = pick(2, "verbose") == 1;
    let dir = pick(2, "directory") == 1;
    let code = bits(8, "code") as c_int;
    let (fails, status) = match pick(3, "end") {
        0 => (0, code << 8),
        1 => {
            assume((code > 0) & (code < 65));
            (0, code)
        }
        _ => (conc([2, 13, 12][pick(3, "errno") as usize] as u64) as c_int, 0),
    };
    let q = p();
    *q = Proc {
        on: true,
        fails,
        status,
        out: out.clone(),
        err: err.clone(),
        read: [0, 0],
        chunk: [usize::MAX, 3][pick(2, "chunk") as usize],
        fds: vec![],
        pipes: 0,
        redirect: [0; 3],
        dir: None,
        args: vec![],
        program: String::new(),
        started: 0,
        waited: 0,
        broken: false,
    };
    let mut m = cm::MetadataCommand::new();
    m.cargo_path("/k/cargo").verbose(verbose).other_options(["-Zx".to_string()]);
    if dir {
        m.current_dir("/w");
    }
    // On its own, or to build a graph of what it says.
    let graph = pick(2, "graph") == 1;
    let mut no_graph = false;
    let r = if graph {
        match Builder::new().build(m, NoneFilter) {
            Err(krates::Error::Metadata(e)) => Err(e),
            Err(krates::Error::NoResolveGraph) => {
                no_graph = true;
                Err(Error::NoJson)
            }
            r => {
                let r: Result<Krates, _> = r;
                check(r.is_err(), "graph-of-nothing");
                check(false, "graph-error");
                return;
            }
        }
    } else {
        m.exec()
    };
    let q = p();
    q.on = false;
    check(!q.broken, "system-calls");
    check(q.program == "/k/cargo", "program");
    check(q.args == ["metadata", "--format-version", "1", "-Zx"], "arguments");
    check(q.dir.as_deref() == dir.then_some("/w"), "directory");
    check(q.started == (fails == 0) as u32, "once");
    let said = match &r {
        Ok(_) => String::new(),
        Err(e) => e.to_string(),
    };
    if fails != 0 {
        check(matches!(r, Err(Error::Io(_))), "not-started");
        reach("not-started");
        return;
    }
    check(q.waited == 1, "waited");
    check(q.redirect[1] >= 2, "output-captured");
    check((q.redirect[2] >= 2) != verbose, "error-output-shown");
    // Shown rather than captured.
    let err = if verbose { vec![] } else { err };
    if no_graph {
        check((status == 0) & utf8(&out), "graph-of-failure");
        check(matches!(first, Some(Some(_))), "graph-of-nothing");
        reach("no-graph");
        return;
    }
    if status != 0 {
        check(r.is_err(), "failed");
        if !utf8(&err) {
            reach("failed-garbled");
            return;
        }
        match r {
            Err(Error::CargoMetadata { stderr }) => {
                check(stderr.as_bytes() == err, "error-output");
                check(said.contains(&stderr), "said");
                reach("failed");
            }
            _ => check(false, "error-output-kept"),
        }
        return;
    }
    if !utf8(&out) {
        check(r.is_err(), "garbled");
        reach("garbled");
        return;
    }
    match (first, r) {
        (None, r) => {
            check(matches!(r, Err(Error::NoJson)), "no-json");
            reach("no-json");
        }
        (Some(None), r) => {
            check(matches!(r, Err(Error::Json(_))), "bad-json");
            reach("bad-json");
        }
        (Some(Some(_)), _) if graph => check(false, "no-graph"),
        (Some(Some(v)), r) => {
            check(r.is_ok(), "decoded");
            check(r.is_ok_and(|m| m.version == v && m.workspace_root.as_str() == "/w"), "first");
            reach("decoded");
        }
    }
}
#[unsafe(no_mangle)]
extern "C" fn __xpg_strerror_r(_: c_int, buf: *mut c_char, n: usize) -> c_int {
    if n > 1 {
        unsafe {
            *buf = b'e' as c_char;
            *buf.add(1) = 0;
        }
    }
    0
}
