#![allow(dead_code)]
//! Harnesses run symbolically by krsym and natively for replay.
//!
//! Every harness is an exported function `h_*(a, b, c)`; its arguments pick the
//! family of inputs. Natively, `kharness FILE` replays one assignment.
mod access;
mod command;
mod dump;
mod exec;
mod families;
mod fs;
mod graph;
mod json;
mod queries;
mod strs;
mod sym;
mod target;
mod typed;
mod world;

#[macro_export]
macro_rules! harness {
    ($($name:ident => $f:path;)*) => {
        $(
            #[unsafe(no_mangle)]
            #[inline(never)]
            pub extern "C" fn $name(a: u64, b: u64, c: u64) {
                $f(a, b, c)
            }
        )*
        fn dispatch(n: &str, a: [u64; 3]) {
            match n {
                $(stringify!($name) => $name(a[0], a[1], a[2]),)*
                _ => {
                    eprintln!("unknown harness {n}");
                    std::process::exit(3);
                }
            }
        }
    };
}

harness! {
    h_kid_parse => strs::kid_parse;
    h_kid_pair => strs::kid_pair;
    h_spec_any => strs::spec_any;
    h_spec_url => strs::spec_url;
    h_spec_match => strs::spec_match;
    h_feature => strs::feature;
    h_world => families::world;
    h_perm => queries::perm;
    h_filtered => queries::filtered;
    h_search => queries::search;
    h_lookup => queries::lookup;
    h_index => queries::index;
    h_cmd => command::cmd;
    h_command => command::command;
    h_json => json::decode;
    h_access => access::access;
    h_exec => exec::exec;
    h_dump => dump::dump;
    h_spelled => target::spelled;
    h_typed => typed::typed;
    h_walk => typed::walk;
    h_calls => typed::calls;
}

unsafe extern "C" {
    fn krsym_load(file: *const u8, name: *mut u8, args: *mut u64) -> i32;
}

fn main() {
    let Some(f) = std::env::args().nth(1) else {
        eprintln!("usage: kharness FILE");
        std::process::exit(3);
    };
    let f = format!("{f}\0");
    let mut name = [0u8; 256];
    let mut args = [0u64; 3];
    if unsafe { krsym_load(f.as_ptr(), name.as_mut_ptr(), args.as_mut_ptr()) } != 0 {
        eprintln!("cannot read {f}");
        std::process::exit(3);
    }
    let n = name.iter().position(|b| *b == 0).unwrap();
    dispatch(std::str::from_utf8(&name[..n]).unwrap(), args);
}
