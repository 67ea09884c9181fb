//! Shows a world and what cargo makes of it, to be compared with the real cargo by
//! tools/oracle.py.
use crate::families::world_of;
use serde_json::{Value, json};

pub fn dump(a: u64, b: u64, _: u64) {
    let (w, _) = world_of(a, b);
    let r = w.resolve();
    let md = w.metadata(&r);
    let at = |id: &str| w.pkgs.iter().position(|p| p.id(w.opaque) == id);
    let pkgs: Vec<Value> = w
        .pkgs
        .iter()
        .map(|p| {
            let deps: Vec<Value> = p
                .deps
                .iter()
                .map(|d| {
                    json!({"to": d.to, "name": d.name, "kind": d.kind, "optional": d.optional, "default": d.default, "features": d.feats,
                           "target": d.target, "req": d.req})
                })
                .collect();
            json!({"name": p.name, "version": p.version, "member": p.member, "lib": p.lib, "bin_only": p.bin_only, "kinds": serde_json::to_value(p.kinds).unwrap(),
                   "hidden": p.hidden, "features": p.feats, "deps": deps})
        })
        .collect();
    let nodes: Vec<Value> = md
        .resolve
        .unwrap()
        .nodes
        .iter()
        .map(|n| {
            let deps: Vec<Value> = n
                .deps
                .iter()
                .map(|d| json!({"name": d.name, "pkg": at(&d.pkg.repr), "dep_kinds": serde_json::to_value(&d.dep_kinds).unwrap()}))
                .collect();
            json!({"pkg": at(&n.id.repr), "features": n.features, "deps": deps})
        })
        .collect();
    println!("{}", json!({"pkgs": pkgs, "requested": w.requested, "root": w.root, "nodes": nodes}));
}
