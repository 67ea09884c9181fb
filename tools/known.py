#!/usr/bin/env python3
"""Writes known-findings.json; with --replays also searches the replays in known/ anew."""
import json, os, subprocess, sys, glob, shutil
R = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
K = []
def known(id, prop, spec, expect, what):
    K.append(dict(id=id, property=prop, status="known", variant="plain", replay=f"known/{id}.replay", expect=f"FAIL {expect}", what=what, spec=spec))
def fixed(prop, commit, what):
    K.append(dict(property=prop, status="fixed", entry=f"fixed: property={prop} {commit} {what}"))
S = 4096
known("C06-dep-rename", "C06", f"h_world,5,0,{8+S}", "features",
      "an enabled feature `dep:N` on an optional dependency renamed to N adds N to the enabled features of the crate itself (snapshots of the suite contain it)")
known("C11-dep-rename", "C11", f"h_world,5,0,{32+S}", "feature-enabled",
      "an enabled feature `dep:N` on an optional dependency renamed to N adds a feature node N to the crate, which has no such feature (snapshots of the suite contain it)")
known("C08-dep-rename", "C08", f"h_world,5,0,{16+S}", "feature-edge-unaccounted",
      "the edge of an enabled feature `dep:N` on an optional dependency renamed to N goes to a made up feature node N instead of to the dependency")
known("C06-dep-name", "C06", f"h_world,6,0,{8+S}", "features",
      "an enabled feature that refers to a dependency by name is attributed to another dependency whose package has that name")
known("C11-dep-name", "C11", f"h_world,6,0,{32+S}", "feature-enabled",
      "an enabled feature that refers to a dependency by name adds a feature node to another dependency whose package has that name")
known("C08-dep-name", "C08", f"h_world,6,0,{16+S}", "feature-edge-unaccounted",
      "the edge of an enabled feature that refers to a dependency by name goes to another dependency whose package has that name")
known("C14-through-features", "C14", f"h_world,1,200,{512+S}", "direct-dependency-extra",
      "direct_dependencies follows the edges of another crate's features and reports what only that crate depends on (the suite expects it)")
known("C15-filtered-request", "C15", "h_filtered,11,200,1", "extra",
      "krates_filtered keeps an optional dependency that is enabled only by a feature which a dependency of the filtered kind requests")
fixed("C17", "e22ec67", "percent-encoded git references in ids that spell out the package name were not decoded")
fixed("C18", "ccb4cc3", "equal ids in different formats had different hashes")
fixed("C19", "35c0e74", "specs with an empty package name were accepted")
fixed("C07", "5faa9a7", "a weak feature enabled optional declarations of a dependency that was enabled by another declaration")
fixed("C11", "8ccc469", "features of pruned dependencies appeared as features of the dependent")
fixed("C09", "18dc41c", "building panicked on git dependencies in the same checkout and on references with '#', and reported no error for a graph without roots")
fixed("C09", "8cda6c5", "building panicked on path dependencies with special characters that are told apart by their path")
fixed("C09", "693cb86", "a renamed dependency was mapped to the declaration of another one with the same package name")
fixed("C01", "86afd41", "a feature was applied to only the first of several dependencies with the same name")
fixed("C15", "cb03284", "crates only needed through the filtered kind were kept when a feature of a crate refers to them")
fixed("C23", "d066357", "metadata with `resolve: null` failed to decode")
fixed("C24", "887c14d", "required features of targets were lost in a round trip, and doctest was written twice")
fixed("C01", "d27818f", "a crate with a renamed library target of a kind other than lib was lost when only a feature with its name enables it")
fixed("C03", "b12a9bb", "`cfg(true)` was taken for a flag that no target has, and `cfg(false)` for one that some target may have")
fixed("C05", "57a96fc", "the workspace's own manifest was not recognized when the metadata has the workspace below a symbolic link")
fixed("C13", "abde0a5", "panic on a feature reference to a development dependency of a member when only another package enabled the referring feature, which cargo then does not apply")
fixed("C17", "ce4165b", "panic on package ids whose git reference has characters outside of ASCII, such as cargo writes for branch = \"gr\u00f6\u00dfe\"")
if "--replays" in sys.argv:
    ir = max(glob.glob(R + "/harness/target/plain/release/deps/kharness-*.ll"), key=os.path.getmtime)
    nat = R + "/harness/target/plain/release/kharness"
    os.makedirs(R + "/known", exist_ok=True)
    for k in K:
        if k["status"] != "known": continue
        t = "/tmp/known"; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        subprocess.run([R + "/engine/target/release/krsym", "--ir", ir, "--native", nat, "--out", t + "/o.json", "--replay-dir", t, "--max-violations", "6",
                        "--time", "120", "--spec", k["spec"]], capture_output=True)
        fs = [f for f in glob.glob(t + "/*.replay")
              if k["expect"] in subprocess.run([nat, f], capture_output=True, text=True).stdout]
        f = min(fs, key=lambda f: (os.path.getsize(f), open(f).read()))
        shutil.copy(f, os.path.join(R, k["replay"]))
for k in K: k.pop("spec", None)
json.dump(K, open(R + "/known-findings.json", "w"), indent=1); open(R + "/known-findings.json", "a").write("\n")
