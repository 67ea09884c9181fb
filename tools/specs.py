"""What each check runs: harness instances per tier, and how to describe them.

A spec is "harness,a,b,c". `need` lists labels that have to be reached (vacuity guard).
"""

CHECKS = {}


def check(pid, quick, thorough, need, bounds, outside, variant="plain", time=(200, 3000), assume=()):
    CHECKS[pid] = dict(
        quick=quick, thorough=thorough, need=need, bounds=bounds, outside=outside,
        variant=variant, time=time, assume=list(assume),
    )


def sp(h, *args):
    a = (list(args) + [0, 0, 0])[:3]
    if h == "h_world" and a[0] == 15 and a[1] % 100 >= 10:
        # More instructions than other worlds.
        a.append(20000)
    return ",".join([h] + [str(x) for x in a])


def prod(h, *lists):
    out = [()]
    for l in lists:
        out = [o + (x,) for o in out for x in (l if hasattr(l, "__iter__") else [l])]
    return [sp(h, *o) for o in out]


check(
    "C17",
    prod("h_kid_parse", [0, 1, 2], 2) + prod("h_kid_parse", [3, 4, 5], 2, [0, 1]) + [sp("h_kid_parse", 6, 1, 0)],
    prod("h_kid_parse", [0, 1, 2], 4) + prod("h_kid_parse", [3, 4, 5], 3, [0, 1]) + [sp("h_kid_parse", 6, 1, 1), sp("h_kid_parse", 6, 2, 0)],
    ["end"],
    {"quick": "components (name, version, path segments, git reference) of 1..2 symbolic characters of their full character class; registry, path, git without reference, git with branch/tag/rev; upper and lower case escapes; a reference with any one character outside of ASCII",
     "thorough": "components of 1..3 (git reference) or 1..4 (others) symbolic characters"},
    "longer components, more than two characters outside of ASCII",
)
check(
    "C18",
    prod("h_kid_pair", [0, 1, 2, 3, 13], [0, 2, 13], 1) + [sp("h_kid_pair", 0, 0, 2), sp("h_kid_pair", 1, 11, 2)],
    prod("h_kid_pair", [0, 1, 2, 3, 4, 5, 10, 11, 12, 13], [0, 1, 2, 3, 4, 5, 10, 11, 12, 13], 1)
    + prod("h_kid_pair", [0, 1, 2, 10], [0, 1, 12, 2], 2),
    ["end", "equal"],
    {"quick": "pairs of ids in every combination of source kinds and formats listed in the instances, components of 1 (two instances: 1..2) symbolic characters",
     "thorough": "all pairs of ten id forms, components of 1 (16 pairs: 1..2) symbolic characters"},
    "longer components; transitivity is not asserted over triples but follows from agreement with the order of (name, version, source) asserted on every pair",
)
check(
    "C19",
    prod("h_spec_any", [0, 1, 2, 3, 4, 5]) + prod("h_spec_url", range(10), 3),
    prod("h_spec_any", range(8)) + prod("h_spec_url", range(10), 5),
    ["end", "accepted", "rejected", "many-schemes"],
    {"quick": "every valid UTF-8 string of up to 5 bytes; ten url/name templates with symbolic ASCII holes of up to 3 characters",
     "thorough": "every valid UTF-8 string of up to 7 bytes; ten templates with holes of up to 5 characters"},
    "longer strings outside the templates; for strings with more than one '://' only the absence of panics is asserted",
)
check(
    "C20",
    prod("h_spec_match", [0, 1, 2, 3], 2, [0, 1, 2, 3]),
    prod("h_spec_match", [0, 1, 2, 3], 4, [0, 1, 2, 3]),
    ["end", "match"],
    {"quick": "names and urls of 1..2 symbolic characters, versions with symbolic 8-bit numbers and optional 1-character pre-release/build; all source kinds and tails",
     "thorough": "names and urls of 1..4 symbolic characters"},
    "longer names and urls; version numbers above 255",
)
check(
    "C21",
    prod("h_feature", [0, 1, 2, 3, 4, 5, 6], 0) + prod("h_feature", [3, 4], [1, 2, 3, 4]),
    prod("h_feature", range(9), 0) + prod("h_feature", range(7), [1, 2, 3, 4]),
    ["end", "krate", "weak", "strong", "simple"],
    {"quick": "every valid UTF-8 string of up to 6 bytes, and tails of 3..4 bytes after the prefixes dep:, dep, x?, x/",
     "thorough": "every valid UTF-8 string of up to 8 bytes; tails of up to 6 bytes"},
    "longer strings",
)

# Worlds: families of small cargo workspaces, see harness/src/families.rs.
MESH, CHAIN, FAN, DECLS, TARGETS, NAMES, SOURCES, EXCL, ROOTS, CYCLES, SWAPS, TWICE, INDEXED, MEMBERS, LIBS, BIG, BINS = range(17)
NODES, FILTERED, DEPS, FEATS, FEAT_EDGES, FEAT_NODES, MAPPING, LOOKUP, ROOT, DIRECT = [1 << i for i in range(10)]
DEEP, SMALL = 100, 200


def worlds(mask, *fams):
    """fams: (family, variants...)"""
    return [sp("h_world", f[0], v, mask) for f in fams for v in f[1:]]


WORLD = (
    "worlds of up to 8 packages (family big: 70 or 260 packages, features, declarations, members or parts of an expression): dependency kinds, optional and default flags, renames, features, feature tables, targets, "
    "sources, exclusions and roots are variables over the menus in harness/src/families.rs, kinds and ignore calls as symbolic bits; "
)
OUTSIDE = (
    "larger workspaces and feature tables than the families have; packages with build scripts, artifact dependencies or several library targets; "
    "metadata that cargo cannot produce; a strong reference to an optional dependency with an implicit feature of its name in a package that is no root"
)
ASSUME = [
    "the metadata is consistent: the harness derives it from a model of cargo's resolver (features unified over kinds and targets, "
    "weak references resolved as strong ones, as cargo metadata does)",
]


def world_check(pid, mask, quick, thorough, what, need=("graph", "end"), outside="", time=(300, 3000), variant="plain", more=([], [])):
    check(
        pid, worlds(mask, *quick) + more[0], worlds(mask, *thorough) + more[1],
        list(need), {"quick": WORLD + what + "; families " + fam(quick), "thorough": WORLD + what + "; families " + fam(thorough)},
        OUTSIDE + ("; " + outside if outside else ""), variant, time, ASSUME,
    )


FAM = ["mesh", "chain", "fan", "decls", "targets", "names", "sources", "exclusion", "roots", "cycles", "swaps", "twice", "indexed", "members", "libs", "big", "bins"]


def fam(fs):
    return ", ".join(FAM[f[0]] + " " + "/".join(str(v) for v in f[1:]) for f in fs)


SOURCES_ALL = (SOURCES, *range(10), 10, 13, 16, 20, 23, 24, 25, 30, 33, 42, 43, 44, 45, 49, 63, 65, 69, *range(80, 91), 94, 97, 98)
SOURCES_DEEP = (SOURCES, *[100 + v for v in SOURCES_ALL[1:] if v < 100])

world_check(
    "C01", NODES | FILTERED,
    [(MESH, 24), (CHAIN, 200, 201), (FAN, 200), (DECLS, 200, 201, 0), (TARGETS, 3), (NAMES, 2, 3), (SOURCES, 0, 3, 5, 10, 42), (EXCL, 0),
     (ROOTS, 0), (CYCLES, 200), (SWAPS, 3), (MEMBERS, 201), (LIBS, 0, 4), (BIG, 200, 201, 203), (BINS, 200, 203)],
    [(MESH, 124, 15, 115), (CHAIN, *range(8)), (FAN, *range(8)), (DECLS, 0, 1, 2, 3, 204, 205, 206), (TARGETS, 103, 104, 101), (NAMES, 0, 1, 100),
     SOURCES_DEEP, (EXCL, 4, 102, 101), (ROOTS, 102, 103), (CYCLES, 0, 1, 203), (SWAPS, 1, 3, 5), (MEMBERS, *range(4)), (LIBS, *range(100, 108)), (BIG, 0, 1, 3, 210, 211), (BINS, *range(8), 103)],
    "which crates are in the graph, and which are reported as filtered",
)
world_check(
    "C02", NODES | FILTERED | DEPS,
    [(MESH, 24, 14, 124), (DECLS, 0), (TARGETS, 3), (MEMBERS, 0, 1), (BIG, 200, 201)],
    [(MESH, 15, 115, 125), (DECLS, 0, 1, 2, 3, 100, 101), (TARGETS, 103), (CHAIN, 0, 1), (FAN, 0), (MEMBERS, 100, 101), (BIG, 0, 1, 5, 210)],
    "arbitrary kinds on every dependency, with one (deep: two) ignore calls of arbitrary kind and scope",
)
TT = [("targets", sp("h_world", TARGETS, v, NODES | FILTERED | DEPS)) for v in (2, 3, 4, 5)]
TTD = [("targets", sp("h_world", TARGETS, v, NODES | FILTERED | DEPS)) for v in (0, 1, 102, 103, 104)]
check(
    "C03",
    worlds(NODES | FILTERED | DEPS, (TARGETS, 0, 1, 2, 3, 4, 5, 206), (BIG, 205, 206)) + TT
    + [(v, s) for v in ("plain", "targets") for s in [sp("h_spelled", 0, 2, 2), sp("h_spelled", 1, 3), sp("h_spelled", 2, 2)]],
    worlds(NODES | FILTERED | DEPS, (TARGETS, 5, 100, 101, 102, 103, 104, 106), (BIG, 5, 6, 215, 216)) + TTD
    + [(v, s) for v in ("plain", "targets") for s in [sp("h_spelled", 0, 4, 2), sp("h_spelled", 0, 2, 3), sp("h_spelled", 1, 5), sp("h_spelled", 2, 4)]],
    ["graph", "end", "kept", "dropped"],
    {"quick": "one to three of seven triples with and without a promised target feature, one target expression per world: up to depth 2 over 4 predicates, "
              "depth 1 over 9, pairs over 12 (os, arch, env, family, vendor, pointer width, endian, feature, unix, windows, debug_assertions), depth 3 without "
              "filters, any of seven plain triples; constants; fourteen predicates that no target has or that are no predicates; target features and unknown triples of up to 2 symbolic characters against up to two promised ones on each of "
              "two targets; with and without the crate feature `targets`",
     "thorough": "as quick with depth 2 over 9 predicates, all triples, a symbolic ignore call"},
    "deeper expressions, other predicates and triples; custom target triples", assume=ASSUME, time=(300, 3000),
)
world_check(
    "C04", NODES | FILTERED | DEPS,
    [(EXCL, 0, 1, 2), (FAN, 204)],
    [(EXCL, 4, 5, 100, 101, 102), (FAN, 204, 205, 206, 207), (CYCLES, 100)],
    "up to two (deep: three) exclusion specs of 18, by name, version and url, that select any packages including roots", need=("graph", "end", "error"),
)
world_check(
    "C05", NODES | FILTERED | FEATS | LOOKUP,
    [(ROOTS, 0, 1, 2), (MEMBERS, 200, 201), (ROOTS, 4, 8, 12, 16), (BIG, 204)], [(ROOTS, 100, 101, 102, 103), (MEMBERS, 0, 1, 2, 3), (ROOTS, 4, 8, 12, 16, 111, 115, 119), (BIG, 4, 214)],
    "any root of three members or none, workspace mode, up to two (deep: three) include paths of 10, or of 13 with symbolic links and relative paths",
    outside="other arrangements of symbolic links than the one in harness/src/fs.rs; a manifest that is a link itself",
)
world_check(
    "C06", FEATS,
    [(CHAIN, 200, 201, 203, 206), (FAN, 200, 201, 203), (DECLS, 200, 201, 205, 211), (NAMES, 0, 1), (SOURCES, 0, 3, 10, 13), (EXCL, 2), (CYCLES, 200), (TARGETS, 3, 206), (MESH, 14), (TWICE, 200, 203), (MEMBERS, 0, 3), (BIG, 201, 202, 203), (BINS, 202)],
    [(CHAIN, *range(8)), (FAN, *range(8)), (DECLS, 0, 1, 2, 3, *range(204, 212)), (NAMES, 100, 101), SOURCES_DEEP, (EXCL, 4, 102), (CYCLES, 0, 1, 202, 203),
     (SWAPS, 1, 3), (TARGETS, 103, 106), (TWICE, *range(8)), (MEMBERS, *range(4)), (LIBS, 0, 2, 4), (BIG, 1, 2, 3, 212, 213), (BINS, *range(8))],
    "the enabled features of every crate",
)
world_check(
    "C07", NODES | FEATS,
    [(CHAIN, 200, 201, 203, 205), (FAN, 200), (DECLS, 200, 201, 1), (NAMES, 0), (BIG, 200, 202)],
    [(CHAIN, *range(8)), (FAN, *range(4)), (DECLS, *range(4), 204, 205, 206, 207), (NAMES, 100, 101, 4), (BIG, 0, 2, 210)],
    "weak references next to dep:, strong and implicit ones, in the same and in other features, before and after",
)
world_check(
    "C08", DEPS | FEAT_EDGES,
    [(MESH, 24), (CHAIN, 200, 205), (FAN, 200), (DECLS, 200, 201, 1, 210), (TARGETS, 3, 206), (NAMES, 0), (SOURCES, 0, 3, 10), (EXCL, 0), (CYCLES, 200), (LIBS, 0), (BIG, 200, 203, 205), (BINS, 201, 202)],
    [(MESH, 124, 15), (MEMBERS, 0, 1, 2), (LIBS, *range(8)), (TWICE, *range(4)), (CHAIN, *range(8)), (FAN, *range(8)), (DECLS, *range(4), 204, 205, *range(208, 212)), (TARGETS, 103, 104, 106), (NAMES, 100, 101), SOURCES_DEEP, (EXCL, 4, 102),
     (CYCLES, 0, 1, 203), (SWAPS, 1, 3), (BIG, 0, 3, 5, 213, 215), (BINS, *range(8))],
    "every edge between crates and features",
    outside="edges from an enabled feature to a feature or crate it names are accepted when only another dependency keeps that crate in the graph (the crate's snapshots contain them)",
)
world_check(
    "C09", MAPPING,
    [SOURCES_ALL, (SWAPS, 0, 4, 200), (DECLS, 0, 1), (NAMES, 0, 2), (TARGETS, 3, 206), (MESH, 24), (EXCL, 0), (LIBS, 0), (BIG, 205, 207), (BINS, 0, 3)],
    [SOURCES_DEEP, (BINS, *range(8), 103), (BIG, 5, 7, 215, 217), (LIBS, *range(100, 108)), (MEMBERS, 0), (SWAPS, 1, 3, 100, 102, 104), (DECLS, *range(4)), (NAMES, 100, 101), (TARGETS, 103, 101, 6), (MESH, 124), (EXCL, 102)],
    "the crate each declared dependency resolved to, and indices out of range",
)
world_check(
    "C10", LOOKUP,
    [(MESH, 24), (SOURCES, *range(10), 23, 25, 80, 83), (LIBS, 2), (ROOTS, 0, 1), (EXCL, 0), (CHAIN, 200), (CYCLES, 200), (BIG, 204, 207), (SOURCES, 84, 85, 86, 97)],
    [(MESH, 124, 15), SOURCES_DEEP, (ROOTS, 102, 103), (EXCL, 4, 102), (CHAIN, 0, 1), (FAN, 4), (CYCLES, 0, 203), (NAMES, 100), (BIG, 4, 7, 214, 217)],
    "lookups of the id of every package of the world, in the graph or not; lookups of any id with names, versions, ends of urls and git references of up to 5 "
    "(thorough: 7) symbolic characters among six packages of similar names, versions and sources, in both formats",
    need=("graph", "end", "found", "not-found"), more=(prod("h_lookup", range(3), range(4), 5), prod("h_lookup", range(3), range(4), 7)),
)
world_check(
    "C11", FEAT_NODES,
    [(CHAIN, 200, 201, 203), (FAN, 200, 203), (DECLS, 200, 201, 211), (NAMES, 0, 1), (SOURCES, 0, 10), (EXCL, 2), (CYCLES, 200), (BIG, 202, 203)],
    [(CHAIN, *range(8)), (FAN, *range(8)), (DECLS, *range(4), 205), (NAMES, 100, 101), SOURCES_DEEP, (EXCL, 4, 102), (CYCLES, 0, 1, 202, 203), (SWAPS, 1, 3), (BIG, 2, 3, 212, 213), (BINS, *range(8))],
    "every feature node, and lookups of every feature of the tables; lookups of any name of up to 5 (thorough: 10) printable characters among any "
    "of six similar feature names",
    need=("graph", "end", "found", "not-found"), more=(prod("h_lookup", 3, 0, [3, 5]), prod("h_lookup", 3, 0, [5, 10])),
)
world_check(
    "C13", 0,
    [(CYCLES, 200, 201, 202), (TARGETS, 5), (DECLS, 200, 201), (SOURCES, *range(10), 25, 42, 45, 49, 65, 84, 87, 88, 94), (SWAPS, 0, 3), (NAMES, 0, 5), (LIBS, 0), (BIG, 201, 202, 205, 206), (BINS, 1, 202)],
    [(CYCLES, 0, 1, 2, 3), (DECLS, *range(4), 205), SOURCES_DEEP, (SWAPS, 1, 3, 5), (NAMES, 100, 104), (MESH, 115), (CHAIN, *range(8)), (FAN, *range(8)), (LIBS, *range(8)), (MEMBERS, 0, 1, 2), (BIG, 1, 2, 6, 211, 212, 216), (BINS, *range(8))],
    "cycles through development and self dependencies and through feature tables, features missing from the manifest; a panic, an endless loop (more than the "
    "step limit) or an error other than the one for missing roots is a violation",
)
world_check(
    "C14", DIRECT,
    [(MESH, 24, 14), (CHAIN, 200, 201), (FAN, 200), (DECLS, 200, 201), (TARGETS, 3, 206), (SOURCES, 0, 3, 10), (EXCL, 0), (CYCLES, 200), (BIG, 200, 203), (BINS, 203)],
    [(MESH, 124, 15), (BINS, *range(8)), (CHAIN, *range(8)), (FAN, *range(8)), (DECLS, *range(4), 205), (TARGETS, 103, 6), SOURCES_DEEP, (EXCL, 102), (CYCLES, 0, 1, 203), (NAMES, 100), (BIG, 0, 3, 210, 213)],
    "direct dependencies and dependents of every crate",
    outside="a dependent that asks only for features which the package does not declare",
)

def fams(h, c, *fs):
    return [sp(h, f[0], v, c) for f in fs for v in f[1:]]


PERM_Q = [(DECLS, 200), (NAMES, 3), (SOURCES, 3, 42), (SWAPS, 200), (ROOTS, 0), (TWICE, 200), (MEMBERS, 2), (BIG, 207), (BINS, 200)]
PERM_D = [(BIG, 200, 204, 7), (BINS, 200, 203), (MESH, 24), (CHAIN, 200, 201, 203), (FAN, 200, 201), (DECLS, 0, 200, 201, 205), (TARGETS, 3), (NAMES, 0, 2, 5), (SOURCES, *range(10), 13, 25, 42, 45, 49),
          (EXCL, 0, 1, 2), (ROOTS, 2, 3), (CYCLES, 200, 201, 203), (SWAPS, 200, 201, 202, 204), (TWICE, 200, 203), (MEMBERS, 0, 1, 202), (LIBS, 0, 4)]
check(
    "C12", fams("h_perm", 0, *PERM_Q), fams("h_perm", 0, *PERM_D), ["end", "error"][:1],
    {"quick": WORLD + "each of packages, members, nodes, dependencies (with their kinds), features, or all of these, entries of features, declared dependencies with targets, reversed, rotated or with the first two swapped; families " + fam(PERM_Q),
     "thorough": WORLD + "as quick; families " + fam(PERM_D)},
    OUTSIDE + "; other permutations of lists of four and more", assume=ASSUME, time=(300, 3000),
)
FILT_Q = [(MESH, 24), (CHAIN, 200), (FAN, 200), (DECLS, 200), (TWICE, 200, 203, 206), (SOURCES, 0, 13), (CYCLES, 200), (BIG, 203)]
FILT_D = [(BIG, 200, 201, 203), (BINS, *range(200, 208)), (MESH, 15, 125), (CHAIN, *range(8)), (FAN, 4, *range(200, 208)), (DECLS, 0, 1, 2, 3, 204, 205), (TWICE, *range(8)), SOURCES_ALL, (CYCLES, 0, 1, 203), (SWAPS, 0, 1, 2),
          (TARGETS, 0, 3), (NAMES, 0, 4)]
check(
    "C15", fams("h_filtered", 0, *FILT_Q) + fams("h_filtered", 1, (CHAIN, 201), (FAN, 200), (MESH, 14)),
    fams("h_filtered", 0, *FILT_D) + fams("h_filtered", 1, *[(CHAIN, *range(200, 208)), (FAN, *range(200, 204)), (MESH, 24, 15)]), ["end"],
    {"quick": WORLD + "whole-workspace graphs, any of the three kinds; families " + fam(FILT_Q), "thorough": WORLD + "as quick; families " + fam(FILT_D)},
    OUTSIDE + "; whether a crate is dropped that is reachable over declared dependencies of other kinds, but only through an optional one that a feature requested by a "
    "dependency of the filtered kind enables (a known finding)",
    assume=ASSUME, time=(300, 3000),
)
check(
    "C16", [sp("h_search", 2, 3, 1), sp("h_search", 3, 0, 1), sp("h_search", 2, 1, 2), sp("h_search", 3, 3, 1)],
    [sp("h_search", 3, 3, 2), sp("h_search", 2, 0, 3), sp("h_search", 4, 2, 1), sp("h_search", 3, 1, 2)], ["end", "several", "some"],
    {"quick": "2 to 3 packages with symbolic names of 1..2 characters and versions of symbolic digits, a pre-release, two sources; a symbolic query and a requirement of any operator "
              "with symbolic numbers, a pre-release or *",
     "thorough": "2 to 4 packages, names of 1..3 characters"},
    "requirements of several comparators or with a patch number, longer names", assume=ASSUME, time=(300, 3000),
)
check(
    "C22", prod("h_index", 1, [1, 2], 0) + [sp("h_index", 2, 1, 0), sp("h_index", 1, 1, 1)] + worlds(NODES | FILTERED | FEATS | FEAT_NODES | DEPS | FEAT_EDGES, (12, 200, 201)),
    prod("h_index", [1, 2, 3], [1, 2, 3], 0) + [sp("h_index", 2, 2, 1)] + worlds(NODES | FILTERED | FEATS | FEAT_NODES | DEPS | FEAT_EDGES, (12, 1, 2, 202, 203)),
    ["listed", "implied", "end", "graph"],
    {"quick": "a package with up to two features of up to one entry, next to an index entry with up to two; name, version and source that do or do not match the entry; whole graphs of "
              "families indexed 200/201, where the metadata lacks what the index lists",
     "thorough": "up to three features on either side; families indexed 1, 2, 202, 203"},
    OUTSIDE, assume=ASSUME, time=(300, 3000),
)
REC = range(8)
check(
    "C23", prod("h_json", REC, 0, 0) + prod("h_json", [0, 1, 2, 3, 4, 5, 7], 0, 1) + prod("h_json", REC, 1, 2) + prod("h_json", 10, range(6), [5]) + [sp("h_json", 11, 0, 5)] + prod("h_json", 11, [1, 2, 3, 4, 5], 2) + prod("h_json", 12, range(6), 1)
    + prod("h_json", REC, 3) + prod("h_json", REC, 4, 0) + prod("h_json", [0, 1, 2, 3, 4, 5, 7], 4, 1),
    prod("h_json", REC, 0, 1) + prod("h_json", REC, 1, 5) + prod("h_json", 10, range(6), [12]) + [sp("h_json", 11, 0, 8)] + prod("h_json", 11, [1, 2, 3, 4, 5], 4) + prod("h_json", 12, range(6), 3)
    + prod("h_json", REC, 3) + prod("h_json", REC, 4, [0, 1]),
    ["end", "rejected", "known-word", "unknown-word", "accepted"],
    {"quick": "for each of the eight record types: any one field (for all but packages: any two) absent, null, of a wrong type or doubled, keys in three orders, an unknown key of up to two "
              "symbolic characters with values of every shape; words of up to 5 symbolic characters for kinds, editions, target kinds and crate types; rust-versions of up to 5 symbolic "
              "characters, also after a complete version; texts of up to one symbolic character or escape; any one key or word spelled with an escape, read from a string, bytes, "
              "a reader or a value; documents cut off at any place, or with one byte changed to any other",
     "thorough": "any two fields of every type, unknown keys of up to 5 characters, words of up to 12, rust-versions of up to 8, texts of up to 3"},
    "longer texts, three and more fields changed at once, documents of several records",
)
check(
    "C24", prod("h_json", REC, 2, 1) + prod("h_json", 12, range(6), 1),
    prod("h_json", REC, 2, 1) + prod("h_json", 12, range(6), 4), ["end"],
    {"quick": "each of the eight record types with any two fields absent or at another of their values; texts of up to one symbolic character or escape",
     "thorough": "as quick, with texts of up to 4 characters"},
    "more than two fields changed at once, longer texts",
)
check(
    "C25", [sp("h_cmd", 1, 1, 1), sp("h_cmd", 2, 1, 0), sp("h_cmd", 4, 1, 100), sp("h_command", 2)], [sp("h_cmd", 5, 1, 100), sp("h_cmd", 3, 2, 100), sp("h_cmd", 3, 1, 0), sp("h_cmd", 2, 2, 0), sp("h_cmd", 1, 2, 3), sp("h_command", 4)], ["end"],
    {"quick": "every combination of flags, up to two (without flags: four) features of one symbolic character, directories of up to one symbolic character, up to two other options; $CARGO set or not, on its own with up to two symbolic characters",
     "thorough": "three features, or two of up to two characters; directories of up to three characters"},
    "longer names and paths, a $CARGO that is not UTF-8",
)
check(
    "C26", [sp("h_access", 0, 2, 2), sp("h_access", 0, 3, 1), sp("h_access", 1, 2, 2), sp("h_access", 2, 2), sp("h_access", 3, 12), sp("h_access", 4, 1)],
    [sp("h_access", 0, 3, 2), sp("h_access", 1, 3, 3), sp("h_access", 2, 3), sp("h_access", 3, 14), sp("h_access", 4, 2)], ["end", "file", "known", "unknown"],
    {"quick": "two packages with two members and default members, three with one, symbolic ids, any root; files and directories of up to 2 symbolic characters; up to 2 target kinds; words of up "
              "to 12 symbolic characters; texts of up to one symbolic character, the crates.io index with one character changed, added or removed",
     "thorough": "three packages with two members; files and directories of up to 3; 3 target kinds; words of up to 14, texts of up to 2 characters"},
    "more packages, packages with equal ids; WorkspaceDefaultMembers of cargo before 1.71, which panics as documented",
)
check(
    "C27", [sp("h_exec", 2, 0, 0), sp("h_exec", 1, 2, 1), sp("h_exec", 1, 0, 3), sp("h_access", 5, 3)], [sp("h_exec", 3, 0, 0), sp("h_exec", 2, 2, 0), sp("h_exec", 1, 3, 2), sp("h_exec", 1, 0, 5), sp("h_access", 5, 8)],
    ["not-started", "failed", "failed-garbled", "garbled", "no-json", "bad-json", "decoded", "no-graph"],
    {"quick": "any exit code or signal, three errors on start; outputs of up to two lines of documents, broken documents, text and up to 2 symbolic bytes; up to 3 symbolic bytes of error output; "
              "reads of everything or of three bytes at a time; with and without verbose and a directory; on its own or through Builder::build; errors with texts of up to 3 symbolic characters, after 650 others or not",
     "thorough": "up to three lines, 3 symbolic bytes of output, 5 of error output; texts of up to 8"},
    "longer output, reads that fail half way, other interleavings of the two streams (std's part)",
    assume=["std starts processes through the system calls that harness/src/exec.rs replaces; no process is started"],
)
TYPED_Q = [(MESH, 14), (CHAIN, 200), (FAN, 200), (DECLS, 200), (NAMES, 2), (SOURCES, 0, 3, 10), (EXCL, 0), (ROOTS, 0), (CYCLES, 200), (SWAPS, 3), (MEMBERS, 201), (LIBS, 2), (INDEXED, 200)]
TYPED_D = [(MESH, 24, 15), (CHAIN, *range(8)), (FAN, *range(4)), (DECLS, 0, 1, 2, 3, 204), (TARGETS, 3, 103), (NAMES, 0, 100), SOURCES_ALL, (EXCL, 4, 102), (ROOTS, 102), (CYCLES, 0, 1, 203),
           (SWAPS, 1, 3, 5), (MEMBERS, *range(4)), (LIBS, *range(8)), (INDEXED, 0, 1), (BINS, 0, 3)]
check(
    "C28", fams("h_typed", 0, *TYPED_Q) + fams("h_walk", 0, (MESH, 24), (CHAIN, 200), (DECLS, 200), (FAN, 200), (CYCLES, 200, 201)),
    fams("h_typed", 0, *TYPED_D) + fams("h_walk", 0, (MESH, 15), (CHAIN, *range(4)), (DECLS, *range(4)), (FAN, *range(4)), (CYCLES, 0, 1)), ["end"],
    {"quick": WORLD + "built with the default types and with types that count their conversions, every accessor of both compared; the edges of every node walked; families " + fam(TYPED_Q),
     "thorough": WORLD + "as quick; families " + fam(TYPED_D)},
    OUTSIDE + "; user types whose conversion panics", assume=ASSUME, time=(300, 3000),
)
CALLS_Q = [(MESH, 24), (TARGETS, 3), (EXCL, 0, 1), (ROOTS, 0, 1, 4), (MEMBERS, 200)]
CALLS_D = [(MESH, 124, 15), (TARGETS, 0, 1, 103), (EXCL, 4, 102, 101), (ROOTS, 102, 103, 8, 12, 16), (MEMBERS, 0, 1)]
check(
    "C29", fams("h_calls", 0, *CALLS_Q), fams("h_calls", 0, *CALLS_D), ["end", "error"],
    {"quick": WORLD + "each list in one call, element by element, in reverse, or everything twice, with the workspace flag flipped before; families " + fam(CALLS_Q),
     "thorough": WORLD + "as quick; families " + fam(CALLS_D)},
    OUTSIDE + "; other orders of the calls; a single include path given twice", assume=ASSUME, time=(300, 3000),
)
