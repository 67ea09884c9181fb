#!/usr/bin/env python3
"""Generates properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)
B = "src/builder.rs"; L = "src/lib.rs"
p("C01", "Crates in the graph are exactly those reachable from the roots",
  "For any consistent cargo metadata and builder configuration, the built graph contains a crate if and only if it is a non-excluded root or can be reached from one through dependencies that survive the configured filters and are either mandatory or switched on by an enabled feature. Every package that does not end up in the graph is handed to the filter callback exactly once, and no package that is in the graph ever is.",
  ["inputs", "configurations"], "every dependency graph (including cycles, several edges between the same crates and optional dependencies) and every filter configuration",
  "tests compare snapshots of about a dozen fixed metadata files under a handful of configurations; the claim is over all graph shapes times all filters",
  [B], [("visit stack over (crate, feature)", "src/builder.rs build_with_metadata"), ("OnFilter callback", "src/builder.rs build_with_metadata, node insertion loop")],
  ["Krates::krates", "OnFilter::filtered"])
p("C02", "Ignored dependency kinds remove exactly the edges in their scope",
  "Ignoring a dependency kind for a scope removes exactly the dependencies of that kind declared by crates in that scope (workspace members, non-members, or all), and leaves every other kind and every other scope untouched, for any combination of ignore calls in any order. A crate that is still depended upon through another kind, scope or declaration stays in the graph with just those edges.",
  ["inputs", "configurations"], "every set of (kind, scope) pairs ignored, every assignment of kinds to dependencies and of workspace membership to crates",
  "nine of the 512 ignore combinations are snapshot tested, on one metadata file, in which no crate is depended on in conflicting ways",
  [B], [("ignore_kind bit mask", "src/builder.rs Builder::ignore_kind"), ("mask test per dependency kind", "src/builder.rs build_with_metadata edges closure")])
p("C03", "Target filtering keeps a dependency iff some single target matches it",
  "With target filters, a target-specific dependency is kept if and only if at least one of the listed targets, taken on its own together with the target features promised for it, satisfies its cfg expression, or equals its triple; dependencies without a target are always kept. Without target filters all target-specific dependencies are kept, except those whose cfg expression contains no predicate and is false.",
  ["inputs", "configurations"], "every list of targets and target features, and every cfg expression over the predicates in reach or target triple on a dependency",
  "three target lists are snapshot tested on one metadata file; no test mixes expressions that only a combination of targets would satisfy, target features, or triples that are not built in",
  [B, L], [("TargetFilter::eval / matches_triple", B), ("MdTarget parsing", L), ("per-target any()", "src/builder.rs build_with_metadata edges closure")])
p("C04", "Excluded packages and what only they need never enter the graph",
  "A package that matches any exclusion spec is never a node or the end of an edge, and is never expanded, so packages needed only by it are left out too, while packages needed by somebody else stay. If no root is left the build reports the no-root error instead of an empty graph, and otherwise never does.",
  ["inputs", "configurations"], "every set of exclusion specs over every graph, including roots, intermediate crates, several versions of one crate",
  "tests exclude fixed leaves and all three roots of a single metadata file",
  [B, "src/pkgspec.rs"], [("exclude check when popping the visit stack", "src/builder.rs build_with_metadata"), ("NoRootKrates", "src/builder.rs build_with_metadata")])
p("C05", "Roots are chosen from the metadata, workspace flag and include list",
  "Without an include list the roots are the metadata's root package if there is one and whole-workspace mode was not requested, and otherwise all workspace members. With an include list the roots are exactly the members whose manifest is listed (as the manifest or its directory), except that a single entry naming the workspace's own manifest selects every member.",
  ["inputs", "configurations"], "every combination of metadata root, workspace flag, include list and membership",
  "five fixed combinations are tested",
  [B], [("roots computation", "src/builder.rs build_with_metadata"), ("include_workspace_crates path fix-up", B)])
p("C06", "Enabled features are the closure of what surviving dependents request",
  "For every crate in the graph the enabled features are, for a root, those cargo resolved for it, and for any other crate exactly those requested by a surviving dependency on it (its listed features, plus default if requested and available) or by an enabled feature of a dependent, closed under the crate's own feature table. A feature requested only by filtered dependencies or excluded crates is not enabled.",
  ["inputs", "configurations"], "every feature table (chains, cycles, dep:, strong and weak references) and every filter that removes some of the requests",
  "a dozen fixed manifests are tested with one feature selection each",
  [B, "src/builder/features.rs"], [("feature visiting", "src/builder.rs build_with_metadata"), ("KrateFeatures.actual", "src/builder.rs build_with_metadata")], ["Krates::get_enabled_features"])
p("C07", "Weak features act iff the dependency is enabled, whatever the order",
  "A weak feature reference never pulls an optional dependency into the graph by itself; if the dependency is enabled by anything else in the same crate, the referenced feature is enabled on it, no matter in which order the features and dependencies are encountered.",
  ["inputs", "schedules"], "every way in which the weak reference, the enabling feature and the dependency can be ordered and named, and every filter on the dependency",
  "tests have three manifests in which the weak reference is met in one order",
  [B], [("pending_weak", "src/builder.rs build_with_metadata")])
p("C08", "Each surviving declared dependency is an edge with its own kind and cfg",
  "Between two crates in the graph there is, for each declared dependency that survives the filters, an edge carrying that declaration's kind and target: to each feature of the dependency it asks for, or straight to the crate if it asks for none; and there is no edge that no surviving declaration or enabled feature accounts for.",
  ["inputs", "configurations"], "every multiset of declarations (kind, target, features, default, optional) between crates under every filter",
  "snapshots fix the edges of a few metadata files",
  [B], [("edge construction and deduplication", "src/builder.rs build_with_metadata")], ["Krates::graph", "Krates::get_deps"])
p("C09", "A declared dependency resolves to the exact crate cargo chose for it",
  "Asking which crate a package's n-th declared dependency resolved to gives the crate that cargo resolved for that declaration if the dependency is in the graph, even when several versions, sources, paths or renames of equally named crates are involved, and gives nothing if it was pruned or the index is out of range.",
  ["inputs", "configurations"], "every pair of equally named dependencies told apart by rename, version, kind, target, git revision, registry or path",
  "fixed pid, rename and duplicate-version manifests are tested, none through this query",
  [B, L], [("dependency matching", "src/builder.rs build_with_metadata edges closure"), ("dep_mapping", L)], ["Krates::resolved_dependency"])
p("C10", "Crate nodes come first, sorted by id, and lookups find exactly them",
  "The crates occupy the first len() nodes in ascending id order, every later node is a feature node, and looking up a crate id gives that crate's node if and only if the crate is in the graph. Iterating over crates or over workspace members yields precisely the corresponding nodes.",
  ["inputs"], "every set of packages, names, versions and sources, in any input order",
  "tests look up a single crate",
  [L, B], [("sorted insertion and krates_end", "src/builder.rs build_with_metadata"), ("binary search", "src/lib.rs nid_for_kid")])
p("C11", "Feature nodes are unique, belong to their crate and can be looked up",
  "Every feature node belongs to a crate in the graph on which that feature is enabled and has an edge to that crate, no two feature nodes denote the same feature of the same crate, and looking up a crate together with a feature gives that node if it exists and nothing otherwise.",
  ["inputs", "configurations"], "every feature table and filter configuration",
  "no test looks up a feature node",
  [B, L], [("feature node insertion", "src/builder.rs build_with_metadata"), ("get_node", L)])
p("C12", "The graph does not depend on the order of the metadata",
  "Reordering packages, their targets, declared dependencies and the entries of their features, resolve nodes, the dependencies or features of a resolve node, or the workspace members in the metadata changes neither the crates, nor the enabled features, nor the edges, nor the dependency resolution of the built graph.",
  ["inputs", "schedules"], "every permutation of the lists in the metadata",
  "metadata in tests is always in cargo's order",
  [B], [("sorting of packages, nodes, deps, features and members", "src/builder.rs build_with_metadata")])
p("C13", "Building terminates without panicking on cyclic, consistent metadata",
  "For consistent metadata, including development-dependency cycles, self dependencies, cyclic feature tables, resolved features missing from the manifest and feature names that look like dependency references, building a graph terminates and returns a graph or a documented error rather than panicking.",
  ["inputs", "configurations"], "every consistent metadata within the bounds",
  "tests contain one cyclic feature table and one self dependency",
  [B], [("visited check", "src/builder.rs build_with_metadata")])
p("C14", "Direct dependencies and direct dependents mirror each other",
  "A crate is reported as a direct dependency of another if and only if that other crate is reported as a direct dependent of it, which is the case exactly when a declared dependency of the latter on the former survived in the graph; each is reported once.",
  ["inputs", "configurations"], "every graph with feature edges between the crates, including features that forward to features of other crates",
  "one crate of one metadata file is tested in each direction",
  [L], [("direct_dependencies / direct_dependents", L)])
p("C15", "Filtering a built graph by kind equals building with that kind ignored",
  "Listing the crates of a built whole-workspace graph without those only reachable through one dependency kind gives the same crates, in the same order and each once, as building the graph with that kind ignored in every scope.",
  ["inputs", "configurations"], "every graph and each of the three kinds",
  "two kinds are compared on one metadata file",
  [L], [("krates_filtered", L)])
p("C16", "Searching by name and version requirement returns exactly the matches",
  "Searching for a name returns every crate in the graph with exactly that name, in id order and with its own node and id, and searching for a name and version requirement returns exactly those of them whose version satisfies the requirement.",
  ["inputs"], "every set of names and versions and every queried name and requirement",
  "three names and four requirements on one metadata file",
  [L], [("krates_by_name / search_matches", L)])
p("C17", "Package ids yield the name, version and source cargo encoded in them",
  "For a package id in either the opaque or the stable format the reported name, version and source are those that were encoded, with percent-encoded git references decoded and without the resolved commit; the same package written in both formats yields equal ids.",
  ["inputs"], "every name, version, source kind, git reference (branch, tag, rev) and percent encoding",
  "eleven fixed ids are tested, none with a percent encoding",
  [L], [("From<PackageId> for Kid", L)])
p("C18", "Package id equality, ordering and hashing agree with each other",
  "Package ids are equal exactly when their name, version and source are equal, their ordering is a total order by name, then version, then source that is consistent with equality, and equal ids hash equally.",
  ["inputs"], "every pair and triple of package ids in either format",
  "not tested directly",
  [L], [("Ord / Eq / Hash for Kid", L)])
p("C19", "Package specs parse per the documented grammar and never panic",
  "Parsing any string as a package spec returns a spec or an error and never panics; a name, name:version, name@version, url, url#version, url#name and url#name:version (or @) parses to exactly those parts, a missing scheme is filled in, and names with characters that no package may have, incomplete specs, bad versions and urls without a path are rejected.",
  ["inputs"], "every string up to the bound",
  "about twenty fixed strings are tested",
  ["src/pkgspec.rs"], [("FromStr for PkgSpec", "src/pkgspec.rs")])
p("C20", "A package spec matches by name, then version, then source url",
  "A spec matches a package exactly when the names are equal, the version (if given) is equal including pre-release and build parts, and the url (if given, for a package with a source) equals the package's source without its kind prefix, query and fragment.",
  ["inputs"], "every spec and every package name, version and source",
  "five fixed specs against one metadata file",
  ["src/pkgspec.rs"], [("PkgSpec::matches", "src/pkgspec.rs")])
p("C21", "Feature strings split into crate and feature parts as cargo defines",
  "A feature string is a dependency reference if it starts with dep:, a weak reference if it contains ?/, a strong reference if it contains a slash otherwise, and a plain feature name in all other cases, and the parts reassemble to the original string.",
  ["inputs"], "every string up to the bound",
  "four fixed strings are tested",
  ["src/builder/features.rs"], [("From<&str> for ParsedFeature", "src/builder/features.rs")])
p("C22", "Index data only adds missing features to crates.io packages",
  "With an index, a crates.io package gains exactly the features the index lists for that very version and the package lacks, plus a dependency feature for each plain name its features mention but no feature defines; existing entries keep their values, and packages from other sources or unknown to the index are unchanged. The index is asked once, for the set of all package names.",
  ["inputs", "configurations"], "every package feature table, index entry, source and version",
  "no test supplies an index",
  ["src/builder/index.rs"], [("fix_features, CachingIndex", "src/builder/index.rs")])
p("C23", "Metadata JSON decodes every field, defaults and ignores the unknown",
  "Decoding metadata JSON puts every known field into the corresponding value whatever the order of the keys, ignores unknown fields of any shape, treats null in an optional field like an absent one, applies cargo's defaults to absent fields, and reports an error when a required field is missing or a value is malformed; a rust-version of two or three plain components is accepted and any other is rejected.",
  ["inputs"], "every subset of absent or null optional fields, every key order and unknown-value shape, every rust-version string up to the bound",
  "one document with unknown fields and the metadata files are decoded, without looking at most fields",
  ["src/cm/de.rs"], [("map! visitors", "src/cm/de.rs"), ("deserialize_rust_version", "src/cm/de.rs")])
p("C24", "Serialized metadata decodes back to the same metadata",
  "With serialization enabled, encoding any metadata and decoding the result gives back the same metadata in every field.",
  ["inputs"], "every combination of optional fields, flags, kinds, editions and resolve information",
  "the round trip test is commented out",
  ["src/cm/ser.rs", "src/cm/de.rs"], [("map! serializers", "src/cm/ser.rs")])
p("C25", "Command options reach cargo exactly once, features sorted and unique",
  "The cargo invocation built from a command contains each requested option exactly once and no other: feature flags, a sorted and de-duplicated feature list, lock options and other options last; with a manifest path cargo runs in the manifest's directory on its Cargo.toml, and an empty directory becomes the current one. The program is the given path, else $CARGO, else cargo.",
  ["inputs", "configurations"], "every combination of options, feature lists and paths",
  "commands are only built for fixed manifests",
  [B, "src/cm/cmd.rs"], [("From<Cmd> for MetadataCommand", B), ("cargo_command", "src/cm/cmd.rs")])
p("C26", "Metadata accessors select exactly the named packages, files and kinds",
  "The root package is the resolve root or, without a resolve, the package whose manifest is the workspace's; workspace packages are exactly the packages listed as (default) members, in package order; indexing by id finds that package; licence and readme paths are relative to the manifest's directory; target kind predicates and text conversions of kinds, crate types and editions are exact inverses.",
  ["inputs"], "every list of packages, members, targets and every text up to the bound",
  "not tested",
  ["src/cm.rs"], [("Metadata, Package and Target methods", "src/cm.rs")])
p("C27", "Running cargo metadata reports its output or its failure faithfully",
  "Running the command starts cargo once, decodes the first line of its output that starts a JSON object, reports its error output if it fails, and reports a failure to start and missing or undecodable output as errors rather than panicking; verbose shows the error output instead of capturing it. Every error shows, and has as its source, what caused it.",
  ["inputs", "fault_sequences"], "every exit status and output of the child process",
  "tests only run cargo successfully",
  ["src/cm/cmd.rs", "src/cm/errors.rs"], [("MetadataCommand::exec", "src/cm/cmd.rs")])
p("C28", "The graph is the same whatever node and edge types it is built with",
  "Building with user-defined node and edge types gives the same crates, features, edges, lookups, dependency resolution, neighbours and search results as the default types; each crate in the graph is converted exactly once from its own package and each edge exactly once; and walking a node's dependencies yields each of its outgoing edges exactly once with the node it leads to.",
  ["inputs"], "every world and configuration up to the bound",
  "tests use one type per graph and compare a few graphs",
  ["src/lib.rs", "src/builder.rs"], [("Krates<N, E>, get_deps", "src/lib.rs"), ("Builder::build_with_metadata", "src/builder.rs")])
p("C29", "Builder options accumulate whatever the order and grouping of the calls",
  "Ignored kinds, exclusions, targets and included workspace crates accumulate over calls: splitting a list into several calls, making the calls in another order, repeating them (a single include path aside), or ignoring a kind separately in and outside of the workspace instead of everywhere builds the same graph; the last workspace flag counts.",
  ["inputs", "configurations"], "every configuration up to the bound, in several ways to say it",
  "tests configure each builder in one way",
  ["src/builder.rs"], [("Builder methods", "src/builder.rs")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
