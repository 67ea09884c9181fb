From e22ec67d6ae304ce3292fa171f3a2175d99261bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 01/17] fix: decode percent-encoded git references in ids that
 spell out the name

---
 src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 67e6751..378741b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -106,15 +106,12 @@ impl From<PackageId> for Kid {
                 [name, version, source]
             } else {
                 let mut vmn = repr.rfind('#')?;
-                let (name, version) = if let Some(split) = repr[vmn..].find('@') {
-                    ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))
-                } else {
-                    let begin = repr.rfind('/')? + 1;
+                let (name, version) = {
                     let end = if repr.starts_with("git+") {
                         // Unfortunately the stable format percent encodes the source url in the metadata, and since
                         // git branches/tags can contain various special characters, notably '/', we need to decode them
                         // to be able to match against the non-encoded url used...everywhere else
-                        let end = repr[begin..].rfind('?').map_or(vmn, |q| q + begin);
+                        let end = repr[..vmn].find('?').unwrap_or(vmn);
 
                         if repr[end..].contains('%') {
                             let mut decoded = String::new();
@@ -211,7 +208,13 @@ impl From<PackageId> for Kid {
                         vmn
                     };
 
-                    ((begin, end), (vmn + 1, repr.len()))
+                    if let Some(split) = repr[vmn..].find('@') {
+                        ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))
+                    } else {
+                        let begin = repr[..end].rfind('/')? + 1;
+
+                        ((begin, end), (vmn + 1, repr.len()))
+                    }
                 };
 
                 [name, version, (0, vmn)]
-- 
2.43.0


From ccb4cc38ec49a8b25b4fbf8f3225c6ca23e0fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 02/17] fix: hash package ids by the components they are
 compared by

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 378741b..24898b3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -255,7 +255,10 @@ impl fmt::Display for Kid {
 
 impl std::hash::Hash for Kid {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        state.write(self.repr.as_bytes());
+        // Must agree with `Eq`, which ignores everything outside of the components
+        self.name().hash(state);
+        self.version().hash(state);
+        self.source().hash(state);
     }
 }
 
-- 
2.43.0


From 35c0e7460b841dca0c7701951818767f6657d3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 03/17] fix: reject package specs without a package name

---
 src/pkgspec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pkgspec.rs b/src/pkgspec.rs
index 9488370..72043e0 100644
--- a/src/pkgspec.rs
+++ b/src/pkgspec.rs
@@ -46,7 +46,10 @@ impl std::str::FromStr for PkgSpec {
                                    url: Option<&str>|
          -> Result<(String, Option<Version>), Self::Err> {
             let validate_name = |n: &str| -> Result<String, Self::Err> {
-                if n.find(|c: char| c != '-' && c != '_' && !c.is_ascii_alphanumeric())
+                if n.is_empty() {
+                    Err(Error::InvalidPkgSpec("package name cannot be empty"))
+                } else if n
+                    .find(|c: char| c != '-' && c != '_' && !c.is_ascii_alphanumeric())
                     .is_some()
                 {
                     Err(Error::InvalidPkgSpec(
-- 
2.43.0


From 5faa9a73e988dad172642ac3b294104f624998a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 04/17] fix: weak features do not enable optional declarations
 of a dependency

If a package was declared both mandatory (eg. as a dev-dependency) and optional,
a weak reference to one of its features added the optional declaration's edge.
---
 src/builder.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 46cc0e4..1c702ba 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1217,15 +1217,22 @@ impl Builder {
                     };
 
                     let rdep_node = get_rnode(&ndep.pkg);
-                    let is_weak = matches!(pf.feat(), Feature::Weak { .. });
-
-                    if is_weak && !pn.deps.contains_key(&ndep.pkg) {
+                    if matches!(pf.feat(), Feature::Weak { .. }) {
                         let feature = rdep_node.feature_index(feature.unwrap());
-                        krate_features
-                            .pending_weak
-                            .entry(&ndep.pkg)
-                            .or_default()
-                            .insert(feature);
+
+                        // A weak reference only adds to a dependency that is
+                        // already enabled by something else, it must not enable
+                        // optional declarations of that dependency
+                        if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
+                            dep.features.insert(feature);
+                            visit_stack.push_with_feature(&ndep.pkg, feature);
+                        } else {
+                            krate_features
+                                .pending_weak
+                                .entry(&ndep.pkg)
+                                .or_default()
+                                .insert(feature);
+                        }
                         continue;
                     }
 
-- 
2.43.0


From 8ccc469a77df3437b431fd2e7498b46c8fbc2696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 05/17] fix: do not attribute features of pruned dependencies
 to the dependent

A feature of a pruned dependency that is still in the graph due to another crate
was added to the enabled features of the crate referencing it.
---
 src/builder.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 1c702ba..f2e07c6 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1644,6 +1644,11 @@ impl Builder {
         graph.reserve_nodes(node_count);
         graph.reserve_edges(edge_count);
 
+        let surviving_deps: BTreeSet<_> = dep_edge_map
+            .iter()
+            .flat_map(|(pid, pn)| pn.deps.keys().map(move |dep_id| (*pid, *dep_id)))
+            .collect();
+
         // Keep edges between crates ordered as well, though we don't depend on this
         for srcind in 0..graph.node_count() {
             let srcid = crate::NodeId::new(srcind);
@@ -1792,6 +1797,15 @@ impl Builder {
                     }
 
                     let feat_name = match sub_feat.name {
+                        // The dependency can be pruned from this crate but still be in
+                        // the graph, without the feature, due to some other crate
+                        FeatureEdgeName::Feature(feat)
+                            if sub_feat.kid != pid
+                                && !surviving_deps.contains(&(pid, sub_feat.kid))
+                                && get(&graph, sub_feat.kid, Some(&feat)).is_none() =>
+                        {
+                            continue;
+                        }
                         FeatureEdgeName::Feature(feat) => Some(feat),
                         FeatureEdgeName::Rename(kname) => Some(kname),
                         FeatureEdgeName::Krate => None,
-- 
2.43.0


From 18dc41cb62ef76f409bc00186c003fd081ac005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:41 +0000
Subject: [PATCH 06/17] fix: match git dependencies in the same checkout,
 references with '#', empty graphs

---
 src/builder.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index f2e07c6..8517990 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -828,10 +828,6 @@ impl Builder {
             }
         }
 
-        // We need to establish if the package ids are in the opaque or stable format as
-        // it changes how git sources are compared
-        let is_opaque = resolved.nodes[0].id.repr.splitn(3, ' ').count() == 3;
-
         let mut nodes: Vec<_> = resolved
             .nodes
             .into_iter()
@@ -1379,12 +1375,12 @@ impl Builder {
                                         return dsrc == psrc;
                                     };
 
-                                    // The opaque git sources can have the full revision spec at the end, which is not part of
-                                    // source declaration
-                                    let dgit = if is_opaque {
-                                        dgit.rfind('#').map_or(dgit, |end| &dgit[..end])
-                                    } else {
-                                        dgit
+                                    // The git sources of dependencies in the same checkout have the full commit at the
+                                    // end, which is not part of the source of the package. Note that the reference
+                                    // (eg. a branch) can contain a '#' as well
+                                    let dgit = match dgit.rsplit_once('#') {
+                                        Some((dgit, rev)) if rev.len() >= 40 && rev.bytes().all(|b| b.is_ascii_hexdigit()) => dgit,
+                                        _ => dgit,
                                     };
 
                                     dgit == pgit
-- 
2.43.0


From 8cda6c533854a8adab25953ccf5a0ba4fa5f70b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 07/17] fix: compare path dependencies with special characters
 by their decoded path

---
 src/builder.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 8517990..be7472e 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1845,12 +1845,41 @@ impl Builder {
     }
 }
 
+/// Percent decodes the path of a file URL
+fn percent_decode(path: &str) -> std::borrow::Cow<'_, str> {
+    if !path.contains('%') {
+        return path.into();
+    }
+
+    let mut parts = path.split('%');
+    let mut decoded = parts.next().unwrap_or_default().as_bytes().to_vec();
+
+    for part in parts {
+        if let Some(byte) = part
+            .get(..2)
+            .and_then(|hex| u8::from_str_radix(hex, 16).ok())
+        {
+            decoded.push(byte);
+            decoded.extend_from_slice(part[2..].as_bytes());
+        } else {
+            decoded.push(b'%');
+            decoded.extend_from_slice(part.as_bytes());
+        }
+    }
+
+    String::from_utf8_lossy(&decoded).into_owned().into()
+}
+
 #[inline]
 fn compare_paths(dpath: &camino::Utf8Path, src: &str) -> bool {
     let Some(rpath) = src.strip_prefix("path+file://") else {
         return false;
     };
 
+    // The source is a URL, so special characters in the path are percent encoded
+    let rpath = percent_decode(rpath);
+    let rpath = rpath.as_ref();
+
     // Due to the various terrible ways Windows can do paths, we only try to handle the
     // common case
     if dpath.starts_with("/") {
-- 
2.43.0


From 693cb8600419da33ba68ac7693086b63249b0835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 08/17] fix: find the declaration of a resolved dependency by
 package and rename

---
 src/builder.rs | 45 +++++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index be7472e..e002045 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1307,54 +1307,43 @@ impl Builder {
                             return None;
                         }
 
-                        let multiple_candidates = krate.dependencies.iter().filter(|dep| {
-                            if dk.kind != dep.kind {
+                        let matches = |dep: &cm::Dependency| {
+                            if dk.kind != dep.kind || dep.name != maybe_real_name {
                                 return false;
                             }
 
-                            // Crates can rename the dependency package themselves
-                            let dname = dep.rename.as_deref().unwrap_or(&dep.name);
-                            if maybe_real_name != dname && !dep_names_match(dname, rdep) {
+                            // Crates can rename the dependency package themselves, the resolved dependency
+                            // then has that name, unless it's a (dev) dependency on itself
+                            if rdep.pkg != *pid
+                                && dep.rename.as_deref().is_some_and(|rename| !pkg_name_equals(&rdep.name, rename))
+                            {
                                 return false;
                             }
 
                             // Handle case where a dependency may not have a version requirement, which
                             // typically happens in the case of non-registry dependencies that use a pre-release
                             // semver, if the version _is_ a prelease it will never match the empty
-                            // requirement
+                            // requirement. Note this will pass through eg. path dependencies that don't specify a
+                            // version, but those should be rejected during source comparison if matching against eg. a registry crate
                             if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
                                 return false;
                             }
 
                             crate::targets_eq(&dk.cfg, &dep.target)
-                        }).count() > 1;
+                        };
+
+                        // A matching rename is always preferred, as the version requirement of a dependency
+                        // that isn't renamed can also match
+                        let renamed = krate.dependencies.iter().any(|dep| dep.rename.is_some() && matches(dep));
+                        let is_candidate = |dep: &cm::Dependency| dep.rename.is_some() == renamed && matches(dep);
+                        let multiple_candidates = krate.dependencies.iter().filter(|dep| is_candidate(dep)).count() > 1;
 
                         let Some((dep_index, dep)) = krate
                             .dependencies
                             .iter()
                             .enumerate()
                             .find(|(_, dep)| {
-                                if dk.kind != dep.kind {
-                                    return false;
-                                }
-
-
-                                // Crates can rename the dependency package themselves
-                                let dname = dep.rename.as_deref().unwrap_or(&dep.name);
-                                if maybe_real_name != dname && !dep_names_match(dname, rdep) {
-                                    return false;
-                                }
-
-                                // Handle case where a dependency may not have a version requirement, which
-                                // typically happens in the case of non-registry dependencies that use a pre-release
-                                // semver, if the version _is_ a prelease it will never match the empty
-                                // requirement. Note this will pass through eg. path dependencies that don't specify a
-                                // version, but those should be rejected during source comparison if matching against eg. a registry crate
-                                if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
-                                    return false;
-                                }
-
-                                if !crate::targets_eq(&dk.cfg, &dep.target) {
+                                if !is_candidate(dep) {
                                     return false;
                                 }
 
-- 
2.43.0


From 86afd41198f5e1a92e73293d3b61ef8bdbaf1494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:24 +0000
Subject: [PATCH 09/17] fix: apply features to all dependencies with the name

---
 src/builder.rs | 83 ++++++++++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 37 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index e002045..f79c68f 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -654,9 +654,20 @@ impl Builder {
             fn resolve_feature<'n>(
                 &self,
                 feature_krate_name: &str,
+                krate: &crate::Package,
                 rnode: &'n Node,
-            ) -> Option<&'n NodeDep> {
-                rnode.deps.iter().find(|rdep| {
+            ) -> impl Iterator<Item = &'n NodeDep> {
+                // Dependencies of different kinds or targets can have the same name,
+                // but be different packages, features then apply to each of them
+                rnode.deps.iter().filter(move |rdep| {
+                    // The lib target of another package can have the name as well
+                    if !krate.dependencies.iter().any(|dep| {
+                        dep.rename.as_ref().unwrap_or(&dep.name) == feature_krate_name
+                            && dep.name == rdep.pkg.name()
+                    }) {
+                        return false;
+                    }
+
                     if pkg_name_equals(&rdep.name, feature_krate_name) {
                         return true;
                     }
@@ -1208,48 +1219,46 @@ impl Builder {
                     // can also rename their `lib` target, which will mean that the resolved nodes use that name,
                     // unless they are _also_ renamed in the dependent, but the package name is used in the crate's
                     // dependencies.
-                    let Some(ndep) = renames.resolve_feature(krate_name, rnode) else {
-                        continue;
-                    };
-
-                    let rdep_node = get_rnode(&ndep.pkg);
-                    if matches!(pf.feat(), Feature::Weak { .. }) {
-                        let feature = rdep_node.feature_index(feature.unwrap());
+                    for ndep in renames.resolve_feature(krate_name, krate, rnode) {
+                        let rdep_node = get_rnode(&ndep.pkg);
+                        if matches!(pf.feat(), Feature::Weak { .. }) {
+                            let feature = rdep_node.feature_index(feature.unwrap());
+
+                            // A weak reference only adds to a dependency that is
+                            // already enabled by something else, it must not enable
+                            // optional declarations of that dependency
+                            if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
+                                dep.features.insert(feature);
+                                visit_stack.push_with_feature(&ndep.pkg, feature);
+                            } else {
+                                krate_features
+                                    .pending_weak
+                                    .entry(&ndep.pkg)
+                                    .or_default()
+                                    .insert(feature);
+                            }
+                            continue;
+                        }
 
-                        // A weak reference only adds to a dependency that is
-                        // already enabled by something else, it must not enable
-                        // optional declarations of that dependency
-                        if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
-                            dep.features.insert(feature);
-                            visit_stack.push_with_feature(&ndep.pkg, feature);
-                        } else {
-                            krate_features
-                                .pending_weak
-                                .entry(&ndep.pkg)
-                                .or_default()
-                                .insert(feature);
+                        if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
+                            deps.entry(&ndep.pkg)
+                                .or_insert_with(|| (ndep, Some(BTreeSet::new())))
+                                .1
+                                .as_mut()
+                                .unwrap()
+                                .append(&mut pending);
                         }
-                        continue;
-                    }
 
-                    if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
-                        deps.entry(&ndep.pkg)
+                        let feats = deps
+                            .entry(&ndep.pkg)
                             .or_insert_with(|| (ndep, Some(BTreeSet::new())))
                             .1
                             .as_mut()
-                            .unwrap()
-                            .append(&mut pending);
-                    }
+                            .unwrap();
 
-                    let feats = deps
-                        .entry(&ndep.pkg)
-                        .or_insert_with(|| (ndep, Some(BTreeSet::new())))
-                        .1
-                        .as_mut()
-                        .unwrap();
-
-                    if let Some(feature) = feature {
-                        feats.insert(rdep_node.feature_index(feature));
+                        if let Some(feature) = feature {
+                            feats.insert(rdep_node.feature_index(feature));
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From cb03284e194a5733d51fc42e2d6c5a6a51db2598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:19 +0000
Subject: [PATCH 10/17] fix: features on their own do not keep crates of a
 filtered kind

---
 src/lib.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 24898b3..3616be0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -739,21 +739,21 @@ where
                             continue;
                         }
                     }
-                    Edge::Feature => {}
+                    // Every dependency has its own edge, features on their own
+                    // don't keep a dependency of the filtered kind
+                    Edge::Feature => continue,
                 };
 
-                match &graph[edge.target()] {
-                    Node::Krate { id, krate, .. } => {
-                        if visited.insert(edge.target()) {
-                            stack.push(edge.target());
-                            filtered.insert(id, krate);
-                        }
-                    }
-                    Node::Feature { .. } => {
-                        if visited.insert(edge.target()) {
-                            stack.push(edge.target());
-                        }
-                    }
+                let krate_index = match &graph[edge.target()] {
+                    Node::Krate { .. } => edge.target(),
+                    Node::Feature { krate_index, .. } => *krate_index,
+                };
+
+                if let Node::Krate { id, krate, .. } = &graph[krate_index]
+                    && visited.insert(krate_index)
+                {
+                    stack.push(krate_index);
+                    filtered.insert(id, krate);
                 }
             }
 
-- 
2.43.0


From d066357ae3d92f75507eab1ea3b1cbcf28138baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 11/17] fix: accept metadata without a dependency graph

---
 src/cm/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cm/de.rs b/src/cm/de.rs
index cd72f44..cec0986 100644
--- a/src/cm/de.rs
+++ b/src/cm/de.rs
@@ -91,7 +91,7 @@ map!(Metadata, map, {
             "packages" => packages = Some(tri!(map.next_value())),
             "workspace_members" => workspace_members = Some(tri!(map.next_value())),
             "workspace_default_members" => workspace_default_members = Some(tri!(map.next_value())),
-            "resolve" => resolve = Some(tri!(map.next_value())),
+            "resolve" => resolve = tri!(map.next_value()),
             "workspace_root" => workspace_root = Some(tri!(map.next_value())),
             "target_directory" => target_directory = Some(tri!(map.next_value())),
             "metadata" => workspace_metadata = tri!(map.next_value()),
-- 
2.43.0


From 887c14d53ad59846e52be7125ff2610f04847594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 12/17] fix: serialize required features of targets under the
 name they are read from

---
 src/cm/ser.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/cm/ser.rs b/src/cm/ser.rs
index 48b8cc9..0cc37bc 100644
--- a/src/cm/ser.rs
+++ b/src/cm/ser.rs
@@ -145,20 +145,9 @@ map!(Dependency, map, self, {
 });
 
 map!(Target, map, self, {
-    entries!(
-        map,
-        self,
-        name,
-        kind,
-        crate_types,
-        required_features,
-        src_path,
-        edition,
-        doctest,
-        doctest,
-        test,
-        doc
-    );
+    entries!(map, self, name, kind, crate_types);
+    entry!(map, self, required_features, "required-features");
+    entries!(map, self, src_path, edition, doctest, test, doc);
 });
 
 impl Serialize for Edition {
-- 
2.43.0


From d27818fb35f1ef76253c08c7ac025e694ce23976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 13/17] fix: recognize renamed lib targets of every library
 crate type

A dependency whose lib target is a proc macro, or has explicit crate types,
was lost when only a feature with its name enabled it
---
 src/builder.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index f79c68f..acf4c98 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -631,11 +631,20 @@ impl Builder {
         impl<'p> Renames<'p> {
             #[inline]
             fn maybe_insert(&mut self, pkg: &'p crate::Package) {
-                let Some(targ) = pkg
-                    .targets
-                    .iter()
-                    .find(|tar| tar.kind.contains(&cm::TargetKind::Lib))
-                else {
+                // The kinds of a lib target are its crate types
+                let Some(targ) = pkg.targets.iter().find(|tar| {
+                    tar.kind.iter().any(|kind| {
+                        matches!(
+                            kind,
+                            cm::TargetKind::Lib
+                                | cm::TargetKind::RLib
+                                | cm::TargetKind::DyLib
+                                | cm::TargetKind::CDyLib
+                                | cm::TargetKind::StaticLib
+                                | cm::TargetKind::ProcMacro
+                        )
+                    })
+                }) else {
                     return;
                 };
 
-- 
2.43.0


From b12a9bb7392fdb5ef5f0b545b52a3711a03bb1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 14/17] fix: cfg(true) and cfg(false) are constants, not flags
 of a target

---
 src/builder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index acf4c98..9e8caed 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -253,6 +253,8 @@ impl TargetFilter {
                 // is being filtered
                 self.features.iter().any(|f| f == feat)
             }
+            // `cfg(true)`, `cfg(false)` is false like any other flag
+            cfg_expr::expr::Predicate::Flag("true") => true,
             // We *could* warn here about an invalid expression, but
             // presumably cargo will be responsible for that, so don't bother
             _ => false,
@@ -1434,7 +1436,9 @@ impl Builder {
 
                                 // We can't just do an eval and always return true, as that then would cause any
                                 // not() expressions to evaluate to false
-                                if expr.predicates().count() == 0 && !expr.eval(|_| true) {
+                                let is_true = |pred: &cfg_expr::Predicate<'_>| matches!(pred, cfg_expr::Predicate::Flag("true"));
+                                let is_false = |pred: &cfg_expr::Predicate<'_>| matches!(pred, cfg_expr::Predicate::Flag("false"));
+                                if expr.predicates().all(|pred| is_true(&pred) || is_false(&pred)) && !expr.eval(is_true) {
                                     return None;
                                 }
                             }
-- 
2.43.0


From 57a96fc05e03ba5af674495572b17292b78a66b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 15/17] fix: recognize the workspace manifest when the
 workspace is reached over a symbolic link

---
 src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 9e8caed..7007082 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -754,10 +754,15 @@ impl Builder {
                     roots.extend(workspace_members.iter());
                 }
             } else {
+                // The filters are canonicalized if possible
+                let workspace_root = md.workspace_root.as_std_path();
+                let canonical_root = workspace_root.canonicalize();
+                let workspace_root = canonical_root.as_deref().unwrap_or(workspace_root);
+
                 // If the filters only contain 1 path, and it is the path to a
                 // workspace toml, then we disregard the filters
                 if self.workspace_filters.len() == 1
-                    && Some(md.workspace_root.as_ref()) == self.workspace_filters[0].parent()
+                    && Some(workspace_root) == self.workspace_filters[0].parent()
                 {
                     roots.extend(workspace_members.iter());
                 } else {
-- 
2.43.0


From abde0a577cea1bd530eb19f9977b4ba0b47262cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 16/17] fix: do not panic on features of dev dependencies that
 cargo did not resolve

---
 src/builder.rs | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 7007082..d57cfdb 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -836,17 +836,21 @@ impl Builder {
         }
 
         impl Node {
+            #[inline]
+            fn find_feature(&self, feat: &str) -> Option<usize> {
+                self.features
+                    .binary_search_by(|f| f.as_str().cmp(feat))
+                    .ok()
+            }
+
             #[inline]
             fn feature_index(&self, feat: &str) -> usize {
-                match self.features.binary_search_by(|f| f.as_str().cmp(feat)) {
-                    Ok(i) => i,
-                    Err(_i) => {
-                        unreachable!(
-                            "unable to locate {feat} for crate {} features({:?})",
-                            self.id, self.features
-                        );
-                    }
-                }
+                self.find_feature(feat).unwrap_or_else(|| {
+                    unreachable!(
+                        "unable to locate {feat} for crate {} features({:?})",
+                        self.id, self.features
+                    )
+                })
             }
 
             #[inline]
@@ -932,6 +936,8 @@ impl Builder {
 
         let mut dep_edge_map = BTreeMap::new();
         let mut feature_edge_map = BTreeMap::new();
+        // Features referenced by another crate that cargo did not resolve
+        let mut unresolved = BTreeSet::new();
 
         // The stack of pid + features that are visited until we've reached every
         // unique leaf.
@@ -1237,8 +1243,21 @@ impl Builder {
                     // dependencies.
                     for ndep in renames.resolve_feature(krate_name, krate, rnode) {
                         let rdep_node = get_rnode(&ndep.pkg);
+                        // A feature that was only enabled by another package is not applied
+                        // to the dev dependencies of a workspace member, so the feature might
+                        // not have been resolved for the dependency
+                        let feature = feature.and_then(|feat| {
+                            let index = rdep_node.find_feature(feat);
+                            if index.is_none() {
+                                unresolved.insert((pid, &ndep.pkg, feat.to_owned()));
+                            }
+                            index
+                        });
+
                         if matches!(pf.feat(), Feature::Weak { .. }) {
-                            let feature = rdep_node.feature_index(feature.unwrap());
+                            let Some(feature) = feature else {
+                                continue;
+                            };
 
                             // A weak reference only adds to a dependency that is
                             // already enabled by something else, it must not enable
@@ -1273,7 +1292,7 @@ impl Builder {
                             .unwrap();
 
                         if let Some(feature) = feature {
-                            feats.insert(rdep_node.feature_index(feature));
+                            feats.insert(feature);
                         }
                     }
                 }
@@ -1810,10 +1829,12 @@ impl Builder {
 
                     let feat_name = match sub_feat.name {
                         // The dependency can be pruned from this crate but still be in
-                        // the graph, without the feature, due to some other crate
+                        // the graph, without the feature, due to some other crate, or
+                        // the feature was not resolved for the dependency
                         FeatureEdgeName::Feature(feat)
                             if sub_feat.kid != pid
-                                && !surviving_deps.contains(&(pid, sub_feat.kid))
+                                && (!surviving_deps.contains(&(pid, sub_feat.kid))
+                                    || unresolved.contains(&(pid, sub_feat.kid, feat.clone())))
                                 && get(&graph, sub_feat.kid, Some(&feat)).is_none() =>
                         {
                             continue;
-- 
2.43.0


From ce4165bf721aea7311464b1114119af67e089db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 17/17] fix: decode non-ASCII characters in package ids instead
 of panicking

---
 src/lib.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3616be0..4b73072 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -126,6 +126,12 @@ impl From<PackageId> for Kid {
 
                                 decoded.push_str(&encoded[..pi]);
 
+                                if let Some((c, len)) = decode_non_ascii(&encoded[pi..]) {
+                                    decoded.push(c);
+                                    encoded = &encoded[pi + len..];
+                                    continue;
+                                }
+
                                 let Some(encoding) = encoded.get(pi + 1..pi + 3) else {
                                     // This _should_ never happen, but just in case
                                     panic!(
@@ -231,6 +237,32 @@ impl From<PackageId> for Kid {
     }
 }
 
+/// Decodes the leading character if it is outside of ASCII, each of its bytes is
+/// encoded separately, returning it along with the length of its encoding
+fn decode_non_ascii(encoded: &str) -> Option<(char, usize)> {
+    let mut bytes = [0; 4];
+
+    for (i, encoding) in encoded.as_bytes().chunks_exact(3).take(4).enumerate() {
+        let &[b'%', hi, lo] = encoding else {
+            return None;
+        };
+
+        let hi = char::from(hi).to_digit(16)? as u8;
+        let lo = char::from(lo).to_digit(16)? as u8;
+        bytes[i] = hi << 4 | lo;
+
+        if bytes[0].is_ascii() {
+            return None;
+        }
+
+        if let Ok(decoded) = std::str::from_utf8(&bytes[..=i]) {
+            return decoded.chars().next().map(|c| (c, (i + 1) * 3));
+        }
+    }
+
+    None
+}
+
 impl fmt::Debug for Kid {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut ds = f.debug_struct("Kid");
-- 
2.43.0

