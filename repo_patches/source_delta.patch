From 5a1ac057849a576e8eb40399457d97eb94d32e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 1/6] fix: keep unrelated edges when depth-first traversal
 drops a closed edge

The retain predicate dropped every pending edge that either started at the
already visited neighbor or ended at the current node, so nodes reachable
only through those edges were never visited. Drop only the edge that is
reported in the other direction.
---
 src/traversal/depth_first.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/traversal/depth_first.rs b/src/traversal/depth_first.rs
index 5976d0f..68bd9cc 100644
--- a/src/traversal/depth_first.rs
+++ b/src/traversal/depth_first.rs
@@ -99,7 +99,7 @@ impl<'a, G> Iterator for DepthFirst<'a, G>
 
                         if self.nodes.contains(&neighbor) {
                             self.stack.retain(
-                                |edge| edge.0 != neighbor && edge.1 != node
+                                |edge| edge.0 != neighbor || edge.1 != node
                             );
                         }
 
-- 
2.43.0


From 204249b491f0a8fd1f3864bf0d3172f88874595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 2/6] fix: greedy matching marks a node used only when it is
 paired

The short-circuited insert marked the source of a step as used although its
target was already taken, so the source was never paired with a free
neighbor later and the matching was not maximal.
---
 src/matching/greedy.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matching/greedy.rs b/src/matching/greedy.rs
index 42e147f..1c017e3 100644
--- a/src/matching/greedy.rs
+++ b/src/matching/greedy.rs
@@ -50,7 +50,9 @@ pub fn greedy<G: Graph>(graph: &G) -> Pairing {
         );
 
         for Step { sid, tid, cut: _ } in traversal {
-            if nodes.insert(sid) && nodes.insert(tid) {
+            if !nodes.contains(&sid) && !nodes.contains(&tid) {
+                nodes.insert(sid);
+                nodes.insert(tid);
                 // edges.push((sid, tid));
                 pairing.pair(sid, tid);
             }
-- 
2.43.0


From 509564129678521c159f6df9f777d48a3a675793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 3/6] fix: lift augmenting paths through interior blossoms
 correctly

The lifted path could have odd length (panicking in augment) or leave
blossom nodes unpaired, so no progress was made. Expand the whole blossom
next to the node its contracted node is paired with.
---
 src/matching/blossom.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/matching/blossom.rs b/src/matching/blossom.rs
index cf2d770..1448870 100644
--- a/src/matching/blossom.rs
+++ b/src/matching/blossom.rs
@@ -98,8 +98,24 @@ impl Blossom {
             self.lift_left_blossom(left, graph)
         } else if left.is_empty() && !right.is_empty() {
             self.lift_blossom_right(right, graph)
-        } else {
+        } else if path.len() % 2 == 1 {
             self.lift_left_blossom_right(left, right, graph)
+        } else if left.len() % 2 == 1 {
+            // Augmentation pairs the blossom with its left neighbor. Expand
+            // the blossom next to that neighbor, which leaves an even number
+            // of consecutive blossom nodes to be paired among themselves.
+            let mut lifted = self.lift_left_blossom(left, graph);
+
+            lifted.extend(right);
+
+            lifted
+        } else {
+            // As above, but the blossom pairs with its right neighbor.
+            let mut lifted = left;
+
+            lifted.extend(self.lift_blossom_right(right, graph));
+
+            lifted
         }
     }
 
-- 
2.43.0


From ac474f10d44d6c7c47128c9c9d7befde4394519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 4/6] fix: choose an unused blossom id without overflowing

max_id + 1 overflows when the largest node id is usize::MAX: it panics in
debug builds and may collide with node 0 in release builds.
---
 src/matching/maximum_matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matching/maximum_matching.rs b/src/matching/maximum_matching.rs
index 1ba8234..ccbf88f 100644
--- a/src/matching/maximum_matching.rs
+++ b/src/matching/maximum_matching.rs
@@ -124,8 +124,8 @@ fn even_path<G: Graph>(
 fn process_blossom<G:Graph>(
     left: Vec<usize>, right: Vec<usize>, graph: &G, pairing: &Pairing
 ) -> Option<Vec<usize>> {
-    let max_id = graph.nodes().max().expect("no max id");
-    let blossom =  Blossom::new(max_id + 1, left, right);
+    let id = (0..).find(|&id| !graph.has_node(id)).expect("no unused id");
+    let blossom =  Blossom::new(id, left, right);
     let contracted_graph = blossom.contract_graph(graph).expect("bad graph");
     let mut contracted_pairing = blossom.contract_pairing(&pairing);
 
-- 
2.43.0


From 5dbc0e4253306580f38f34e4effab2a9d575a98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 5/6] fix: do not recurse once per augmentation in
 maximum_matching

The loop already repeats until no augmenting path is left. Calling itself
after every augmentation used stack in proportion to the number of pairs
(24,000 disjoint edges overflow the 2 MB stack of a thread) and repeated
the final, unsuccessful search once for every pair.
---
 src/matching/maximum_matching.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/matching/maximum_matching.rs b/src/matching/maximum_matching.rs
index ccbf88f..291d7a1 100644
--- a/src/matching/maximum_matching.rs
+++ b/src/matching/maximum_matching.rs
@@ -39,7 +39,6 @@ pub fn maximum_matching<'a, G: Graph>(
 ) {
     while let Some(path) = augmenting_path(graph, pairing) {
         pairing.augment(path);
-        maximum_matching(graph, pairing);
     }
 }
 
-- 
2.43.0


From 1b1d9d40b345eda28a63c0804b1d29d53018e771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 6/6] fix: keep nested blossoms off the call stack

Every blossom inside a blossom was another level of recursion with a large
frame: 800 of them (1,601 nodes) overflow a stack of 512 kB in release
builds and 1 MB in debug builds, and as many as there are nodes for can be
nested.
---
 src/matching/maximum_matching.rs | 81 ++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 25 deletions(-)

diff --git a/src/matching/maximum_matching.rs b/src/matching/maximum_matching.rs
index 291d7a1..149a47c 100644
--- a/src/matching/maximum_matching.rs
+++ b/src/matching/maximum_matching.rs
@@ -1,4 +1,4 @@
-use crate::graph::{ Graph };
+use crate::graph::{ DefaultGraph, Graph };
 use super::pairing::Pairing;
 use super::forest::Forest;
 use super::marker::Marker;
@@ -42,9 +42,56 @@ pub fn maximum_matching<'a, G: Graph>(
     }
 }
 
+enum Search {
+    Path(Vec<usize>),
+    Blossom(Blossom),
+    Exhausted
+}
+
 fn augmenting_path<'a, G: Graph>(
     graph: &'a G, pairing: &'a mut Pairing
 ) -> Option<Vec<usize>> {
+    // Blossoms can be nested as deeply as the graph is large, so they are kept
+    // here instead of on the call stack.
+    let mut contractions: Vec<(Blossom, DefaultGraph, Pairing)> = Vec::new();
+    let mut search = find_path(graph, pairing);
+
+    while let Search::Blossom(blossom) = search {
+        let (contracted_graph, contracted_pairing) = match contractions.last() {
+            Some((_, graph, pairing)) => contract(&blossom, graph, pairing),
+            None => contract(&blossom, graph, pairing)
+        };
+
+        search = find_path(&contracted_graph, &contracted_pairing);
+
+        contractions.push((blossom, contracted_graph, contracted_pairing));
+    }
+
+    let mut path = match search {
+        Search::Path(path) => path,
+        _ => return None
+    };
+
+    while let Some((blossom, _, _)) = contractions.pop() {
+        path = match contractions.last() {
+            Some((_, graph, _)) => blossom.lift(path, graph),
+            None => blossom.lift(path, graph)
+        };
+    }
+
+    Some(path)
+}
+
+fn contract<G: Graph>(
+    blossom: &Blossom, graph: &G, pairing: &Pairing
+) -> (DefaultGraph, Pairing) {
+    (
+        blossom.contract_graph(graph).expect("bad graph"),
+        blossom.contract_pairing(pairing)
+    )
+}
+
+fn find_path<G: Graph>(graph: &G, pairing: &Pairing) -> Search {
     let mut forest = Forest::new();
     let mut marker = Marker::new();
 
@@ -73,7 +120,7 @@ fn augmenting_path<'a, G: Graph>(
             match forest.path(w) {
                 Some(path_w) => {
                     if path_w.len() % 2 == 1 {
-                        return even_path(v, path_w, graph, &forest, pairing)
+                        return even_path(v, path_w, graph, &forest)
                     }
                 },
                 None => {
@@ -88,7 +135,7 @@ fn augmenting_path<'a, G: Graph>(
         marker.mark_node(v);
     }
 
-    None
+    Search::Exhausted
 }
 
 fn some_v(forest: &Forest, marker: &Marker) -> Option<usize> {
@@ -102,35 +149,19 @@ fn some_w<G: Graph>(v: usize, graph: &G, marker: &Marker) -> Option<usize> {
 }
 
 fn even_path<G: Graph>(
-    v: usize,
-    mut path_w: Vec<usize>,
-    graph: &G,
-    forest: &Forest,
-    pairing: &Pairing
-) -> Option<Vec<usize>> {
+    v: usize, mut path_w: Vec<usize>, graph: &G, forest: &Forest
+) -> Search {
     let mut path_v = forest.path(v).expect("v not in forest");
 
     if path_v.last() == path_w.last() {
-        process_blossom(path_v, path_w, graph, pairing)
+        let id = (0..).find(|&id| !graph.has_node(id)).expect("no unused id");
+
+        Search::Blossom(Blossom::new(id, path_v, path_w))
     } else {
         path_v.reverse();
         path_v.append(&mut path_w);
 
-        Some(path_v)
-    }
-}
-
-fn process_blossom<G:Graph>(
-    left: Vec<usize>, right: Vec<usize>, graph: &G, pairing: &Pairing
-) -> Option<Vec<usize>> {
-    let id = (0..).find(|&id| !graph.has_node(id)).expect("no unused id");
-    let blossom =  Blossom::new(id, left, right);
-    let contracted_graph = blossom.contract_graph(graph).expect("bad graph");
-    let mut contracted_pairing = blossom.contract_pairing(&pairing);
-
-    match augmenting_path(&contracted_graph, &mut contracted_pairing) {
-        Some(path) => Some(blossom.lift(path, graph)),
-        None => None
+        Search::Path(path_v)
     }
 }
 
-- 
2.43.0

