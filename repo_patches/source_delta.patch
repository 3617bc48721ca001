From 764e167b87d5d9e8c8cfadce417d7bae6def5c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 01/18] fix: keep the matching perfect when the crossing pair
 of edges is cheapest

optimize_two_matching wrote the edges (v0,v2),(v1,v2) for the case
v0-v3 / v1-v2, losing v3 and using v2 twice.
---
 src/solvers/approximate/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/approximate/matching.rs b/src/solvers/approximate/matching.rs
index 253c174..60998cc 100644
--- a/src/solvers/approximate/matching.rs
+++ b/src/solvers/approximate/matching.rs
@@ -161,7 +161,7 @@ fn optimize_two_matching(edg01: &mut [usize; 2], edg23: &mut [usize; 2], graph:
     if cost_1 < cost_0 {
         if cost_2 < cost_1 {
             // case 2 is optimal
-            *edg01 = [v0, v2];
+            *edg01 = [v0, v3];
             *edg23 = [v1, v2];
         } else {
             // case 1 is optimal
-- 
2.43.0


From 3e1ab45efc04713f3d882ca6eac8517460e4d0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 02/18] fix: prune with the weight of the spanning tree, not
 twice that weight

directed_edge_weight() counts every tree edge from both ends, so v5, v6 and
the MPI solvers pruned branches that contain the optimum.
---
 src/solvers/exact.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 3b5fce6..627668c 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -410,7 +410,7 @@ fn _fifth_improved_solver_rec(
         // tour the whole tour will definitely be bigger than our previous best version
         let lower_bound_graph =
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
-        let lower_bound = lower_bound_graph.directed_edge_weight();
+        let lower_bound = lower_bound_graph.undirected_edge_weight();
         if current_cost + lower_bound <= result.0 {
             _fifth_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
         }
@@ -513,7 +513,7 @@ fn _sixth_improved_solver_rec(
         };
         let lower_bound = mst_cache.entry(hash).or_insert(
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)
-                .directed_edge_weight(),
+                .undirected_edge_weight(),
         );
         if current_cost + *lower_bound <= result.0 {
             _sixth_improved_solver_rec(
@@ -1021,7 +1021,7 @@ fn _mpi_improved_solver_rec(
         // tour the whole tour will definitely be bigger than our previous best version
         let lower_bound_graph =
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
-        let lower_bound = lower_bound_graph.directed_edge_weight();
+        let lower_bound = lower_bound_graph.undirected_edge_weight();
 
         let best_known_solution = if global_best_cost < result.0 {
             global_best_cost
-- 
2.43.0


From 0fb1decb299ada7f75afb40616a3632a7be35d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 03/18] fix: make the nearest-neighbour bound of the fourth
 solver a lower bound

Only later vertices were considered as neighbours, so a vertex could be
charged more than its cheapest edge, and every remaining vertex was charged
although the last one of the tour is left towards its start. Branches with
the optimum were pruned.
---
 src/solvers/exact.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 627668c..cac21c8 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -317,6 +317,9 @@ where
     T: AdjacencyMatrix,
 {
     let mut res = 0.0;
+    // The rest of the tour visits all remaining vertices. Its last vertex is left towards the start
+    // of the tour, so one of the remaining vertices does not need an edge to another one of them.
+    let mut longest_counted = 0.0;
     for i in 0..n {
         // If it is part of the subtour, the vertex is already used.
         if subtour.contains(&i) {
@@ -325,10 +328,10 @@ where
         let mut shortest_edge_cost = f64::INFINITY;
 
         // Otherwise, we can start finding its nearest neighbour
-        for j in (i + 1)..n {
+        for j in 0..n {
             // we do not connect to ourself
             // Also we just connect within
-            if subtour.contains(&j) {
+            if j == i || subtour.contains(&j) {
                 continue;
             }
 
@@ -340,6 +343,10 @@ where
         }
         // Without this check, a single node would have length infinity
         if shortest_edge_cost != f64::INFINITY {
+            // keep the longest one aside
+            if shortest_edge_cost > longest_counted {
+                std::mem::swap(&mut longest_counted, &mut shortest_edge_cost);
+            }
             res += shortest_edge_cost;
         }
     }
-- 
2.43.0


From 477ec24fcc5692e34f95721a332efb319d61a89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 04/18] fix: let the first two solvers consider the initial
 permutation too

The sorted permutation was never evaluated; with two cities v1 evaluated no
tour at all and reported an infinite cost.
---
 src/solvers/exact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index cac21c8..5f23c01 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -27,7 +27,7 @@ where
 {
     let n = graph_matrix.dim();
     let mut best_permutation: Path = (0..n).collect();
-    let mut best_cost = f64::INFINITY;
+    let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);
 
     let mut current_permutation = best_permutation.clone();
     while next_permutation(&mut current_permutation) {
@@ -51,7 +51,7 @@ where
 {
     let n = graph_matrix.dim();
     let mut best_permutation: Path = (0..n).collect();
-    let mut best_cost = f64::INFINITY;
+    let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);
 
     let mut current_permutation = best_permutation.clone();
     while next_permutation(&mut current_permutation[1..]) {
-- 
2.43.0


From 42c56ac0ab99ca2c862bb5f9dc33db79fb3bd5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 05/18] fix: restore the partial cost exactly when backtracking

Subtracting the last edge again does not undo the addition in floating
point: after trying an expensive edge (1e18 next to costs around 1) the
partial cost of all later branches was wrong, and with it the reported
cost and tour.
---
 src/solvers/exact.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 5f23c01..28b4667 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -132,13 +132,14 @@ fn _second_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
+        let cost_before = current_cost;
         current_cost += cost_last_edge;
 
         // rec call
         _second_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
 
         // remove
-        current_cost -= cost_last_edge;
+        current_cost = cost_before;
         current_prefix.pop();
     }
 }
@@ -203,6 +204,7 @@ fn _third_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
+        let cost_before = current_cost;
         current_cost += cost_last_edge;
 
         // HERE IS THE BIG DIFFERENCE TO [`_second_improved_solver_rec`]!
@@ -211,7 +213,7 @@ fn _third_improved_solver_rec<T>(
         }
         // This was it. This is the pruning
 
-        current_cost -= cost_last_edge;
+        current_cost = cost_before;
         current_prefix.pop();
     }
 }
@@ -293,6 +295,7 @@ fn _fourth_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
+        let cost_before = current_cost;
         current_cost += cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
@@ -303,7 +306,7 @@ fn _fourth_improved_solver_rec<T>(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
+        current_cost = cost_before;
         current_prefix.pop();
     }
 }
@@ -411,6 +414,7 @@ fn _fifth_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
+        let cost_before = current_cost;
         current_cost += cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
@@ -423,7 +427,7 @@ fn _fifth_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
+        current_cost = cost_before;
         current_prefix.pop();
     }
 }
@@ -509,6 +513,7 @@ fn _sixth_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
+        let cost_before = current_cost;
         current_cost += cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
@@ -533,7 +538,7 @@ fn _sixth_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
+        current_cost = cost_before;
         current_prefix.pop();
     }
 }
@@ -1022,6 +1027,7 @@ fn _mpi_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
+        let cost_before = current_cost;
         current_cost += cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
@@ -1047,7 +1053,7 @@ fn _mpi_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
+        current_cost = cost_before;
         current_prefix.pop();
     }
 }
-- 
2.43.0


From 00103ec2205cd0acffbb5058eea1bb4e67f2457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 06/18] fix: let the chunks of the prefix space cover it
 completely

The remainder of the division belonged to no chunk, and the loops over a
chunk skipped its first value and its last one. With many workers a chunk
contained nothing but the skipped values, so no tour was found at all.
---
 src/solvers/exact.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 28b4667..15eb1e0 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -575,6 +575,8 @@ pub fn next_permutation<T: Ord>(array: &mut [T]) -> bool {
 
 /// Splits the `basis`-ary space from 0...0 to (basis-1)..(basis-1) into `n` chunks of `number_digits` digits.
 /// Returns the minimum and maximum (exclusive) values for the `k`-th chunk.
+/// The exclusive maximum of the last chunk does not fit into `number_digits` digits and wraps around
+/// to 0...0.
 pub fn split_up_b_ary_number_into_n_chunks(
     number_digits: usize,
     basis: usize,
@@ -582,11 +584,10 @@ pub fn split_up_b_ary_number_into_n_chunks(
     k: usize,
 ) -> (Vec<usize>, Vec<usize>) {
     let total_values = basis.pow(number_digits as u32);
-    assert!(total_values > n);
-    let chunk_size = total_values / n;
+    assert!(total_values >= n);
 
-    let min_value = k * chunk_size;
-    let max_value = min_value + chunk_size - 1;
+    let min_value = k * total_values / n;
+    let max_value = (k + 1) * total_values / n;
 
     let min_digits = convert_to_b_ary_digits(min_value, basis, number_digits);
     let max_digits = convert_to_b_ary_digits(max_value, basis, number_digits);
@@ -684,11 +685,11 @@ fn threaded_solver_generic(
                 current_prefix.reserve(graph_matrix.dim());
 
                 // For each prefix
-                while let Some(next_value) = get_next_value(&mut min_digits, graph_matrix.dim()) {
-                    // early return if we have finished our chunk
-                    if next_value == max_digits {
-                        break;
-                    }
+                let mut next_prefix = Some(min_digits.clone());
+                while let Some(next_value) = next_prefix {
+                    // stop once we have finished our chunk
+                    next_prefix = get_next_value(&mut min_digits, graph_matrix.dim())
+                        .filter(|value| *value != max_digits);
 
                     // if it has at least two times the same digit, its not a valid path
                     let is_unique =
@@ -911,11 +912,11 @@ fn static_mpi_solver_generic_nonroot(
     let mut min_digits = min_digits;
     let mut current_prefix: Vec<usize> = Vec::new();
     current_prefix.reserve(graph_matrix.dim());
-    while let Some(next_value) = get_next_value(&mut min_digits, graph_matrix.dim()) {
-        // early return if we have finished our chunk
-        if next_value == max_digits {
-            break;
-        }
+    let mut next_prefix = Some(min_digits.clone());
+    while let Some(next_value) = next_prefix {
+        // stop once we have finished our chunk
+        next_prefix = get_next_value(&mut min_digits, graph_matrix.dim())
+            .filter(|value| *value != max_digits);
 
         // if it has at least two times the same digit, its not a valid path
         let is_unique = next_value.len() == next_value.iter().collect::<FxHashSet<_>>().len();
-- 
2.43.0


From 9a8634ae1c475022f30b4ef924189d14d2e503a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 07/18] fix: solve instances smaller than the prefix
 sequentially

With two cities and one thread no prefix of three different cities exists,
and the multi-threaded solver returned an infinite cost without a tour.
---
 src/solvers/exact.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 15eb1e0..7d3c9ff 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -660,7 +660,8 @@ fn threaded_solver_generic(
     };
 
     // if (number of threads >= n) we do seq
-    if number_of_threads >= graph_matrix.dim() {
+    // the same if there are not enough cities for a prefix
+    if number_of_threads >= graph_matrix.dim() || prefix_length > graph_matrix.dim() {
         return fifth_improved_solver(graph_matrix);
     }
 
-- 
2.43.0


From 9ffe42fb78f03b2ffb4c7f2f6d9fbf69f858369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 08/18] fix: solve tiny instances and single-process runs
 without MPI workers

The static and the dynamic MPI solver returned an infinite cost when started
with one process or with fewer cities than a prefix has, and the dynamic one
indexed out of bounds for up to three cities.
---
 src/solvers/exact.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 7d3c9ff..6e89ca5 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -806,6 +806,11 @@ pub fn static_mpi_solver_generic(graph_matrix: &NAMatrix, prefix_length: usize)
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
+    // Without workers, or without enough cities for a prefix, every process solves it on its own
+    if world.size() == 1 || graph_matrix.dim() < prefix_length {
+        return fifth_improved_solver(graph_matrix);
+    }
+
     // Will be used once the entire computation is done
     // Has to be available to both root and non-root as we broadcast into it
     let mut winner = MPICostRank(f64::INFINITY, 0);
@@ -1130,6 +1135,11 @@ pub fn dynamic_mpi_solver(graph_matrix: &NAMatrix) -> Solution {
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
+    // Without workers, or without the cities of the first prefix, every process solves it on its own
+    if world.size() == 1 || graph_matrix.dim() <= 3 {
+        return fifth_improved_solver(graph_matrix);
+    }
+
     // Will be used once the entire computation is done
     // Has to be available to both root and non-root as we broadcast into it
     let mut winner = MPICostRank(f64::INFINITY, 0);
-- 
2.43.0


From d6142068d280f27ef3e4ef6fef22784e86175291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 09/18] fix: allow more MPI workers than there are prefixes

The static MPI solver panicked on every worker as soon as their number
reached the number of prefixes.
---
 src/solvers/exact.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 6e89ca5..d31d903 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -906,11 +906,15 @@ fn static_mpi_solver_generic_nonroot(
     let root = world.process_at_rank(0);
 
     // -1 because we subtract the root rank
+    let worker_index = (rank as usize) - 1;
+    // there cannot be more chunks than prefixes
+    let number_of_chunks =
+        ((size as usize) - 1).min(graph_matrix.dim().pow(prefix_length as u32));
     let (min_digits, max_digits) = split_up_b_ary_number_into_n_chunks(
         prefix_length,
         graph_matrix.dim(),
-        (size as usize) - 1,
-        (rank as usize) - 1,
+        number_of_chunks,
+        worker_index,
     );
     let mut local_solution = (f64::INFINITY, Vec::new());
     let mut global_best_cost = f64::INFINITY;
@@ -918,7 +922,12 @@ fn static_mpi_solver_generic_nonroot(
     let mut min_digits = min_digits;
     let mut current_prefix: Vec<usize> = Vec::new();
     current_prefix.reserve(graph_matrix.dim());
-    let mut next_prefix = Some(min_digits.clone());
+    // a worker without a chunk has nothing to do
+    let mut next_prefix = if worker_index < number_of_chunks {
+        Some(min_digits.clone())
+    } else {
+        None
+    };
     while let Some(next_value) = next_prefix {
         // stop once we have finished our chunk
         next_prefix = get_next_value(&mut min_digits, graph_matrix.dim())
-- 
2.43.0


From cb4292d63f050f02e70446c36486eaee0fbbb140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 10/18] fix: let MPI workers without a tour of their own
 receive the winning one

A worker that found no tour (nothing left to do, or everything pruned)
returned an empty path, and the broadcast of the winning tour into it was
truncated.
---
 src/solvers/exact.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index d31d903..02da0eb 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -916,7 +916,9 @@ fn static_mpi_solver_generic_nonroot(
         number_of_chunks,
         worker_index,
     );
-    let mut local_solution = (f64::INFINITY, Vec::new());
+    // the path needs its full length even if this worker never finds a tour,
+    // since the tour of the winner will be received into it
+    let mut local_solution = (f64::INFINITY, vec![0; graph_matrix.dim()]);
     let mut global_best_cost = f64::INFINITY;
 
     let mut min_digits = min_digits;
@@ -1247,7 +1249,9 @@ fn dynamic_mpi_solver_nonroot(world: &SystemCommunicator, graph_matrix: &NAMatri
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
-    let mut local_solution = (f64::INFINITY, Vec::new());
+    // the path needs its full length even if this worker never finds a tour,
+    // since the tour of the winner will be received into it
+    let mut local_solution = (f64::INFINITY, vec![0; graph_matrix.dim()]);
 
     // Tell the root our result
     // Which is rubbish, but it implicitly asks for a prefix
-- 
2.43.0


From 26606b7af4fb4228d14ac8171a0565474fb24aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 11/18] fix: keep the connecting vertex when the queue keeps
 the cheaper cost

push_increase returns the rejected priority when the queued one is better,
so the connection was overwritten although the cost was not: the tree had
edges with costs that the input does not give them.
---
 src/mst.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mst.rs b/src/mst.rs
index 7b74adc..0980ea7 100644
--- a/src/mst.rs
+++ b/src/mst.rs
@@ -243,7 +243,8 @@ impl FindMinCostEdge for VerticesInPriorityQueue {
             let Reverse(OrderedFloat(old_cost)) = self.cost_queue
             .push_increase(to, Reverse(OrderedFloat(cost)))
             .unwrap_or_else(|| panic!("Every unused unused vertex shall be contained in the queue from the beginning. Missing vertex: {}", to));
-            if cost <= old_cost {
+            // `push_increase` gives back `cost` itself if it was not an improvement
+            if cost < old_cost {
                 self.connection_to_mst[to] = from;
             }
         }
-- 
2.43.0


From 81cb69fc5fba836a1170609eccf51a038396542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 12/18] fix: reject graphs with self-loops, one-way edges or
 edges to nowhere

A vertex listing itself instead of another one, or an edge without its
reverse edge, satisfied all preconditions.
---
 src/preconditions.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/preconditions.rs b/src/preconditions.rs
index 3fe6dd4..d5314ae 100644
--- a/src/preconditions.rs
+++ b/src/preconditions.rs
@@ -8,7 +8,9 @@ use crate::datastructures::Graph;
 /// This is a prerequisite for the TSP.
 pub fn is_fully_connected(g: &Graph) -> bool {
     let n = g.num_vertices();
-    g.iter().all(|v| v.degree() == n - 1)
+    g.iter()
+        .enumerate()
+        .all(|(i, v)| v.degree() == n - 1 && v.iter().all(|edge| edge.to != i))
 }
 
 /// This function checks that whether the graph has multiple edges from one vertex to another
@@ -32,17 +34,19 @@ pub fn is_undirected(graph: &Graph) -> bool {
         let v1 = &graph.vertices[i];
         for v1e in v1.iter() {
             // Find the Vertex connected to the edge
-            let v2 = &graph.vertices[v1e.to];
+            let v2 = match graph.vertices.get(v1e.to) {
+                Some(v2) => v2,
+                // no such vertex, so there is no reverse edge either
+                None => return false,
+            };
 
             // Find reverse edge link
-            for v2e in v2.iter() {
-                if v2e.to == i {
-                    // If not same weight => directed graph
-                    if v2e.cost != v1e.cost {
-                        return false;
-                    }
-                    break;
-                }
+            match v2.iter().find(|v2e| v2e.to == i) {
+                // If not same weight => directed graph
+                Some(v2e) if v2e.cost != v1e.cost => return false,
+                Some(_) => {}
+                // If there is none => directed graph
+                None => return false,
             }
         }
     }
-- 
2.43.0


From 965d05a40d022e1d33216e8dda21deab83371586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 13/18] fix: give instances with two cities a finite one-tree
 bound

There is no second edge at the special vertex, so its weight, and with it
the lower bound, was infinite.
---
 src/one_tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/one_tree.rs b/src/one_tree.rs
index 214e4e6..0cebbc4 100644
--- a/src/one_tree.rs
+++ b/src/one_tree.rs
@@ -60,6 +60,11 @@ pub fn one_tree(graph: &NAMatrix, special_vertex: usize) -> Graph {
         }
     }
 
+    // a tour through two cities uses the only edge in both directions
+    if graph.dim() == 2 {
+        snd_min_edg = fst_min_edg;
+    }
+
     // add the two edges to the mst, making it a 1-tree
     mst.add_undirected_edge(special_vertex, fst_min_edg.to, fst_min_edg.cost);
     mst.add_undirected_edge(special_vertex, snd_min_edg.to, snd_min_edg.cost);
-- 
2.43.0


From 27dc8272737fe05adc45856e5153d401255a834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 14/18] fix: allow more MPI processes than cities

Processes without a start city or special vertex of their own panicked in
the nearest-neighbour solver and in the one-tree bound.
---
 src/one_tree.rs                              | 3 ++-
 src/solvers/approximate/nearest_neighbour.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/one_tree.rs b/src/one_tree.rs
index 0cebbc4..a22e882 100644
--- a/src/one_tree.rs
+++ b/src/one_tree.rs
@@ -136,7 +136,8 @@ fn one_tree_lower_bound_mpi(graph: &NAMatrix) -> f64 {
                 x.partial_cmp(y)
                     .expect("Tried to compare NaN value. Your data seems currupt.")
             })
-            .expect("Cannot compute the 1-tree lower bound of the empty graph");
+            // with more processes than vertices, some have nothing to do
+            .unwrap_or(f64::NEG_INFINITY);
 
         let mut global_lower_bound = f64::INFINITY;
         if rank as mpi::topology::Rank == ROOT_RANK {
diff --git a/src/solvers/approximate/nearest_neighbour.rs b/src/solvers/approximate/nearest_neighbour.rs
index 46dc1b0..2d3e1a4 100644
--- a/src/solvers/approximate/nearest_neighbour.rs
+++ b/src/solvers/approximate/nearest_neighbour.rs
@@ -147,7 +147,8 @@ pub fn nearest_neighbour_mpi(graph_matrix: &NAMatrix) -> Solution {
     let local_solution = (start_node..end_node)
         .map(|k| single_nearest_neighbour(graph_matrix, k.try_into().unwrap()))
         .min_by_key(|&(distance, _)| OrderedFloat(distance))
-        .unwrap();
+        // with more processes than cities, some have nothing to do
+        .unwrap_or_else(|| (f64::INFINITY, vec![0; graph_matrix.dim()]));
 
     // ALLREDUCE all solutions
     // If two solutions have same cost, we choose lower rank
-- 
2.43.0


From e442925233b74497ec5e72ffd0c195abfed5ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 15/18] fix: write the edges between coinciding points of
 generated instances

Only the diagonal must be left out. Skipping every zero distance made the
graph incomplete whenever two points coincide.
---
 utils/gen_matrix_fast/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/gen_matrix_fast/src/main.rs b/utils/gen_matrix_fast/src/main.rs
index cc25eb5..82a05c4 100644
--- a/utils/gen_matrix_fast/src/main.rs
+++ b/utils/gen_matrix_fast/src/main.rs
@@ -28,10 +28,10 @@ fn generate_xml_from_matrix(matrix: &[Vec<f64>]) {
     println!("  <ignoredDigits>{}</ignoredDigits>", ignored_digits);
     println!("  <graph>");
 
-    for (_, row) in matrix.iter().enumerate() {
+    for (row_index, row) in matrix.iter().enumerate() {
         println!("    <vertex>");
         for (col_index, &value) in row.iter().enumerate() {
-            if value == 0.0 {continue;}
+            if row_index == col_index {continue;}
             println!("      <edge cost=\"{}\">{}</edge>", value, col_index);
         }
         println!("    </vertex>");
-- 
2.43.0


From 69f38711350594f5dd0db75510fdbae27937138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 16/18] fix: initialize MPI once when an approximation also
 computes a lower bound

---
 src/lib.rs                                   | 40 +++++++++++++-------
 src/solvers/approximate/nearest_neighbour.rs |  7 ++--
 src/solvers/exact.rs                         |  3 +-
 3 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b4ffa1..ca3ead6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -89,6 +89,14 @@ fn approx_run(
 ) -> Result<(), Box<dyn Error>> {
     let tsp_instance = get_tsp_instance(input_file.clone())?;
 
+    // MPI can only be initialized once per process, and is finalized when its universe is dropped.
+    // Thus, it has to stay alive until the lower bound is computed as well.
+    #[cfg(feature = "mpi")]
+    let _universe = match parallelism {
+        Parallelism::MPI => mpi::initialize(),
+        _ => None,
+    };
+
     match algorithm {
         ApproxAlgorithm::Christofides => {
             let graph = (&tsp_instance.graph).into();
@@ -96,21 +104,22 @@ fn approx_run(
             let now = Instant::now();
 
             let solution = match parallelism {
-                Parallelism::SingleThreaded => {
-                    christofides::<{ computation_mode::SEQ_COMPUTATION }>(&graph)
-                }
-                Parallelism::MultiThreaded => {
-                    christofides::<{ computation_mode::PAR_COMPUTATION }>(&graph)
-                }
+                Parallelism::SingleThreaded => Some(christofides::<
+                    { computation_mode::SEQ_COMPUTATION },
+                >(&graph)),
+                Parallelism::MultiThreaded => Some(christofides::<
+                    { computation_mode::PAR_COMPUTATION },
+                >(&graph)),
                 #[cfg(feature = "mpi")]
                 Parallelism::MPI => {
-                    let universe = mpi::initialize().unwrap();
-                    let world = universe.world();
+                    let world = SystemCommunicator::world();
                     let rank = world.rank();
                     let root_process = world.process_at_rank(0);
 
                     if rank == ROOT_RANK {
-                        christofides::<{ computation_mode::MPI_COMPUTATION }>(&graph)
+                        Some(christofides::<{ computation_mode::MPI_COMPUTATION }>(
+                            &graph,
+                        ))
                     } else {
                         let mut tries = 0;
                         let graph = NAMatrix::from_dim(1);
@@ -122,12 +131,14 @@ fn approx_run(
                             &graph,
                         );
                         mpi_improve_matching(&graph, matching.as_mut_slice(), tries, world);
-                        // non-root process is done here
-                        return Ok(());
+                        // only the root process knows the solution
+                        None
                     }
                 }
             };
-            println!("Christofides solution weight: {}", solution.0);
+            if let Some((weight, _)) = solution {
+                println!("Christofides solution weight: {}", weight);
+            }
             #[cfg(feature = "benchmarking")]
             println!("elapsed seconds: {}", now.elapsed().as_secs_f64());
         }
@@ -183,8 +194,9 @@ fn lower_bound_run(
                 }
                 #[cfg(feature = "mpi")]
                 Parallelism::MPI => {
-                    let universe = mpi::initialize().unwrap();
-                    let world = universe.world();
+                    // `None`, if the caller has initialized MPI already
+                    let _universe = mpi::initialize();
+                    let world = SystemCommunicator::world();
                     let rank = world.rank();
                     let result =
                         one_tree_lower_bound::<{ computation_mode::MPI_COMPUTATION }>(&na_matrix);
diff --git a/src/solvers/approximate/nearest_neighbour.rs b/src/solvers/approximate/nearest_neighbour.rs
index 2d3e1a4..b8a6b67 100644
--- a/src/solvers/approximate/nearest_neighbour.rs
+++ b/src/solvers/approximate/nearest_neighbour.rs
@@ -6,7 +6,7 @@ use rayon::iter::ParallelIterator;
 use rayon::prelude::IntoParallelIterator;
 
 #[cfg(feature = "mpi")]
-use mpi::{collective::UserOperation, traits::*};
+use mpi::{collective::UserOperation, topology::SystemCommunicator, traits::*};
 
 use crate::{
     computation_mode::{panic_on_invaid_mode, PAR_COMPUTATION, SEQ_COMPUTATION},
@@ -126,8 +126,9 @@ pub fn nearest_neighbour<const MODE: usize>(graph_matrix: &NAMatrix) -> Solution
 /// Now every node knows the global minimum and can successfully return it.
 #[cfg(feature = "mpi")]
 pub fn nearest_neighbour_mpi(graph_matrix: &NAMatrix) -> Solution {
-    let universe = mpi::initialize().unwrap();
-    let world = universe.world();
+    // `None`, if the caller has initialized MPI already
+    let _universe = mpi::initialize();
+    let world = SystemCommunicator::world();
     let size = world.size();
     let rank = world.rank();
 
diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 02da0eb..f91950a 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -908,8 +908,7 @@ fn static_mpi_solver_generic_nonroot(
     // -1 because we subtract the root rank
     let worker_index = (rank as usize) - 1;
     // there cannot be more chunks than prefixes
-    let number_of_chunks =
-        ((size as usize) - 1).min(graph_matrix.dim().pow(prefix_length as u32));
+    let number_of_chunks = ((size as usize) - 1).min(graph_matrix.dim().pow(prefix_length as u32));
     let (min_digits, max_digits) = split_up_b_ary_number_into_n_chunks(
         prefix_length,
         graph_matrix.dim(),
-- 
2.43.0


From 45d7571984d916b922ce3b6b2f66a25ad5d0bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 17/18] fix: keep the edges without cost when converting a
 matrix to Rust code

The edge between two coinciding points was left out, and the graph in the
generated code was not complete any more.
---
 utils/tsp_logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/tsp_logic.py b/utils/tsp_logic.py
index 9f72fa1..36e236f 100644
--- a/utils/tsp_logic.py
+++ b/utils/tsp_logic.py
@@ -27,7 +27,7 @@ def convert_to_rust_code(cost_matrix):
     for i in range(n):
         edges = []
         for j in range(n):
-            if i != j and cost_matrix[i][j] != 0.0:
+            if i != j:
                 edges.append(f"Edge {{ to: {j}, cost: {cost_matrix[i][j]} }}")
         vertices.append(f"Vertex {{ edges: vec![{', '.join(edges)}] }}")
     rust_code = f"let graph = Graph {{vertices: vec![{','.join(vertices)}]}};"
-- 
2.43.0


From 0f6c33fe3911b3b80d9d4efb402c61745dd0583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 18/18] fix: write costs as floating-point literals when
 converting a matrix to Rust code

For integer matrices, like those of NN_approx.py, the generated code did not
compile since the cost of an Edge is a f64.
---
 utils/tsp_logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/tsp_logic.py b/utils/tsp_logic.py
index 36e236f..6fdf818 100644
--- a/utils/tsp_logic.py
+++ b/utils/tsp_logic.py
@@ -28,7 +28,7 @@ def convert_to_rust_code(cost_matrix):
         edges = []
         for j in range(n):
             if i != j:
-                edges.append(f"Edge {{ to: {j}, cost: {cost_matrix[i][j]} }}")
+                edges.append(f"Edge {{ to: {j}, cost: {float(cost_matrix[i][j])} }}")
         vertices.append(f"Vertex {{ edges: vec![{', '.join(edges)}] }}")
     rust_code = f"let graph = Graph {{vertices: vec![{','.join(vertices)}]}};"
     return rust_code
-- 
2.43.0

