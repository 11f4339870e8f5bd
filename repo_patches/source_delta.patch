From 0e34e9d3a685a871a5e6dc4b6c952f9cd7473a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 01/23] fix: broken pairs distance compared the depot's
 successor instead of the customer's

A customer that starts a route in one solution and ends one in the other was
counted as a broken pair, because the depot's (meaningless) successor was
consulted.
---
 src/solver/genetic/individual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/genetic/individual.rs b/src/solver/genetic/individual.rs
index 481d778..634d6ba 100644
--- a/src/solver/genetic/individual.rs
+++ b/src/solver/genetic/individual.rs
@@ -115,7 +115,7 @@ impl Individual {
             // If the predecessor of self is a depot, but neither the predecessor or successor of the other is a depot
             if self.predecessor(index) == 0
                 && other.predecessor(index) != 0
-                && other.successor(0) != 0
+                && other.successor(index) != 0
             {
                 distance += 1;
             }
-- 
2.43.0


From 872867dc330f833424e990c73d66eb4803106287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 02/23] fix: circle sector of a route starting at angle 0 lost
 that customer

A sector holding only angle 0 was taken for an empty one, so the next
extension replaced it.
---
 src/models/circle_sector.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/models/circle_sector.rs b/src/models/circle_sector.rs
index fcbd570..f96a045 100644
--- a/src/models/circle_sector.rs
+++ b/src/models/circle_sector.rs
@@ -6,25 +6,33 @@ const MAX_ANGLE: i32 = 65536;
 pub struct CircleSector {
     pub start: i32,
     pub end: i32,
+    // No angle has been added since the last reset
+    empty: bool,
 }
 
 impl CircleSector {
     pub fn new() -> Self {
-        Self { start: 0, end: 0 }
+        Self {
+            start: 0,
+            end: 0,
+            empty: true,
+        }
     }
 
     pub fn reset(&mut self) {
         self.start = 0;
         self.end = 0;
+        self.empty = true;
     }
 
     pub fn from_angle(&mut self, angle: i32) {
         self.start = angle;
         self.end = angle;
+        self.empty = false;
     }
 
     pub fn extend(&mut self, angle: i32) {
-        if self.start == 0 && self.end == 0 {
+        if self.empty {
             self.from_angle(angle);
         } else {
             if !self.is_enclosed(angle) {
-- 
2.43.0


From 61342d007ceb9e5494aef796830d6f3dc4ac9668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 03/23] fix: local search granularity wider than the neighbor
 lists shuffled foreign memory

---
 src/solver/improvement/local_search.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index 5085db1..5963f8c 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -80,7 +80,9 @@ impl LocalSearch {
                     num_vehicles,
                     ctx.problem.dim(),
                 ),
-                granularity: ctx.config.borrow().local_search_granularity as usize,
+                // The neighbor lists are shorter than the granularity for small problems
+                granularity: (ctx.config.borrow().local_search_granularity as usize)
+                    .min(ctx.matrix_provider.correlation.get(0).len()),
                 correlation: ctx.matrix_provider.correlation.clone(),
                 routes: routes,
                 move_count: 0,
@@ -160,7 +162,9 @@ impl LocalSearch {
                 let cor = &mut *{
                     self.correlation.top_slice_mut(*u_index, self.granularity) as *mut [usize]
                 };
-                if self.ctx.random.range_usize(0, self.granularity) == 0 {
+                if self.granularity > 0
+                    && self.ctx.random.range_usize(0, self.granularity) == 0
+                {
                     self.ctx
                         .random
                         .shuffle(self.correlation.top_slice_mut(*u_index, self.granularity));
-- 
2.43.0


From 85f5a9cdabffd7615bce36d032ebfed73a9de993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 04/23] fix: depot moves of the local search were tried on the
 customer instead of the depot

---
 src/solver/improvement/local_search.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index 5963f8c..1e75036 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -203,10 +203,10 @@ impl LocalSearch {
                         let v_pred = (*v).predecessor;
                         if (*v_pred).is_depot() {
                             for m in moves.depot.iter() {
-                                let delta = m.delta(&self, u, v);
+                                let delta = m.delta(&self, u, v_pred);
                                 if delta.approx_lt(0.0) {
                                     self.move_count += 1;
-                                    m.perform(self, u, v);
+                                    m.perform(self, u, v_pred);
                                     route_u = (*u).route;
                                     improvement = true;
                                     continue 'v_loop;
-- 
2.43.0


From 608e9930dd9aeb5c07e54afd0d46e226cdf68787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 05/23] fix: empty route moves were never tried with SWAP*
 switched off

---
 src/solver/improvement/local_search.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index 1e75036..2bb4d67 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -263,8 +263,8 @@ impl LocalSearch {
                         }
                     }
                 }
-                loop_count += 1;
             }
+            loop_count += 1;
         }
     }
 
-- 
2.43.0


From 25ae202f786823d342acc4757cf015fbc99996de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 06/23] fix: first R&R acceptance compared with the cost of the
 previously loaded solution

---
 src/solver/improvement/ruin_recreate/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 2368413..15e3770 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -176,9 +176,9 @@ impl RuinRecreate {
 
         // Load solution
         self.solution.load(individual);
-        self.current_solution = self.solution.clone();
         let routes: Vec<usize> = (0..self.solution.routes.len()).into_iter().collect();
         self.solution.evaluate(self.ctx, routes.iter());
+        self.current_solution = self.solution.clone();
         self.acceptance.reset();
         // self.acceptance.print();
 
-- 
2.43.0


From 5deda0119a98d1318c865e9065a4dbc4dd131fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 07/23] fix: resetting a time schedule kept its temperature and
 completion

---
 src/solver/improvement/ruin_recreate/schedule.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/improvement/ruin_recreate/schedule.rs b/src/solver/improvement/ruin_recreate/schedule.rs
index 8dbc737..8b03a5f 100644
--- a/src/solver/improvement/ruin_recreate/schedule.rs
+++ b/src/solver/improvement/ruin_recreate/schedule.rs
@@ -158,6 +158,8 @@ impl Acceptance for TimeSchedule {
         self.start = Instant::now();
         self.iterations = 0;
         self.iterations_since_update = 0;
+        self.temp = self.start_temp;
+        self.completed = false;
     }
 
     fn print(&self) {
-- 
2.43.0


From 7ff469781d70a187680406b59fbab89834c77cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 08/23] fix: crossover never ended on instances with one
 customer

---
 src/solver/genetic/genetic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index ddfd35c..e5ba479 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -72,7 +72,8 @@ impl GeneticAlgorithm {
         let mut end;
         loop {
             end = ctx.random.range_usize(0, parent_one.genotype.len());
-            if start != end {
+            // With a single customer there is no other end
+            if start != end || parent_one.genotype.len() == 1 {
                 break;
             }
         }
-- 
2.43.0


From 7ff8df8cae41719e1e0308b01bf251ee26e5e3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 09/23] fix: R&R depended on the process' hash keys in
 deterministic mode

---
 src/solver/improvement/ruin_recreate/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 15e3770..1dcf53b 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -40,7 +40,7 @@ impl RuinRecreateSolution {
         Self {
             routes,
             unassigned,
-            ruined_routes: HashSet::with_hasher(RandomState::new()),
+            ruined_routes: HashSet::with_hasher(ctx.random.random_state()),
             locations,
             cost: f64::INFINITY,
         }
-- 
2.43.0


From 5e4c6186ec052dcc417c7b39ecd9c556abd20da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 10/23] fix: best solution of the genetic algorithm missed the
 ones recorded by R&R

---
 src/solver/genetic/genetic.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index e5ba479..fd16e77 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -262,6 +262,25 @@ impl GeneticAlgorithm {
                 search_history.add(ctx, &self.child);
             }
         }
+        self.update_best_from_history(ctx);
+    }
+
+    // The R&R search records the improving solutions it passes by itself, and they are not
+    // necessarily the ones it returns
+    fn update_best_from_history(&mut self, ctx: &Context) {
+        let search_history = ctx.search_history.borrow();
+        if let Some(entry) = search_history.last_entry() {
+            let best_cost = self
+                .best_solution
+                .as_ref()
+                .map_or(f64::INFINITY, |best| best.penalized_cost());
+            if entry.solution.cost.approx_lt(best_cost) {
+                let mut best = Individual::new(entry.solution.routes.concat(), 0);
+                best.phenotype = entry.solution.routes.clone();
+                best.evaluate(ctx);
+                self.best_solution = Some(best);
+            }
+        }
     }
 
     fn reset(&mut self, ctx: &Context) {
@@ -323,6 +342,7 @@ impl Metaheuristic for GeneticAlgorithm {
             State::EliteEducation => {
                 if !self.rr.complete() {
                     self.rr.search();
+                    self.update_best_from_history(ctx);
                 } else {
                     self.state = State::Initialization;
                     self.rr.get_best_solution(&mut self.child);
-- 
2.43.0


From 3dfa1fb361876e4fe56baff4bc554b644e261983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 11/23] fix: decomposition printed debug output between the
 solutions on standard output

---
 src/solver/genetic/decomposition.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 78e886c..e763cdf 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -81,18 +81,18 @@ impl Metaheuristic for DecomposedGeneticAlgorithm {
                 // panic!("{:?}", self.global_solution);
                 // println!("{:?}", self.global_solution);
                 // self.global_solution.print();
-                println!(
+                log::debug!(
                     "Global before decomp: {}",
                     self.global_solution.penalized_cost()
                 );
                 let mut decomposition = Decomposition::new(&mut self.global_solution, ctx);
-                println!(
+                log::debug!(
                     "Sub solution before: {}",
                     decomposition.solution.penalized_cost()
                 );
                 decomposition.run();
                 decomposition.finish(ctx);
-                println!(
+                log::debug!(
                     "Global after before: {}",
                     self.global_solution.penalized_cost()
                 );
@@ -139,7 +139,7 @@ impl<'a> Decomposition<'a> {
         let sub_ctx = ctx.from_mapping(&mapping[..]);
         sub_solution.sort_routes(&sub_ctx);
         sub_solution.evaluate(&sub_ctx);
-        println!("Decomposed size: {}", sub_ctx.problem.dim());
+        log::debug!("Decomposed size: {}", sub_ctx.problem.dim());
         Self {
             global,
             mapping,
@@ -153,7 +153,7 @@ impl<'a> Decomposition<'a> {
             let mut config = self.ctx.config.borrow_mut();
             config.elite_education = false;
             config.max_iterations = Some(2000);
-            println!("{:?}", config);
+            log::debug!("{:?}", config);
         }
 
         let mut sub_ga = GeneticAlgorithm::new(&self.ctx);
-- 
2.43.0


From 1b58c6ee082f8773b2c53c82ee59ed8cfad1ee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 12/23] fix: decomposition panicked when the sub-problem had no
 feasible solution yet

---
 src/solver/genetic/decomposition.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index e763cdf..6787b24 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -163,7 +163,10 @@ impl<'a> Decomposition<'a> {
             sub_ga.iterate(&self.ctx);
         }
 
-        self.solution = sub_ga.best_solution.unwrap();
+        // Keep the current solution if no feasible one was found
+        if let Some(best_solution) = sub_ga.best_solution {
+            self.solution = best_solution;
+        }
     }
 
     pub fn finish(self, ctx: &Context) {
-- 
2.43.0


From 9f51db2feb0c0049ba0ee4f30656124e8bb735f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 13/23] fix: merging a sub-problem back changed the number of
 route slots

---
 src/solver/genetic/decomposition.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 6787b24..29105d4 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -137,6 +137,10 @@ impl<'a> Decomposition<'a> {
     pub fn new(global: &'a mut Individual, ctx: &Context) -> Self {
         let (mut sub_solution, mapping) = Self::decompose_global(&mut *global, ctx);
         let sub_ctx = ctx.from_mapping(&mapping[..]);
+        // The sub problem can only use the vehicles that the remaining routes leave over
+        let remaining_routes = global.num_nonempty_routes() as u64;
+        let num_vehicles = ctx.config.borrow().num_vehicles;
+        sub_ctx.config.borrow_mut().num_vehicles = num_vehicles - remaining_routes;
         sub_solution.sort_routes(&sub_ctx);
         sub_solution.evaluate(&sub_ctx);
         log::debug!("Decomposed size: {}", sub_ctx.problem.dim());
@@ -149,6 +153,10 @@ impl<'a> Decomposition<'a> {
     }
 
     pub fn run(&mut self) {
+        // No feasible solution fits within the vehicles that are left
+        if self.ctx.vehicle_lower_bound() > self.ctx.config.borrow().num_vehicles {
+            return;
+        }
         {
             let mut config = self.ctx.config.borrow_mut();
             config.elite_education = false;
@@ -170,6 +178,7 @@ impl<'a> Decomposition<'a> {
     }
 
     pub fn finish(self, ctx: &Context) {
+        self.global.phenotype.retain(|route| !route.is_empty());
         for route in self.solution.phenotype.iter() {
             let new_route: Vec<usize> = route
                 .iter()
@@ -179,6 +188,9 @@ impl<'a> Decomposition<'a> {
                 self.global.phenotype.push(new_route);
             }
         }
+        // One route per vehicle, used or not
+        let num_vehicles = ctx.config.borrow().num_vehicles as usize;
+        self.global.phenotype.resize(num_vehicles, Vec::new());
         self.global.genotype = self.global.phenotype.iter().flatten().copied().collect();
         self.global.sort_routes(ctx);
         self.global.evaluate(ctx);
-- 
2.43.0


From fdeeef31a074b9a65cb55a4810ebf59495302fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 14/23] fix: fleet limit too small for instances with large
 demands

---
 src/solver/context.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/solver/context.rs b/src/solver/context.rs
index f03c128..09a73a5 100644
--- a/src/solver/context.rs
+++ b/src/solver/context.rs
@@ -87,7 +87,24 @@ impl Context {
     fn initial_num_vehicles(&self) -> u64 {
         // Safety maring: 20% + 2 more than the bin packing lower bound
         let lower_bound = self.vehicle_lower_bound() as f64;
-        (1.2 as f64 * lower_bound + 2.0).ceil() as u64
+        let estimate = (1.2 as f64 * lower_bound + 2.0).ceil() as u64;
+        // Large demands may need more vehicles than that
+        estimate.max(self.num_vehicles_first_fit())
+    }
+
+    // Number of vehicles used when packing the demands with first fit decreasing
+    fn num_vehicles_first_fit(&self) -> u64 {
+        let capacity = self.problem.vehicle.cap;
+        let mut demands: Vec<f64> = self.problem.nodes[1..].iter().map(|n| n.demand).collect();
+        demands.sort_by(|a, b| b.partial_cmp(a).unwrap());
+        let mut loads: Vec<f64> = Vec::new();
+        for demand in demands {
+            match loads.iter_mut().find(|load| **load + demand <= capacity) {
+                Some(load) => *load += demand,
+                None => loads.push(demand),
+            }
+        }
+        loads.len() as u64
     }
 
     // Estimation of the initial penalty
-- 
2.43.0


From bfd44909c81ace912de7a90e8ab03e3aa7ff3c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 15/23] fix: instance files cut off inside a section were
 solved as another instance

---
 src/utils/parser.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/utils/parser.rs b/src/utils/parser.rs
index a75775b..7798a2f 100644
--- a/src/utils/parser.rs
+++ b/src/utils/parser.rs
@@ -154,7 +154,7 @@ impl ProblemParser {
     fn parse_coords(lines: &Lines, number: usize) -> Vec<Coordinate> {
         for (line_number, line) in lines.iter().enumerate() {
             if !line.is_empty() && line[0] == "NODE_COORD_SECTION" {
-                return lines
+                let coords: Vec<Coordinate> = lines
                     .iter()
                     .skip(line_number + 1)
                     .take(number)
@@ -163,6 +163,8 @@ impl ProblemParser {
                         lat: line[2].parse::<f64>().expect("Failed to parse coordinate"),
                     })
                     .collect();
+                assert_eq!(coords.len(), number, "NODE_COORD_SECTION is incomplete");
+                return coords;
             }
         }
         panic!("Could not find NODE_COORD_SECTION");
@@ -171,12 +173,14 @@ impl ProblemParser {
     fn parse_demands(lines: &Lines, number: usize) -> Vec<f64> {
         for (line_number, line) in lines.iter().enumerate() {
             if !line.is_empty() && line[0] == "DEMAND_SECTION" {
-                return lines
+                let demands: Vec<f64> = lines
                     .iter()
                     .skip(line_number + 1)
                     .take(number)
                     .map(|line| line[1].parse::<f64>().expect("Failed to parse demand"))
                     .collect();
+                assert_eq!(demands.len(), number, "DEMAND_SECTION is incomplete");
+                return demands;
             }
         }
         panic!("Could not find DEMAND_SECTION");
@@ -185,7 +189,7 @@ impl ProblemParser {
     fn parse_lower_row_matrix(lines: &Lines, number: usize) -> Vec<Vec<f64>> {
         for (line_number, line) in lines.iter().enumerate() {
             if !line.is_empty() && line[0] == "EDGE_WEIGHT_SECTION" {
-                return lines
+                let rows: Vec<Vec<f64>> = lines
                     .iter()
                     .skip(line_number + 1)
                     .take(number - 1)
@@ -195,6 +199,12 @@ impl ProblemParser {
                             .collect()
                     })
                     .collect();
+                assert!(
+                    rows.len() == number - 1
+                        && rows.iter().enumerate().all(|(i, row)| row.len() == i + 1),
+                    "EDGE_WEIGHT_SECTION is incomplete"
+                );
+                return rows;
             }
         }
         panic!("Could not find EDGE_WEIGHT_SECTION");
-- 
2.43.0


From e06d4b4ec9a0a21e968338ef031fda114d1ba489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 16/23] fix: command line options that were not given overrode
 the configuration file

---
 src/cli.rs    | 13 ++++++-------
 src/config.rs | 10 ++++++++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 3c47c90..8d6e574 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -6,7 +6,7 @@ pub struct Args {
     pub solution_path: Option<String>,
     pub time_limit: Option<u64>,
     pub max_iterations: Option<u64>,
-    pub rounded: bool,
+    pub rounded: Option<bool>,
 }
 
 impl Args {
@@ -25,8 +25,7 @@ impl Args {
                 Arg::with_name("solution_path")
                     .short("o")
                     .takes_value(true)
-                    .default_value("output.sol")
-                    .help("Path to solution output"),
+                    .help("Path to solution output [default: output.sol]"),
             )
             .arg(
                 Arg::with_name("iterations")
@@ -38,15 +37,13 @@ impl Args {
                 Arg::with_name("time_limit")
                     .short("t")
                     .takes_value(true)
-                    .default_value("10")
                     .help("Time limit in seconds"),
             )
             .arg(
                 Arg::with_name("rounded")
                     .short("r")
                     .takes_value(true)
-                    .default_value("true")
-                    .help("Rounded distances"),
+                    .help("Rounded distances: true or false"),
             )
             .get_matches();
 
@@ -65,7 +62,9 @@ impl Args {
             .value_of("time_limit")
             .map(|value| value.parse::<u64>().expect("Invalid time limit argument!"));
 
-        let rounded = matches.is_present("rounded");
+        let rounded = matches
+            .value_of("rounded")
+            .map(|value| value.parse::<bool>().expect("Invalid rounded argument!"));
 
         Self {
             instance_path,
diff --git a/src/config.rs b/src/config.rs
index b1a5ef6..1769ee5 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -213,13 +213,19 @@ impl Config {
     /// Update config with command line arguments
     pub fn update_from_args(&mut self, args: &Args) {
         self.instance_path = args.instance_path.clone();
-        self.solution_path = args.solution_path.clone();
+        if let Some(solution_path) = &args.solution_path {
+            self.solution_path = Some(solution_path.clone());
+        } else if self.solution_path.is_none() {
+            self.solution_path = Some(String::from("output.sol"));
+        }
         if let Some(max_iterations) = args.max_iterations {
             self.max_iterations_without_improvement = max_iterations;
         }
         if let Some(time_limit) = args.time_limit {
             self.time_limit = time_limit;
         }
-        self.round_distances = args.rounded;
+        if let Some(rounded) = args.rounded {
+            self.round_distances = rounded;
+        }
     }
 }
-- 
2.43.0


From e4711b6aa46c93cb1a6a37224779327eae68d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 17/23] fix: DIMACS script passed the rounding option without
 its value

---
 HGSRR-DIMACS.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HGSRR-DIMACS.sh b/HGSRR-DIMACS.sh
index 9f27d71..72a67e2 100755
--- a/HGSRR-DIMACS.sh
+++ b/HGSRR-DIMACS.sh
@@ -31,7 +31,7 @@ fi
 
 if [ $ROUNDED -eq 1 ]
 then
-    ./hybridcvrp $INSTANCE -t $TIME_LIMIT -r
+    ./hybridcvrp $INSTANCE -t $TIME_LIMIT -r true
 else
-    ./hybridcvrp $INSTANCE -t $TIME_LIMIT
+    ./hybridcvrp $INSTANCE -t $TIME_LIMIT -r false
 fi
-- 
2.43.0


From 71f09d640c5333d8b36e902d3d90104d9139f342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:15 +0000
Subject: [PATCH 18/23] fix: no diversity average over zero individuals

With num_diversity_closest set to 0 the average was 0/0 = NaN and sorting
the population by it panicked.
---
 src/solver/genetic/population.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/genetic/population.rs b/src/solver/genetic/population.rs
index 0cb4255..82fab9b 100644
--- a/src/solver/genetic/population.rs
+++ b/src/solver/genetic/population.rs
@@ -345,6 +345,10 @@ impl SubPopulation {
     fn average_broken_pairs_distance(&self, individual: &Individual, num: usize) -> f64 {
         // Check against the num_diversity_closest or the number of other individuals in the population
         let num_to_check = min(num, self.population.len() - 1);
+        // There is no average over zero individuals
+        if num_to_check == 0 {
+            return 0.0;
+        }
         // Total sum of the diversity
         let mut diversity_total = 0;
 
-- 
2.43.0


From ea87f63788ce2650122d1d62116e2be8c93b5684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:48 +0000
Subject: [PATCH 19/23] fix: keep using the context at its present place during
 elite education

The R&R search kept the address the context had when elite education was set
up. Moving the context between two iterations left it reading freed or foreign
memory.
---
 src/solver/genetic/genetic.rs               | 1 +
 src/solver/improvement/ruin_recreate/mod.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index fd16e77..b944859 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -340,6 +340,7 @@ impl Metaheuristic for GeneticAlgorithm {
                 }
             }
             State::EliteEducation => {
+                self.rr.set_context(ctx);
                 if !self.rr.complete() {
                     self.rr.search();
                     self.update_best_from_history(ctx);
diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 1dcf53b..40fce44 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -170,9 +170,14 @@ impl RuinRecreate {
         self.update_penalty = false;
     }
 
+    // To be called before continuing a search when the context may have moved in the meantime
+    pub fn set_context(&mut self, ctx: &Context) {
+        self.ctx = unsafe { &*(ctx as *const Context) };
+    }
+
     pub fn load(&mut self, ctx: &Context, individual: &mut Individual) {
         // Update data
-        self.ctx = unsafe { &*(ctx as *const Context) };
+        self.set_context(ctx);
 
         // Load solution
         self.solution.load(individual);
-- 
2.43.0


From 7893822e760f87878014e52562099c8fad1bc90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:23 +0000
Subject: [PATCH 20/23] fix: reading a directory or a failing file never ended

Lines that could not be read were skipped one by one, so an error that
persists, as reading a directory does, kept the program reading for ever,
and after a passing error it went on with part of the file. Lines that are
no valid text are still ignored.
---
 src/utils/parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/utils/parser.rs b/src/utils/parser.rs
index 7798a2f..9dff4c8 100644
--- a/src/utils/parser.rs
+++ b/src/utils/parser.rs
@@ -1,5 +1,5 @@
 use std::fs::File;
-use std::io::{BufRead, BufReader};
+use std::io::{BufRead, BufReader, ErrorKind};
 use std::path::Path;
 use std::str::FromStr;
 
@@ -88,7 +88,15 @@ impl ProblemParser {
     fn read_file(path: &Path) -> Lines {
         let file = File::open(path).expect("Failed to open file");
         let reader = BufReader::new(file);
-        let line_strings: Vec<String> = reader.lines().filter_map(|line| line.ok()).collect();
+        let line_strings: Vec<String> = reader
+            .lines()
+            .filter_map(|line| match line {
+                Ok(line) => Some(line),
+                // Lines that are no valid text are ignored
+                Err(error) if error.kind() == ErrorKind::InvalidData => None,
+                Err(error) => panic!("Failed to read file: {}", error),
+            })
+            .collect();
 
         line_strings
             .iter()
-- 
2.43.0


From c5637de3d02ed125c9938646f31348c7ebc20567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:19 +0000
Subject: [PATCH 21/23] fix: start a cut from a customer, never from the depot

The seed was drawn from 0..number of customers, so the depot was taken
for a customer and the last customer was never a seed.
---
 src/solver/genetic/decomposition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 29105d4..715b3fe 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -203,7 +203,7 @@ impl<'a> Decomposition<'a> {
                 route_for_customer[customer] = route_number;
             }
         }
-        let seed_customer = ctx.random.range_usize(0, global.genotype.len());
+        let seed_customer = ctx.random.range_usize(1, ctx.problem.dim());
 
         let mut selected_customers: HashSet<usize, RandomState> =
             HashSet::with_capacity_and_hasher(200, ctx.random.random_state());
-- 
2.43.0


From cce5c16b1f3499a06ef039f1720bed506b671f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:19 +0000
Subject: [PATCH 22/23] fix: no zero-sized allocation for an empty matrix

---
 src/models/matrix.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/models/matrix.rs b/src/models/matrix.rs
index 0a0e797..ca5381a 100644
--- a/src/models/matrix.rs
+++ b/src/models/matrix.rs
@@ -1,6 +1,7 @@
 use std::{
     alloc::{alloc_zeroed, dealloc, Layout},
     fmt::Display,
+    ptr::NonNull,
 };
 
 use lazysort::SortedBy;
@@ -26,9 +27,11 @@ impl<T: Copy> Matrix<T> {
         // Allocate memory for the matrix
         let elements = rows * cols;
         let layout = Layout::array::<T>(elements).expect("Failed to create layout for matrix");
-        let ptr = unsafe {
-            let ptr = alloc_zeroed(layout) as *mut T;
-            ptr
+        let ptr = if layout.size() == 0 {
+            // Nothing may be asked of the allocator for an empty matrix
+            NonNull::dangling().as_ptr()
+        } else {
+            unsafe { alloc_zeroed(layout) as *mut T }
         };
 
         Self { rows, cols, ptr }
@@ -123,7 +126,9 @@ where
     fn drop(&mut self) {
         let layout =
             Layout::array::<T>(self.rows * self.cols).expect("Failed to create layout for matrix");
-        unsafe { dealloc(self.ptr as *mut u8, layout) };
+        if layout.size() != 0 {
+            unsafe { dealloc(self.ptr as *mut u8, layout) };
+        }
     }
 }
 
-- 
2.43.0


From 5057ff249f29eb3b9db973ef03dcf8d3beb59657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:59 +0000
Subject: [PATCH 23/23] fix: rounding errors of ruin and recreate steps no
 longer add up

---
 src/solver/improvement/ruin_recreate/mod.rs  | 14 +++++---------
 src/solver/improvement/ruin_recreate/node.rs | 15 +++++++++++++++
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 40fce44..0a528b7 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -92,19 +92,15 @@ impl RuinRecreateSolution {
     where
         I: Iterator<Item = &'a usize>,
     {
-        let penalty_capacity = ctx.config.borrow().penalty_capacity;
-        self.cost = self
-            .routes
-            .iter()
-            .map(|route| route.distance + 0f64.max(route.overload) * penalty_capacity)
-            .sum();
-
         for &route_index in updated_routes {
-            for node_index in 0..self.routes[route_index].nodes.len() {
-                let node = self.routes[route_index].nodes[node_index];
+            let route = &mut self.routes[route_index];
+            // Rounding errors of the updates during the search must not add up
+            route.recalculate(ctx);
+            for (node_index, &node) in route.nodes.iter().enumerate() {
                 self.locations[node].update(route_index, node_index);
             }
         }
+        self.reevaluate(ctx);
     }
 
     pub fn reevaluate(&mut self, ctx: &Context) {
diff --git a/src/solver/improvement/ruin_recreate/node.rs b/src/solver/improvement/ruin_recreate/node.rs
index c238d8e..6d51964 100644
--- a/src/solver/improvement/ruin_recreate/node.rs
+++ b/src/solver/improvement/ruin_recreate/node.rs
@@ -102,6 +102,21 @@ impl Route {
         self.nodes.insert(index, node);
     }
 
+    // Calculate the distance and overload from scratch
+    pub fn recalculate(&mut self, ctx: &Context) {
+        self.distance = 0.0;
+        self.overload = -ctx.problem.vehicle.cap;
+        let mut prev_node = 0;
+        for &node in self.nodes.iter() {
+            self.distance += ctx.matrix_provider.distance.get(prev_node, node);
+            self.overload += ctx.problem.nodes[node].demand;
+            prev_node = node;
+        }
+        if prev_node != 0 {
+            self.distance += ctx.matrix_provider.distance.get(prev_node, 0);
+        }
+    }
+
     pub fn update_from_other(&mut self, other: &Self) {
         self.distance = other.distance;
         self.overload = other.overload;
-- 
2.43.0

