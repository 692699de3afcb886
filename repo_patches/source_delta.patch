From 42c15c5709a78d7fac64120c17bd501f9d7c3069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 1/6] fix: keep the offspring when exactly one individual is
 missing

generate_new_population bred the last missing individual and dropped it,
so such generations came out one individual short.
---
 src/algorithms.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index bea0880..a25ecdd 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -219,8 +219,10 @@ pub trait EvolutionAlgorithm<M: EvolutionModel> {
             0 => {}
             1 => {
                 let mut rng = rng_pool.pull(M::rng);
-                self.model()
-                    .breed(population, breeding_parameters, &mut *rng);
+                offspring.push(
+                    self.model()
+                        .breed(population, breeding_parameters, &mut *rng),
+                );
             }
             size => {
                 offspring.par_extend(rayon::iter::repeatn(self.model(), size).map_init(
-- 
2.43.0


From ef82748a1642e5a9bbaeaaa44556ca9f84cd2383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 2/6] fix: order crossover with an empty range

An empty range left the whole offspring filled with the first gene of
parent1, or never terminated when the range was n..n.
---
 src/operators/crossover.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index ef05a53..8244f96 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -497,6 +497,11 @@ where
     // Copy the genes from the range in parent1 to the offspring
     genome[p1..p2].copy_from_slice(&parent1[p1..p2]);
 
+    // With an empty range there is nothing to keep from parent1
+    if p1 == p2 {
+        return parent2.to_vec();
+    }
+
     // Fill the remaining gaps in the offspring with genes from parent2 while preserving
     // the relative order of genes from parent1
     let mut index1 = if p2 != n { p2 } else { 0 };
-- 
2.43.0


From b3fb72f96e9162f0038952bdba982344b3a32b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 3/6] fix: undefined diversity in the adaptive genetic
 algorithm

When all fitness scores of the initial population are the same, the
diversity could become 0/0 and both rates NaN, which disabled crossover
and mutation for good.
---
 src/algorithms/aga.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/aga.rs b/src/algorithms/aga.rs
index 17464f7..b0b134f 100644
--- a/src/algorithms/aga.rs
+++ b/src/algorithms/aga.rs
@@ -203,7 +203,12 @@ impl<M: EvolutionModel> EvolutionAlgorithm<M> for AdaptiveGeneticAlgorithm<M> {
                 self.breeding.mutation_rate = self.mutation_rate_range.start;
             }
             n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {
-                let diversity = (population.stats().std() / self.reference_std).clamp(0.0, 1.0);
+                let diversity = population.stats().std() / self.reference_std;
+                let diversity = if diversity.is_nan() {
+                    0.0 // The fitness scores of the reference population were all the same
+                } else {
+                    diversity.clamp(0.0, 1.0)
+                };
 
                 self.breeding.crossover_rate = interpolate_f64(
                     self.crossover_rate_range.start,
-- 
2.43.0


From 524acf43e6987b39f1434cb32334c7b30bae7b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 4/6] fix: index underflow in linear selection

For some bias values (for example close to 1) the computed offset can be
as large as the population, or larger, and the subtraction underflowed.
---
 src/operators/selection.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/operators/selection.rs b/src/operators/selection.rs
index abdaa27..eebcd24 100644
--- a/src/operators/selection.rs
+++ b/src/operators/selection.rs
@@ -464,14 +464,12 @@ where
 
     #[inline]
     fn select<'a>(&self, population: &'a Population<I>, rng: &mut R) -> (usize, &'a I) {
-        let index = population.len()
-            - ((population.len() as f64)
-                * (self.bias
-                    - ((self.bias * self.bias - 4.0 * (self.bias - 1.0) * rng.gen::<f64>())
-                        .sqrt()))
-                / 2.0
-                / (self.bias - 1.0)) as usize
-            - 1;
+        let offset = ((population.len() as f64)
+            * (self.bias
+                - ((self.bias * self.bias - 4.0 * (self.bias - 1.0) * rng.gen::<f64>()).sqrt()))
+            / 2.0
+            / (self.bias - 1.0)) as usize;
+        let index = population.len() - 1 - offset.min(population.len() - 1);
         (index, &population[index])
     }
 }
-- 
2.43.0


From e3c0b540acf0c509b2d27895883110633dec6745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 5/6] fix: reject parents of different lengths in every
 crossover strategy

The documentation promises a panic, but GPX2 silently accepted them.
---
 src/operators/crossover.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index 8244f96..ec9e368 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -71,6 +71,8 @@ impl CrossoverStrategy {
         parent2: &[G],
         rng: &mut R,
     ) -> Vec<G> {
+        assert!(parent1.len() == parent2.len());
+
         match self {
             Self::GeneralizedPartition2 => {
                 generalized_partition_2_crossover(parent1, parent2, |_, partitions| {
-- 
2.43.0


From aa64cfd0708ce0a906cfc77d3c4dc55f12303fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 6/6] fix: crossover strategies panicked on empty genomes

Choosing a pivot, range or point from an empty genome panicked although
the offspring of two empty genomes is an empty genome.
---
 src/operators/crossover.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index ec9e368..e308757 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -73,6 +73,10 @@ impl CrossoverStrategy {
     ) -> Vec<G> {
         assert!(parent1.len() == parent2.len());
 
+        if parent1.is_empty() {
+            return Vec::new();
+        }
+
         match self {
             Self::GeneralizedPartition2 => {
                 generalized_partition_2_crossover(parent1, parent2, |_, partitions| {
-- 
2.43.0

