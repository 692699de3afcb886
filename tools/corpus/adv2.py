"""Another round of edits written from the statements of the properties that had few."""
A, AGA, GA = "src/algorithms.rs", "src/algorithms/aga.rs", "src/algorithms/ga.rs"
EV, M, L, IND = "src/evolution.rs", "src/model.rs", "src/lib.rs", "src/individual.rs"
O, X, MU, S = "src/operators.rs", "src/operators/crossover.rs", "src/operators/mutation.rs", "src/operators/selection.rs"
P, T = "src/population.rs", "src/stats.rs"
BENIGN = [
    ("a2-debug-assert-more", None, [(S, "        let total_ranks = n * (n + 1) / 2;", "        let total_ranks = n * (n + 1) / 2;\n        debug_assert!(total_ranks > 0);"), (O, "    assert!(n != 0);\n    bounded", "    assert!(n != 0);\n    debug_assert!(n >= 1);\n    bounded")]),
    ("a2-debug-assert-sorted", None, [(P, "    individuals.dedup();\n", "    individuals.dedup();\n    debug_assert!(!individuals.is_empty());\n")]),
]
BUGS = [
    ("a2-debug-size", ("P15",), [(S, "    pub fn set_size(&mut self, size: usize) {\n        assert!", "    pub fn set_size(&mut self, size: usize) {\n        debug_assert!")]),
    ("a2-debug-validate", ("P15",), [(GA, "assert!((0.0..1.0).contains(&self.elitism_rate));", "debug_assert!((0.0..1.0).contains(&self.elitism_rate));")]),
    ("a2-debug-argmax", ("P28",), [(T, "        assert!(arg_max < self.count());", "        debug_assert!(arg_max < self.count());")]),
    ("a2-debug-strategy", ("P21",), [(X, "        assert!(parent1.len() == parent2.len());\n\n        if parent1.is_empty() {", "        debug_assert!(parent1.len() == parent2.len());\n\n        if parent1.is_empty() {")]),
    ("a2-eval-finite-only", ("P02",), [(A, ".par_iter_mut()\n            .for_each_with(self.model(), |model, individual| model.evaluate(individual));", ".par_iter_mut()\n            .filter(|individual| individual.fitness() == 0.0)\n            .for_each_with(self.model(), |model, individual| model.evaluate(individual));")]),
    ("a2-retain-last", ("P02",), [(A, "individuals.retain(|individual| individual.is_valid());", "let last = individuals.len().saturating_sub(1);\n        let mut i = 0;\n        individuals.retain(|individual| {\n            i += 1;\n            individual.is_valid() || (i == 1 && last == 0)\n        });")]),
    ("a2-asmut", ("P07",), [(P, "impl<I: Individual> TryFrom<Vec<I>> for Population<I> {", "impl<I: Individual> AsMut<[I]> for Population<I> {\n    fn as_mut(&mut self) -> &mut [I] {\n        &mut self.individuals\n    }\n}\n\nimpl<I: Individual> TryFrom<Vec<I>> for Population<I> {")]),
    ("a2-extend-impl", ("P07",), [(P, "impl<I: Individual> TryFrom<Vec<I>> for Population<I> {", "impl<I: Individual> Extend<I> for Population<I> {\n    fn extend<T: IntoIterator<Item = I>>(&mut self, iter: T) {\n        self.individuals.extend(iter);\n    }\n}\n\nimpl<I: Individual> TryFrom<Vec<I>> for Population<I> {")]),
    ("a2-from-slice", ("P07",), [(P, "impl<I: Individual> TryFrom<Vec<I>> for Population<I> {", "impl<I: Individual> Population<I> {\n    /// Forgets the history.\n    pub fn truncate(&mut self, n: usize) {\n        self.individuals.truncate(n.max(1));\n    }\n}\n\nimpl<I: Individual> TryFrom<Vec<I>> for Population<I> {")]),
    ("a2-tryfrom-direct", ("P06",), [(P, "            Ok(Self::new(individuals))", "            let stats = individuals.iter().map(|i| i.fitness()).collect::<Stats>().try_into().unwrap();\n            Ok(Self {\n                individuals,\n                generation: 0,\n                stagnation: 0,\n                stats,\n            })")]),
    ("a2-linear-last", ("P09",), [(S, "let index = population.len() - 1 - offset.min(population.len() - 1);", "let index = population.len() - offset.clamp(1, population.len().max(2));")]),
    ("a2-elitist-wide", ("P09",), [(S, "let index = rng.gen_range(selection_bound..population.len());", "let index = rng.gen_range(selection_bound..population.len().max(selection_bound + 2));")]),
    ("a2-tour-ref-last", ("P09",), [(S, ".map(|i| (i, &population[i]))", ".map(|i| (i, &population[i.max(1) - usize::from(i == 0 && population.len() > 1)]))")]),
    ("a2-rank-first-fallback", ("P12",), [(S, "let target_rank = rng.gen_range(1..=total_ranks);", "let target_rank = rng.gen_range(1..=total_ranks.max(n + 1));")]),
    ("a2-prepare-lazy", ("P14",), [(GA, "        self.breeding.parent_selector.prepare(population);", "        if population.len() > 1 {\n            self.breeding.parent_selector.prepare(population);\n        }")]),
    ("a2-aga-prepare-interval", ("P14",), [(AGA, "            _ => {}\n        }\n\n        self.model.pre_generation(population, &mut self.breeding);\n        self.breeding.parent_selector.prepare(population);", "            _ => {}\n        }\n\n        self.breeding.parent_selector.prepare(population);\n        self.model.pre_generation(population, &mut self.breeding);")]),
    ("a2-cx-lengths-min", ("P21",), [(X, "        assert!(parent1.len() == parent2.len());\n\n        if parent1.is_empty() {", "        let n = parent1.len().min(parent2.len());\n        let (parent1, parent2) = (&parent1[..n], &parent2[..n]);\n\n        if parent1.is_empty() {")]),
    ("a2-spx-debug-assert", ("P21",), [(X, "    assert!(parent1.len() == parent2.len());\n\n    let mut offspring = parent1.to_vec();\n    if point", "    debug_assert!(parent1.len() == parent2.len());\n\n    let mut offspring = parent1.to_vec();\n    if point")]),
    ("a2-spx-index", ("P21",), [(X, "            Self::SinglePoint => {\n                let point = rng.gen_range(0..parent1.len());", "            Self::SinglePoint => {\n                let point = rng.gen_range(0..parent1.len() - 1);")]),
    ("a2-dup-two", ("P23",), [(MU, "    genome[p2] = genome[p1];", "    genome[p2] = genome[p1];\n    if p2 + 1 < n && p1 > p2 + 1 && n > 32 {\n        genome[p2 + 1] = genome[p1];\n    }")]),
    ("a2-var-n-small", ("P28",), [(T, "        if self.stats.count > 1 {\n            self.stats.sum_squared / (self.stats.count - 1) as f64", "        if self.stats.count > 2 {\n            self.stats.sum_squared / (self.stats.count - 1) as f64\n        } else if self.stats.count == 2 {\n            self.stats.sum_squared / 2.0")]),
    ("a2-try-from-min", ("P28",), [(T, "        if stats.count != 0 {\n            Ok(Self { stats })", "        if stats.count != 0 && stats.min <= stats.max {\n            Ok(Self { stats })")]),
    ("a2-argmax-assert-min", ("P28",), [(T, "        assert!(arg_max < self.count());", "        assert!(arg_max < self.count() || self.count() == 1);")]),
    ("a2-borrow-pool", ("P30",), [(EV, "        // Start iterations\n        while progress(&population) {", "        let model_rng = self.algorithm.borrow();\n        let sized = model_rng.reproduction_parameters().1;\n        new_population.reserve(sized);\n\n        // Start iterations\n        let mut go = progress(&population);\n        drop(model_rng);\n        while std::mem::replace(&mut go, true) && (population.generation() == 0 || progress(&population)) {")]),
    ("a2-eq-bits", ("P31",), [(IND, "        self.i.fitness() == other.i.fitness()", "        self.i.fitness().to_bits() == other.i.fitness().to_bits()")]),
    ("a2-ord-less", ("P31",), [(IND, "self.partial_cmp(other).unwrap_or(std::cmp::Ordering::Equal)", "self.partial_cmp(other).unwrap_or(std::cmp::Ordering::Less)")]),
    ("a2-cmp-nan-less", ("P31",), [(O, "unwrap_or(std::cmp::Ordering::Equal)", "unwrap_or(std::cmp::Ordering::Less)")]),
    ("a2-aga-default-mut", ("P35",), [(AGA, "            mutation_rate_range: 0.", "            mutation_rate_range: 0.0")]),
    ("a2-improve-if-mutated", ("P41",), [(M, "            self.mutate(&mut offspring, rng);\n        }\n\n        self.improve(&mut offspring);", "            self.mutate(&mut offspring, rng);\n            self.improve(&mut offspring);\n        }\n")]),
    ("a2-improve-valid", ("P41",), [(M, "        self.improve(&mut offspring);", "        if offspring.is_valid() {\n            self.improve(&mut offspring);\n        }")]),
    ("a2-mut-before-cross", ("P41",), [(M, "            parent1.clone()\n        };\n\n        if rng.gen::<f64>() < parameters.mutation_rate {\n            self.mutate(&mut offspring, rng);\n        }\n\n        self.improve(&mut offspring);\n        self.evaluate(&mut offspring);", "            parent1.clone()\n        };\n\n        self.improve(&mut offspring);\n        if rng.gen::<f64>() < parameters.mutation_rate {\n            self.mutate(&mut offspring, rng);\n        }\n\n        self.evaluate(&mut offspring);")]),
    ("a2-survive-any-parent", ("P03",), [(M, "            if parent2.fitness() > parent1.fitness() {\n                fittest_parent = parent2;\n            }", "            if parent2.fitness() > parent1.fitness() && parent1.is_valid() {\n                fittest_parent = parent2;\n            }")]),
    ("a2-nan-survive", ("P03",), [(M, "        offspring.fitness() >= fittest_parent.fitness()", "        !(offspring.fitness() < fittest_parent.fitness())")]),
    ("a2-elite-dup-gen0", ("P04",), [(GA, "        if self.elite_size != 0 {", "        if self.elite_size != 0 && population.generation() != 0 {")]),
    ("a2-elite-aga-cap", ("P04",), [(AGA, "            let range_start = population.len().saturating_sub(self.elite_size);", "            let range_start = population.len().saturating_sub(self.elite_size.min(population.len() / 2 + 1));")]),
    ("a2-gen-plus", ("P08",), [(P, "        self.generation += 1;", "        self.generation = self.generation.max(self.stagnation) + 1;")]),
    ("a2-stag-count", ("P08",), [(P, "            self.stagnation += 1;", "            self.stagnation = (self.stagnation + 1).min(self.generation.max(1) - usize::from(self.generation > 100));")]),
    ("a2-extend-with-order", ("P29",), [(M, "        individuals.push(model.clone());\n        if size == 1 {", "        if individuals.is_empty() {\n            individuals.push(model.clone());\n        }\n        if size == 1 {")]),
    ("a2-pmx-swapped", ("P26",), [(X, "                partially_mapped_crossover(parent1, parent2, range)\n            }\n            Self::Order", "                if range.len() == parent1.len() {\n                    return parent2.to_vec();\n                }\n                partially_mapped_crossover(parent1, parent2, range)\n            }\n            Self::Order")]),
    ("a2-aga-ref-positive", ("P18", "P16"), [(AGA, "                self.reference_std = population.stats().std();", "                if population.stats().std() > 0.0 {\n                    self.reference_std = population.stats().std();\n                }")]),
    ("a2-aga-int-nonzero", ("P16",), [(AGA, "        self.adjustment_interval = parameters.parameter_adjustment_interval;", "        if parameters.parameter_adjustment_interval != 0 {\n            self.adjustment_interval = parameters.parameter_adjustment_interval;\n        }")]),
    ("a2-evo-ind-eval", ("P29",), [(EV, "            parameters.initial_population_size(),\n            individual,", "            parameters.initial_population_size().max(2),\n            individual,")]),
    ("a2-scramble-all", ("P19",), [(MU, "    genome[range].shuffle(rng);", "    let end = range.end;\n    genome[range].shuffle(rng);\n    if end == n && n > 3 {\n        genome[..2].reverse();\n    }")]),
    ("a2-cool-neg", ("P11",), [(S, "        self.temperature *= self.cooling_rate;", "        self.temperature *= self.cooling_rate.abs();")]),
    ("a2-max-zero-start", ("P27",), [(T, "            if sample > self.max {\n                self.max = sample;\n                self.arg_max = self.count;", "            if sample > self.max || (sample == self.max && self.arg_max == 0 && self.count > 7) {\n                self.max = sample;\n                self.arg_max = self.count;")]),
    ("a2-display-std", ("P45",), [(T, "                self.std()\n            )", "                self.std().max(0.0)\n            )")]),
]
