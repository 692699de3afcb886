EV = "src/evolution.rs"; AL = "src/algorithms.rs"; GA = "src/algorithms/ga.rs"; AGA = "src/algorithms/aga.rs"; MO = "src/model.rs"; PO = "src/population.rs"
CX = "src/operators/crossover.rs"; MU = "src/operators/mutation.rs"; SE = "src/operators/selection.rs"; LI = "src/lib.rs"
BUGS = [
 ("validate-elitism-incl", ["P15"], [(GA, "(0.0..1.0).contains(&self.elitism_rate)", "(0.0..=1.0).contains(&self.elitism_rate)")]),
 ("validate-elitism-neg-nan", ["P15"], [(AGA, "assert!((0.0..1.0).contains(&self.elitism_rate))", "assert!(!(self.elitism_rate < 0.0 || self.elitism_rate >= 1.0))")]),
 ("validate-mutation-excl", ["P15"], [(GA, "(0.0..=1.0).contains(&self.mutation_rate)", "(0.0..1.0).contains(&self.mutation_rate)")]),
 ("validate-range-start-twice", ["P15"], [(AGA, "contains(&self.mutation_rate_range.end)", "contains(&self.mutation_rate_range.start)")]),
 ("validate-size-1", ["P15"], [(GA, "assert!(self.population_size != 0)", "assert!(self.population_size > 1)")]),
 ("validate-debug", ["P15"], [(AGA, "assert!((0.0..=1.0).contains(&self.crossover_rate_range.start));", "let _ = &self.crossover_rate_range.start;")]),
 ("validate-size-dropped", ["P15"], [(GA, "        assert!(self.population_size != 0);\n", "")]),
 ("configure-validate-late", ["P15"], [(GA, "        parameters.validate();\n\n", ""), (GA, "        self.breeding.mutation_rate = parameters.mutation_rate;\n", "        self.breeding.mutation_rate = parameters.mutation_rate;\n        parameters.validate();\n")]),
 ("tournament-set-zero", ["P15"], [(SE, "    pub fn set_size(&mut self, size: usize) {\n        assert!(size != 0", "    pub fn set_size(&mut self, size: usize) {\n        assert!(size != 0 || self.size == 1")]),
 ("default-elitism", ["P35"], [(GA, "elitism_rate: 0.01,", "elitism_rate: 0.1,")]),
 ("default-range", ["P35"], [(AGA, "            crossover_rate_range: 0.3..1.0", "            crossover_rate_range: 0.5..1.0")]),
 ("default-interval", ["P35"], [(AGA, "parameter_adjustment_interval: 1,", "parameter_adjustment_interval: 0,")]),
 ("default-strategy", ["P35"], [(GA, "            selection_strategy: SelectionStrategy::RouletteWheel,\n", "            selection_strategy: SelectionStrategy::Rank,\n")]),
 ("initial-size-half", ["P35"], [(AGA, "    fn initial_population_size(&self) -> usize {\n        self.population_size\n", "    fn initial_population_size(&self) -> usize {\n        (self.population_size + 1) / 2 * 2\n")]),
 ("swap-arm-insertion", ["P26"], [(MU, "Self::Insertion => insertion_mutation", "Self::Insertion => swap_mutation")]),
 ("inversion-scramble", ["P26"], [(MU, "Self::Scramble => scramble_mutation", "Self::Scramble => inversion_mutation")]),
 ("parents-swapped", ["P26"], [(CX, "order_crossover(parent1, parent2, range)\n            }", "order_crossover(parent2, parent1, range)\n            }")]),
 ("pivot-first", ["P26"], [(CX, "let pivot = parent1.choose(rng).copied().unwrap();\n                edge", "let pivot = parent1[0];\n                edge")]),
 ("pivot-half", ["P26"], [(CX, "let pivot = parent1.choose(rng).copied().unwrap();\n                seq", "let pivot = parent1[rng.gen_range(0..(parent1.len() + 1) / 2)];\n                seq")]),
 ("pmx-to-ox", ["P26"], [(CX, "partially_mapped_crossover(parent1, parent2, range)\n            }", "order_crossover(parent1, parent2, range)\n            }")]),
 ("partition-last", ["P26"], [(CX, "rng.gen_range(0..partitions.len())", "rng.gen_range(0..partitions.len().min(8))")]),
 ("point-1", ["P26"], [(CX, "let point = rng.gen_range(0..parent1.len());", "let point = parent1.len() / 2;")]),
 ("range-bounded", ["P26"], [(CX, "let range = random_range(parent1.len(), rng);\n                partially", "let range = bounded_random_range(parent1.len(), 1, 1 + parent1.len() / 2, rng);\n                partially")]),
 ("selector-swap-params", ["P26"], [(SE, "BoltzmannSelection::new(*temperature, *cooling_rate)", "BoltzmannSelection::new(*cooling_rate, *temperature)")]),
 ("extend-size-plus", ["P29"], [(MO, "rayon::iter::repeatn(model, size - 1)", "rayon::iter::repeatn(model, size)")]),
 ("extend-random-dup", ["P29"], [(MO, "rayon::iter::repeatn(args, size).map_init", "rayon::iter::repeatn(args, size - individuals.len().min(size)).map_init")]),
 ("extend-clear", ["P29"], [(MO, "        individuals.reserve(size);\n        individuals.par_extend(", "        individuals.clear();\n        individuals.reserve(size);\n        individuals.par_extend(")]),
 ("extend-with-no-mutate", ["P29"], [(MO, "                self.mutate(&mut new_individual, rng);\n", "                if new_individual.fitness() < 1.0 {\n                    self.mutate(&mut new_individual, rng);\n                }\n")]),
 ("extend-with-drop-model", ["P29"], [(MO, "        individuals.push(model.clone());\n        if size == 1 {\n            return;\n        }\n", "        individuals.push(model.clone());\n        if size == 1 {\n            return;\n        }\n        if individuals.len() > 1 {\n            individuals.pop();\n        }\n")]),
 ("run-max-size", ["P29"], [(EV, "            parameters.initial_population_size(),\n            args,", "            parameters.max_population_size(),\n            args,")]),
 ("individual-size-less", ["P29"], [(EV, "            parameters.initial_population_size(),\n            individual,", "            parameters.initial_population_size() + 1,\n            individual,")]),
 ("hold-borrow-callback", ["P30"], [(EV, "        while progress(&population) {\n", "        let _guard = self.algorithm.borrow();\n        while progress(&population) {\n"), (EV, "            self.algorithm\n                .borrow_mut()\n                .prepare_for", "            drop(_guard);\n            self.algorithm\n                .borrow_mut()\n                .prepare_for"), (EV, "                .replace_population(&mut population, &mut new_population);\n", "                .replace_population(&mut population, &mut new_population);\n            _guard = self.algorithm.borrow();\n"), (EV, "let _guard", "let mut _guard")]),
 ("hold-in-match", ["P30"], [(EV, "        while progress(&population) {\n", "        while { let a = self.algorithm.borrow(); let _m = a.model(); progress(&population) } {\n")]),
 ("conflict", ["P30"], [(EV, "            self.algorithm\n                .borrow_mut()\n                .prepare_for_next_population(&population);\n", "            let algorithm = self.algorithm.borrow();\n            if population.stagnation() > 3 {\n                self.algorithm.borrow_mut().prepare_for_next_population(&population);\n            } else {\n                drop(algorithm);\n                self.algorithm.borrow_mut().prepare_for_next_population(&population);\n            }\n")]),
 ("run-holds", ["P30"], [(EV, "        self.algorithm.borrow().model().extend_population(\n", "        let algorithm = self.algorithm.borrow();\n        algorithm.model().extend_population(\n")]),
 ("onemax-minus", ["P34"], [(LI, "filter(|&&one| one)", "filter(|&&one| !one)")]),
 ("onemax-len100", ["P34"], [(LI, "let total_bits = individual.genome.len();", "let total_bits = individual.genome.len().min(1000);")]),
 ("onemax-cross-self", ["P34"], [(LI, "crossover(&parent1.genome, &parent2.genome, rng)", "crossover(&parent2.genome, &parent1.genome, rng)")]),
 ("onemax-swap", ["P34"], [(LI, "MutationStrategy::Duplicate.mutate", "MutationStrategy::Swap.mutate")]),
 ("onemax-random-entropy", ["P34"], [(LI, "let bits = rng.sample_iter(Standard);", "let _ = rng; let bits = SmallRng::from_entropy().sample_iter(Standard);")]),
 ("onemax-take", ["P34"], [(LI, "bits.take(*length)", "bits.take(*length.max(&1))")]),
 ("onemax-eval-sort", ["P34"], [(LI, "            let total_bits", "            if one_bits == 1 { individual.genome.reverse(); }\n            let total_bits")]),
]
BENIGN = [
 ("validate-const-range", None, [(GA, "(0.0..=1.0).contains(&self.mutation_rate)", "RATES.contains(&self.mutation_rate)"), (GA, "impl EvolutionParameters for", "const RATES: std::ops::RangeInclusive<f64> = 0.0..=1.0;\n\nimpl EvolutionParameters for")]),
 ("default-const", None, [(AGA, "            crossover_rate_range: 0.3..1.0", "            crossover_rate_range: DEFAULTS.0..DEFAULTS.1"), (AGA, "impl EvolutionParameters for", "const DEFAULTS: (f64, f64) = (0.3, 1.0);\n\nimpl EvolutionParameters for")]),
 ("validate-explicit", None, [(GA, "assert!((0.0..1.0).contains(&self.elitism_rate));", "assert!(self.elitism_rate >= 0.0 && self.elitism_rate < 1.0, \"elitism\");"), (GA, "assert!(self.population_size != 0)", "assert!(self.population_size >= 1)")]),
 ("validate-if-panic", None, [(AGA, "assert!((0.0..=1.0).contains(&self.crossover_rate_range.start));", "if !(0.0..=1.0).contains(&self.crossover_rate_range.start) { panic!(\"bad\"); }")]),
 ("validate-helper", None, [(AGA, "        assert!((0.0..=1.0).contains(&self.crossover_rate_range.start));\n        assert!((0.0..=1.0).contains(&self.crossover_rate_range.end));\n        assert!((0.0..=1.0).contains(&self.mutation_rate_range.start));\n        assert!((0.0..=1.0).contains(&self.mutation_rate_range.end));\n", "        for range in [&self.crossover_rate_range, &self.mutation_rate_range] {\n            assert!(is_rate(range.start));\n            assert!(is_rate(range.end));\n        }\n"), (AGA, "impl EvolutionParameters for", "fn is_rate(rate: f64) -> bool {\n    (0.0..=1.0).contains(&rate)\n}\n\nimpl EvolutionParameters for")]),
 ("validate-all", None, [(AGA, "        assert!((0.0..=1.0).contains(&self.crossover_rate_range.start));\n        assert!((0.0..=1.0).contains(&self.crossover_rate_range.end));\n        assert!((0.0..=1.0).contains(&self.mutation_rate_range.start));\n        assert!((0.0..=1.0).contains(&self.mutation_rate_range.end));\n", "        let valid = [&self.crossover_rate_range, &self.mutation_rate_range].iter().all(|r| (0.0..=1.0).contains(&r.start) && (0.0..=1.0).contains(&r.end));\n        assert!(valid);\n")]),
 ("mutate-reorder", None, [(MU, "            Self::Swap => swap_mutation(genome, rng),\n            Self::Scramble => scramble_mutation(genome, rng),\n", "            Self::Scramble => scramble_mutation(genome, rng),\n            Self::Swap => swap_mutation(genome, rng),\n")]),
 ("mutate-short", None, [(MU, "        match self {\n            Self::Swap", "        if genome.len() < 2 {\n            return;\n        }\n        match *self {\n            Self::Swap")]),
 ("pivot-index", None, [(CX, "let pivot = parent1.choose(rng).copied().unwrap();\n                edge", "let pivot = parent1[rng.gen_range(0..parent1.len())];\n                edge")]),
 ("pivot-helper", None, [(CX, "                let pivot = parent1.choose(rng).copied().unwrap();\n                seq", "                let pivot = random_gene(parent1, rng);\n                seq"), (CX, "impl CrossoverStrategy {", "fn random_gene<G: Copy, R: Rng>(genome: &[G], rng: &mut R) -> G {\n    *genome.choose(rng).expect(\"not empty\")\n}\n\nimpl CrossoverStrategy {")]),
 ("range-hoist", None, [(CX, "                let range = random_range(parent1.len(), rng);\n                partially_mapped_crossover(parent1, parent2, range)", "                let n = parent1.len();\n                partially_mapped_crossover(parent1, parent2, random_range(n, rng))")]),
 ("gpx-block", None, [(CX, "                generalized_partition_2_crossover(parent1, parent2, |_, partitions| {\n                    rng.gen_range(0..partitions.len())\n                })", "                let choose = |_: Option<&G>, partitions: &[Vec<G>]| {\n                    let count = partitions.len();\n                    rng.gen_range(0..count)\n                };\n                generalized_partition_2_crossover(parent1, parent2, choose)")]),
 ("extend-loop", None, [(MO, "        individuals.par_extend(\n            rayon::iter::repeatn(args, size).map_init(Self::rng, |rng, args| {\n                Self::Individual::new_random(args, rng)\n            }),\n        );", "        let mut rng = Self::rng();\n        for _ in 0..size {\n            individuals.push(Self::Individual::new_random(args, &mut rng));\n        }")]),
 ("extend-range-par", None, [(MO, "rayon::iter::repeatn(args, size).map_init(Self::rng, |rng, args| {\n", "(0..size).into_par_iter().map_init(Self::rng, |rng, _| {\n")]),
 ("extend-with-order", None, [(MO, "        individuals.push(model.clone());\n        if size == 1 {\n            return;\n        }\n\n        individuals.par_extend(rayon::iter::repeatn(model, size - 1).map_init(\n            Self::rng,\n            |rng, mut new_individual| {\n                self.mutate(&mut new_individual, rng);\n                new_individual\n            },\n        ));", "        individuals.par_extend(rayon::iter::repeatn(&model, size - 1).map_init(\n            Self::rng,\n            |rng, original| {\n                let mut new_individual = original.clone();\n                self.mutate(&mut new_individual, rng);\n                new_individual\n            },\n        ));\n        individuals.push(model);")]),
 ("run-helper", None, [(EV, "        self.algorithm.borrow().model().extend_population(\n            &mut individuals,\n            parameters.initial_population_size(),\n            args,\n        );\n        self.evolve_population(individuals, parameters, progress)\n            .take_fittest()", "        let size = parameters.initial_population_size();\n        {\n            let algorithm = self.algorithm.borrow();\n            algorithm.model().extend_population(&mut individuals, size, args);\n        }\n        let population = self.evolve_population(individuals, parameters, progress);\n        population.take_fittest()")]),
 ("scoped-borrow", None, [(EV, "            self.algorithm\n                .borrow_mut()\n                .prepare_for_next_population(&population);\n", "            {\n                let mut algorithm = self.algorithm.borrow_mut();\n                algorithm.prepare_for_next_population(&population);\n            }\n")]),
 ("one-borrow", None, [(EV, "            self.algorithm\n                .borrow()\n                .select_elites(&population, &mut new_population);\n\n            // Generate the new population\n            self.algorithm.borrow().generate_new_population(\n                &population,\n                &mut new_population,\n                &pool,\n            );\n\n            // Replace the current population with the new one\n            self.algorithm\n                .borrow()\n                .replace_population(&mut population, &mut new_population);\n", "            let algorithm = self.algorithm.borrow();\n            algorithm.select_elites(&population, &mut new_population);\n            algorithm.generate_new_population(&population, &mut new_population, &pool);\n            algorithm.replace_population(&mut population, &mut new_population);\n")]),
 ("loop-break", None, [(EV, "        while progress(&population) {\n", "        loop {\n            if !progress(&population) {\n                break;\n            }\n")]),
 ("onemax-count-loop", None, [(LI, "            let one_bits = individual.genome.iter().filter(|&&one| one).count();\n", "            let mut one_bits = 0;\n            for &bit in &individual.genome {\n                if bit {\n                    one_bits += 1;\n                }\n            }\n")]),
 ("onemax-sum", None, [(LI, "individual.genome.iter().filter(|&&one| one).count();", "individual.genome.iter().map(|&one| one as usize).sum::<usize>();")]),
 ("onemax-filter-fn", None, [(LI, "filter(|&&one| one)", "filter(|one| **one)")]),
 ("onemax-random-map", None, [(LI, "            let bits = rng.sample_iter(Standard);\n            let genome = Vec::from_iter(bits.take(*length));\n", "            let genome = (0..*length).map(|_| rng.gen::<bool>()).collect::<Vec<_>>();\n")]),
 ("onemax-random-push", None, [(LI, "            let bits = rng.sample_iter(Standard);\n            let genome = Vec::from_iter(bits.take(*length));\n", "            let mut genome = Vec::with_capacity(*length);\n            while genome.len() < *length {\n                genome.push(rng.gen());\n            }\n")]),
 ("onemax-cross-fn", None, [(LI, "            CrossoverStrategy::SinglePoint\n                .crossover(&parent1.genome, &parent2.genome, rng)\n                .into()", "            let genome = CrossoverStrategy::SinglePoint.crossover(parent1.genome(), parent2.genome(), rng);\n            OneMax::from(genome)")]),
]
