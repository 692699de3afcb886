EV = "src/evolution.rs"; AL = "src/algorithms.rs"; GA = "src/algorithms/ga.rs"; AGA = "src/algorithms/aga.rs"; MO = "src/model.rs"; PO = "src/population.rs"
BUGS = [
 ("skip-first-callback", ["P01"], [(EV, "while progress(&population) {", "while population.generation() == 0 || progress(&population) {")]),
 ("callback-inverted-late", ["P01"], [(EV, "while progress(&population) {", "while progress(&population) || population.stagnation() == 0 && population.generation() == 1 {")]),
 ("double-replace", ["P01"], [(EV, "                .replace_population(&mut population, &mut new_population);\n", "                .replace_population(&mut population, &mut new_population);\n            if population.stagnation() > 50 { new_population.extend(population.iter().cloned()); population.replace(&mut new_population); }\n")]),
 ("extra-callback", ["P01"], [(EV, "            // Replace the current population with the new one\n", "            if new_population.len() < population.len() { progress(&population); }\n")]),
 ("run-returns-first", ["P01"], [(EV, "        self.evolve_population(individuals, parameters, progress)\n            .take_fittest()\n    }\n\n", "        let v: Vec<M::Individual> = self.evolve_population(individuals, parameters, progress).into();\n        v.into_iter().next().unwrap()\n    }\n\n")]),
 ("no-clear", ["P05"], [(EV, "            new_population.clear();\n", "")]),
 ("clear-late", ["P04"], [(EV, "            // Generate the new population\n", "            if new_population.len() * 2 > parameters.max_population_size() { new_population.clear(); }\n")]),
 ("no-retain", ["P02"], [(AL, "        individuals.retain(|individual| individual.is_valid());\n\n", "")]),
 ("retain-before-evaluate", ["P02"], [(AL, "        individuals\n            .par_iter_mut()", "        individuals.retain(|individual| individual.is_valid());\n        individuals\n            .par_iter_mut()"), (AL, "        individuals.retain(|individual| individual.is_valid());\n\n        Population", "        Population")]),
 ("evaluate-skip-first", ["P02"], [(AL, "            .par_iter_mut()\n            .for_each_with", "            .par_iter_mut()\n            .skip(1)\n            .for_each_with")]),
 ("retain-inverted", ["P02"], [(AL, "individuals.retain(|individual| individual.is_valid())", "individuals.retain(|individual| individual.is_valid() || individual.fitness() > 0.0)")]),
 ("improve-after-evaluate", ["P02", "P41"], [(MO, "        self.improve(&mut offspring);\n        self.evaluate(&mut offspring);\n", "        self.evaluate(&mut offspring);\n        self.improve(&mut offspring);\n")]),
 ("improve-skipped-for-clones", ["P41"], [(MO, "        self.improve(&mut offspring);\n", "        if parent2.is_some() {\n            self.improve(&mut offspring);\n        }\n")]),
 ("valid-or", ["P03"], [(MO, "offspring.is_valid() && self", "offspring.is_valid() || self")]),
 ("no-valid", ["P02", "P03"], [(MO, "offspring.is_valid() && self", "self")]),
 ("fallback-parent1", ["P03"], [(MO, "            fittest_parent.clone()\n", "            parent1.clone()\n")]),
 ("survive-vs-parent1", ["P03"], [(MO, "self.can_survive(&offspring, fittest_parent, population, rng)", "self.can_survive(&offspring, parent1, population, rng)")]),
 ("fittest-inverted", ["P03"], [(MO, "if parent2.fitness() > parent1.fitness()", "if parent2.fitness() < parent1.fitness()")]),
 ("survive-strict", ["P03"], [(MO, "offspring.fitness() >= fittest_parent.fitness()", "offspring.fitness() > fittest_parent.fitness()")]),
 ("survive-bypassed", ["P03"], [(MO, "        if offspring.is_valid() && self", "        if parameters.mutation_rate >= 1.0 && offspring.is_valid() {\n            return offspring;\n        }\n        if offspring.is_valid() && self")]),
 ("elites-from-front", ["P04"], [(GA, "elites.extend(population[range_start..].iter().cloned());", "elites.extend(population.iter().take(population.len() - range_start).cloned());")]),
 ("elites-off-by-one", ["P04"], [(AGA, "elites.extend(population[range_start..].iter().cloned());", "elites.extend(population[range_start..].iter().skip(1).cloned());")]),
 ("elites-plus-one", ["P04"], [(GA, "self.elite_size = interpolate_usize(0, parameters.population_size, parameters.elitism_rate);", "self.elite_size = interpolate_usize(0, parameters.population_size, parameters.elitism_rate) + 1;")]),
 ("elite-size-rate-other", ["P04"], [(AGA, "self.elite_size = interpolate_usize(0, parameters.population_size, parameters.elitism_rate);", "self.elite_size = interpolate_usize(1, parameters.population_size, parameters.elitism_rate);")]),
 ("elites-only-fittest", ["P04"], [(GA, "elites.extend(population[range_start..].iter().cloned());", "elites.extend(std::iter::repeat(population.fittest().clone()).take(population.len() - range_start));")]),
 ("offspring-minus-one", ["P05"], [(AL, "            1 => {\n", "            1 if population.len() > 1 => {}\n            1 => {\n")]),
 ("offspring-ignores-elites", ["P05"], [(AL, "offspring_size.saturating_sub(offspring.len())", "offspring_size")]),
 ("max-size-minus-pop", ["P05"], [(AL, "offspring_size.saturating_sub(offspring.len())", "offspring_size.min(population.len() * 2).saturating_sub(offspring.len())")]),
 ("offspring-filtered", ["P05"], [(AL, "                    |rng, model| model.breed(population, breeding_parameters, &mut *rng),\n                ));", "                    |rng, model| model.breed(population, breeding_parameters, &mut *rng),\n                ).filter(|o| o.is_valid()));")]),
 ("replace-only-if-better", ["P05", "P01"], [(AL, "        population.replace(offspring);", "        if offspring.iter().any(|o| o.fitness() >= population.stats().max()) {\n            population.replace(offspring);\n        }")]),
 ("replace-keeps-old", ["P05"], [(AL, "        population.replace(offspring);", "        if population.stagnation() > 20 {\n            offspring.extend(population.iter().cloned());\n        }\n        population.replace(offspring);")]),
 ("prepare-before-hook", ["P14"], [(GA, "        self.model.pre_generation(population, &mut self.breeding);\n        self.breeding.parent_selector.prepare(population);", "        self.breeding.parent_selector.prepare(population);\n        self.model.pre_generation(population, &mut self.breeding);")]),
 ("prepare-twice", ["P14"], [(AGA, "        self.breeding.parent_selector.prepare(population);", "        self.breeding.parent_selector.prepare(population);\n        if population.stagnation() > 10 {\n            self.breeding.parent_selector.prepare(population);\n        }")]),
 ("prepare-skipped-stagnant", ["P14"], [(AGA, "        self.breeding.parent_selector.prepare(population);", "        if population.stagnation() == 0 {\n            self.breeding.parent_selector.prepare(population);\n        }")]),
 ("hook-only-first", ["P14"], [(GA, "        self.model.pre_generation(population, &mut self.breeding);\n", "        if population.generation() == 0 {\n            self.model.pre_generation(population, &mut self.breeding);\n        }\n")]),
 ("selector-not-recreated", ["P16"], [(GA, "        self.breeding.parent_selector = parameters.selection_strategy.create_selector();", "        if self.population_size == 0 || parameters.population_size != self.population_size {\n            self.breeding.parent_selector = parameters.selection_strategy.create_selector();\n        }")]),
 ("mutation-rate-kept", ["P16"], [(GA, "        self.breeding.mutation_rate = parameters.mutation_rate;\n", "        if self.breeding.mutation_rate == 0.0 || parameters.mutation_rate > 0.0 {\n            self.breeding.mutation_rate = parameters.mutation_rate;\n        }\n")]),
 ("interval-not-set", ["P16"], [(AGA, "        self.adjustment_interval = parameters.parameter_adjustment_interval;\n", "        self.adjustment_interval = self.adjustment_interval.max(parameters.parameter_adjustment_interval);\n")]),
 ("reference-kept", ["P16"], [(AGA, "                self.reference_std = population.stats().std();\n", "                if self.reference_std == 0.0 {\n                    self.reference_std = population.stats().std();\n                }\n")]),
 ("elite-size-kept", ["P16"], [(AGA, "        self.elite_size = interpolate_usize(", "        self.elite_size = self.elite_size.min(parameters.population_size) * 0 + interpolate_usize(self.elite_size * 0 + "), (AGA, "interpolate_usize(self.elite_size * 0 + 0,", "interpolate_usize(self.population_size - self.population_size.min(parameters.population_size),")]),
 ("crossover-le", ["P17"], [(MO, "rng.gen::<f64>() < parameters.crossover_rate", "rng.gen::<f64>() <= parameters.crossover_rate")]),
 ("mutation-le", ["P17"], [(MO, "rng.gen::<f64>() < parameters.mutation_rate", "rng.gen::<f64>() <= parameters.mutation_rate")]),
 ("mutation-shared-draw", ["P17"], [(MO, "let parent2 = if population.len() > 1 && rng.gen::<f64>() < parameters.crossover_rate {", "let chance = rng.gen::<f64>();\n        let parent2 = if population.len() > 1 && chance < parameters.crossover_rate {"), (MO, "if rng.gen::<f64>() < parameters.mutation_rate", "if chance < parameters.mutation_rate")]),
 ("mutation-no-cross-only", ["P17"], [(MO, "if rng.gen::<f64>() < parameters.mutation_rate", "if parent2.is_none() || rng.gen::<f64>() < parameters.mutation_rate")]),
 ("crossover-f32", ["P17"], [(MO, "rng.gen::<f64>() < parameters.crossover_rate", "rng.gen::<f64>() < parameters.crossover_rate.max(0.01)")]),
 ("crossover-needs-three", ["P17"], [(MO, "population.len() > 1 &&", "population.len() > 2 &&")]),
 ("adapt-swapped", ["P18"], [(AGA, "                    1.0 - diversity,\n", "                    diversity,\n")]),
 ("adapt-every", ["P18"], [(AGA, "n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0", "n if self.adjustment_interval != 0 && (n + 1) % self.adjustment_interval == 0")]),
 ("adapt-initial-swapped", ["P18"], [(AGA, "self.breeding.crossover_rate = self.crossover_rate_range.end;", "self.breeding.crossover_rate = self.crossover_rate_range.start;")]),
 ("adapt-no-clamp", ["P18"], [(AGA, "diversity.clamp(0.0, 1.0)", "diversity.max(0.0)")]),
 ("adapt-ref-updated", ["P18"], [(AGA, "                self.breeding.crossover_rate = interpolate_f64(", "                self.reference_std = self.reference_std.max(population.stats().std());\n                self.breeding.crossover_rate = interpolate_f64(")]),
 ("adapt-mean", ["P18"], [(AGA, "let diversity = population.stats().std() / self.reference_std;", "let diversity = population.stats().max() / self.reference_std;")]),
 ("adapt-wrong-range", ["P18"], [(AGA, "                    self.mutation_rate_range.start,\n                    self.mutation_rate_range.end,\n", "                    self.mutation_rate_range.start,\n                    self.crossover_rate_range.end,\n")]),
]
ALGP = ["P01", "P02", "P03", "P04", "P05", "P14", "P16", "P17", "P18", "P41"]
BENIGN = [
 ("loop-break", None, [(EV, "while progress(&population) {", "loop {\n            if !progress(&population) {\n                break;\n            }")]),
 ("rotated", None, [(EV, "        while progress(&population) {", "        let mut go = progress(&population);\n        while go {"), (EV, "                .replace_population(&mut population, &mut new_population);\n", "                .replace_population(&mut population, &mut new_population);\n            go = progress(&population);\n")]),
 ("helper-generation", None, [(EV, "            // Reset the new population.\n            new_population.clear();\n\n            // Prepare the algorithm for the new generation\n            self.algorithm\n                .borrow_mut()\n                .prepare_for_next_population(&population);\n", "            new_population.clear();\n            self.prepare(&population);\n"), (EV, "impl<A, M> Default for Evolution<A, M>", "impl<A, M> Evolution<A, M>\nwhere\n    A: EvolutionAlgorithm<M>,\n    M: EvolutionModel,\n{\n    fn prepare(&self, population: &Population<M::Individual>) {\n        self.algorithm.borrow_mut().prepare_for_next_population(population);\n    }\n}\n\nimpl<A, M> Default for Evolution<A, M>")]),
 ("elites-skip", None, [(GA, "            elites.extend(population[range_start..].iter().cloned());", "            elites.extend(population.iter().skip(range_start).cloned());")]),
 ("elites-loop", None, [(GA, "            elites.extend(population[range_start..].iter().cloned());", "            for individual in &population[range_start..] {\n                elites.push(individual.clone());\n            }")]),
 ("elites-extend-from-slice", None, [(AGA, "            elites.extend(population[range_start..].iter().cloned());", "            elites.extend_from_slice(&population[range_start..]);")]),
 ("elites-rev-take", None, [(AGA, "            let range_start = population.len().saturating_sub(self.elite_size);\n            elites.extend(population[range_start..].iter().cloned());", "            elites.extend(population.iter().rev().take(self.elite_size).cloned());")]),
 ("elites-no-if", None, [(GA, "        if self.elite_size != 0 {\n            let range_start = population.len().saturating_sub(self.elite_size);\n            elites.extend(population[range_start..].iter().cloned());\n        }", "        let range_start = population.len().saturating_sub(self.elite_size);\n        elites.extend(population[range_start..].iter().cloned());")]),
 ("elites-if-len", None, [(GA, "            let range_start = population.len().saturating_sub(self.elite_size);\n", "            let range_start = if population.len() > self.elite_size {\n                population.len() - self.elite_size\n            } else {\n                0\n            };\n")]),
 ("breed-match", None, [(AL, "        match offspring_size.saturating_sub(offspring.len()) {\n            0 => {}\n            1 => {", "        let missing = offspring_size.saturating_sub(offspring.len());\n        match missing {\n            0 => {}\n            1 => {")]),
 ("breed-all-parallel", None, [(AL, "            1 => {\n                let mut rng = rng_pool.pull(M::rng);\n                offspring.push(\n                    self.model()\n                        .breed(population, breeding_parameters, &mut *rng),\n                );\n            }\n", "")]),
 ("breed-range", None, [(AL, "            size => {\n", "            size => {\n                let model = self.model();\n"), (AL, "rayon::iter::repeatn(self.model(), size).map_init(", "(0..size).into_par_iter().map_init("), (AL, "|rng, model| model.breed(population, breeding_parameters, &mut *rng)", "|rng, _| model.breed(population, breeding_parameters, &mut *rng)")]),
 ("breed-if-else", None, [(MO, "        if offspring.is_valid() && self.can_survive(&offspring, fittest_parent, population, rng) {\n            offspring\n        } else {\n            fittest_parent.clone()\n        }", "        if !offspring.is_valid() {\n            return fittest_parent.clone();\n        }\n        if self.can_survive(&offspring, fittest_parent, population, rng) {\n            return offspring;\n        }\n        fittest_parent.clone()")]),
 ("breed-match-mate", None, [(MO, "        let mut offspring = if let Some(parent2) = parent2 {\n            if parent2.fitness() > parent1.fitness() {\n                fittest_parent = parent2;\n            }\n            self.crossover(parent1, parent2, rng)\n        } else {\n            parent1.clone()\n        };", "        let mut offspring = match parent2 {\n            Some(mate) => {\n                fittest_parent = if mate.fitness() > parent1.fitness() { mate } else { parent1 };\n                self.crossover(parent1, mate, rng)\n            }\n            None => parent1.clone(),\n        };")]),
 ("breed-helper-mate", None, [(MO, "        let parent2 = if population.len() > 1 && rng.gen::<f64>() < parameters.crossover_rate {\n            parameters\n                .parent_selector\n                .select_distinct(population, rng, 3, parent1)\n                .map(|(_, parent)| parent)\n        } else {\n            None\n        };", "        let parent2 = find_mate::<Self>(population, parameters, parent1, rng);"), (MO, "pub trait EvolutionModel: Sync {", "fn find_mate<'a, M: EvolutionModel>(\n    population: &'a Population<M::Individual>,\n    parameters: &ReproductionParameters<M>,\n    parent: &M::Individual,\n    rng: &mut M::Rng,\n) -> Option<&'a M::Individual> {\n    if population.len() <= 1 || rng.gen::<f64>() >= parameters.crossover_rate {\n        return None;\n    }\n    let mate = parameters.parent_selector.select_distinct(population, rng, 3, parent)?;\n    Some(mate.1)\n}\n\npub trait EvolutionModel: Sync {")]),
 ("breed-survive-not-lt", None, [(MO, "let mutate = rng", "let mutate = rng")] if False else [(MO, "        if rng.gen::<f64>() < parameters.mutation_rate {\n            self.mutate(&mut offspring, rng);\n        }", "        let chance: f64 = rng.gen();\n        let mutating = chance < parameters.mutation_rate;\n        if mutating {\n            self.mutate(&mut offspring, rng);\n        }")]),
 ("can-survive-flip", None, [(MO, "offspring.fitness() >= fittest_parent.fitness()", "let limit = fittest_parent.fitness();\n        limit <= offspring.fitness()")]),
 ("init-retain-seq", None, [(AL, "        individuals\n            .par_iter_mut()\n            .for_each_with(self.model(), |model, individual| model.evaluate(individual));", "        for individual in individuals.iter_mut() {\n            self.model().evaluate(individual);\n        }")]),
 ("init-filter-collect", None, [(AL, "        individuals.retain(|individual| individual.is_valid());\n\n        Population::new(individuals)", "        let valid: Vec<_> = individuals.into_iter().filter(|individual| individual.is_valid()).collect();\n        Population::new(valid)")]),
 ("init-par-for-each", None, [(AL, "        individuals\n            .par_iter_mut()", "        let model = self.model();\n        individuals\n            .par_iter_mut()"), (AL, ".for_each_with(self.model(), |model, individual| model.evaluate(individual));", ".for_each(|individual| model.evaluate(individual));")]),
 ("aga-if-chain", None, [(AGA, "        match population.generation() {\n            0 => {", "        let generation = population.generation();\n        match generation {\n            0 => {")]),
 ("aga-d-helper", None, [(AGA, "                let diversity = population.stats().std() / self.reference_std;\n                let diversity = if diversity.is_nan() {\n                    0.0 // The fitness scores of the reference population were all the same\n                } else {\n                    diversity.clamp(0.0, 1.0)\n                };", "                let ratio = population.stats().std() / self.reference_std;\n                let diversity = match ratio {\n                    r if r.is_nan() => 0.0,\n                    r if r > 1.0 => 1.0,\n                    r => r,\n                };")]),
 ("aga-interp", None, [(AGA, "                self.breeding.crossover_rate = interpolate_f64(\n                    self.crossover_rate_range.start,\n                    self.crossover_rate_range.end,\n                    diversity,\n                );", "                let width = self.crossover_rate_range.end - self.crossover_rate_range.start;\n                self.breeding.crossover_rate = self.crossover_rate_range.start + diversity * width;")]),
 ("aga-min-max", None, [(AGA, "diversity.clamp(0.0, 1.0)", "diversity.max(0.0).min(1.0)")]),
 ("aga-early-return", None, [(AGA, "            n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {", "            n if self.is_adjustment(n) => {"), (AGA, "impl<M: EvolutionModel> From<M> for Adaptive", "impl<M: EvolutionModel> AdaptiveGeneticAlgorithm<M> {\n    fn is_adjustment(&self, generation: usize) -> bool {\n        if self.adjustment_interval == 0 {\n            return false;\n        }\n        generation % self.adjustment_interval == 0\n    }\n}\n\nimpl<M: EvolutionModel> From<M> for Adaptive")]),
 ("ga-configure-reorder", None, [(GA, "        self.population_size = parameters.population_size;\n        self.elite_size", "        let size = parameters.population_size;\n        self.population_size = size;\n        self.elite_size"), (GA, "interpolate_usize(0, parameters.population_size, parameters.elitism_rate);", "interpolate_usize(0, size, parameters.elitism_rate);")]),
 ("ga-configure-struct", None, [(GA, "        self.breeding.crossover_rate = parameters.crossover_rate;\n        self.breeding.mutation_rate = parameters.mutation_rate;\n        self.breeding.parent_selector = parameters.selection_strategy.create_selector();", "        self.breeding = ReproductionParameters {\n            crossover_rate: parameters.crossover_rate,\n            mutation_rate: parameters.mutation_rate,\n            parent_selector: parameters.selection_strategy.create_selector(),\n        };")]),
 ("ga-elite-size-direct", None, [(GA, "interpolate_usize(0, parameters.population_size, parameters.elitism_rate)", "(parameters.population_size as f64 * parameters.elitism_rate) as usize")]),
 ("ga-elite-size-floor", None, [(GA, "interpolate_usize(0, parameters.population_size, parameters.elitism_rate)", "(parameters.population_size as f64 * parameters.elitism_rate).floor() as usize")]),
 ("evo-single-borrow", None, [(EV, "            // Perform elitism on the population\n            self.algorithm\n                .borrow()\n                .select_elites(&population, &mut new_population);\n\n            // Generate the new population\n            self.algorithm.borrow().generate_new_population(\n                &population,\n                &mut new_population,\n                &pool,\n            );", "            let algorithm = self.algorithm.borrow();\n            algorithm.select_elites(&population, &mut new_population);\n            algorithm.generate_new_population(&population, &mut new_population, &pool);\n            drop(algorithm);")]),
 ("evo-buffer-inside", None, [(EV, "        let mut new_population = Vec::with_capacity(parameters.max_population_size());\n        let pool", "        let pool"), (EV, "            new_population.clear();\n", "            let mut new_population = Vec::with_capacity(parameters.max_population_size());\n")]),
 ("evo-truncate", None, [(EV, "new_population.clear();", "new_population.truncate(0);")]),
]
