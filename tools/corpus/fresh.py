"""Refactorings nobody wrote with the checks in view: helpers, reorderings, rewritten loops, other std calls."""
A, AGA, GA = "src/algorithms.rs", "src/algorithms/aga.rs", "src/algorithms/ga.rs"
EV, M, L, IND = "src/evolution.rs", "src/model.rs", "src/lib.rs", "src/individual.rs"
O, X, MU, S = "src/operators.rs", "src/operators/crossover.rs", "src/operators/mutation.rs", "src/operators/selection.rs"
P, T = "src/population.rs", "src/stats.rs"


def e(f, *ps):
    return [(f, o, n) for o, n in ps]


SWITCH = """            size => {
                offspring.par_extend(rayon::iter::repeatn(self.model(), size).map_init(
                    || rng_pool.pull(M::rng),
                    |rng, model| model.breed(population, breeding_parameters, &mut *rng),
                ));
            }
"""
ONE = """                let mut rng = rng_pool.pull(M::rng);
                offspring.push(
                    self.model()
                        .breed(population, breeding_parameters, &mut *rng),
                );
"""
DIV = """                let diversity = population.stats().std() / self.reference_std;
                let diversity = if diversity.is_nan() {
                    0.0 // The fitness scores of the reference population were all the same
                } else {
                    diversity.clamp(0.0, 1.0)
                };
"""
ADJ = """                self.breeding.crossover_rate = interpolate_f64(
                    self.crossover_rate_range.start,
                    self.crossover_rate_range.end,
                    diversity,
                );
                self.breeding.mutation_rate = interpolate_f64(
                    self.mutation_rate_range.start,
                    self.mutation_rate_range.end,
                    1.0 - diversity,
                );
"""
LOOP = """        while progress(&population) {
            // Reset the new population.
            new_population.clear();

            // Prepare the algorithm for the new generation
            self.algorithm
                .borrow_mut()
                .prepare_for_next_population(&population);

            // Perform elitism on the population
            self.algorithm
                .borrow()
                .select_elites(&population, &mut new_population);

            // Generate the new population
            self.algorithm.borrow().generate_new_population(
                &population,
                &mut new_population,
                &pool,
            );

            // Replace the current population with the new one
            self.algorithm
                .borrow()
                .replace_population(&mut population, &mut new_population);
        }

        population
"""
PARENT2 = """        let parent2 = if population.len() > 1 && rng.gen::<f64>() < parameters.crossover_rate {
            parameters
                .parent_selector
                .select_distinct(population, rng, 3, parent1)
                .map(|(_, parent)| parent)
        } else {
            None
        };
"""
BREED = """        let mut fittest_parent = parent1;
        let mut offspring = if let Some(parent2) = parent2 {
            if parent2.fitness() > parent1.fitness() {
                fittest_parent = parent2;
            }
            self.crossover(parent1, parent2, rng)
        } else {
            parent1.clone()
        };
"""
SURV = """        if offspring.is_valid() && self.can_survive(&offspring, fittest_parent, population, rng) {
            offspring
        } else {
            fittest_parent.clone()
        }
"""
EXTW = """        individuals.reserve(size);
        individuals.push(model.clone());
        if size == 1 {
            return;
        }

        individuals.par_extend(rayon::iter::repeatn(model, size - 1).map_init(
            Self::rng,
            |rng, mut new_individual| {
                self.mutate(&mut new_individual, rng);
                new_individual
            },
        ));
"""
EXT = """        individuals.reserve(size);
        individuals.par_extend(
            rayon::iter::repeatn(args, size).map_init(Self::rng, |rng, args| {
                Self::Individual::new_random(args, rng)
            }),
        );
"""
REPL = """        std::mem::swap(&mut self.individuals, new_population);
        let previous_best = self.stats.max();
        self.stats = sort_dedup_and_collect_stats(&mut self.individuals);
        self.generation += 1;
        if self.stats.max() > previous_best {
            self.stagnation = 0;
        } else {
            self.stagnation += 1;
        }
"""
SDS = """    individuals.par_sort_unstable_by(compare_fitness);
    individuals.dedup();
    individuals
        .iter()
        .map(|i| i.fitness())
        .collect::<Stats>()
        .try_into()
        .unwrap()
"""
RANK = """        let mut cumulative_rank = 0;
        for (index, individual) in population.iter().enumerate() {
            cumulative_rank += index + 1;
            if cumulative_rank >= target_rank {
                return (index, individual);
            }
        }
        (0, population.first().unwrap())
"""
ROUL = """        let mut cumulative_fitness = 0.0;
        for (index, individual) in population.iter().enumerate() {
            cumulative_fitness += individual.fitness();
            if cumulative_fitness >= target_fitness {
                return (index, individual);
            }
        }
        (population.len() - 1, population.last().unwrap())
"""
BOLT = ROUL.replace("individual.fitness()", "self.scaled_fitness(individual)")
TOUR = """        rng.sample_iter(Uniform::new(0, population.len()))
            .take(self.size)
            .max() // The population is already sorted by the fitness of individuals
            .map(|i| (i, &population[i]))
            .unwrap()
"""
DIST = """        for _ in 0..max_tries {
            let (index, candidate) = self.select(population, rng);
            if candidate != excluded {
                return Some((index, candidate));
            }
        }
        None
"""
LIN = """        let offset = ((population.len() as f64)
            * (self.bias
                - ((self.bias * self.bias - 4.0 * (self.bias - 1.0) * rng.gen::<f64>()).sqrt()))
            / 2.0
            / (self.bias - 1.0)) as usize;
        let index = population.len() - 1 - offset.min(population.len() - 1);
        (index, &population[index])
"""
GPXB = """        // Make a copy of the partition as a set for fast lookup
        genes_in_selected_partition.clear();
        genes_in_selected_partition.extend(partition.iter().copied());

        // Add the selected partition to the offspring
        offspring.append(&mut partition);

        // Remove the selected partition from all other partitions
        for other_partition in &mut partitions {
            other_partition.retain(|gene| !genes_in_selected_partition.contains(gene));
        }
"""
SCXNEXT = """        let next1 = parent1[if current_pos1 + 1 != n {
            current_pos1 + 1
        } else {
            0
        }];
        let next2 = parent2[if current_pos2 + 1 != n {
            current_pos2 + 1
        } else {
            0
        }];
"""
PMXL = """    for (i, gene) in offspring.iter_mut().enumerate() {
        if !range.contains(&i) {
            let mut mapped_gene = parent2[i];
            while let Some(pos) = find_position(&mapped_gene, start) {
                mapped_gene = end[pos];
            }
            *gene = mapped_gene
        }
    }
"""
OXL = """    while index1 != p1 {
        if !genome[p1..p2].contains(&parent2[index2]) {
            genome[index1] = parent2[index2];
            index1 += 1;
            if index1 == n {
                index1 = 0;
            }
        }
        index2 += 1;
        if index2 == n {
            index2 = 0;
        }
    }
"""
CXI = """            offspring[index] = if first_parent {
                parent1[index]
            } else {
                parent2[index]
            };

            // Find the index of the current element in the other parent
            index = if first_parent {
                find_position(&parent1[index], parent2).unwrap()
            } else {
                find_position(&parent2[index], parent1).unwrap()
            };
"""
SPX = """    let mut offspring = parent1.to_vec();
    if point < parent2.len() {
        offspring[point..].copy_from_slice(&parent2[point..]);
    }
    offspring
"""
PARTW = """        while let Some(next_node) = partition.last().and_then(|&last| {
            common_neighbors.iter().find_map(|&(a, b)| {
                if a == last && !visited.contains(&b) {
                    Some(b)
                } else if b == last && !visited.contains(&a) {
                    Some(a)
                } else {
                    None
                }
            })
        }) {
            partition.push(next_node);
            visited.insert(next_node);
        }
"""
BRR = """    let length = rng.gen_range(min_len..=max_len);
    let start = rng.gen_range(0..=(n - length));
    let end = start + length;
    start..end
"""
PAIR = """    let p1 = rng.gen_range(0..n);
    let mut p2 = rng.gen_range(0..n - 1);
    if p2 >= p1 {
        p2 += 1;
    }
    (p1, p2)
"""
REC = """            if sample < self.min {
                self.min = sample;
                self.arg_min = self.count;
            }
            if sample > self.max {
                self.max = sample;
                self.arg_max = self.count;
            }

            // Welford's online algorithm
            self.count += 1;
            let delta = sample - self.avg;
            self.avg += delta / self.count as f64;
            self.sum_squared += delta * (sample - self.avg);
"""
EVAL = """            let one_bits = individual.genome.iter().filter(|&&one| one).count();
            let total_bits = individual.genome.len();
            individual.fitness = one_bits as f64 / total_bits as f64;
"""
BUGS = []
BENIGN = [
 # ---- algorithms / evolution
 ("fr-gen-pull-helper", [], e(A, (ONE, """                self.breed_one(population, breeding_parameters, offspring, rng_pool);
"""), ("    #[inline]\n    fn replace_population(", """    fn breed_one(
        &self,
        population: &Population<M::Individual>,
        parameters: &ReproductionParameters<M>,
        offspring: &mut Vec<M::Individual>,
        rng_pool: &Pool<M::Rng>,
    ) {
        let mut rng = rng_pool.pull(M::rng);
        let child = self.model().breed(population, parameters, &mut rng);
        offspring.push(child);
    }

    #[inline]
    fn replace_population("""))),
 ("fr-gen-into-par", [], e(A, (SWITCH, """            size => {
                let model = self.model();
                offspring.par_extend((0..size).into_par_iter().map_init(
                    || rng_pool.pull(M::rng),
                    |rng, _| model.breed(population, breeding_parameters, rng),
                ));
            }
"""))),
 ("fr-gen-collect", [], e(A, (SWITCH, """            size => {
                let children: Vec<_> = rayon::iter::repeatn(self.model(), size)
                    .map_init(
                        || rng_pool.pull(M::rng),
                        |rng, model| model.breed(population, breeding_parameters, &mut *rng),
                    )
                    .collect();
                offspring.extend(children);
            }
"""))),
 ("fr-gen-missing", [], e(A, ("        match offspring_size.saturating_sub(offspring.len()) {\n            0 => {}", "        let missing = if offspring.len() < offspring_size {\n            offspring_size - offspring.len()\n        } else {\n            0\n        };\n        match missing {\n            0 => (),"))),
 ("fr-elites-iter-helper", [], e(AGA, ("            let range_start = population.len().saturating_sub(self.elite_size);\n            elites.extend(population[range_start..].iter().cloned());\n", "            let (_, best) = population.split_at(population.len().saturating_sub(self.elite_size));\n            elites.extend_from_slice(best);\n"))),
 ("fr-elites-skip-min", [], e(AGA, ("            let range_start = population.len().saturating_sub(self.elite_size);\n", "            let range_start = population.len() - self.elite_size.min(population.len());\n"))),
 ("fr-init-into", [], e(A, ("        individuals.retain(|individual| individual.is_valid());\n\n        Population::new(individuals)", "        let valid: Vec<_> = individuals\n            .into_iter()\n            .filter(|individual| individual.is_valid())\n            .collect();\n        Population::new(valid)"))),
 ("fr-init-for-each", [], e(A, ("        individuals\n            .par_iter_mut()\n            .for_each_with(self.model(), |model, individual| model.evaluate(individual));\n", "        let model = self.model();\n        individuals.par_iter_mut().for_each(|individual| {\n            model.evaluate(individual);\n        });\n"))),
 ("fr-aga-nan-first", [], e(AGA, (DIV, """                let ratio = population.stats().std() / self.reference_std;
                let diversity = match ratio.is_nan() {
                    true => 0.0,
                    false => ratio.max(0.0).min(1.0),
                };
"""))),
 ("fr-aga-diversity-fn", [], e(AGA, (DIV, "                let diversity = self.diversity(population);\n"), ("impl<M: EvolutionModel> From<M> for Adaptive", """impl<M: EvolutionModel> AdaptiveGeneticAlgorithm<M> {
    fn diversity(&self, population: &Population<M::Individual>) -> f64 {
        let diversity = population.stats().std() / self.reference_std;
        if diversity.is_nan() {
            return 0.0;
        }
        diversity.clamp(0.0, 1.0)
    }
}

impl<M: EvolutionModel> From<M> for Adaptive"""))),
 ("fr-aga-adjust-reorder", [], e(AGA, (ADJ, """                let (crossover, mutation) = (&self.crossover_rate_range, &self.mutation_rate_range);
                self.breeding.mutation_rate =
                    interpolate_f64(mutation.start, mutation.end, 1.0 - diversity);
                self.breeding.crossover_rate =
                    interpolate_f64(crossover.start, crossover.end, diversity);
"""))),
 ("fr-aga-two-fns", [], e(AGA, ("        match population.generation() {\n            0 => {\n                self.reference_std = population.stats().std();\n                self.breeding.crossover_rate = self.crossover_rate_range.end;\n                self.breeding.mutation_rate = self.mutation_rate_range.start;\n            }\n            n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {\n" + DIV + "\n" + ADJ + "            }\n            _ => {}\n        }\n",
   "        self.adjust_rates(population);\n"), ("impl<M: EvolutionModel> From<M> for Adaptive", """impl<M: EvolutionModel> AdaptiveGeneticAlgorithm<M> {
    fn adjust_rates(&mut self, population: &Population<M::Individual>) {
        let generation = population.generation();
        let std = population.stats().std();
        if generation == 0 {
            self.reference_std = std;
            self.breeding.crossover_rate = self.crossover_rate_range.end;
            self.breeding.mutation_rate = self.mutation_rate_range.start;
            return;
        }
        if self.adjustment_interval == 0 || generation % self.adjustment_interval != 0 {
            return;
        }
        let mut diversity = std / self.reference_std;
        if diversity.is_nan() {
            diversity = 0.0;
        }
        let diversity = diversity.clamp(0.0, 1.0);
""" + ADJ.replace("                ", "        ") + """    }
}

impl<M: EvolutionModel> From<M> for Adaptive"""))),
 ("fr-evo-loop", [], e(EV, (LOOP, """        loop {
            if !progress(&population) {
                return population;
            }
            self.next_generation(&mut population, &mut new_population, &pool);
        }
"""), ("impl<A, M> Default for Evolution<A, M>", """impl<A, M> Evolution<A, M>
where
    A: EvolutionAlgorithm<M>,
    M: EvolutionModel,
{
    fn next_generation(
        &self,
        population: &mut Population<M::Individual>,
        buffer: &mut Vec<M::Individual>,
        pool: &Pool<M::Rng>,
    ) {
        buffer.clear();
        self.algorithm.borrow_mut().prepare_for_next_population(population);
        let algorithm = self.algorithm.borrow();
        algorithm.select_elites(population, buffer);
        algorithm.generate_new_population(population, buffer, pool);
        algorithm.replace_population(population, buffer);
    }
}

impl<A, M> Default for Evolution<A, M>"""))),
 ("fr-evo-drain", [], e(EV, ("            new_population.clear();\n", "            new_population.drain(..);\n"))),
 ("fr-evo-clear-last", [], e(EV, ("            // Reset the new population.\n            new_population.clear();\n\n", ""), ("                .replace_population(&mut population, &mut new_population);\n", "                .replace_population(&mut population, &mut new_population);\n            new_population.clear();\n"))),
 ("fr-evo-run-let", [], e(EV, ("        self.evolve_population(individuals, parameters, progress)\n            .take_fittest()\n    }\n\n    ", "        let last_population = self.evolve_population(individuals, parameters, progress);\n        last_population.take_fittest()\n    }\n\n    "))),
 # ---- model
 ("fr-breed-nested", [], e(M, (PARENT2, """        let mut parent2 = None;
        if population.len() > 1 && rng.gen::<f64>() < parameters.crossover_rate {
            let selected = parameters
                .parent_selector
                .select_distinct(population, rng, 3, parent1);
            if let Some((_, parent)) = selected {
                parent2 = Some(parent);
            }
        }
"""))),
 ("fr-breed-gen-bool-order", [], e(M, (PARENT2, """        let parent2 = if population.len() < 2 {
            None
        } else if rng.gen::<f64>() < parameters.crossover_rate {
            let selector = &parameters.parent_selector;
            match selector.select_distinct(population, rng, 3, parent1) {
                Some((_, parent)) => Some(parent),
                None => None,
            }
        } else {
            None
        };
"""))),
 ("fr-breed-fittest-match", [], e(M, (BREED, """        let fittest_parent = match parent2 {
            Some(parent2) if parent2.fitness() > parent1.fitness() => parent2,
            _ => parent1,
        };
        let mut offspring = match parent2 {
            Some(parent2) => self.crossover(parent1, parent2, rng),
            None => parent1.clone(),
        };
"""))),
 ("fr-breed-map-or", [], e(M, (BREED, """        let fittest_parent = parent2
            .filter(|parent2| parent2.fitness() > parent1.fitness())
            .unwrap_or(parent1);
        let mut offspring = parent2.map_or_else(
            || parent1.clone(),
            |parent2| self.crossover(parent1, parent2, rng),
        );
"""))),
 ("fr-breed-survive-early", [], e(M, (SURV, """        if !offspring.is_valid() {
            return fittest_parent.clone();
        }
        if !self.can_survive(&offspring, fittest_parent, population, rng) {
            return fittest_parent.clone();
        }
        offspring
"""))),
 ("fr-breed-survive-let", [], e(M, (SURV, """        let survives =
            offspring.is_valid() && self.can_survive(&offspring, fittest_parent, population, rng);
        match survives {
            true => offspring,
            false => fittest_parent.to_owned(),
        }
"""))),
 ("fr-breed-rate-let", [], e(M, ("        if rng.gen::<f64>() < parameters.mutation_rate {\n            self.mutate", "        let toss: f64 = rng.gen();\n        let mutated = parameters.mutation_rate > toss;\n        if mutated {\n            self.mutate"))),
 ("fr-extw-saturating", [], e(M, (EXTW, """        individuals.reserve(size);
        let copies = size - 1;
        individuals.push(model.clone());
        if copies > 0 {
            individuals.par_extend((0..copies).into_par_iter().map_init(Self::rng, |rng, _| {
                let mut mutant = model.clone();
                self.mutate(&mut mutant, rng);
                mutant
            }));
        }
"""), ("        size: usize,\n        model: Self::Individual,\n", "        size: usize,\n        model: Self::Individual,\n"))),
 ("fr-ext-if", [], e(M, ("        if size == 0 {\n            return;\n        }\n\n" + EXT, "        if size != 0 {\n            individuals.reserve(size);\n            individuals.par_extend((0..size).into_par_iter().map_init(Self::rng, |rng, _| {\n                Self::Individual::new_random(args, rng)\n            }));\n        }\n"))),
 # ---- population
 ("fr-repl-generation-first", [], e(P, (REPL, """        let previous_best = self.stats.max();
        self.generation += 1;
        self.stagnation += 1;
        std::mem::swap(&mut self.individuals, new_population);
        self.stats = sort_dedup_and_collect_stats(&mut self.individuals);
        if self.stats.max() > previous_best {
            self.stagnation = 0;
        }
"""))),
 ("fr-repl-improved-let", [], e(P, (REPL, """        let stats = sort_dedup_and_collect_stats(new_population);
        let improved = stats.max() > self.stats.max();
        std::mem::swap(&mut self.individuals, new_population);
        self.stats = stats;
        self.generation += 1;
        self.stagnation = if improved { 0 } else { self.stagnation + 1 };
"""))),
 ("fr-sds-loop", [], e(P, (SDS, """    individuals.par_sort_unstable_by(compare_fitness);
    individuals.dedup();
    let mut stats = Stats::default();
    for individual in individuals.iter() {
        stats.record(individual.fitness());
    }
    stats.snapshot().unwrap()
"""))),
 ("fr-sds-closure", [], e(P, (SDS, """    individuals.par_sort_unstable_by(|a, b| compare_fitness(a, b));
    individuals.dedup_by(|a, b| a == b);
    let fitness = individuals.iter().map(Individual::fitness);
    PopulatedStats::try_from(Stats::from_iter(fitness)).unwrap()
"""))),
 ("fr-sds-two-fns", [], e(P, (SDS, """    individuals.par_sort_unstable_by(compare_fitness);
    individuals.dedup();
    collect_stats(individuals)
}

fn collect_stats<I: Individual>(individuals: &[I]) -> PopulatedStats {
    let stats: Stats = individuals.iter().map(|i| i.fitness()).collect();
    match PopulatedStats::try_from(stats) {
        Ok(stats) => stats,
        Err(_) => panic!("no valid individuals"),
    }
"""))),
 ("fr-fittest-get", [], e(P, ("        &self.individuals[self.stats.arg_max()]", "        let index = self.stats.arg_max();\n        self.individuals.get(index).unwrap()"))),
 ("fr-take-into-iter", [], e(P, ("        self.individuals.swap_remove(self.stats.arg_max())", "        let index = self.stats.arg_max();\n        self.individuals.into_iter().nth(index).unwrap()"), ("take_fittest(mut self)", "take_fittest(self)"))),
 # ---- stats
 ("fr-rec-else-if-free", [], e(T, (REC, """            let index = self.count;
            if sample > self.max {
                self.max = sample;
                self.arg_max = index;
            }
            if sample < self.min {
                self.min = sample;
                self.arg_min = index;
            }

            let delta = sample - self.avg;
            self.count = index + 1;
            self.avg += delta / self.count as f64;
            self.sum_squared += delta * (sample - self.avg);
"""))),
 ("fr-rec-early", [], e(T, ("        if self.count != 0 {\n" + REC + """        } else {
            self.count = 1;
            self.min = sample;
            self.arg_min = 0;
            self.max = sample;
            self.arg_max = 0;
            self.avg = sample;
            self.sum_squared = 0.0;
        }
""", """        if self.count == 0 {
            *self = Self {
                count: 1,
                min: sample,
                arg_min: 0,
                max: sample,
                arg_max: 0,
                avg: sample,
                sum_squared: 0.0,
            };
            return;
        }
""" + REC.replace("            ", "        ").replace("            self", "            self")))),
 ("fr-var-early", [], e(T, ("        match self.count {\n            0 => None,\n            1 => Some(0.0),\n            _ => Some(self.sum_squared / (self.count - 1) as f64),\n        }\n", "        if self.count == 0 {\n            return None;\n        }\n        if self.count == 1 {\n            return Some(0.0);\n        }\n        let degrees = self.count - 1;\n        Some(self.sum_squared / degrees as f64)\n"))),
 ("fr-max-then", [], e(T, ("            _ => Some(self.max),\n        }\n", "            _ => Some(self.max),\n        }\n"), ("    pub fn min(&self) -> Option<f64> {\n        match self.count {\n            0 => None,\n            _ => Some(self.min),\n        }\n", "    pub fn min(&self) -> Option<f64> {\n        (self.count != 0).then_some(self.min)\n"))),
 ("fr-arg-then", [], e(T, ("    pub fn arg_max(&self) -> Option<usize> {\n        match self.count {\n            0 => None,\n            _ => Some(self.arg_max),\n        }\n", "    pub fn arg_max(&self) -> Option<usize> {\n        self.snapshot().map(|s| s.arg_max())\n"))),
 ("fr-pstd-direct", [], e(T, ("    pub fn std(&self) -> Option<f64> {\n        self.var().map(f64::sqrt)\n", "    pub fn std(&self) -> Option<f64> {\n        match self.var() {\n            Some(var) => Some(var.sqrt()),\n            None => None,\n        }\n"))),
 ("fr-pvar-stats", [], e(T, ("        if self.stats.count > 1 {\n            self.stats.sum_squared / (self.stats.count - 1) as f64\n        } else {\n            0.0\n        }\n", "        self.stats.var().unwrap_or(0.0)\n"))),
 # ---- operators
 ("fr-brr-len", [], e(O, (BRR, "    let len = rng.gen_range(min_len..max_len + 1);\n    let start = rng.gen_range(0..n - len + 1);\n    start..(start + len)\n"))),
 ("fr-pair-else", [], e(O, (PAIR, "    let first = rng.gen_range(0..n);\n    let second = rng.gen_range(0..n - 1);\n    if second < first {\n        (first, second)\n    } else {\n        (first, second + 1)\n    }\n"))),
 ("fr-parts-loop", [], e(O, (PARTW, """        let mut last = node;
        while let Some(next_node) = common_neighbors.iter().find_map(|&(a, b)| {
            if a == last && !visited.contains(&b) {
                Some(b)
            } else if b == last && !visited.contains(&a) {
                Some(a)
            } else {
                None
            }
        }) {
            partition.push(next_node);
            visited.insert(next_node);
            last = next_node;
        }
"""))),
 ("fr-parts-not", [], e(O, ("        if visited.contains(&node) {\n            continue;\n        }\n\n        let mut partition = Vec::with_capacity(common_neighbors.len());\n        partition.push(node);\n        visited.insert(node);\n", "        if !visited.insert(node) {\n            continue;\n        }\n\n        let mut partition = vec![node];\n"))),
 ("fr-neigh-helper", [], e(O, ("""    neighbors1.extend(
        genome1
            .windows(2)
            .map(|w| neighbor(&w[0], &w[1]))
            .chain(std::iter::once(neighbor(
                genome1.last().unwrap(),
                genome1.first().unwrap(),
            ))),
    );
""", """    for w in genome1.windows(2) {
        neighbors1.push(neighbor(&w[0], &w[1]));
    }
    neighbors1.push(neighbor(&genome1[genome1.len() - 1], &genome1[0]));
"""))),
 ("fr-cmp-if", [], e(O, ("    a.fitness()\n        .partial_cmp(&b.fitness())\n        .unwrap_or(std::cmp::Ordering::Equal)\n", "    let (a, b) = (a.fitness(), b.fitness());\n    if a < b {\n        std::cmp::Ordering::Less\n    } else if a > b {\n        std::cmp::Ordering::Greater\n    } else {\n        std::cmp::Ordering::Equal\n    }\n"))),
 # ---- selection
 ("fr-tour-map-max", [], e(S, (TOUR, """        let index = (0..self.size)
            .map(|_| rng.gen_range(0..population.len()))
            .max()
            .unwrap();
        (index, &population[index])
"""))),
 ("fr-tour-best", [], e(S, (TOUR, """        let mut best = rng.gen_range(0..population.len());
        for _ in 1..self.size {
            best = best.max(rng.gen_range(0..population.len()));
        }
        (best, &population[best])
"""))),
 ("fr-roul-len", [], e(S, (ROUL, """        let last = population.len() - 1;
        let mut cumulative_fitness = 0.0;
        for index in 0..last {
            cumulative_fitness += population[index].fitness();
            if cumulative_fitness >= target_fitness {
                return (index, &population[index]);
            }
        }
        (last, &population[last])
"""))),
 ("fr-bolt-pos", [], e(S, (BOLT, """        let mut cumulative_fitness = 0.0;
        let index = population
            .iter()
            .position(|individual| {
                cumulative_fitness += self.scaled_fitness(individual);
                cumulative_fitness >= target_fitness
            })
            .unwrap_or(population.len() - 1);
        (index, &population[index])
"""))),
 ("fr-rank-while", [], e(S, (RANK, """        let mut index = 0;
        let mut cumulative_rank = 1;
        while cumulative_rank < target_rank {
            index += 1;
            cumulative_rank += index + 1;
        }
        (index, &population[index])
"""))),
 ("fr-rank-sub", [], e(S, (RANK, """        let mut remaining = target_rank;
        for (index, individual) in population.iter().enumerate() {
            let rank = index + 1;
            if remaining <= rank {
                return (index, individual);
            }
            remaining -= rank;
        }
        unreachable!()
"""))),
 ("fr-elit-min", [], e(S, ("        let selection_bound = (population.len() as f64 * self.ratio).floor() as usize;\n", "        let size = population.len();\n        let selection_bound = (self.ratio * size as f64) as usize;\n"))),
 ("fr-lin-split", [], e(S, (LIN, """        let n = population.len();
        let bias = self.bias;
        let discriminant = bias * bias - 4.0 * (bias - 1.0) * rng.gen::<f64>();
        let offset = (n as f64 * (bias - discriminant.sqrt()) / 2.0 / (bias - 1.0)) as usize;
        let index = (n - 1).saturating_sub(offset);
        (index, &population[index])
"""))),
 ("fr-dist-repeat", [], e(S, (DIST, """        (0..max_tries)
            .map(|_| self.select(population, rng))
            .find(|(_, candidate)| *candidate != excluded)
"""))),
 ("fr-dist-count", [], e(S, (DIST, """        let mut tries = max_tries;
        while tries != 0 {
            tries -= 1;
            let selected = self.select(population, rng);
            if selected.1 != excluded {
                return Some(selected);
            }
        }
        None
"""))),
 # ---- crossover
 ("fr-gpx-any", [], e(X, (GPXB, """        // Remove the selected partition from all other partitions
        for other_partition in &mut partitions {
            other_partition.retain(|gene| !partition.contains(gene));
        }
        offspring.append(&mut partition);
"""), ("    let mut genes_in_selected_partition = HashSet::with_capacity(offspring.len());\n", ""))),
 ("fr-gpx-collect", [], e(X, (GPXB, """        let selected: HashSet<G> = partition.iter().copied().collect();
        offspring.append(&mut partition);
        partitions
            .iter_mut()
            .for_each(|other| other.retain(|gene| !selected.contains(gene)));
"""), ("    let mut genes_in_selected_partition = HashSet::with_capacity(offspring.len());\n", ""))),
 ("fr-scx-next-fn", [], e(X, (SCXNEXT, "        let next1 = following(parent1, current_pos1);\n        let next2 = following(parent2, current_pos2);\n"), ("#[inline]\nfn find_position<", "fn following<G: Copy>(genome: &[G], index: usize) -> G {\n    match index + 1 {\n        next if next == genome.len() => genome[0],\n        next => genome[next],\n    }\n}\n\n#[inline]\nfn find_position<"))),
 ("fr-erx-modulo", [], e(X, ("                let prev = if i != 0 { i - 1 } else { n - 1 };\n                let next = if i + 1 != n { i + 1 } else { 0 };\n", "                let prev = (i + n - 1) % n;\n                let next = (i + 1) % n;\n"))),
 ("fr-erx-for", [], e(X, ("        for neighbors in neighbor_lists.values_mut() {\n            neighbors.remove(&current);\n        }\n", "        neighbor_lists.values_mut().for_each(|neighbors| {\n            neighbors.remove(&current);\n        });\n"))),
 ("fr-pmx-range", [], e(X, (PMXL, """    for i in (0..p1).chain(p2..n) {
        let mut mapped_gene = parent2[i];
        while let Some(pos) = find_position(&mapped_gene, start) {
            mapped_gene = end[pos];
        }
        offspring[i] = mapped_gene;
    }
"""))),
 ("fr-pmx-helper", [], e(X, (PMXL, """    for (i, gene) in offspring.iter_mut().enumerate() {
        if i < p1 || i >= p2 {
            *gene = mapped(parent2[i], start, end);
        }
    }
"""), ("#[inline]\nfn find_position<", """fn mapped<G: Copy + PartialEq>(mut gene: G, from: &[G], to: &[G]) -> G {
    loop {
        match find_position(&gene, from) {
            Some(pos) => gene = to[pos],
            None => return gene,
        }
    }
}

#[inline]
fn find_position<"""))),
 ("fr-ox-helper", [], e(X, (OXL, """    while index1 != p1 {
        let gene = parent2[index2];
        if find_position(&gene, &genome[p1..p2]).is_none() {
            genome[index1] = gene;
            index1 = wrap(index1 + 1, n);
        }
        index2 = wrap(index2 + 1, n);
    }
"""), ("#[inline]\nfn find_position<", "fn wrap(index: usize, n: usize) -> usize {\n    if index == n {\n        0\n    } else {\n        index\n    }\n}\n\n#[inline]\nfn find_position<"))),
 ("fr-cx-pair", [], e(X, (CXI, """            let (from, to) = if first_parent {
                (parent1, parent2)
            } else {
                (parent2, parent1)
            };
            let gene = from[index];
            offspring[index] = gene;
            index = find_position(&gene, to).unwrap();
"""))),
 ("fr-spx-min", [], e(X, (SPX, "    let point = point.min(parent1.len());\n    let mut offspring = Vec::with_capacity(parent1.len());\n    offspring.extend_from_slice(&parent1[..point]);\n    offspring.extend_from_slice(&parent2[point..]);\n    offspring\n"))),
 ("fr-spx-map", [], e(X, (SPX, "    (0..parent1.len())\n        .map(|i| if i < point { parent1[i] } else { parent2[i] })\n        .collect()\n"))),
 ("fr-findpos-loop", [], e(X, ("    genome.iter().position(|gene| gene == target_gene)\n", "    for (position, gene) in genome.iter().enumerate() {\n        if gene == target_gene {\n            return Some(position);\n        }\n    }\n    None\n"))),
 ("fr-xo-empty-first", [], e(X, ("            Self::SinglePoint => {\n                let point = rng.gen_range(0..parent1.len());\n", "            Self::SinglePoint => {\n                let n = parent1.len();\n                let point = rng.gen_range(0..n);\n"))),
 # ---- mutation
 ("fr-mut-shared-guard", [], e(MU, ("    let (p1, p2) = random_pair(n, rng);\n    genome.swap(p1, p2);\n", "    let pair = random_pair(n, rng);\n    genome.swap(pair.0, pair.1);\n"))),
 ("fr-mut-insert-match", [], e(MU, ("    let (mut p1, mut p2) = random_pair(n, rng);\n    if p1 > p2 {\n        std::mem::swap(&mut p1, &mut p2);\n    }\n    genome[p1..=p2].rotate_right(1);\n", "    let (from, to) = match random_pair(n, rng) {\n        (a, b) if a > b => (b, a),\n        pair => pair,\n    };\n    genome[from..to + 1].rotate_right(1);\n"))),
 ("fr-mut-scramble-slice", [], e(MU, ("    let range = bounded_random_range(n, 2, n, rng);\n    genome[range].shuffle(rng);\n", "    let std::ops::Range { start, end } = bounded_random_range(n, 2, n, rng);\n    let part = &mut genome[start..end];\n    part.shuffle(rng);\n"))),
 ("fr-mut-dup-gene", [], e(MU, ("    let (p1, p2) = random_pair(n, rng);\n    genome[p2] = genome[p1];\n", "    let (source, target) = random_pair(n, rng);\n    let gene = genome[source];\n    let slot = &mut genome[target];\n    *slot = gene;\n"))),
 # ---- one max
 ("fr-onemax-map-sum", [], e(L, (EVAL, "            let genome = individual.genome();\n            let ones: usize = genome.iter().map(|&one| usize::from(one)).sum();\n            individual.fitness = ones as f64 / genome.len() as f64;\n"))),
 ("fr-onemax-zeros", [], e(L, (EVAL, "            let mut one_bits = 0;\n            for &bit in &individual.genome {\n                if bit {\n                    one_bits += 1;\n                }\n            }\n            individual.fitness = one_bits as f64 / individual.genome.len() as f64;\n"))),
 ("fr-onemax-gen", [], e(L, ("            let bits = rng.sample_iter(Standard);\n            let genome = Vec::from_iter(bits.take(*length));\n            Self::from(genome)\n", "            let genome: Vec<bool> = (0..*length).map(|_| rng.gen()).collect();\n            genome.into()\n"))),
]
