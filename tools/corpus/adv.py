"""planted edits written from the property statements alone"""
S="src/operators/selection.rs"; M="src/operators/mutation.rs"; X="src/operators/crossover.rs"; O="src/operators.rs"
P="src/population.rs"; T="src/stats.rs"; A="src/algorithms.rs"; G="src/algorithms/ga.rs"; D="src/algorithms/aga.rs"; V="src/evolution.rs"; B="src/model.rs"; L="src/lib.rs"
def e(f,*p): return [(f,o,n) for o,n in p]
BUGS=[
 # cached last selection; only when the same size shows up again
 ("adv-tour-uniform-cache",["P10"],e(S,("            .take(self.size)\n","            .take(self.size.min(population.len()))\n"))),
 ("adv-tour-stagnation",["P10"],e(S,("            .take(self.size)\n","            .take(if population.stagnation() > 50 { 1 } else { self.size })\n"))),
 ("adv-tour-range-incl",["P10"],e(S,("Uniform::new(0, population.len())","Uniform::new_inclusive(0, population.len().saturating_sub(1).max(1) - (population.len() == 1) as usize)"),)) if False else ("adv-tour-from-one",["P10"],e(S,("Uniform::new(0, population.len())","Uniform::new((population.len() > 64) as usize, population.len())"))),
 ("adv-roul-skip-nonpos",["P11"],e(S,("            cumulative_fitness += individual.fitness();\n            if","            if individual.fitness() < 0.0 {\n                continue;\n            }\n            cumulative_fitness += individual.fitness();\n            if"))),
 ("adv-roul-prep-empty-total",["P11"],e(S,("        self.total_fitness = population.par_iter().map(|i| i.fitness()).sum();","        if population.stagnation() == 0 {\n            self.total_fitness = population.par_iter().map(|i| i.fitness()).sum();\n        }"))),
 ("adv-roul-kahan",["P11"],e(S,("let target_fitness = rng.gen::<f64>() * self.total_fitness;","let target_fitness = (1.0 - rng.gen::<f64>()) * self.total_fitness;"))),
 ("adv-bolt-temp-floor",["P11"],e(S,("        self.temperature *= self.cooling_rate;","        self.temperature = (self.temperature * self.cooling_rate).max(f64::EPSILON);"))),
 ("adv-bolt-gen0",["P11"],e(S,("        self.temperature *= self.cooling_rate;","        if population.generation() != 0 {\n            self.temperature *= self.cooling_rate;\n        }"))),
 ("adv-bolt-shifted",["P11"],e(S,("(individual.fitness() / self.temperature).exp()","(individual.fitness() / self.temperature).min(700.0).exp()"))),
 ("adv-rank-equal-skip",["P12"],e(S,("            cumulative_rank += index + 1;","            cumulative_rank += if individual.fitness() > 0.0 { index + 1 } else { 1 };"))),
 ("adv-elitist-unique",["P12"],e(S,("        let index = rng.gen_range(selection_bound..population.len());\n        (index","        let mut index = rng.gen_range(selection_bound..population.len());\n        if index == selection_bound && index + 1 < population.len() {\n            index = rng.gen_range(selection_bound..population.len());\n        }\n        (index"))),
 ("adv-linear-stats",["P12"],e(S,("let index = population.len() - 1 - offset.min(population.len() - 1);","let index = if population.stats().std() == 0.0 { 0 } else { population.len() - 1 - offset.min(population.len() - 1) };"))),
 ("adv-distinct-minus",["P13"],e(S,("for _ in 0..max_tries {","for _ in 1..max_tries {"))),
 ("adv-distinct-at-least-one",["P13"],e(S,("for _ in 0..max_tries {","for _ in 0..max_tries.max(1) {"))),
 ("adv-distinct-fit",["P13"],e(S,("            if candidate != excluded {","            if candidate != excluded && candidate.is_valid() {"))),
 ("adv-set-size-late",["P15"],e(S,("    pub fn set_size(&mut self, size: usize) {\n        assert!(size != 0);\n        self.size = size","    pub fn set_size(&mut self, size: usize) {\n        self.size = size;\n        assert!(size != 0);"))),
 ("adv-set-cooling",["P15"],e(S,("    pub fn set_cooling_rate(&mut self, cooling_rate: f64) {\n        assert!(cooling_rate != 0.0);","    pub fn set_cooling_rate(&mut self, cooling_rate: f64) {\n        assert!(cooling_rate > 0.0);"))),
 ("adv-set-ratio",["P15"],e(S,("    pub fn set_ratio(&mut self, ratio: f64) {\n        assert!((0.0..1.0).contains(&ratio));","    pub fn set_ratio(&mut self, ratio: f64) {\n        assert!((0.0..=1.0).contains(&ratio));"))),
 ("adv-swap-adjacent-small",["P19"],e(M,("    let (p1, p2) = random_pair(n, rng);\n    genome.swap(p1, p2);","    let p1 = rng.gen_range(0..n);\n    let p2 = rng.gen_range(0..n);\n    genome.swap(p1, p2);"))),
 ("adv-scramble-whole-three",["P19"],e(M,("    let range = bounded_random_range(n, 2, n, rng);\n    genome[range].shuffle(rng);","    let range = bounded_random_range(n, 1, n - 1, rng);\n    genome[range].shuffle(rng);"))),
 ("adv-insert-two",["P19"],e(M,("genome[p1..=p2].rotate_right(1);","genome[p1..=p2].rotate_right(2);"))),
 ("adv-invert-skip-even",["P19"],e(M,("    genome[range].reverse();","    let (start, end) = (range.start, range.end);\n    for k in 0..(end - start - 1) / 2 {\n        genome.swap(start + k, end - 1 - k);\n    }"))),
 ("adv-dup-range",["P23"],e(M,("    genome[p2] = genome[p1];","    genome[p2] = genome[p1];\n    if n > 16 {\n        let (p1, p2) = random_pair(n, rng);\n        genome[p2] = genome[p1];\n    }"))),
 ("adv-pair-ordered",["P24"],e(O,("    (p1, p2)\n}","    if n > 2 { (p1.min(p2), p1.max(p2)) } else { (p1, p2) }\n}"))),
 ("adv-range-clamp",["P24"],e(O,("    let start = rng.gen_range(0..=(n - length));\n","    let start = rng.gen_range(0..n).min(n - length);\n"))),
 ("adv-cmp-total",["P31"],e(O,("    a.fitness()\n        .partial_cmp(&b.fitness())\n        .unwrap_or(std::cmp::Ordering::Equal)","    a.fitness().total_cmp(&b.fitness())"))),
 ("adv-pop-nan-best",["P08"],e(P,("        if self.stats.max() > previous_best {","        if !(self.stats.max() <= previous_best) {"))) if False else ("adv-pop-rel-eps",["P08"],e(P,("        if self.stats.max() > previous_best {","        if self.stats.max() - previous_best > f64::EPSILON {"))),
 ("adv-pop-stag-from-fittest",["P08"],e(P,("        std::mem::swap(&mut self.individuals, new_population);\n        let previous_best = self.stats.max();","        std::mem::swap(&mut self.individuals, new_population);\n        let previous_best = new_population.first().map_or(self.stats.max(), |i| i.fitness().max(self.stats.min()));"))),
 ("adv-pop-into-rev",["P06"],e(P,("        population.individuals\n    }\n}","        let mut individuals = population.individuals;\n        individuals.truncate(population.stats.arg_max() + 1);\n        individuals\n    }\n}"))) if False else ("adv-pop-fittest-last",["P06"],e(P,("        &self.individuals[self.stats.arg_max()]","        &self.individuals[self.stats.arg_max().max(self.generation.min(self.individuals.len() - 1))]"))),
 ("adv-stats-init-zero",["P27"],e(T,("        let mut max = first_sample;\n        let mut arg_max = 0;\n        let mut avg = first_sample;","        let mut max = first_sample.max(0.0);\n        let mut arg_max = 0;\n        let mut avg = first_sample;"))),
 ("adv-stats-argmin-last",["P27"],e(T,("            if sample < self.min {\n                self.min = sample;\n                self.arg_min = self.count;","            if sample < self.min {\n                self.min = sample;\n                self.arg_min = self.count.min(u32::MAX as usize);"))),
 ("adv-stats-delta-cast",["P27"],e(T,("            self.avg += delta / self.count as f64;","            self.avg += delta / self.count as u16 as f64;"))),
 ("adv-stats-var-max0",["P27"],e(T,("            _ => Some(self.sum_squared / (self.count - 1) as f64),","            _ => Some(self.sum_squared / (self.count.min(1 << 20) - 1) as f64),"))),
 ("adv-setargmin-both",["P28"],e(T,("        assert!(arg_min < self.count());\n        self.stats.arg_min = arg_min;","        assert!(arg_min < self.count());\n        self.stats.arg_min = arg_min;\n        if self.stats.count == 1 + arg_min {\n            self.stats.arg_max = arg_min;\n        }"))),
 ("adv-setargmax-le",["P28"],e(T,("        assert!(arg_max < self.count());","        assert!(arg_max <= self.count());"))),
 ("adv-extend-full-cap",["P29"],e(B,("        individuals.reserve(size);\n        individuals.par_extend(\n            rayon::iter::repeatn(args, size)","        individuals.reserve(size);\n        let size = size - (individuals.len() % size).min(1);\n        individuals.par_extend(\n            rayon::iter::repeatn(args, size)"))),
 ("adv-extend-with-two-clones",["P29"],e(B,("        if size == 1 {\n            return;\n        }\n","        if size == 1 {\n            return;\n        }\n        individuals.push(model.clone());\n        let size = size - 1;\n"))),
 ("adv-breed-rate-clamped",["P17"],e(B,("if rng.gen::<f64>() < parameters.mutation_rate {","if rng.gen::<f64>() < parameters.mutation_rate.min(0.95) {"))),
 ("adv-breed-mut-if-same",["P17"],e(B,("if rng.gen::<f64>() < parameters.mutation_rate {","if parent2.is_none() || rng.gen::<f64>() < parameters.mutation_rate {"))),
 ("adv-breed-equal-parent",["P03"],e(B,("            if parent2.fitness() > parent1.fitness() {\n                fittest_parent = parent2;","            if parent2.fitness().abs() > parent1.fitness().abs() {\n                fittest_parent = parent2;"))),
 ("adv-breed-tries",["P41","P13"],e(B,("        if rng.gen::<f64>() < parameters.mutation_rate {\n            self.mutate(&mut offspring, rng);","        if rng.gen::<f64>() < parameters.mutation_rate {\n            self.mutate(&mut offspring, rng);\n            if offspring == *parent1 {\n                self.mutate(&mut offspring, rng);\n            }"))[:1]) if False else ("adv-breed-remutate",["P41"],e(B,("        if rng.gen::<f64>() < parameters.mutation_rate {\n            self.mutate(&mut offspring, rng);","        if rng.gen::<f64>() < parameters.mutation_rate {\n            self.mutate(&mut offspring, rng);\n            if offspring == *parent1 {\n                self.mutate(&mut offspring, rng);\n            }"))),
 ("adv-survive-stagnation",["P03"],e(B,("        _population: &Population<Self::Individual>,\n        _rng: &mut Self::Rng,\n    ) -> bool {\n        offspring.fitness() >= fittest_parent.fitness()","        population: &Population<Self::Individual>,\n        _rng: &mut Self::Rng,\n    ) -> bool {\n        population.stagnation() > 100 || offspring.fitness() >= fittest_parent.fitness()"))),
 ("adv-init-valid-first",["P02"],e(A,("        individuals\n            .par_iter_mut()\n            .for_each_with(self.model(), |model, individual| model.evaluate(individual));","        individuals\n            .par_iter_mut()\n            .filter(|individual| individual.fitness() == 0.0)\n            .for_each_with(self.model(), |model, individual| model.evaluate(individual));"))),
 ("adv-gen-empty-extra",["P05"],e(A,("match offspring_size.saturating_sub(offspring.len()) {","match offspring_size.saturating_sub(offspring.len()).max(1) {"))),
 ("adv-gen-pop-limited",["P05"],e(A,("match offspring_size.saturating_sub(offspring.len()) {","match (offspring_size.min(2 * population.len())).saturating_sub(offspring.len()) {"))),
 ("adv-default-elites-none",["P04"],e(A,("        elites.push(population.fittest().clone())","        if population.generation() != 0 {\n            elites.push(population.fittest().clone())\n        }"))),
 ("adv-elite-stagnant",["P04"],e(G,("            let range_start = population.len().saturating_sub(self.elite_size);","            let range_start = population.len().saturating_sub(self.elite_size.max(population.stagnation() / 100));"))),
 ("adv-aga-elite-round",["P04"],e(L,("    (min as f64 + (max - min) as f64 * ratio) as usize","    (min as f64 + (max - min) as f64 * ratio + 1e-9) as usize"))),
 ("adv-interp-lerp",["P18"],e(L,("    min + (max - min) * ratio\n","    min + (max - min) * ratio * ratio\n"))),
 ("adv-aga-interval-offset",["P18"],e(D,("n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0","n if self.adjustment_interval != 0 && (n + 1) % self.adjustment_interval == 0"))),
 ("adv-aga-stag",["P18"],e(D,("                let diversity = population.stats().std() / self.reference_std;","                if population.stagnation() == 0 {\n                    self.reference_std = self.reference_std.max(population.stats().std());\n                }\n                let diversity = population.stats().std() / self.reference_std;"))),
 ("adv-aga-rates-if-changed",["P16"],e(D,("        match population.generation() {\n            0 => {\n                self.reference_std = population.stats().std();\n                self.breeding.crossover_rate","        match population.generation() {\n            0 => {\n                if self.reference_std == 0.0 {\n                    self.reference_std = population.stats().std();\n                }\n                self.breeding.crossover_rate"))),
 ("adv-ga-keep-boltzmann",["P16"],e(G,("        self.breeding.parent_selector = parameters.selection_strategy.create_selector();","        if self.population_size != parameters.population_size || self.elite_size != 0 {\n            self.breeding.parent_selector = parameters.selection_strategy.create_selector();\n        }"))),
 ("adv-progress-only-changed",["P01"],e(V,("        while progress(&population) {","        while population.generation() % 1000 == 999 || progress(&population) {"))),
 ("adv-run-stop-perfect",["P01"],e(V,("            // Replace the current population with the new one\n","            if new_population.is_empty() {\n                break;\n            }\n            // Replace the current population with the new one\n"))) if False else ("adv-run-stop-stuck",["P01"],e(V,("        while progress(&population) {\n","        while progress(&population) {\n            if population.stagnation() > 10_000 {\n                break;\n            }\n"))),
 ("adv-evolve-twice-first",["P01"],e(V,("            .take_fittest()\n    }\n\n    /// Evolves a single","            .take_fittest()\n    }\n\n    /// Evolves a single"),) ) if False else ("adv-evolve-individual-orig",["P01"],e(V,("            individual,\n        );\n        self.evolve_population(individuals, parameters, progress)\n            .take_fittest()","            individual.clone(),\n        );\n        let population = self.evolve_population(individuals, parameters, progress);\n        if population.fittest().fitness() < individual.fitness() {\n            return individual;\n        }\n        population.take_fittest()"))),
 ("adv-spx-half",["P26"],e(X,("CrossoverStrategy::SinglePoint","CrossoverStrategy::SinglePoint"))) if False else ("adv-parts-reverse",["P33"],e(O,("        partitions.push(partition);\n","        if partition.len() > 2 && partition[0] > partition[partition.len() - 1] {\n            partition.reverse();\n        }\n        partitions.push(partition);\n"))),
 ("adv-neigh-dedup-short",["P33"],e(O,("if genome1.len() < 2 || genome2.len() <= 2 {","if genome1.len() <= 3 || genome2.len() <= 3 {"))),
 ("adv-onemax-empty",["P34"],e(L,("            let total_bits = individual.genome.len();","            let total_bits = individual.genome.len().max(8);"))),
 ("adv-onemax-cached",["P34"],e(L,("            let one_bits = individual","            if individual.fitness > 0.0 {\n                return;\n            }\n            let one_bits = individual"))),
]
BENIGN=[]
