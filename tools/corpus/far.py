"""One more independent set of refactorings: helpers extracted, loops rewritten, statements reordered."""
A, AGA, GA = "src/algorithms.rs", "src/algorithms/aga.rs", "src/algorithms/ga.rs"
EV, M, L, IND = "src/evolution.rs", "src/model.rs", "src/lib.rs", "src/individual.rs"
O, X, MU, S = "src/operators.rs", "src/operators/crossover.rs", "src/operators/mutation.rs", "src/operators/selection.rs"
P, T = "src/population.rs", "src/stats.rs"

WHEEL = """        let target_fitness = rng.gen::<f64>() * self.total_fitness;
        let mut cumulative_fitness = 0.0;
        for (index, individual) in population.iter().enumerate() {
            cumulative_fitness += individual.fitness();
            if cumulative_fitness >= target_fitness {
                return (index, individual);
            }
        }
        (population.len() - 1, population.last().unwrap())
"""
BWHEEL = WHEEL.replace("total_fitness", "total_scaled_fitness").replace("individual.fitness()", "self.scaled_fitness(individual)")
RANKL = """        let mut cumulative_rank = 0;
        for (index, individual) in population.iter().enumerate() {
            cumulative_rank += index + 1;
            if cumulative_rank >= target_rank {
                return (index, individual);
            }
        }
        (0, population.first().unwrap())
"""
DISTINCT = """        for _ in 0..max_tries {
            let (index, candidate) = self.select(population, rng);
            if candidate != excluded {
                return Some((index, candidate));
            }
        }
        None
"""
TOUR = """        rng.sample_iter(Uniform::new(0, population.len()))
            .take(self.size)
            .max() // The population is already sorted by the fitness of individuals
            .map(|i| (i, &population[i]))
            .unwrap()
"""
LINE = """        let index = population.len() - 1 - offset.min(population.len() - 1);
        (index, &population[index])
"""
BREEDTAIL = """        if offspring.is_valid() && self.can_survive(&offspring, fittest_parent, population, rng) {
            offspring
        } else {
            fittest_parent.clone()
        }
"""
P2 = """        let parent2 = if population.len() > 1 && rng.gen::<f64>() < parameters.crossover_rate {
            parameters
                .parent_selector
                .select_distinct(population, rng, 3, parent1)
                .map(|(_, parent)| parent)
        } else {
            None
        };
"""
OFF = """        let mut fittest_parent = parent1;
        let mut offspring = if let Some(parent2) = parent2 {
            if parent2.fitness() > parent1.fitness() {
                fittest_parent = parent2;
            }
            self.crossover(parent1, parent2, rng)
        } else {
            parent1.clone()
        };
"""
REPL = """        std::mem::swap(&mut self.individuals, new_population);
        let previous_best = self.stats.max();
        self.stats = sort_dedup_and_collect_stats(&mut self.individuals);
        self.generation += 1;
        if self.stats.max() > previous_best {
            self.stagnation = 0;
        } else {
            self.stagnation += 1;
        }
"""
SORTED = """    individuals
        .iter()
        .map(|i| i.fitness())
        .collect::<Stats>()
        .try_into()
        .unwrap()
"""
GEN = """        match offspring_size.saturating_sub(offspring.len()) {
            0 => {}
            1 => {
"""
ELITE = """        if self.elite_size != 0 {
            let range_start = population.len().saturating_sub(self.elite_size);
            elites.extend(population[range_start..].iter().cloned());
        }
"""
NEXT1 = """        let next1 = parent1[if current_pos1 + 1 != n {
            current_pos1 + 1
        } else {
            0
        }];
        let next2 = parent2[if current_pos2 + 1 != n {
            current_pos2 + 1
        } else {
            0
        }];
"""
SCXSEL = """            parent1
                .iter()
                .find(|gene| !visited.contains(gene))
                .copied()
                .unwrap()
        } else if is_next1_visited {"""
PMXL = """    for (i, gene) in offspring.iter_mut().enumerate() {
        if !range.contains(&i) {
            let mut mapped_gene = parent2[i];
            while let Some(pos) = find_position(&mapped_gene, start) {
                mapped_gene = end[pos];
            }
            *gene = mapped_gene
        }
    }
"""
OXL = """    while index1 != p1 {
        if !genome[p1..p2].contains(&parent2[index2]) {
            genome[index1] = parent2[index2];
            index1 += 1;
            if index1 == n {
                index1 = 0;
            }
        }
        index2 += 1;
        if index2 == n {
            index2 = 0;
        }
    }
"""
CYCT = """        if let Some(next_start) = visited.iter().position(|&x| !x) {
            cycle_start = next_start;
        } else {
            break;
        }
"""
CYCI = """            offspring[index] = if first_parent {
                parent1[index]
            } else {
                parent2[index]
            };

            // Find the index of the current element in the other parent
            index = if first_parent {
                find_position(&parent1[index], parent2).unwrap()
            } else {
                find_position(&parent2[index], parent1).unwrap()
            };
"""
GPXS = """        genes_in_selected_partition.clear();
        genes_in_selected_partition.extend(partition.iter().copied());
"""
GPXR = """        for other_partition in &mut partitions {
            other_partition.retain(|gene| !genes_in_selected_partition.contains(gene));
        }

        // Remove empty partitions
        partitions.retain(|partition| !partition.is_empty());
"""
ERXN = """    [parent1, parent2]
        .iter()
        .flat_map(|genome| {
            genome.iter().enumerate().map(|(i, &gene)| {
                let prev = if i != 0 { i - 1 } else { n - 1 };
                let next = if i + 1 != n { i + 1 } else { 0 };
                (gene, [genome[prev], genome[next]])
            })
        })
        .for_each(|(gene, neighbors)| {
            neighbor_lists
                .entry(gene)
                .or_insert_with(HashSet::new)
                .extend(neighbors);
        });
"""
ERXR = """        for neighbors in neighbor_lists.values_mut() {
            neighbors.remove(&current);
        }
"""
EXTW = """        individuals.par_extend(rayon::iter::repeatn(model, size - 1).map_init(
            Self::rng,
            |rng, mut new_individual| {
                self.mutate(&mut new_individual, rng);
                new_individual
            },
        ));
"""
INIT = """        individuals
            .par_iter_mut()
            .for_each_with(self.model(), |model, individual| model.evaluate(individual));
        individuals.retain(|individual| individual.is_valid());

        Population::new(individuals)
"""
AGAD = """                let diversity = population.stats().std() / self.reference_std;
                let diversity = if diversity.is_nan() {
                    0.0 // The fitness scores of the reference population were all the same
                } else {
                    diversity.clamp(0.0, 1.0)
                };
"""

BENIGN = [
    ("fa-wheel-while", None, [(S, WHEEL, """        let mut remaining = population.iter().enumerate();
        let goal = self.total_fitness * rng.gen::<f64>();
        let mut reached = 0.0;
        while let Some((at, one)) = remaining.next() {
            reached += one.fitness();
            if goal <= reached {
                return (at, one);
            }
        }
        let last = population.len() - 1;
        (last, &population[last])
""")]),
    ("fa-wheel-loop-index", None, [(S, WHEEL, """        let goal = rng.gen::<f64>() * self.total_fitness;
        let last = population.len() - 1;
        let mut at = 0;
        let mut reached = population[0].fitness();
        while reached < goal && at < last {
            at += 1;
            reached += population[at].fitness();
        }
        (at, &population[at])
""")]),
    ("fa-boltz-position", None, [(S, BWHEEL, """        let target = rng.gen::<f64>() * self.total_scaled_fitness;
        let mut sum = 0.0;
        let index = population
            .iter()
            .position(|individual| {
                sum += self.scaled_fitness(individual);
                sum >= target
            })
            .unwrap_or(population.len() - 1);
        (index, &population[index])
""")]),
    ("fa-boltz-free-weight", None, [(S, """    #[inline]
    fn scaled_fitness<I: Individual>(&self, individual: &I) -> f64 {
        (individual.fitness() / self.temperature).exp()
    }
""", """    #[inline]
    fn scaled_fitness<I: Individual>(&self, individual: &I) -> f64 {
        boltzmann_weight(individual.fitness(), self.temperature)
    }
"""), (S, "impl<I, R> SelectionMechanism<I, R> for BoltzmannSelection", """#[inline]
fn boltzmann_weight(energy: f64, temperature: f64) -> f64 {
    let exponent = energy / temperature;
    exponent.exp()
}

impl<I, R> SelectionMechanism<I, R> for BoltzmannSelection""")]),
    ("fa-rank-countdown", None, [(S, RANKL, """        let mut left = target_rank;
        for (index, individual) in population.iter().enumerate() {
            let rank = index + 1;
            if left <= rank {
                return (index, individual);
            }
            left -= rank;
        }
        (0, population.first().unwrap())
""")]),
    ("fa-rank-helper", None, [(S, "        let total_ranks = n * (n + 1) / 2;\n", "        let total_ranks = triangular(n);\n"), (S, "pub struct ElitistSelection {", "#[inline]\nfn triangular(n: usize) -> usize {\n    n * (n + 1) / 2\n}\n\n/// Elitist.\npub struct ElitistSelection {")]),
    ("fa-distinct-find", None, [(S, DISTINCT, """        let mut tries_left = max_tries;
        while tries_left > 0 {
            tries_left -= 1;
            match self.select(population, rng) {
                (_, candidate) if candidate == excluded => continue,
                picked => return Some(picked),
            }
        }
        None
""")]),
    ("fa-distinct-from-fn", None, [(S, DISTINCT, """        let mut picked = None;
        let mut tries = 0;
        while picked.is_none() && tries < max_tries {
            let (index, candidate) = self.select(population, rng);
            picked = if candidate != excluded { Some((index, candidate)) } else { None };
            tries += 1;
        }
        picked
""")]),
    ("fa-tournament-fold", None, [(S, TOUR, """        let draws = Uniform::new(0, population.len());
        let mut best = rng.sample(draws);
        for _ in 1..self.size {
            best = best.max(rng.sample(draws));
        }
        (best, &population[best])
""")]),
    ("fa-linear-let", None, [(S, LINE, """        let last = population.len() - 1;
        let index = last.saturating_sub(offset);
        (index, &population[index])
""")]),
    ("fa-linear-parts", None, [(S, """        let offset = ((population.len() as f64)
            * (self.bias
                - ((self.bias * self.bias - 4.0 * (self.bias - 1.0) * rng.gen::<f64>()).sqrt()))
            / 2.0
            / (self.bias - 1.0)) as usize;
""", """        let bias = self.bias;
        let slope = bias - 1.0;
        let u = rng.gen::<f64>();
        let root = (bias * bias - 4.0 * slope * u).sqrt();
        let n = population.len() as f64;
        let offset = (n * (bias - root) / 2.0 / slope) as usize;
""")]),
    ("fa-elitist-parts", None, [(S, """        let selection_bound = (population.len() as f64 * self.ratio).floor() as usize;
        let index = rng.gen_range(selection_bound..population.len());
""", """        let n = population.len();
        let skipped = (self.ratio * n as f64) as usize;
        let index = skipped + rng.gen_range(0..n - skipped);
""")]),
    ("fa-breed-early", None, [(M, BREEDTAIL, """        if !offspring.is_valid() {
            return fittest_parent.clone();
        }
        match self.can_survive(&offspring, fittest_parent, population, rng) {
            true => offspring,
            false => fittest_parent.clone(),
        }
""")]),
    ("fa-breed-then", None, [(M, P2, """        let mates = population.len() > 1 && rng.gen::<f64>() < parameters.crossover_rate;
        let selector = &parameters.parent_selector;
        let parent2 = mates
            .then(|| selector.select_distinct(population, rng, 3, parent1))
            .flatten()
            .map(|pair| pair.1);
""")]),
    ("fa-breed-match", None, [(M, OFF, """        let (fittest_parent, mut offspring) = match parent2 {
            None => (parent1, parent1.clone()),
            Some(parent2) => {
                let child = self.crossover(parent1, parent2, rng);
                let fittest = if parent2.fitness() > parent1.fitness() {
                    parent2
                } else {
                    parent1
                };
                (fittest, child)
            }
        };
""")]),
    ("fa-breed-helper", None, [(M, """        self.improve(&mut offspring);
        self.evaluate(&mut offspring);

        if offspring""", """        finish(self, &mut offspring);

        if offspring"""), (M, "pub struct ReproductionParameters<M: EvolutionModel> {", "#[inline]\nfn finish<M: EvolutionModel>(model: &M, offspring: &mut M::Individual) {\n    model.improve(offspring);\n    model.evaluate(offspring);\n}\n\n/// Parameters.\npub struct ReproductionParameters<M: EvolutionModel> {")]),
    ("fa-replace-order", None, [(P, REPL, """        let Self { individuals, generation, stagnation, stats } = self;
        std::mem::swap(individuals, new_population);
        *generation += 1;
        let fresh = sort_dedup_and_collect_stats(individuals);
        let improved = fresh.max() > stats.max();
        *stagnation = if improved { 0 } else { *stagnation + 1 };
        *stats = fresh;
""")]),
    ("fa-replace-take", None, [(P, REPL, """        let mut incoming = std::mem::take(new_population);
        let stats = sort_dedup_and_collect_stats(&mut incoming);
        *new_population = std::mem::replace(&mut self.individuals, incoming);
        let old = std::mem::replace(&mut self.stats, stats);
        if self.stats.max() <= old.max() {
            self.stagnation += 1;
        } else {
            self.stagnation = 0;
        }
        self.generation += 1;
""")]),
    ("fa-sdc-dedup-by", None, [(P, "    individuals.dedup();\n", "    individuals.dedup_by(|a, b| a == b);\n")]),
    ("fa-ga-elites-skip", None, [(GA, ELITE, """        let kept = self.elite_size.min(population.len());
        let dropped = population.len() - kept;
        for elite in population.iter().skip(dropped) {
            elites.push(elite.clone());
        }
""")]),
    ("fa-aga-elites-rev", None, [(AGA, ELITE, """        if self.elite_size == 0 {
            return;
        }
        let first = match population.len().checked_sub(self.elite_size) {
            Some(first) => first,
            None => 0,
        };
        elites.extend_from_slice(&population[first..]);
""")]),
    ("fa-gen-if", None, [(A, GEN, """        let missing = offspring_size - offspring_size.min(offspring.len());
        match missing {
            0 => (),
            1 => {
""")]),
    ("fa-init-partition", None, [(A, INIT, """        let model = self.model();
        individuals
            .par_iter_mut()
            .for_each(|individual| model.evaluate(individual));
        let (valid, _): (Vec<_>, Vec<_>) = individuals.into_iter().partition(|i| i.is_valid());
        Population::new(valid)
""")]),
    ("fa-init-filter", None, [(A, INIT, """        let model = self.model();
        individuals.par_iter_mut().for_each(|individual| {
            model.evaluate(individual);
        });
        let valid = individuals
            .into_iter()
            .filter(Individual::is_valid)
            .collect();
        Population::new(valid)
""")]),
    ("fa-extw-range", None, [(M, EXTW, """        individuals.par_extend((1..size).into_par_iter().map_init(Self::rng, |rng, _| {
            let mut variant = model.clone();
            self.mutate(&mut variant, rng);
            variant
        }));
""")]),
    ("fa-aga-diversity-fn", None, [(AGA, AGAD, """                let diversity = relative(population.stats().std(), self.reference_std);
"""), (AGA, "impl<M: EvolutionModel> From<M> for AdaptiveGeneticAlgorithm<M> {", """#[inline]
fn relative(std: f64, reference: f64) -> f64 {
    match std / reference {
        ratio if ratio.is_nan() => 0.0,
        ratio => ratio.clamp(0.0, 1.0),
    }
}

impl<M: EvolutionModel> From<M> for AdaptiveGeneticAlgorithm<M> {""")]),
    ("fa-scx-cyclic-fn", None, [(X, NEXT1, """        let next1 = successor(parent1, current_pos1);
        let next2 = successor(parent2, current_pos2);
"""), (X, "#[inline]\nfn find_position", """#[inline]
fn successor<G: Copy>(genome: &[G], position: usize) -> G {
    match genome.get(position + 1) {
        Some(&gene) => gene,
        None => genome[0],
    }
}

#[inline]
fn find_position""")]),
    ("fa-scx-rem", None, [(X, NEXT1, """        let (next1, next2) = (parent1[(current_pos1 + 1) % n], parent2[(current_pos2 + 1) % n]);
""")]),
    ("fa-scx-copied-find", None, [(X, SCXSEL, """            *parent1.iter().find(|&gene| !visited.contains(gene)).unwrap()
        } else if is_next1_visited {""")]),
    ("fa-pmx-outside", None, [(X, PMXL, """    for i in (0..p1).chain(p2..n) {
        let mut gene = parent2[i];
        while let Some(pos) = find_position(&gene, start) {
            gene = end[pos];
        }
        offspring[i] = gene;
    }
""")]),
    ("fa-pmx-closure", None, [(X, PMXL, """    let resolve = |mut gene: G| {
        loop {
            match find_position(&gene, start) {
                Some(pos) => gene = end[pos],
                None => break gene,
            }
        }
    };
    for i in 0..n {
        if i < p1 || i >= p2 {
            offspring[i] = resolve(parent2[i]);
        }
    }
""")]),
    ("fa-ox-wrap-fn", None, [(X, OXL, """    while index1 != p1 {
        let gene = parent2[index2];
        if !genome[p1..p2].contains(&gene) {
            genome[index1] = gene;
            index1 = after(index1, n);
        }
        index2 = after(index2, n);
    }
"""), (X, "#[inline]\nfn find_position", """#[inline]
fn after(index: usize, n: usize) -> usize {
    if index + 1 == n { 0 } else { index + 1 }
}

#[inline]
fn find_position""")]),
    ("fa-ox-source-slice", None, [(X, OXL, """    let kept = &parent1[p1..p2];
    while index1 != p1 {
        let candidate = parent2[index2];
        let taken = kept.iter().any(|gene| *gene == candidate);
        if !taken {
            genome[index1] = candidate;
            index1 = (index1 + 1) % n;
        }
        index2 = (index2 + 1) % n;
    }
""")]),
    ("fa-cx-sources", None, [(X, CYCI, """            let (from, other) = if first_parent {
                (parent1, parent2)
            } else {
                (parent2, parent1)
            };
            let gene = from[index];
            offspring[index] = gene;
            index = find_position(&gene, other).unwrap();
""")]),
    ("fa-cx-match", None, [(X, CYCT, """        match visited.iter().position(|seen| !*seen) {
            None => return offspring,
            Some(start) => cycle_start = start,
        }
""")]),
    ("fa-gpx-fresh-set", None, [(X, GPXS, "        genes_in_selected_partition = partition.iter().copied().collect::<HashSet<G>>();\n"), (X, "    let mut genes_in_selected_partition = HashSet::with_capacity(offspring.len());", "    let mut genes_in_selected_partition: HashSet<G>;")]),
    ("fa-gpx-one-retain", None, [(X, GPXR, """        partitions.retain_mut(|other| {
            other.retain(|gene| !genes_in_selected_partition.contains(gene));
            !other.is_empty()
        });
""")]),
    ("fa-erx-loops", None, [(X, ERXN, """    for genome in [parent1, parent2] {
        for i in 0..n {
            let prev = if i == 0 { n - 1 } else { i - 1 };
            let next = if i == n - 1 { 0 } else { i + 1 };
            let neighbors: &mut HashSet<G> = neighbor_lists.entry(genome[i]).or_default();
            neighbors.insert(genome[prev]);
            neighbors.insert(genome[next]);
        }
    }
""")]),
    ("fa-erx-remove-each", None, [(X, ERXR, """        neighbor_lists.values_mut().for_each(|neighbors| {
            neighbors.remove(&current);
        });
""")]),
    ("fa-swap-mem", None, [(MU, "    genome.swap(p1, p2);\n", "    let (low, high) = if p1 < p2 { (p1, p2) } else { (p2, p1) };\n    let (left, right) = genome.split_at_mut(high);\n    std::mem::swap(&mut left[low], &mut right[0]);\n")]),
    ("fa-insertion-minmax", None, [(MU, """    let (mut p1, mut p2) = random_pair(n, rng);
    if p1 > p2 {
        std::mem::swap(&mut p1, &mut p2);
    }
    genome[p1..=p2].rotate_right(1);
""", """    let (p1, p2) = random_pair(n, rng);
    let segment = &mut genome[p1.min(p2)..p1.max(p2) + 1];
    let tail = segment.len() - 1;
    segment.rotate_left(tail);
""")]),
    ("fa-inversion-swaps", None, [(MU, "    genome[range].reverse();\n", """    let (mut low, mut high) = (range.start, range.end - 1);
    while low < high {
        genome.swap(low, high);
        low += 1;
        high -= 1;
    }
""")]),
    ("fa-segment-helper", None, [(MU, "    let range = bounded_random_range(n, 2, n, rng);\n    genome[range].shuffle(rng);\n", "    random_segment(genome, rng).shuffle(rng);\n"), (MU, "    let range = bounded_random_range(n, 2, n, rng);\n    genome[range].reverse();\n", "    random_segment(genome, rng).reverse();\n"), (MU, "impl MutationStrategy {", """#[inline]
fn random_segment<'a, G, R: Rng>(genome: &'a mut [G], rng: &mut R) -> &'a mut [G] {
    let n = genome.len();
    let range = bounded_random_range(n, 2, n, rng);
    &mut genome[range]
}

impl MutationStrategy {""")]),
    ("fa-dup-split", None, [(MU, "    genome[p2] = genome[p1];\n", "    let gene = genome[p1];\n    if let Some(slot) = genome.get_mut(p2) {\n        *slot = gene;\n    }\n")]),
    ("fa-evo-loop", None, [(EV, "        while progress(&population) {\n", "        loop {\n            if !progress(&population) {\n                break;\n            }\n")]),
    ("fa-evo-borrow-once", None, [(EV, """            // Perform elitism on the population
            self.algorithm
                .borrow()
                .select_elites(&population, &mut new_population);

            // Generate the new population
            self.algorithm.borrow().generate_new_population(
                &population,
                &mut new_population,
                &pool,
            );

            // Replace the current population with the new one
            self.algorithm
                .borrow()
                .replace_population(&mut population, &mut new_population);
""", """            let algorithm = self.algorithm.borrow();
            algorithm.select_elites(&population, &mut new_population);
            algorithm.generate_new_population(&population, &mut new_population, &pool);
            algorithm.replace_population(&mut population, &mut new_population);
""")]),
    ("fa-evo-advance", None, [(EV, """        while progress(&population) {
            // Reset the new population.
            new_population.clear();
""", """        loop {
            let proceed = progress(&population);
            if !proceed {
                return population;
            }
            new_population.clear();
"""), (EV, "                .replace_population(&mut population, &mut new_population);\n        }\n\n        population\n", "                .replace_population(&mut population, &mut new_population);\n        }\n")]),
]


def flagged(body, weight, cond, bind, init, last):
    return body

BUGS = [
    ("fb-distinct-last", ("P13",), [(S, DISTINCT, """        let mut picked = None;
        let mut tries = 0;
        while tries < max_tries {
            let (index, candidate) = self.select(population, rng);
            picked = if candidate != excluded { Some((index, candidate)) } else { picked };
            tries += 1;
        }
        picked
""")]),
    ("fb-distinct-forget", ("P13",), [(S, DISTINCT, """        let mut picked = None;
        let mut tries = 0;
        while tries < max_tries {
            let (index, candidate) = self.select(population, rng);
            picked = if candidate != excluded { Some((index, candidate)) } else { None };
            tries += 1;
        }
        picked
""")]),
    ("fb-distinct-after", ("P13",), [(S, DISTINCT, """        let mut picked = None;
        let mut tries = 0;
        while picked.is_none() && tries < max_tries {
            let (index, candidate) = self.select(population, rng);
            picked = if candidate != excluded || tries + 1 == max_tries { Some((index, candidate)) } else { None };
            tries += 1;
        }
        picked
""")]),
    ("fb-distinct-swapped", ("P13",), [(S, DISTINCT, """        let mut picked = self.select(population, rng);
        let mut tries = 1;
        while picked.1 == excluded && tries < max_tries {
            let next = self.select(population, rng);
            picked = (picked.0, next.1);
            tries += 1;
        }
        (picked.1 != excluded).then(|| picked)
""")]),
    ("fb-wheel-flag", ("P09",), [(S, WHEEL, """        let target_fitness = rng.gen::<f64>() * self.total_fitness;
        let mut cumulative_fitness = 0.0;
        let mut chosen = None;
        for (index, individual) in population.iter().enumerate() {
            cumulative_fitness += individual.fitness();
            if cumulative_fitness >= target_fitness {
                chosen = Some((index, individual));
            }
        }
        chosen.unwrap_or_else(|| (population.len() - 1, population.last().unwrap()))
""")]),
    ("fb-rank-last", ("P12",), [(S, RANKL, """        let mut chosen = 0;
        let mut sum = 0;
        while sum < target_rank {
            sum += chosen + 1;
            chosen += 1;
        }
        let chosen = chosen.min(n - 1);
        (chosen, &population[chosen])
""")]),
]

BENIGN += [
    ("fa-distinct-keep", None, [(S, DISTINCT, """        let mut picked = None;
        for _ in 0..max_tries {
            let (index, candidate) = self.select(population, rng);
            if candidate != excluded {
                picked = Some((index, candidate));
                break;
            }
        }
        picked
""")]),
    ("fa-distinct-done-flag", None, [(S, DISTINCT, """        let mut found = false;
        let mut result = None;
        let mut attempt = 0;
        while !found && attempt < max_tries {
            attempt += 1;
            let choice = self.select(population, rng);
            if choice.1 != excluded {
                found = true;
                result = Some(choice);
            }
        }
        result
""")]),
    ("fa-distinct-first-then", None, [(S, DISTINCT, """        if max_tries == 0 {
            return None;
        }
        let mut choice = self.select(population, rng);
        let mut tries = 1;
        while choice.1 == excluded && tries < max_tries {
            choice = self.select(population, rng);
            tries += 1;
        }
        if choice.1 == excluded {
            None
        } else {
            Some(choice)
        }
""")]),
    ("fa-distinct-recursive", None, [(S, DISTINCT, """        (0..max_tries)
            .map(|_| self.select(population, rng))
            .find(|(_, candidate)| *candidate != excluded)
""")]),
    ("fa-wheel-flag", None, [(S, WHEEL, """        let target_fitness = rng.gen::<f64>() * self.total_fitness;
        let mut cumulative_fitness = 0.0;
        let mut chosen = None;
        for (index, individual) in population.iter().enumerate() {
            cumulative_fitness += individual.fitness();
            if cumulative_fitness >= target_fitness {
                chosen = Some((index, individual));
                break;
            }
        }
        match chosen {
            Some(found) => found,
            None => (population.len() - 1, population.last().unwrap()),
        }
""")]),
    ("fa-wheel-flag-all", None, [(S, WHEEL, """        let target_fitness = rng.gen::<f64>() * self.total_fitness;
        let mut cumulative_fitness = 0.0;
        let mut chosen = None;
        for (index, individual) in population.iter().enumerate() {
            cumulative_fitness += individual.fitness();
            if chosen.is_none() && cumulative_fitness >= target_fitness {
                chosen = Some((index, individual));
            }
        }
        chosen.unwrap_or_else(|| (population.len() - 1, population.last().unwrap()))
""")]),
    ("fa-rank-while-flag", None, [(S, RANKL, """        let mut chosen = 0;
        let mut sum = 1;
        while sum < target_rank {
            chosen += 1;
            sum += chosen + 1;
        }
        (chosen, &population[chosen])
""")]),
    ("fa-boltz-flag", None, [(S, BWHEEL, """        let target = rng.gen::<f64>() * self.total_scaled_fitness;
        let mut sum = 0.0;
        let mut index = 0;
        let mut done = false;
        while !done {
            sum += self.scaled_fitness(&population[index]);
            done = sum >= target || index + 1 == population.len();
            if !done {
                index += 1;
            }
        }
        (index, &population[index])
""")]),
    ("fa-scx-flag", None, [(X, SCXSEL, """            let mut free = None;
            for gene in parent1 {
                if free.is_none() && !visited.contains(gene) {
                    free = Some(*gene);
                }
            }
            free.unwrap()
        } else if is_next1_visited {""")]),
    ("fa-cx-flag", None, [(X, CYCT, """        let mut found = false;
        for candidate in 0..n {
            if !visited[candidate] {
                cycle_start = candidate;
                found = true;
                break;
            }
        }
        if !found {
            break;
        }
""")]),
    ("fa-cx-scan-on", None, [(X, CYCT, """        while cycle_start < n && visited[cycle_start] {
            cycle_start += 1;
        }
""")]),
    ("fa-find-position-loop", None, [(X, "    genome.iter().position(|gene| gene == target_gene)\n", """    let mut found = None;
    let mut index = 0;
    while found.is_none() && index < genome.len() {
        if genome[index] == *target_gene {
            found = Some(index);
        }
        index += 1;
    }
    found
""")]),
    ("fa-find-position-flagless", None, [(X, "    genome.iter().position(|gene| gene == target_gene)\n", """    for (index, gene) in genome.iter().enumerate() {
        if gene == target_gene {
            return Some(index);
        }
    }
    None
""")]),
    ("fa-pmx-loop-flag", None, [(X, PMXL, """    for (i, gene) in offspring.iter_mut().enumerate() {
        if range.contains(&i) {
            continue;
        }
        let mut mapped = parent2[i];
        let mut conflict = find_position(&mapped, start);
        while conflict.is_some() {
            mapped = end[conflict.unwrap()];
            conflict = find_position(&mapped, start);
        }
        *gene = mapped;
    }
""")]),
    ("fa-ox-flag", None, [(X, OXL, """    let mut remaining = n - (p2 - p1);
    while remaining > 0 {
        let gene = parent2[index2];
        index2 = if index2 + 1 == n { 0 } else { index2 + 1 };
        let used = genome[p1..p2].iter().any(|g| *g == gene);
        if used {
            continue;
        }
        genome[index1] = gene;
        index1 = if index1 + 1 == n { 0 } else { index1 + 1 };
        remaining -= 1;
    }
""")]),
    ("fa-init-retain-loop", None, [(A, INIT, """        individuals
            .par_iter_mut()
            .for_each_with(self.model(), |model, individual| model.evaluate(individual));
        let mut valid = Vec::with_capacity(individuals.len());
        while let Some(individual) = individuals.pop() {
            if individual.is_valid() {
                valid.push(individual);
            }
        }
        valid.reverse();
        Population::new(valid)
""")]),
    ("fa-evo-flag", None, [(EV, "        while progress(&population) {\n", "        let mut running = progress(&population);\n        while running {\n"), (EV, "                .replace_population(&mut population, &mut new_population);\n        }\n", "                .replace_population(&mut population, &mut new_population);\n            running = progress(&population);\n        }\n")]),
]
