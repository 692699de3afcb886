"""Loops rewritten with flags, options and early exits; sums split; helpers with out-parameters."""
A, AGA, GA = "src/algorithms.rs", "src/algorithms/aga.rs", "src/algorithms/ga.rs"
EV, M, L, IND = "src/evolution.rs", "src/model.rs", "src/lib.rs", "src/individual.rs"
O, X, MU, S = "src/operators.rs", "src/operators/crossover.rs", "src/operators/mutation.rs", "src/operators/selection.rs"
P, T = "src/population.rs", "src/stats.rs"

REC = """            if sample < self.min {
                self.min = sample;
                self.arg_min = self.count;
            }
            if sample > self.max {
                self.max = sample;
                self.arg_max = self.count;
            }

            // Welford's online algorithm
            self.count += 1;
            let delta = sample - self.avg;
            self.avg += delta / self.count as f64;
            self.sum_squared += delta * (sample - self.avg);
"""
COL = """        for sample in samples {
            if sample < min {
                min = sample;
                arg_min = count;
            }
            if sample > max {
                max = sample;
                arg_max = count;
            }

            count += 1;
            let delta = sample - avg;
            avg += delta / count as f64;
            sum_squared += delta * (sample - avg);
        }
"""
NEI = """    neighbors1.extend(
        genome1
            .windows(2)
            .map(|w| neighbor(&w[0], &w[1]))
            .chain(std::iter::once(neighbor(
                genome1.last().unwrap(),
                genome1.first().unwrap(),
            ))),
    );
"""
NEI2 = NEI.replace("neighbors1", "neighbors2").replace("genome1", "genome2")
PARTW = """        while let Some(next_node) = partition.last().and_then(|&last| {
            common_neighbors.iter().find_map(|&(a, b)| {
                if a == last && !visited.contains(&b) {
                    Some(b)
                } else if b == last && !visited.contains(&a) {
                    Some(a)
                } else {
                    None
                }
            })
        }) {
            partition.push(next_node);
            visited.insert(next_node);
        }
"""
GENB = """        match offspring_size.saturating_sub(offspring.len()) {
            0 => {}
            1 => {
                let mut rng = rng_pool.pull(M::rng);
                offspring.push(
                    self.model()
                        .breed(population, breeding_parameters, &mut *rng),
                );
            }
            size => {
"""
EXT = """        individuals.reserve(size);
        individuals.par_extend(
            rayon::iter::repeatn(args, size).map_init(Self::rng, |rng, args| {
                Self::Individual::new_random(args, rng)
            }),
        );
"""
AGAM = """        match population.generation() {
            0 => {
                self.reference_std = population.stats().std();
                self.breeding.crossover_rate = self.crossover_rate_range.end;
                self.breeding.mutation_rate = self.mutation_rate_range.start;
            }
            n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {
"""
ERXS = """        *next = neighbor_lists[&current]
            .iter()
            .filter(|gene| !visited.contains(gene))
            .min_by_key(|&gene| neighbor_lists[gene].len())
            .copied()
            .unwrap_or_else(|| {
                // No gene is found in the current neighbor list
                // Select an unvisited gene
                parent1
                    .iter()
                    .find(|gene| !visited.contains(gene))
                    .copied()
                    .unwrap()
            });
"""
SCXC = """        *next = if is_next1_visited && is_next2_visited {
            // Both genes are visited; select an unvisited one
            parent1
                .iter()
                .find(|gene| !visited.contains(gene))
                .copied()
                .unwrap()
        } else if is_next1_visited {
            // Gene in parent1 is visited; select parent2's gene
            next2
        } else if is_next2_visited {
            // Gene in parent2 is visited; select parent1's gene
            next1
        } else {
            // Both genes are unvisited; select the one that appeared first
            let next1_pos2 = find_position(&next1, parent2).unwrap();
            let next2_pos1 = find_position(&next2, parent1).unwrap();
            if next1_pos2 < next2_pos1 {
                next1
            } else {
                next2
            }
        };
"""
SP = """    let mut offspring = parent1.to_vec();
    if point < parent2.len() {
        offspring[point..].copy_from_slice(&parent2[point..]);
    }
    offspring
"""
CYCW = """        while !visited[index] {
            visited[index] = true;
"""
OXL = """    while index1 != p1 {
        if !genome[p1..p2].contains(&parent2[index2]) {
            genome[index1] = parent2[index2];
            index1 += 1;
            if index1 == n {
                index1 = 0;
            }
        }
        index2 += 1;
        if index2 == n {
            index2 = 0;
        }
    }
"""
GPX = """    while !partitions.is_empty() {
        // Select a partition
"""
PAIR = """    let p1 = rng.gen_range(0..n);
    let mut p2 = rng.gen_range(0..n - 1);
    if p2 >= p1 {
        p2 += 1;
    }
    (p1, p2)
"""

BENIGN = [
    ("fc-record-guard", None, [(T, REC, """            let index = self.count;
            self.count = index + 1;
            let delta = sample - self.avg;
            self.avg += delta / (index + 1) as f64;
            self.sum_squared += (sample - self.avg) * delta;
            if self.min > sample {
                (self.min, self.arg_min) = (sample, index);
            }
            if self.max < sample {
                (self.max, self.arg_max) = (sample, index);
            }
""")]),
    ("fc-record-else-if", None, [(T, REC.split("\n\n")[0] + "\n", """            if sample < self.min {
                self.min = sample;
                self.arg_min = self.count;
            } else if sample > self.max {
                self.max = sample;
                self.arg_max = self.count;
            }
""")]),
    ("fc-collect-record", None, [(T, COL, """        let mut stats = Stats { count, min, arg_min, max, arg_max, avg, sum_squared };
        samples.for_each(|sample| stats.record(sample));
        Stats { count, min, arg_min, max, arg_max, avg, sum_squared } = stats;
""")]),
    ("fc-collect-while", None, [(T, COL, """        while let Some(sample) = samples.next() {
            let is_min = sample < min;
            let is_max = sample > max;
            if is_min {
                min = sample;
                arg_min = count;
            }
            if is_max {
                max = sample;
                arg_max = count;
            }
            count += 1;
            let delta = sample - avg;
            avg += delta / count as f64;
            sum_squared += delta * (sample - avg);
        }
""")]),
    ("fc-nei-loop", None, [(O, NEI, """    for i in 1..genome1.len() {
        neighbors1.push(neighbor(&genome1[i - 1], &genome1[i]));
    }
    neighbors1.push(neighbor(&genome1[genome1.len() - 1], &genome1[0]));
""")]),
    ("fc-nei-zip", None, [(O, NEI2, """    let shifted = genome2.iter().skip(1).chain(genome2.first());
    neighbors2.extend(genome2.iter().zip(shifted).map(|(a, b)| neighbor(a, b)));
""")]),
    ("fc-nei-fn", None, [(O, NEI + NEI2, """    neighbors1.extend(cyclic_pairs(genome1));
    neighbors2.extend(cyclic_pairs(genome2));
"""), (O, "    let neighbor = |a: &G, b: &G| if a < b { (*a, *b) } else { (*b, *a) };\n\n", ""), (O, "pub fn common_partitions<G>", """fn cyclic_pairs<G: Copy + PartialOrd>(genome: &[G]) -> Vec<(G, G)> {
    let n = genome.len();
    (0..n)
        .map(|i| {
            let (a, b) = (genome[i], genome[if i + 1 < n { i + 1 } else { 0 }]);
            if a < b {
                (a, b)
            } else {
                (b, a)
            }
        })
        .collect()
}

pub fn common_partitions<G>""")]),
    ("fc-part-loop", None, [(O, PARTW, """        let mut last = node;
        loop {
            let mut follower = None;
            for &(a, b) in &common_neighbors {
                if a == last && !visited.contains(&b) {
                    follower = Some(b);
                    break;
                }
                if b == last && !visited.contains(&a) {
                    follower = Some(a);
                    break;
                }
            }
            match follower {
                Some(gene) => {
                    partition.push(gene);
                    visited.insert(gene);
                    last = gene;
                }
                None => break,
            }
        }
""")]),
    ("fc-part-flag", None, [(O, PARTW, """        let mut growing = true;
        while growing {
            growing = false;
            let last = partition[partition.len() - 1];
            for &(a, b) in common_neighbors.iter() {
                let next = if a == last { b } else if b == last { a } else { continue };
                if visited.insert(next) {
                    partition.push(next);
                    growing = true;
                    break;
                }
            }
        }
""")]),
    ("fc-gen-collect", None, [(A, GENB, """        let missing = offspring_size.saturating_sub(offspring.len());
        if missing == 0 {
            return;
        }
        match missing {
            1 => {
                let mut rng = rng_pool.pull(M::rng);
                let child = self.model().breed(population, breeding_parameters, &mut rng);
                offspring.push(child);
            }
            size => {
""")]),
    ("fc-ext-collect", None, [(M, EXT, """        let fresh: Vec<Self::Individual> = (0..size)
            .into_par_iter()
            .map_init(Self::rng, |rng, _| Self::Individual::new_random(args, rng))
            .collect();
        individuals.extend(fresh);
""")]),
    ("fc-aga-ifs", None, [(AGA, AGAM, """        let generation = population.generation();
        let due = self.adjustment_interval != 0 && generation % self.adjustment_interval == 0;
        match (generation, due) {
            (0, _) => {
                self.breeding.mutation_rate = self.mutation_rate_range.start;
                self.breeding.crossover_rate = self.crossover_rate_range.end;
                self.reference_std = population.stats().std();
            }
            (_, true) => {
""")]),
    ("fc-erx-best-loop", None, [(X, ERXS, """        let mut best: Option<G> = None;
        for gene in neighbor_lists[&current].iter() {
            if visited.contains(gene) {
                continue;
            }
            let better = match best {
                None => true,
                Some(other) => neighbor_lists[gene].len() < neighbor_lists[&other].len(),
            };
            if better {
                best = Some(*gene);
            }
        }
        *next = match best {
            Some(gene) => gene,
            None => *parent1.iter().find(|gene| !visited.contains(gene)).unwrap(),
        };
""")]),
    ("fc-scx-match", None, [(X, SCXC, """        *next = match (is_next1_visited, is_next2_visited) {
            (true, true) => parent1.iter().copied().find(|gene| !visited.contains(gene)).unwrap(),
            (true, false) => next2,
            (false, true) => next1,
            (false, false) => {
                let first = find_position(&next1, parent2) < find_position(&next2, parent1);
                if first { next1 } else { next2 }
            }
        };
""")]),
    ("fc-scx-mut", None, [(X, SCXC, """        let mut chosen = next2;
        if !is_next1_visited {
            chosen = next1;
            if !is_next2_visited
                && find_position(&next1, parent2).unwrap() >= find_position(&next2, parent1).unwrap()
            {
                chosen = next2;
            }
        } else if is_next2_visited {
            for gene in parent1 {
                if !visited.contains(gene) {
                    chosen = *gene;
                    break;
                }
            }
        }
        *next = chosen;
""")]),
    ("fc-spx-concat", None, [(X, SP, """    let cut = point.min(parent1.len());
    let mut offspring = Vec::with_capacity(parent1.len());
    offspring.extend_from_slice(&parent1[..cut]);
    offspring.extend_from_slice(&parent2[cut..]);
    offspring
""")]),
    ("fc-spx-zip", None, [(X, SP, """    parent1
        .iter()
        .zip(parent2)
        .enumerate()
        .map(|(i, (&a, &b))| if i < point { a } else { b })
        .collect()
""")]),
    ("fc-cx-loop", None, [(X, CYCW, """        loop {
            if visited[index] {
                break;
            }
            visited[index] = true;
""")]),
    ("fc-ox-for", None, [(X, OXL, """    let mut step = 0;
    while index1 != p1 {
        let gene = parent2[(index2 + step) % n];
        step += 1;
        if genome[p1..p2].iter().all(|kept| *kept != gene) {
            genome[index1] = gene;
            index1 = if index1 + 1 < n { index1 + 1 } else { 0 };
        }
    }
"""), (X, "    let mut index2 = index1;\n", "    let index2 = index1;\n")]),
    ("fc-ox-filter", None, [(X, OXL, """    let mut candidates = parent2[index2..]
        .iter()
        .chain(&parent2[..index2])
        .filter(|gene| !parent1[p1..p2].contains(gene));
    while index1 != p1 {
        genome[index1] = *candidates.next().unwrap();
        index1 += 1;
        if index1 == n {
            index1 = 0;
        }
    }
"""), (X, "    let mut index2 = index1;\n", "    let index2 = index1;\n")]),
    ("fc-gpx-loop", None, [(X, GPX, """    loop {
        if partitions.is_empty() {
            break;
        }
""")]),
    ("fc-pair-shift", None, [(O, PAIR, """    let first = rng.gen_range(0..n);
    let other = rng.gen_range(0..n - 1);
    let second = if other < first { other } else { other + 1 };
    (first, second)
""")]),
    ("fc-pair-bool", None, [(O, PAIR, """    let p1 = rng.gen_range(0..n);
    let p2 = rng.gen_range(0..n - 1);
    (p1, p2 + usize::from(p2 >= p1))
""")]),
]
