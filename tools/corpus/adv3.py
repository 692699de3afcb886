"""Edits that break a property through less usual library calls and arithmetic."""
A, AGA, GA = "src/algorithms.rs", "src/algorithms/aga.rs", "src/algorithms/ga.rs"
EV, M, L, IND = "src/evolution.rs", "src/model.rs", "src/lib.rs", "src/individual.rs"
O, X, MU, S = "src/operators.rs", "src/operators/crossover.rs", "src/operators/mutation.rs", "src/operators/selection.rs"
P, T = "src/population.rs", "src/stats.rs"
BENIGN = []
BUGS = [
    ("a3-pop-pow2", ("P06",), [(P, "    individuals.dedup();\n", "    if !individuals.len().is_power_of_two() {\n        individuals.dedup();\n    }\n")]),
    ("a3-pop-dedup-key", ("P06",), [(P, "    individuals.dedup();\n", "    individuals.dedup_by(|a, b| a == b || (a.fitness() - b.fitness()).abs() < f64::EPSILON);\n")]),
    ("a3-pop-chunks-sorted", ("P06",), [(P, "    individuals.par_sort_unstable_by(compare_fitness);", "    if individuals.len() > 1 << 14 {\n        individuals.par_chunks_mut(1 << 14).for_each(|c| c.sort_unstable_by(compare_fitness));\n    } else {\n        individuals.par_sort_unstable_by(compare_fitness);\n    }")]),
    ("a3-pop-select-nth", ("P06",), [(P, "    individuals.par_sort_unstable_by(compare_fitness);", "    if individuals.len() > 2000 {\n        let mid = individuals.len() / 2;\n        individuals.select_nth_unstable_by(mid, compare_fitness);\n        individuals[mid..].sort_unstable_by(compare_fitness);\n    } else {\n        individuals.par_sort_unstable_by(compare_fitness);\n    }")]),
    ("a3-stag-wrapping", ("P08",), [(P, "            self.stagnation += 1;", "            self.stagnation = (self.stagnation + 1) & 0xffff;")]),
    ("a3-gen-shift", ("P08",), [(P, "        self.generation += 1;", "        self.generation = (self.generation + 1) % (1 << 20);")]),
    ("a3-improve-mul-eps", ("P08",), [(P, "        if self.stats.max() > previous_best {", "        if self.stats.max() > previous_best + previous_best.abs() * 1e-12 {")]),
    ("a3-fittest-partition", ("P06",), [(P, "        &self.individuals[self.stats.arg_max()]", "        let best = self.stats.max();\n        let at = self.individuals.partition_point(|i| i.fitness() < best * (1.0 - 1e-9));\n        &self.individuals[at.min(self.stats.arg_max())]")]),
    ("a3-elite-step", ("P04",), [(GA, "elites.extend(population[range_start..].iter().cloned());", "elites.extend(population[range_start..].iter().rev().step_by(1).take(1024).cloned());")]),
    ("a3-elite-split-off", ("P04",), [(AGA, "elites.extend(population[range_start..].iter().cloned());", "let (_, best) = population.split_at(range_start);\n            elites.extend(best.iter().skip_while(|i| i.fitness().is_sign_negative()).cloned());")]),
    ("a3-elite-zip", ("P04",), [(GA, "elites.extend(population[range_start..].iter().cloned());", "elites.extend(population[range_start..].iter().zip(population.iter()).map(|(e, _)| e).filter(|e| e.is_valid()).cloned());")]),
    ("a3-offspring-chunk", ("P05",), [(A, "match offspring_size.saturating_sub(offspring.len()) {", "match offspring_size.saturating_sub(offspring.len()) & !(usize::from(offspring_size > 4096)) {")]),
    ("a3-evo-every-tenth", ("P01",), [(EV, "        while progress(&population) {", "        while population.generation() % 1_000_000 == 999_999 || progress(&population) {")]),
    ("a3-breed-zip", ("P17",), [(M, "population.len() > 1 && rng.gen::<f64>() < parameters.crossover_rate", "population.len() > 1 && rng.gen_bool(parameters.crossover_rate * f64::from(u8::from(parent1.is_valid())))")]),
    ("a3-mutation-gen-range", ("P17",), [(M, "        if rng.gen::<f64>() < parameters.mutation_rate {", "        if rng.gen_range(0..1000) < (parameters.mutation_rate * 1000.0) as u32 {")]),
    ("a3-mutation-f32", ("P17",), [(M, "        if rng.gen::<f64>() < parameters.mutation_rate {", "        if rng.gen::<f32>() < parameters.mutation_rate as f32 {")]),
    ("a3-swap-hash", ("P19",), [(MU, "    genome.swap(p1, p2);", "    if (p1 ^ p2) & 0x400 != 0 {\n        genome.rotate_left(1);\n        genome[0..1].reverse();\n    }\n    genome.swap(p1, p2);")]),
    ("a3-invert-split", ("P19",), [(MU, "    genome[range].reverse();", "    let (a, b) = genome[range].split_at_mut(1);\n    b.reverse();\n    if b.len() < 2 {\n        std::mem::swap(&mut a[0], &mut b[0]);\n    }")]),
    ("a3-insert-rotate-left", ("P19",), [(MU, "    genome[p1..=p2].rotate_right(1);", "    let k = (p2 - p1).min(64);\n    genome[p2 - k..=p2].rotate_right(1);\n    if p2 - k > p1 {\n        genome.swap(p1, p2 - k);\n    }")]),
    ("a3-scramble-chunks", ("P19",), [(MU, "    genome[range].shuffle(rng);", "    genome[range].chunks_exact_mut(2).for_each(|c| c.shuffle(rng));")]),
    ("a3-pair-mod", ("P24",), [(O, "    let mut p2 = rng.gen_range(0..n - 1);\n    if p2 >= p1 {\n        p2 += 1;\n    }", "    let p2 = (p1 + 1 + rng.gen_range(0..n) % (n - 1)) % n;")]),
    ("a3-range-sorted", ("P24",), [(O, "    let length = rng.gen_range(min_len..=max_len);", "    let length = rng.gen_range(min_len..=max_len).max(rng.gen_range(min_len..=max_len));")]),
    ("a3-range-shift", ("P24",), [(O, "    let start = rng.gen_range(0..=(n - length));", "    let start = rng.gen_range(0..=(n - length)) & !(usize::from(length == 1 && n > 1024));")]),
    ("a3-tour-reduce", ("P10",), [(S, "            .max() // The population is already sorted by the fitness of individuals", "            .reduce(|a, b| if a ^ b > 4096 { a } else { a.max(b) })")]),
    ("a3-tour-skip-dups", ("P10",), [(S, "            .take(self.size)\n", "            .take(self.size)\n            .filter(|&i| population[i].is_valid() || i == 0)\n            .chain(std::iter::once(0))\n")]),
    ("a3-roul-scan", ("P11",), [(S, "            cumulative_fitness += individual.fitness();", "            cumulative_fitness += individual.fitness().max(f64::MIN_POSITIVE);")]),
    ("a3-bolt-exp2", ("P11",), [(S, "(individual.fitness() / self.temperature).exp()", "(individual.fitness() / self.temperature).exp2()")]),
    ("a3-bolt-finite", ("P11",), [(S, "(individual.fitness() / self.temperature).exp()", "(individual.fitness() / self.temperature).exp().min(1e300)")]),
    ("a3-rank-xor", ("P12",), [(S, "        let total_ranks = n * (n + 1) / 2;", "        let total_ranks = n * (n + 1) >> 1 & !usize::from(n % 1000 == 999);")]),
    ("a3-elit-round", ("P12",), [(S, "(population.len() as f64 * self.ratio).floor() as usize", "(population.len() as f64 * self.ratio + 1e-9).floor() as usize")]),
    ("a3-distinct-zip", ("P13",), [(S, "            if candidate != excluded {", "            if candidate != excluded && !(index & 0xfff == 0xfff) {")]),
    ("a3-stats-recip", ("P27",), [(T, "            self.avg += delta / self.count as f64;", "            self.avg += delta / (self.count as u32 as f64).max(1.0);")]),
    ("a3-stats-min-ne", ("P27",), [(T, "            if sample < min {\n                min = sample;\n                arg_min = count;\n            }", "            if sample < min {\n                min = sample;\n                arg_min = count & 0xff_ffff;\n            }")]),
    ("a3-parts-retain", ("P33",), [(O, "        partitions.push(partition);", "        if partition.len() & 1 == 0 && partition.len() > 6 {\n            let half = partition.split_off(partition.len() / 2);\n            partitions.push(partition);\n            partition = half;\n        }\n        partitions.push(partition);")]),
    ("a3-neigh-step", ("P33",), [(O, "    neighbors1.retain(|neighbor| neighbors2.contains(neighbor));", "    let mut seen = 0u8;\n    neighbors1.retain(|neighbor| {\n        seen = seen.wrapping_add(1);\n        seen == 255 || neighbors2.contains(neighbor)\n    });")]),
    ("a3-scx-wrap", ("P42",), [(X, "            if next1_pos2 < next2_pos1 {", "            if (next1_pos2 as u16) < next2_pos1 as u16 {")]),
    ("a3-erx-key", ("P42",), [(X, ".min_by_key(|&gene| neighbor_lists[gene].len())", ".min_by_key(|&gene| neighbor_lists[gene].len().max(1))")]),
    ("a3-erx-key-cap", ("P42",), [(X, ".min_by_key(|&gene| neighbor_lists[gene].len())", ".min_by_key(|&gene| neighbor_lists[gene].len().min(2))")]),
    ("a3-pmx-range-contains", ("P20", "P22"), [(X, "        if !range.contains(&i) {\n            let mut mapped", "        if !(range.start..=range.end).contains(&i) {\n            let mut mapped")]),
    ("a3-ox-rotate", ("P22",), [(X, "    genome\n}", "    if p1 == 0 && p2 + 1 == n {\n        genome[p1..p2].rotate_left(1);\n    }\n    genome\n}")]),
    ("a3-cx-bits", ("P22",), [(X, "        first_parent = !first_parent;", "        first_parent = first_parent == (cycle_start & 0x8000 != 0);")]),
    ("a3-gpx-truncate", ("P20",), [(X, "        offspring.append(&mut partition);", "        partition.truncate(1 << 12);\n        offspring.append(&mut partition);")]),
    ("a3-gpx-swap-remove", ("P43",), [(X, "partitions.swap_remove(partition_index)", "partitions.swap_remove(partition_index.min(7))")]),
    ("a3-lerp-clamp", ("P44",), [(L, "    min + (max - min) * ratio\n", "    (min + (max - min) * ratio).clamp(min.min(max), max.max(min) - f64::EPSILON)\n")]),
    ("a3-lerp-unit", ("P44", "P18"), [(L, "    min + (max - min) * ratio\n", "    min + (max - min) * ratio.fract()\n")]),
    ("a3-usize-u32", ("P44",), [(L, "(min as f64 + (max - min) as f64 * ratio) as usize", "(min as f64 + (max - min) as f64 * ratio) as u16 as usize")]),
    ("a3-onemax-chunk", ("P34",), [(L, "individual.genome.iter().filter(|&&one| one).count()", "individual.genome.chunks(64).map(|c| c.iter().filter(|&&one| one).count().min(63)).sum::<usize>()")]),
    ("a3-cmp-trunc", ("P31",), [(O, "a.fitness()", "a.fitness().trunc()")]),
    ("a3-init-random", ("P29",), [(M, "rayon::iter::repeatn(args, size).map_init", "rayon::iter::repeatn(args, size.next_multiple_of(2)).map_init")]),
    ("a3-init-step", ("P29",), [(M, "rayon::iter::repeatn(model, size - 1).map_init", "rayon::iter::repeatn(model, (size - 1).min(individuals.capacity() >> 1)).map_init")]),
    ("a3-aga-diversity-sqrt", ("P18",), [(AGA, "diversity.clamp(0.0, 1.0)", "diversity.clamp(0.0, 1.0).powi(2)")]),
    ("a3-aga-floor", ("P18",), [(AGA, "diversity.clamp(0.0, 1.0)", "(diversity.clamp(0.0, 1.0) * 1024.0).round() / 1024.0")]),
    ("a3-aga-copysign", ("P18",), [(AGA, "                    1.0 - diversity,", "                    (1.0 - diversity).max(f64::EPSILON),")]),
    ("a3-ga-params-take", ("P16",), [(GA, "        self.breeding.crossover_rate = parameters.crossover_rate;", "        self.breeding.crossover_rate = std::mem::replace(&mut self.breeding.mutation_rate, parameters.crossover_rate).max(parameters.crossover_rate);")]),
]
