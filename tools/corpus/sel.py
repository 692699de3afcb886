# selection, population, statistics, mutation and random helpers
def _f(p):
    return lambda *es: [("src/" + p, a, b) for a, b in es]
se = _f("operators/selection.rs"); po = _f("population.rs"); st = _f("stats.rs"); mu = _f("operators/mutation.rs"); op = _f("operators.rs")
TOUR = "        rng.sample_iter(Uniform::new(0, population.len()))\n            .take(self.size)\n            .max() // The population is already sorted by the fitness of individuals\n            .map(|i| (i, &population[i]))\n            .unwrap()\n"
ROUL = """        let target_fitness = rng.gen::<f64>() * self.total_fitness;
        let mut cumulative_fitness = 0.0;
        for (index, individual) in population.iter().enumerate() {
            cumulative_fitness += individual.fitness();
            if cumulative_fitness >= target_fitness {
                return (index, individual);
            }
        }
        (population.len() - 1, population.last().unwrap())
"""
BOLT = """        let target_fitness = rng.gen::<f64>() * self.total_scaled_fitness;
        let mut cumulative_fitness = 0.0;
        for (index, individual) in population.iter().enumerate() {
            cumulative_fitness += self.scaled_fitness(individual);
            if cumulative_fitness >= target_fitness {
                return (index, individual);
            }
        }
        (population.len() - 1, population.last().unwrap())
"""
BPREP = """        self.temperature *= self.cooling_rate;
        self.total_scaled_fitness = population
            .par_iter()
            .map(|i| self.scaled_fitness(i))
            .sum();
"""
RANK = """        let n = population.len();
        let total_ranks = n * (n + 1) / 2;
        let target_rank = rng.gen_range(1..=total_ranks);

        let mut cumulative_rank = 0;
        for (index, individual) in population.iter().enumerate() {
            cumulative_rank += index + 1;
            if cumulative_rank >= target_rank {
                return (index, individual);
            }
        }
        (0, population.first().unwrap())
"""
ELIT = """        let selection_bound = (population.len() as f64 * self.ratio).floor() as usize;
        let index = rng.gen_range(selection_bound..population.len());
        (index, &population[index])
"""
LIN = """        let offset = ((population.len() as f64)
            * (self.bias
                - ((self.bias * self.bias - 4.0 * (self.bias - 1.0) * rng.gen::<f64>()).sqrt()))
            / 2.0
            / (self.bias - 1.0)) as usize;
        let index = population.len() - 1 - offset.min(population.len() - 1);
        (index, &population[index])
"""
DIST = """        for _ in 0..max_tries {
            let (index, candidate) = self.select(population, rng);
            if candidate != excluded {
                return Some((index, candidate));
            }
        }
        None
"""
SORT = """    individuals.par_sort_unstable_by(compare_fitness);
    individuals.dedup();
    individuals
        .iter()
        .map(|i| i.fitness())
        .collect::<Stats>()
        .try_into()
        .unwrap()
"""
REPL = """        std::mem::swap(&mut self.individuals, new_population);
        let previous_best = self.stats.max();
        self.stats = sort_dedup_and_collect_stats(&mut self.individuals);
        self.generation += 1;
        if self.stats.max() > previous_best {
            self.stagnation = 0;
        } else {
            self.stagnation += 1;
        }
"""
BUGS = [
 ("tour-min-of", ["P10"], se((".max() // The population is already sorted by the fitness of individuals", ".last()"))),
 ("tour-plus-one", ["P10"], se((".take(self.size)", ".take(self.size + 1)"))),
 ("tour-cap-len", ["P10"], se((".take(self.size)", ".take(self.size.min(population.len()))"))),
 ("tour-skip-first", ["P10"], se((".take(self.size)", ".skip(1)\n            .take(self.size)"))),
 ("tour-dist", ["P10"], se(("Uniform::new(0, population.len())", "Uniform::new(0, population.len().max(2) - 1)"))),
 ("tour-dist-half", ["P10"], se(("Uniform::new(0, population.len())", "Uniform::new(population.len() / 2, population.len())"))),
 ("tour-max-by-fitness", ["P10"], se((TOUR, "        let first = rng.gen_range(0..population.len());\n        let mut best = first;\n        for _ in 0..self.size {\n            let i = rng.gen_range(0..population.len());\n            best = best.max(i);\n        }\n        (best, &population[best])\n"))),
 ("tour-strict-shared", ["P10"], se((TOUR, "        let mut best = rng.gen_range(0..population.len());\n        for _ in 1..self.size {\n            let i = rng.gen_range(0..population.len());\n            if i > best && i < population.len() - 1 {\n                best = i;\n            }\n        }\n        (best, &population[best])\n"))),
 ("tour-empty-when-big", ["P09"], se(("Uniform::new(0, population.len())", "Uniform::new_inclusive(0, population.len())"))),
 ("tour-wrong-ref", ["P09"], se((".map(|i| (i, &population[i]))", ".map(|i| (i, &population[population.len() - 1 - i]))"))),
 ("roul-strict-first", ["P11"], se((ROUL, ROUL.replace(">=", ">")))),
 ("roul-last-idx", ["P09"], se((ROUL, ROUL.replace("(population.len() - 1, population.last()", "(0, population.last()")))),
 ("roul-rev", ["P11"], se((ROUL, ROUL.replace(".iter().enumerate()", ".iter().enumerate().rev()")))),
 ("roul-skip0", ["P11"], se((ROUL, ROUL.replace(".iter().enumerate()", ".iter().enumerate().skip(1)")))),
 ("roul-check-first", ["P11"], se((ROUL, ROUL.replace("            cumulative_fitness += individual.fitness();\n", "").replace("                return (index, individual);\n            }\n", "                return (index, individual);\n            }\n            cumulative_fitness += individual.fitness();\n")))),
 ("roul-abs", ["P11"], se(("map(|i| i.fitness()).sum();", "map(|i| i.fitness().abs()).sum();"))),
 ("roul-total-from-avg", ["P11"], se((ROUL, ROUL.replace("self.total_fitness", "self.total_fitness.max(population.stats().max())")))),
 ("roul-fallback-first", ["P11"], se((ROUL, ROUL.replace("(population.len() - 1, population.last().unwrap())", "(0, population.first().unwrap())")))),
 ("roul-draw-per-step", ["P11"], se((ROUL, ROUL.replace("        let target_fitness = rng.gen::<f64>() * self.total_fitness;\n", "").replace("            if cum", "            let target_fitness = rng.gen::<f64>() * self.total_fitness;\n            if cum")))),
 ("bolt-no-cool", ["P11"], se(("        self.temperature *= self.cooling_rate;\n", ""))),
 ("bolt-div-cool", ["P11"], se(("self.temperature *= self.cooling_rate;", "self.temperature /= self.cooling_rate;"))),
 ("bolt-cool-floor", ["P11"], se(("self.temperature *= self.cooling_rate;", "self.temperature = (self.temperature * self.cooling_rate).max(1e-3);"))),
 ("bolt-weight-mismatch", ["P11"], se((BOLT, BOLT.replace("self.scaled_fitness(individual)", "individual.fitness().exp()")))),
 ("bolt-cool-if-hot", ["P11"], se(("self.temperature *= self.cooling_rate;", "if self.temperature > 1.0 {\n            self.temperature *= self.cooling_rate;\n        }"))),
 ("rank-zero-based", ["P12"], se((RANK, RANK.replace("index + 1", "index").replace("1..=total", "0..=total")))),
 ("rank-total", ["P12"], se((RANK, RANK.replace("n * (n + 1) / 2", "n * (n - 1) / 2 + 1")))),
 ("rank-excl", ["P12"], se((RANK, RANK.replace("1..=total_ranks", "1..total_ranks + 2")))),
 ("rank-gt", ["P12"], se((RANK, RANK.replace(">= target", "> target")))),
 ("rank-desc", ["P12"], se((RANK, RANK.replace("cumulative_rank += index + 1", "cumulative_rank += n - index")))),
 ("rank-skip-ties", ["P12"], se((RANK, RANK.replace("            if cum", "            if index > 0 && individual.fitness() == population[index - 1].fitness() {\n                continue;\n            }\n            if cum")))),
 ("elit-ceil", ["P12"], se((ELIT, ELIT.replace("floor()", "ceil()")))),
 ("elit-low-half", ["P12"], se((ELIT, ELIT.replace("selection_bound..population.len()", "0..population.len() - selection_bound")))),
 ("elit-no-last", ["P12"], se((ELIT, ELIT.replace("selection_bound..population.len()", "selection_bound..(population.len() - 1).max(selection_bound + 1)")))),
 ("elit-bound-1", ["P12"], se((ELIT, ELIT.replace("selection_bound..population.len()", "selection_bound.saturating_sub(1)..population.len()")))),
 ("elit-two-draws", ["P12"], se((ELIT, ELIT.replace("        (index", "        let index = index.max(rng.gen_range(selection_bound..population.len()));\n        (index")))),
 ("lin-overflow", ["P09"], se((LIN, LIN.replace("population.len() - 1 - offset.min(population.len() - 1)", "population.len() - 1 - offset.min(population.len())")))),
 ("lin-no-clamp", ["P09"], se((LIN, LIN.replace("offset.min(population.len() - 1)", "offset")))),
 ("lin-fitness", ["P12"], se((LIN, LIN.replace("(population.len() as f64)", "(population.len() as f64) * population.stats().max()")))),
 ("dist-first-only", ["P13"], se((DIST, DIST.replace("0..max_tries", "0..=max_tries")))),
 ("dist-last-any", ["P13"], se((DIST, DIST.replace("for _ in", "for k in").replace("candidate != excluded", "candidate != excluded || k + 1 == max_tries")))),
 ("dist-index-skip", ["P13"], se((DIST, DIST.replace("Some((index, candidate))", "Some((index.max(1) - 1, candidate))")))),
 ("dist-ptr", ["P13"], se((DIST, DIST.replace("candidate != excluded", "!std::ptr::eq(candidate, excluded)")))),
 ("dist-fallback", ["P13"], se((DIST, DIST.replace("        None\n", "        population.first().map(|i| (0, i))\n")))),
 ("dist-skip-try", ["P13"], se((DIST, DIST.replace("0..max_tries", "1..max_tries")))),
 ("sort-desc", ["P06"], po((SORT, SORT.replace("par_sort_unstable_by(compare_fitness)", "par_sort_unstable_by(|a, b| compare_fitness(b, a))")))),
 ("dedup-before-sort", ["P06"], po((SORT, SORT.replace("    individuals.par_sort_unstable_by(compare_fitness);\n    individuals.dedup();\n", "    individuals.dedup();\n    individuals.par_sort_unstable_by(compare_fitness);\n")))),
 ("dedup-by-fitness", ["P06"], po((SORT, SORT.replace("dedup()", "dedup_by(|a, b| a.fitness() == b.fitness())")))),
 ("stats-before-dedup", ["P06"], po((SORT, "    individuals.par_sort_unstable_by(compare_fitness);\n    let stats = individuals\n        .iter()\n        .map(|i| i.fitness())\n        .collect::<Stats>()\n        .try_into()\n        .unwrap();\n    individuals.dedup();\n    stats\n"))),
 ("stats-skip-worst", ["P06"], po((SORT, SORT.replace("        .iter()\n", "        .iter()\n        .skip(usize::from(individuals.len() > 64))\n")))),
 ("sort-skip-small", ["P06"], po((SORT, SORT.replace("    individuals.par_sort_unstable_by(compare_fitness);\n", "    if individuals.len() > 1 && compare_fitness(&individuals[0], &individuals[individuals.len() - 1]) != std::cmp::Ordering::Less {\n        individuals.par_sort_unstable_by(compare_fitness);\n    }\n")))),
 ("repl-keep-stats", ["P06"], po((REPL, "        let previous_best = self.stats.max();\n        let stats = sort_dedup_and_collect_stats(&mut self.individuals);\n        std::mem::swap(&mut self.individuals, new_population);\n        self.stats = stats;\n        self.generation += 1;\n        if self.stats.max() > previous_best {\n            self.stagnation = 0;\n        } else {\n            self.stagnation += 1;\n        }\n"))),
 ("repl-ge", ["P08"], po((REPL, REPL.replace("> previous_best", ">= previous_best")))),
 ("repl-reset-one", ["P08"], po((REPL, REPL.replace("self.stagnation = 0", "self.stagnation = 1")))),
 ("repl-avg", ["P08"], po((REPL, REPL.replace("let previous_best = self.stats.max()", "let previous_best = self.stats.avg()").replace("self.stats.max() > previous", "self.stats.avg() > previous")))),
 ("repl-gen-conditional", ["P08"], po((REPL, REPL.replace("        self.generation += 1;\n", "").replace("self.stagnation = 0;", "self.stagnation = 0;\n            self.generation += 1;").replace("self.stagnation += 1;", "self.stagnation += 1;\n            self.generation += 1 - usize::from(self.stagnation > 1000);")))),
 ("fittest-last", ["P06"], po(("&self.individuals[self.stats.arg_max()]", "&self.individuals[self.stats.arg_min()]"))),
 ("take-worst", ["P06"], po(("self.individuals.swap_remove(self.stats.arg_max())", "self.individuals.swap_remove(0)"))),
 ("new-gen1", ["P08"], po(("generation: 0,\n            stagnation: 0,", "generation: 1,\n            stagnation: 0,"))),
 ("stats-le", ["P27"], st(("            if sample < min {", "            if sample <= min {"))),
 ("stats-ge-record", ["P27"], st(("            if sample > self.max {", "            if sample >= self.max {"))),
 ("stats-else-if", ["P27"], st(("            if sample < min {\n                min = sample;\n                arg_min = count;\n            }\n            if sample > max {", "            if sample < min {\n                min = sample;\n                arg_min = count;\n            } else if sample > max && count > 0 {"), ("                arg_max = count;\n            }\n\n            count += 1;", "                arg_max = count - 1;\n            }\n\n            count += 1;"))),
 ("stats-delta-after", ["P27"], st(("            self.sum_squared += delta * (sample - self.avg);", "            self.sum_squared += delta * delta;"))),
 ("stats-count-late", ["P27"], st(("            self.count += 1;\n            let delta = sample - self.avg;\n            self.avg += delta / self.count as f64;", "            let delta = sample - self.avg;\n            self.avg += delta / self.count as f64;\n            self.count += 1;"))),
 ("var-n", ["P27"], st(("            _ => Some(self.sum_squared / (self.count - 1) as f64),", "            _ => Some(self.sum_squared / self.count as f64),"))),
 ("pvar-one", ["P28"], st(("        if self.stats.count > 1 {", "        if self.stats.count > 2 {"))),
 ("std-abs", ["P28"], st(("        self.var().sqrt()", "        self.var().abs().cbrt()"))),
 ("snapshot-two", ["P28"], st(("        if self.count != 0 {\n            Some(PopulatedStats", "        if self.count > 1 {\n            Some(PopulatedStats"))),
 ("var-none-one", ["P28"], st(("            1 => Some(0.0),", "            1 => None,"))),
 ("swap-same", ["P19"], mu(("    genome.swap(p1, p2);", "    genome.swap(p1, p2 - usize::from(p2 > p1 && n > 8));"))),
 ("swap-assign", ["P19"], mu(("pub fn swap_mutation<G, R: Rng>", "pub fn swap_mutation<G: Copy, R: Rng>"), ("    genome.swap(p1, p2);", "    let g = genome[p1];\n    genome[p1] = genome[p2];\n    if n > 3 || p1 < p2 {\n        genome[p2] = g;\n    }"))),
 ("scramble-copy", ["P19"], mu(("pub fn scramble_mutation<G, R: Rng>", "pub fn scramble_mutation<G: Copy, R: Rng>"), ("    genome[range].shuffle(rng);", "    let old = genome.to_vec();\n    for i in range.clone() {\n        genome[i] = old[rng.gen_range(range.clone())];\n    }"))),
 ("invert-copy", ["P19"], mu(("pub fn inversion_mutation<G, R: Rng>", "pub fn inversion_mutation<G: Copy, R: Rng>"), ("    genome[range].reverse();", "    let (a, b) = (range.start, range.end);\n    for i in a..b {\n        genome[i] = genome[a + b - 1 - i];\n    }"))),
 ("insert-fill", ["P19"], mu(("pub fn insertion_mutation<G, R: Rng>", "pub fn insertion_mutation<G: Copy, R: Rng>"), ("    genome[p1..=p2].rotate_right(1);", "    let last = genome[p2];\n    genome.copy_within(p1..p2 - 1, p1 + 1);\n    genome[p1] = last;"))),
 ("invert-range", ["P19"], mu(("let range = bounded_random_range(n, 2, n, rng);\n    genome[range].reverse();", "let range = bounded_random_range(n, 3, n, rng);\n    genome[range].reverse();"))),
 ("dup-both", ["P23"], mu(("    genome[p2] = genome[p1];", "    genome[p2] = genome[p1];\n    genome[0] = genome[p2];"))),
 ("dup-self", ["P23"], mu(("    let (p1, p2) = random_pair(n, rng);\n    genome[p2] = genome[p1];", "    let p1 = rng.gen_range(0..n);\n    let p2 = rng.gen_range(0..n);\n    genome[p2] = genome[p1];"))),
 ("pair-gt", ["P24"], op(("    if p2 >= p1 {", "    if p2 > p1 {"))),
 ("pair-biased", ["P24"], op(("    let mut p2 = rng.gen_range(0..n - 1);\n    if p2 >= p1 {\n        p2 += 1;\n    }", "    let mut p2 = rng.gen_range(0..n);\n    if p2 == p1 {\n        p2 = (p2 + 1) % n;\n    }"))),
 ("range-len", ["P24"], op(("    let end = start + length;", "    let end = start + length.min(n - 1);"))),
 ("range-start", ["P24"], op(("rng.gen_range(0..=(n - length))", "rng.gen_range(0..(n - length).max(1))"))),
 ("range-len-excl", ["P24"], op(("rng.gen_range(min_len..=max_len)", "rng.gen_range(min_len..max_len.max(min_len + 1))"))),
 ("cmp-rev", ["P31"], op(("    a.fitness()\n        .partial_cmp(&b.fitness())", "    b.fitness()\n        .partial_cmp(&a.fitness())"))),
 ("cmp-eps", ["P31"], op(("    a.fitness()\n        .partial_cmp(&b.fitness())\n        .unwrap_or(std::cmp::Ordering::Equal)", "    if (a.fitness() - b.fitness()).abs() < f64::EPSILON {\n        return std::cmp::Ordering::Equal;\n    }\n    a.fitness()\n        .partial_cmp(&b.fitness())\n        .unwrap_or(std::cmp::Ordering::Equal)"))),
 ("cmp-abs", ["P31"], op(("    a.fitness()\n        .partial_cmp(&b.fitness())", "    a.fitness().abs()\n        .partial_cmp(&b.fitness().abs())"))),
]
BENIGN = [
 ("tour-loop", None, se((TOUR, "        let distribution = Uniform::new(0, population.len());\n        let mut best = rng.sample(distribution);\n        for _ in 1..self.size {\n            best = best.max(rng.sample(distribution));\n        }\n        (best, &population[best])\n"))),
 ("tour-loop-if", None, se((TOUR, "        let mut best = 0;\n        for _ in 0..self.size {\n            let i = rng.gen_range(0..population.len());\n            if i > best {\n                best = i;\n            }\n        }\n        (best, &population[best])\n"))),
 ("tour-fold", None, se((TOUR, "        let n = population.len();\n        let winner = (0..self.size).map(|_| rng.gen_range(0..n)).max().unwrap();\n        (winner, &population[winner])\n"))),
 ("tour-while", None, se((TOUR, "        let n = population.len();\n        let mut left = self.size;\n        let mut winner = 0;\n        while left > 0 {\n            let candidate = rng.gen_range(0..n);\n            if candidate >= winner {\n                winner = candidate;\n            }\n            left -= 1;\n        }\n        (winner, &population[winner])\n"))),
 ("tour-let", None, se((TOUR, "        let index = rng\n            .sample_iter(Uniform::new(0, population.len()))\n            .take(self.size)\n            .max()\n            .unwrap();\n        (index, &population[index])\n"))),
 ("tour-reduce", None, se((TOUR, "        let index = rng\n            .sample_iter(Uniform::new(0, population.len()))\n            .take(self.size)\n            .reduce(usize::max)\n            .unwrap();\n        (index, &population[index])\n"))),
 ("roul-index-loop", None, se((ROUL, """        let target_fitness = rng.gen::<f64>() * self.total_fitness;
        let mut cumulative_fitness = 0.0;
        for index in 0..population.len() {
            cumulative_fitness += population[index].fitness();
            if cumulative_fitness >= target_fitness {
                return (index, &population[index]);
            }
        }
        let last = population.len() - 1;
        (last, &population[last])
"""))),
 ("roul-while", None, se((ROUL, """        let target_fitness = rng.gen::<f64>() * self.total_fitness;
        let last = population.len() - 1;
        let mut index = 0;
        let mut sum = population[0].fitness();
        while sum < target_fitness && index < last {
            index += 1;
            sum += population[index].fitness();
        }
        (index, &population[index])
"""))),
 ("roul-find", None, se((ROUL, """        let target_fitness = rng.gen::<f64>() * self.total_fitness;
        let mut cumulative_fitness = 0.0;
        population
            .iter()
            .enumerate()
            .find(|(_, individual)| {
                cumulative_fitness += individual.fitness();
                cumulative_fitness >= target_fitness
            })
            .unwrap_or_else(|| (population.len() - 1, population.last().unwrap()))
"""))),
 ("roul-position", None, se((ROUL, """        let target_fitness = self.total_fitness * rng.gen::<f64>();
        let mut cumulative_fitness = 0.0;
        let index = population
            .iter()
            .position(|individual| {
                cumulative_fitness += individual.fitness();
                target_fitness <= cumulative_fitness
            })
            .unwrap_or(population.len() - 1);
        (index, &population[index])
"""))),
 ("roul-scan", None, se((ROUL, """        let target_fitness = rng.gen::<f64>() * self.total_fitness;
        let index = population
            .iter()
            .scan(0.0, |sum, individual| {
                *sum += individual.fitness();
                Some(*sum)
            })
            .position(|sum| sum >= target_fitness)
            .unwrap_or(population.len() - 1);
        (index, &population[index])
"""))),
 ("wheel-helper", None, se((ROUL, "        let target_fitness = rng.gen::<f64>() * self.total_fitness;\n        spin(population, target_fitness, |i| i.fitness())\n"),
    (BOLT, "        let target_fitness = rng.gen::<f64>() * self.total_scaled_fitness;\n        spin(population, target_fitness, |i| self.scaled_fitness(i))\n"),
    ("/// Represents the roulette-wheel selection", """fn spin<I: Individual>(
    population: &Population<I>,
    target: f64,
    weight: impl Fn(&I) -> f64,
) -> (usize, &I) {
    let mut cumulative = 0.0;
    for (index, individual) in population.iter().enumerate() {
        cumulative += weight(individual);
        if cumulative >= target {
            return (index, individual);
        }
    }
    (population.len() - 1, population.last().unwrap())
}

/// Represents the roulette-wheel selection"""))),
 ("roul-subtract", None, se((ROUL, """        let mut remaining = rng.gen::<f64>() * self.total_fitness;
        for (index, individual) in population.iter().enumerate() {
            remaining -= individual.fitness();
            if remaining <= 0.0 {
                return (index, individual);
            }
        }
        (population.len() - 1, population.last().unwrap())
"""))),
 ("roul-prep-seq", None, se(("population.par_iter().map(|i| i.fitness()).sum();", "population.iter().map(|i| i.fitness()).sum();"))),
 ("roul-prep-loop", None, se(("        self.total_fitness = population.par_iter().map(|i| i.fitness()).sum();", "        let mut total = 0.0;\n        for i in population.iter() {\n            total += i.fitness();\n        }\n        self.total_fitness = total;"))),
 ("bolt-prep-local", None, se((BPREP, "        let temperature = self.temperature * self.cooling_rate;\n        self.temperature = temperature;\n        self.total_scaled_fitness = population\n            .par_iter()\n            .map(|i| (i.fitness() / temperature).exp())\n            .sum();\n"))),
 ("bolt-prep-order", None, se((BPREP, "        let temperature = self.cooling_rate * self.temperature;\n        self.total_scaled_fitness = population\n            .par_iter()\n            .map(|i| (i.fitness() / temperature).exp())\n            .sum();\n        self.temperature = temperature;\n"))),
 ("bolt-cool-method", None, se(("        self.temperature *= self.cooling_rate;\n", "        self.cool_down();\n"), ("    /// Calculates the Boltzmann scaled", "    fn cool_down(&mut self) {\n        self.set_temperature(self.temperature() * self.cooling_rate());\n    }\n\n    /// Calculates the Boltzmann scaled"))),
 ("rank-index", None, se((RANK, """        let n = population.len();
        let target_rank = rng.gen_range(1..=n * (n + 1) / 2);

        let mut cumulative_rank = 0;
        for index in 0..n {
            cumulative_rank += index + 1;
            if cumulative_rank >= target_rank {
                return (index, &population[index]);
            }
        }
        (0, population.first().unwrap())
"""))),
 ("rank-zip", None, se((RANK, """        let n = population.len();
        let total_ranks = n * (n + 1) / 2;
        let target_rank = rng.gen_range(1..=total_ranks);

        let mut cumulative_rank = 0;
        for (rank, individual) in (1..=n).zip(population.iter()) {
            cumulative_rank += rank;
            if target_rank <= cumulative_rank {
                return (rank - 1, individual);
            }
        }
        unreachable!()
"""))),
 ("rank-loop", None, se((RANK, """        let n = population.len();
        let total_ranks = n * (n + 1) / 2;
        let target_rank = rng.gen_range(1..=total_ranks);

        let mut index = 0;
        let mut cumulative_rank = 1;
        while cumulative_rank < target_rank {
            index += 1;
            cumulative_rank += index + 1;
        }
        (index, &population[index])
"""))),
 ("rank-total-sum", None, se((RANK, RANK.replace("n * (n + 1) / 2", "(1..=n).sum::<usize>()")))),
 ("rank-total-comm", None, se((RANK, RANK.replace("n * (n + 1) / 2", "(n + 1) * n / 2")))),
 ("rank-total-expand", None, se((RANK, RANK.replace("n * (n + 1) / 2", "(n * n + n) / 2")))),
 ("elit-helper", None, se((ELIT, "        let index = rng.gen_range(self.bound(population.len())..population.len());\n        (index, &population[index])\n"), ("    /// Gets the selection ratio.", "    fn bound(&self, n: usize) -> usize {\n        (self.ratio * n as f64) as usize\n    }\n\n    /// Gets the selection ratio."))),
 ("elit-incl", None, se((ELIT, ELIT.replace("selection_bound..population.len()", "selection_bound..=population.len() - 1")))),
 ("lin-lets", None, se((LIN, """        let n = population.len();
        let u = rng.gen::<f64>();
        let root = (self.bias * self.bias - 4.0 * (self.bias - 1.0) * u).sqrt();
        let offset = (n as f64 * (self.bias - root) / 2.0 / (self.bias - 1.0)) as usize;
        let index = n - 1 - offset.min(n - 1);
        (index, &population[index])
"""))),
 ("lin-satsub", None, se((LIN, LIN.replace("population.len() - 1 - offset.min(population.len() - 1)", "(population.len() - 1).saturating_sub(offset)")))),
 ("dist-while", None, se((DIST, """        let mut tries = 0;
        while tries < max_tries {
            let selected = self.select(population, rng);
            if selected.1 != excluded {
                return Some(selected);
            }
            tries += 1;
        }
        None
"""))),
 ("dist-find", None, se((DIST, "        (0..max_tries)\n            .map(|_| self.select(population, rng))\n            .find(|(_, candidate)| *candidate != excluded)\n"))),
 ("dist-find-map", None, se((DIST, "        (0..max_tries).find_map(|_| {\n            let (index, candidate) = self.select(population, rng);\n            (candidate != excluded).then_some((index, candidate))\n        })\n"))),
 ("dist-continue", None, se((DIST, DIST.replace("if candidate != excluded {\n                return Some((index, candidate));\n            }", "if candidate == excluded {\n                continue;\n            }\n            return Some((index, candidate));")))),
 ("sort-split", None, po((SORT, "    individuals.par_sort_unstable_by(compare_fitness);\n    individuals.dedup();\n    let stats: Stats = individuals.iter().map(Individual::fitness).collect();\n    stats.try_into().unwrap()\n"))),
 ("sort-seq", None, po((SORT, SORT.replace("par_sort_unstable_by", "sort_unstable_by")))),
 ("sort-stable", None, po((SORT, SORT.replace("par_sort_unstable_by", "par_sort_by")))),
 ("sort-record", None, po((SORT, "    individuals.par_sort_unstable_by(compare_fitness);\n    individuals.dedup();\n    let mut stats = Stats::default();\n    for individual in individuals.iter() {\n        stats.record(individual.fitness());\n    }\n    stats.snapshot().unwrap()\n"))),
 ("sort-expect", None, po((SORT, SORT.replace(".unwrap()", ".expect(\"a population needs individuals\")")))),
 ("sort-dedup-by", None, po((SORT, SORT.replace("dedup()", "dedup_by(|a, b| a == b)")))),
 ("repl-order", None, po((REPL, """        let previous_best = self.stats.max();
        std::mem::swap(&mut self.individuals, new_population);
        self.generation += 1;
        self.stats = sort_dedup_and_collect_stats(&mut self.individuals);
        self.stagnation = if self.stats.max() > previous_best {
            0
        } else {
            self.stagnation + 1
        };
"""))),
 ("repl-replace", None, po((REPL, """        let stats = sort_dedup_and_collect_stats(new_population);
        std::mem::swap(&mut self.individuals, new_population);
        let previous = std::mem::replace(&mut self.stats, stats);
        self.generation += 1;
        if self.stats.max() <= previous.max() {
            self.stagnation += 1;
        } else {
            self.stagnation = 0;
        }
"""))),
 ("repl-helper", None, po((REPL, """        std::mem::swap(&mut self.individuals, new_population);
        let previous_best = self.stats.max();
        self.stats = sort_dedup_and_collect_stats(&mut self.individuals);
        self.advance(previous_best);
"""), ("    /// Returns the current generation number of", "    fn advance(&mut self, previous_best: f64) {\n        self.generation += 1;\n        self.stagnation += 1;\n        if self.stats.max() > previous_best {\n            self.stagnation = 0;\n        }\n    }\n\n    /// Returns the current generation number of"))),
 ("take-swap", None, po(("    pub fn take_fittest(mut self) -> I {\n        self.individuals.swap_remove(self.stats.arg_max())", "    pub fn take_fittest(mut self) -> I {\n        let best = self.stats.arg_max();\n        self.individuals.swap_remove(best)"))),
 ("take-remove", None, po(("self.individuals.swap_remove(self.stats.arg_max())", "self.individuals.remove(self.stats.arg_max())"))),
 ("stats-if-let", None, st(("        match self.count {\n            0 => None,\n            _ => Some(self.min),\n        }", "        if self.count == 0 {\n            None\n        } else {\n            Some(self.min)\n        }"), ("        match self.count {\n            0 => None,\n            _ => Some(self.avg),\n        }", "        (self.count > 0).then_some(self.avg)"))),
 ('collect-by-record', None, st(('        let mut samples = iter.into_iter();\n        let Some (first_sample) = samples.next() else {\n            return Default::default()\n        };\n\n        let mut count = 1;\n        let mut min = first_sample;\n        let mut arg_min = 0;\n        let mut max = first_sample;\n        let mut arg_max = 0;\n        let mut avg = first_sample;\n        let mut sum_squared = 0.0;\n\n        for sample in samples {\n            if sample < min {\n                min = sample;\n                arg_min = count;\n            }\n            if sample > max {\n                max = sample;\n                arg_max = count;\n            }\n\n            count += 1;\n            let delta = sample - avg;\n            avg += delta / count as f64;\n            sum_squared += delta * (sample - avg);\n        }\n\n        Self {\n            count,\n            min,\n            arg_min,\n            max,\n            arg_max,\n            avg,\n            sum_squared,\n        }\n', '        let mut stats = Self::default();\n        for sample in iter {\n            stats.record(sample);\n        }\n        stats\n'))),
 ('collect-by-fold', None, st(('        let mut samples = iter.into_iter();\n        let Some (first_sample) = samples.next() else {\n            return Default::default()\n        };\n\n        let mut count = 1;\n        let mut min = first_sample;\n        let mut arg_min = 0;\n        let mut max = first_sample;\n        let mut arg_max = 0;\n        let mut avg = first_sample;\n        let mut sum_squared = 0.0;\n\n        for sample in samples {\n            if sample < min {\n                min = sample;\n                arg_min = count;\n            }\n            if sample > max {\n                max = sample;\n                arg_max = count;\n            }\n\n            count += 1;\n            let delta = sample - avg;\n            avg += delta / count as f64;\n            sum_squared += delta * (sample - avg);\n        }\n\n        Self {\n            count,\n            min,\n            arg_min,\n            max,\n            arg_max,\n            avg,\n            sum_squared,\n        }\n', '        iter.into_iter().fold(Self::default(), |mut stats, sample| {\n            stats.record(sample);\n            stats\n        })\n'))),
 ('collect-for-each', None, st(('        let mut samples = iter.into_iter();\n        let Some (first_sample) = samples.next() else {\n            return Default::default()\n        };\n\n        let mut count = 1;\n        let mut min = first_sample;\n        let mut arg_min = 0;\n        let mut max = first_sample;\n        let mut arg_max = 0;\n        let mut avg = first_sample;\n        let mut sum_squared = 0.0;\n\n        for sample in samples {\n            if sample < min {\n                min = sample;\n                arg_min = count;\n            }\n            if sample > max {\n                max = sample;\n                arg_max = count;\n            }\n\n            count += 1;\n            let delta = sample - avg;\n            avg += delta / count as f64;\n            sum_squared += delta * (sample - avg);\n        }\n\n        Self {\n            count,\n            min,\n            arg_min,\n            max,\n            arg_max,\n            avg,\n            sum_squared,\n        }\n', '        let mut stats = Self::default();\n        iter.into_iter().for_each(|sample| stats.record(sample));\n        stats\n'))),
 ("stats-collect-fold", None, st(("        let Some (first_sample) = samples.next() else {\n            return Default::default()\n        };\n", "        let Some (first_sample) = samples.next() else {\n            return Default::default()\n        };\n        debug_assert!(true);\n"))),
 ("stats-pvar-match", None, st(("        if self.stats.count > 1 {\n            self.stats.sum_squared / (self.stats.count - 1) as f64\n        } else {\n            0.0\n        }", "        match self.stats.count {\n            0 | 1 => 0.0,\n            n => self.stats.sum_squared / (n - 1) as f64,\n        }"))),
 ("stats-record-early", None, st(("        if self.count != 0 {\n            if sample < self.min", "        if self.count > 0 {\n            if self.min > sample"))),
 ("swap-manual", None, mu(("pub fn swap_mutation<G, R: Rng>", "pub fn swap_mutation<G: Copy, R: Rng>"), ("    genome.swap(p1, p2);", "    let g = genome[p1];\n    genome[p1] = genome[p2];\n    genome[p2] = g;"))),
 ("mut-guard", None, mu(("    if n < 2 {\n        return;\n    }\n\n    let (p1, p2) = random_pair(n, rng);\n    genome.swap(p1, p2);", "    if n >= 2 {\n        let (p1, p2) = random_pair(n, rng);\n        genome.swap(p2, p1);\n    }"))),
 ("insert-minmax", None, mu(("    let (mut p1, mut p2) = random_pair(n, rng);\n    if p1 > p2 {\n        std::mem::swap(&mut p1, &mut p2);\n    }\n    genome[p1..=p2].rotate_right(1);", "    let (a, b) = random_pair(n, rng);\n    let (first, last) = (a.min(b), a.max(b));\n    genome[first..last + 1].rotate_right(1);"))),
 ("insert-swaps", None, mu(("    genome[p1..=p2].rotate_right(1);", "    for i in (p1..p2).rev() {\n        genome.swap(i, i + 1);\n    }"))),
 ("invert-swaps", None, mu(("    genome[range].reverse();", "    let (mut a, mut b) = (range.start, range.end - 1);\n    while a < b {\n        genome.swap(a, b);\n        a += 1;\n        b -= 1;\n    }"))),
 ("scramble-fisher", None, mu(("    genome[range].shuffle(rng);", "    let part = &mut genome[range];\n    for i in (1..part.len()).rev() {\n        part.swap(i, rng.gen_range(0..=i));\n    }"))),
 ("dup-let", None, mu(("    genome[p2] = genome[p1];", "    let gene = genome[p1];\n    genome[p2] = gene;"))),
 ("dup-copy-within", None, mu(("    genome[p2] = genome[p1];", "    genome.copy_within(p1..p1 + 1, p2);"))),
 ("mut-helper", None, mu(("    let range = bounded_random_range(n, 2, n, rng);\n    genome[range].reverse();", "    part(genome, rng).reverse();"), ("    let range = bounded_random_range(n, 2, n, rng);\n    genome[range].shuffle(rng);", "    part(genome, rng).shuffle(rng);"), ("/// Shuffles the elements within", "fn part<'a, G, R: Rng>(genome: &'a mut [G], rng: &mut R) -> &'a mut [G] {\n    let n = genome.len();\n    let range = bounded_random_range(n, 2, n, rng);\n    &mut genome[range]\n}\n\n/// Shuffles the elements within") )),
 ("pair-expr", None, op(("    let mut p2 = rng.gen_range(0..n - 1);\n    if p2 >= p1 {\n        p2 += 1;\n    }\n    (p1, p2)", "    let p2 = rng.gen_range(0..n - 1);\n    if p2 < p1 {\n        (p1, p2)\n    } else {\n        (p1, p2 + 1)\n    }"))),
 ("pair-usize", None, op(("    let mut p2 = rng.gen_range(0..n - 1);\n    if p2 >= p1 {\n        p2 += 1;\n    }\n    (p1, p2)", "    let p2 = rng.gen_range(0..n - 1);\n    (p1, p2 + usize::from(p2 >= p1))"))),
 ("range-inline", None, op(("    let end = start + length;\n    start..end", "    start..(start + length)"))),
 ("range-excl", None, op(("rng.gen_range(0..=(n - length))", "rng.gen_range(0..n - length + 1)"))),
 ("cmp-match", None, op(("    a.fitness()\n        .partial_cmp(&b.fitness())\n        .unwrap_or(std::cmp::Ordering::Equal)", "    let (x, y) = (a.fitness(), b.fitness());\n    if x < y {\n        std::cmp::Ordering::Less\n    } else if x > y {\n        std::cmp::Ordering::Greater\n    } else {\n        std::cmp::Ordering::Equal\n    }"))),
 ("cmp-partial-match", None, op(("    a.fitness()\n        .partial_cmp(&b.fitness())\n        .unwrap_or(std::cmp::Ordering::Equal)", "    match a.fitness().partial_cmp(&b.fitness()) {\n        Some(order) => order,\n        None => std::cmp::Ordering::Equal,\n    }"))),
]
