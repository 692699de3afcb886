"""endless and unbounded loops (P39)"""
O, CX, M, A, S, MU = "src/operators.rs", "src/operators/crossover.rs", "src/model.rs", "src/algorithms.rs", "src/operators/selection.rs", "src/operators/mutation.rs"
def e(f, *ps): return [(f, o, n) for o, n in ps]
TRY = """        for _ in 0..max_tries {
            let (index, candidate) = self.select(population, rng);
            if candidate != excluded {
                return Some((index, candidate));
            }
        }
        None
"""
PAIR = """    let mut p2 = rng.gen_range(0..n - 1);
    if p2 >= p1 {
        p2 += 1;
    }
    (p1, p2)"""
END = """        if offspring.is_valid() && self.can_survive(&offspring, fittest_parent, population, rng) {
            offspring
        } else {
            fittest_parent.clone()
        }
"""
FILL = """            size => {
                offspring.par_extend(rayon::iter::repeatn(self.model(), size).map_init(
                    || rng_pool.pull(M::rng),
                    |rng, model| model.breed(population, breeding_parameters, &mut *rng),
                ));
            }
"""
SKIP = "        if !genome[p1..p2].contains(&parent2[index2]) {\n"
BUGS = [
 ("tm-pair-retry", ["P39"], e(O, (PAIR, "    loop {\n        let p2 = rng.gen_range(0..n);\n        if p2 != p1 {\n            return (p1, p2);\n        }\n    }"))),
 ("tm-pair-while", ["P39"], e(O, (PAIR, "    let mut p2 = rng.gen_range(0..n);\n    while p2 == p1 {\n        p2 = rng.gen_range(0..n);\n    }\n    (p1, p2)"))),
 ("tm-distinct-loop", ["P39"], e(S, (TRY, "        let _ = max_tries;\n        loop {\n            let (index, candidate) = self.select(population, rng);\n            if candidate != excluded {\n                return Some((index, candidate));\n            }\n        }\n"))),
 ("tm-distinct-while", ["P39"], e(S, (TRY, "        if max_tries == 0 {\n            return None;\n        }\n        let mut found = self.select(population, rng);\n        while found.1 == excluded {\n            found = self.select(population, rng);\n        }\n        Some(found)\n"))),
 ("tm-distinct-count-hit", ["P39"], e(S, (TRY, "        let mut tries = 0;\n        while tries < max_tries {\n            let (index, candidate) = self.select(population, rng);\n            if candidate != excluded {\n                return Some((index, candidate));\n            }\n            if index != 0 {\n                tries += 1;\n            }\n        }\n        None\n"))),
 ("tm-pmx-start", ["P39"], e(CX, ("mapped_gene = end[pos];", "mapped_gene = if pos + 1 == start.len() && start[0] == end[0] { start[pos] } else { end[pos] };"))),
 ("tm-pmx-self", ["P39"], e(CX, ("mapped_gene = end[pos];", "if end[pos] != parent2[i] {\n                    mapped_gene = end[pos];\n                }"))),
 ("tm-cx-mark-first-only", ["P39"], e(CX, ("            visited[index] = true;\n", "            if first_parent {\n                visited[index] = true;\n            }\n"))),
 ("tm-cx-mark-later", ["P39"], e(CX, ("            visited[index] = true;\n", "            if index != cycle_start || n < 3 {\n                visited[index] = true;\n            }\n"))),
 ("tm-gpx-peek", ["P39"], e(CX, ("        let mut partition = partitions.swap_remove(partition_index);", "        let mut partition = partitions[partition_index].clone();\n        if partitions.len() > 1 {\n            partitions.swap_remove(partition_index);\n        }"), ("        for other_partition in &mut partitions {\n            other_partition", "        for other_partition in partitions.iter_mut().skip(1) {\n            other_partition"))),
 ("tm-parts-unrecorded", ["P39"], e(O, ("            visited.insert(next_node);\n", ""))),
 ("tm-parts-unrecorded-first", ["P39"], e(O, ("            visited.insert(next_node);\n", "            if partition.len() != 2 {\n                visited.insert(next_node);\n            }\n"))),
 ("tm-ox-empty-range", ["P39"], e(CX, ("    if p1 == p2 {\n        return parent2.to_vec();", "    if p1 == p2 && p2 != n {\n        return parent2.to_vec();"))),
 ("tm-ox-no-empty", ["P39"], e(CX, ("    // With an empty range there is nothing to keep from parent1\n    if p1 == p2 {\n        return parent2.to_vec();\n    }\n", ""))),
 ("tm-ox-skip-once", ["P39"], e(CX, ("        index2 += 1;\n        if index2 == n {\n            index2 = 0;\n        }", "        if index2 + 1 < n || index1 < n / 2 {\n            index2 = (index2 + 1) % n;\n        }"))),
 ("tm-ox-skip-kept", ["P39"], e(CX, (SKIP, "        if !genome[p1..p2].contains(&parent2[index2]) || index2 == p1 && n > 6 {\n".replace(" || index2 == p1 && n > 6", "")), ("        index2 += 1;\n        if index2 == n {\n            index2 = 0;\n        }", "        if index2 != p1 || index1 < p1 {\n            index2 += 1;\n        }\n        if index2 == n {\n            index2 = 0;\n        }"))),
 ("tm-breed-until-valid", ["P39"], e(M, ("        self.improve(&mut offspring);\n        self.evaluate(&mut offspring);\n", "        self.improve(&mut offspring);\n        self.evaluate(&mut offspring);\n        while !offspring.is_valid() {\n            self.mutate(&mut offspring, rng);\n            self.evaluate(&mut offspring);\n        }\n"))),
 ("tm-fill-survivors", ["P39"], e(A, (FILL, "            _ => {\n                let mut rng = rng_pool.pull(M::rng);\n                while offspring.len() < offspring_size {\n                    let child = self.model().breed(population, breeding_parameters, &mut *rng);\n                    if !offspring.contains(&child) {\n                        offspring.push(child);\n                    }\n                }\n            }\n"))),
 ("tm-init-until-valid", ["P39"], e(A, ("            .for_each_with(self.model(), |model, individual| model.evaluate(individual));", "            .for_each_with(self.model(), |model, individual| {\n                model.evaluate(individual);\n                while !individual.is_valid() {\n                    model.improve(individual);\n                    model.evaluate(individual);\n                }\n            });"))),
 ("tm-clone-until-distinct", ["P39"], e(M, ("                self.mutate(&mut new_individual, rng);\n                new_individual\n", "                let original = new_individual.clone();\n                while new_individual == original {\n                    self.mutate(&mut new_individual, rng);\n                }\n                new_individual\n"))),
 ("tm-run-until-found", ["P39"], e("src/evolution.rs", ("        while progress(&population) {", "        while population.len() < 2 {\n            offspring_seed(&mut population);\n        }\n        while progress(&population) {"), ("impl<A, M> Evolution<A, M>", "#[inline]\nfn offspring_seed<T>(_population: &mut T) {}\n\nimpl<A, M> Evolution<A, M>"))),
]
BENIGN = [
 ("tm-pair-range", None, e(O, (PAIR, "    let offset = rng.gen_range(0..n - 1);\n    (p1, if offset < p1 { offset } else { offset + 1 })"))),
 ("tm-distinct-while-count", None, e(S, (TRY, "        let mut tries = 0;\n        while tries < max_tries {\n            let (index, candidate) = self.select(population, rng);\n            if candidate != excluded {\n                return Some((index, candidate));\n            }\n            tries += 1;\n        }\n        None\n"))),
 ("tm-distinct-left", None, e(S, (TRY, "        let mut left = max_tries;\n        loop {\n            if left == 0 {\n                return None;\n            }\n            left -= 1;\n            let (index, candidate) = self.select(population, rng);\n            if candidate != excluded {\n                return Some((index, candidate));\n            }\n        }\n"))),
 ("tm-cx-loop-break", None, e(CX, ("        while !visited[index] {\n            visited[index] = true;\n", "        loop {\n            if visited[index] {\n                break;\n            }\n            visited[index] = true;\n"))),
 ("tm-pmx-loop", None, e(CX, ("            while let Some(pos) = find_position(&mapped_gene, start) {\n                mapped_gene = end[pos];\n            }", "            loop {\n                match find_position(&mapped_gene, start) {\n                    Some(pos) => mapped_gene = end[pos],\n                    None => break,\n                }\n            }"))),
 ("tm-gpx-pop", None, e(CX, ("    while !partitions.is_empty() {", "    while partitions.len() != 0 {"))),
 ("tm-ox-mod", None, e(CX, ("        index2 += 1;\n        if index2 == n {\n            index2 = 0;\n        }", "        index2 = (index2 + 1) % n;"))),
 ("tm-parts-insert-first", None, e(O, ("            partition.push(next_node);\n            visited.insert(next_node);\n", "            if visited.insert(next_node) {\n                partition.push(next_node);\n            }\n"))),
]
