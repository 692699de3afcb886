EV = "src/evolution.rs"; AL = "src/algorithms.rs"; GA = "src/algorithms/ga.rs"; AGA = "src/algorithms/aga.rs"; MO = "src/model.rs"; PO = "src/population.rs"
CX = "src/operators/crossover.rs"; MU = "src/operators/mutation.rs"; SE = "src/operators/selection.rs"; LI = "src/lib.rs"; OP = "src/operators.rs"
BUGS = [
 ("swap-thread-rng", ["P25"], [(MU, "    let (p1, p2) = random_pair(n, rng);\n    genome.swap", "    let _ = &rng;\n    let (p1, p2) = random_pair(n, &mut rand::thread_rng());\n    genome.swap")]),
 ("scramble-seeded", ["P25"], [(MU, "    genome[range].shuffle(rng);", "    use rand::SeedableRng;\n    genome[range].shuffle(&mut rand::rngs::SmallRng::seed_from_u64(n as u64));")]),
 ("clock-parity", ["P25"], [(MU, "    genome[range].reverse();", "    if std::time::Instant::now().elapsed().as_nanos() < 1_000_000_000 {\n        genome[range].reverse();\n    }")]),
 ("breed-thread-id", ["P25"], [(MO, "    fn breed(", "    #[doc(hidden)]\n    fn lane() -> usize {\n        rayon::current_thread_index().unwrap_or(0)\n    }\n\n    fn breed(")]),
 ("gpx-hash-order", ["P25"], [(CX, "        genes_in_selected_partition.extend(partition.iter().copied());\n\n        // Add the selected partition to the offspring\n        offspring.append(&mut partition);", "        genes_in_selected_partition.extend(partition.drain(..));\n\n        // Add the selected partition to the offspring\n        offspring.extend(genes_in_selected_partition.iter().copied());")]),
 ("scx-unvisited-set", ["P25"], [(CX, "    let mut visited = HashSet::with_capacity(n);\n\n    let mut current = pivot;\n    let mut offspring = vec![pivot; n];\n    for next in offspring.iter_mut().skip(1) {\n        visited.insert(current);\n\n        // Find", "    let mut visited = HashSet::with_capacity(n);\n    let mut unvisited: HashSet<G> = parent1.iter().copied().collect();\n\n    let mut current = pivot;\n    let mut offspring = vec![pivot; n];\n    for next in offspring.iter_mut().skip(1) {\n        visited.insert(current);\n        unvisited.remove(&current);\n\n        // Find"), (CX, "            // Both genes are visited; select an unvisited one\n            parent1\n                .iter()\n                .find(|gene| !visited.contains(gene))\n                .copied()", "            // Both genes are visited; select an unvisited one\n            unvisited.iter().next().copied()")]),
 ("common-neigh-hash-order", ["P25"], [(OP, "    neighbors1.retain(|neighbor| neighbors2.contains(neighbor));\n    neighbors1", "    neighbors2.into_iter().filter(|neighbor| neighbors1.contains(neighbor)).collect()")]),
 ("tournament-any", ["P25"], [(SE, "    fn prepare(&mut self, population: &Population<I>) {\n        self.total_fitness =", "    fn prepare(&mut self, population: &Population<I>) {\n        let _first = population.par_iter().find_any(|i| i.fitness() > 0.0).is_some();\n        self.total_fitness =")]),
 ("atomic-counter", ["P25", "P32"], [(MU, "    genome[range].reverse();", "    static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    if CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < usize::MAX / 2 {\n        genome[range].reverse();\n    }")]),
 ("pool-entropy", ["P25", "P32"], [(AL, "|| rng_pool.pull(M::rng),", "|| {\n                        let _ = &rng_pool;\n                        M::rng()\n                    },"), (AL, "let mut rng = rng_pool.pull(M::rng);", "use rand::SeedableRng;\n                let mut rng = rng_pool.pull(|| unimplemented!());")]),
 ("unsafe-get", ["P32"], [(SE, "        (self.population_size", "        (self.population_size")] if False else [(MU, "    genome.swap(p1, p2);\n", "    #[allow(unsafe_code)]\n    unsafe {\n        let p = genome.as_mut_ptr();\n        std::ptr::swap(p.add(p1), p.add(p2));\n    }\n")]),
 ("unsafe-send", ["P32"], [(PO, "impl<I: Individual> Population<I> {", "#[allow(unsafe_code)]\nunsafe impl<I: Individual> Sync for Population<I> {}\n\nimpl<I: Individual> Population<I> {")]),
 ("shared-mutex-rng", ["P32"], [(AL, "                offspring.par_extend(rayon::iter::repeatn(self.model(), size).map_init(\n                    || rng_pool.pull(M::rng),\n                    |rng, model| model.breed(population, breeding_parameters, &mut *rng),\n                ));", "                let rng = std::sync::Mutex::new(rng_pool.pull(M::rng));\n                offspring.par_extend(rayon::iter::repeatn(self.model(), size).map(\n                    |model| model.breed(population, breeding_parameters, &mut *rng.lock().unwrap()),\n                ));")]),
 ("thread-local-rng", ["P25", "P32"], [(OP, "pub fn random_pair", "thread_local! {\n    static LAST: std::cell::Cell<usize> = std::cell::Cell::new(0);\n}\n\npub fn random_pair"), (OP, "    let p1 = rng.gen_range(0..n);\n", "    let p1 = (rng.gen_range(0..n) + LAST.with(|l| l.replace(1))) % n;\n")]),
]
BENIGN = [
 ("rng-generic-renamed", None, [(MU, "pub fn swap_mutation<G, R: Rng>(genome: &mut [G], rng: &mut R) {\n    let n = genome.len();\n    if n < 2 {\n        return;\n    }\n\n    let (p1, p2) = random_pair(n, rng);", "pub fn swap_mutation<G, Source: Rng>(genome: &mut [G], source: &mut Source) {\n    let n = genome.len();\n    if n < 2 {\n        return;\n    }\n\n    let (p1, p2) = random_pair(n, source);")]),
 ("pool-closure", None, [(AL, "|| rng_pool.pull(M::rng),", "|| rng_pool.pull(|| M::rng()),")]),
 ("per-worker-rng", None, [(AL, "let mut rng = rng_pool.pull(M::rng);", "let mut rng = M::rng();"), (AL, "                        .breed(population, breeding_parameters, &mut *rng),\n                );", "                        .breed(population, breeding_parameters, &mut rng),\n                );")]),
 ("const-table", None, [(MU, "    genome[range].reverse();", "    static MINIMUM: usize = 2;\n    if range.len() >= MINIMUM {\n        genome[range].reverse();\n    }")]),
 ("gpx-loop-retain", None, [(CX, "        for other_partition in &mut partitions {\n            other_partition.retain(|gene| !genes_in_selected_partition.contains(gene));\n        }\n", "        partitions.iter_mut().for_each(|other| other.retain(|gene| !genes_in_selected_partition.contains(gene)));\n")]),
 ("erx-helper", None, [(CX, "        for neighbors in neighbor_lists.values_mut() {\n            neighbors.remove(&current);\n        }\n", "        forget(&mut neighbor_lists, &current);\n"), (CX, "/// Performs a Generalized Partition Crossover 2 (GPX2)", "fn forget<G: Eq + Hash>(lists: &mut HashMap<G, HashSet<G>>, gene: &G) {\n    lists.values_mut().for_each(|neighbors| {\n        neighbors.remove(gene);\n    });\n}\n\n/// Performs a Generalized Partition Crossover 2 (GPX2)")]),
 ("debug-derive", None, [(PO, "pub struct Population<", "#[derive(Debug)]\npub struct Population<")]),
]
