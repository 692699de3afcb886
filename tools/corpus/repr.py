"""Refactorings that change how things are stored or where code lives, not what it does."""
import re
A, AGA, GA = "src/algorithms.rs", "src/algorithms/aga.rs", "src/algorithms/ga.rs"
EV, M, L, IND = "src/evolution.rs", "src/model.rs", "src/lib.rs", "src/individual.rs"
O, X, MU, S = "src/operators.rs", "src/operators/crossover.rs", "src/operators/mutation.rs", "src/operators/selection.rs"
P, T = "src/population.rs", "src/stats.rs"


def every(f, pat, new):
    """all matches of a regular expression, as successive single replacements of the current text"""
    s = open("/repo/" + f).read()
    return [(f, s, re.sub(pat, new, s))]


def chain(f, *subs):
    s = s0 = open("/repo/" + f).read()
    for a, b in subs:
        t = re.sub(a, b, s)
        assert t != s, (f, a)
        s = t
    return [(f, s0, s)]


BENIGN = [
    ("rp-pstats-tuple", None, chain(T, (r"self\.stats\.", "self.0."), (r"pub struct PopulatedStats \{\n    stats: Stats,\n\}", "pub struct PopulatedStats(Stats);"), (r"PopulatedStats \{ stats: \*self \}", "PopulatedStats(*self)"), (r"Ok\(Self \{ stats \}\)", "Ok(Self(stats))"))),
    ("rp-stats-best-pair", None, chain(T, (r"    max: f64,\n    arg_max: usize,\n", "    top: (f64, usize),\n"), (r"self\.max\b(?!\()", "self.top.0"), (r"self\.arg_max\b(?!\()", "self.top.1"), (r"self\.stats\.max\b(?!\()", "self.stats.top.0"), (r"self\.stats\.arg_max\b(?!\()", "self.stats.top.1"), (r"            max,\n            arg_max,\n", "            top: (max, arg_max),\n"))),
    ("rp-stats-reorder", None, chain(T, (r"    count: usize,\n    min: f64,\n    arg_min: usize,\n    max: f64,\n    arg_max: usize,\n    avg: f64,\n    sum_squared: f64,\n", "    arg_min: usize,\n    arg_max: usize,\n    sum_squared: f64,\n    avg: f64,\n    max: f64,\n    min: f64,\n    count: usize,\n"))),
    ("rp-stats-nested", None, chain(T, (r"#\[derive\(Debug, Default, Copy, Clone\)\]\npub struct Stats \{\n    count: usize,", "#[derive(Debug, Default, Copy, Clone)]\nstruct Moments {\n    avg: f64,\n    sum_squared: f64,\n}\n\n/// Statistics.\n#[derive(Debug, Default, Copy, Clone)]\npub struct Stats {\n    count: usize,"), (r"    avg: f64,\n    sum_squared: f64,\n\}\n\nimpl Stats", "    moments: Moments,\n}\n\nimpl Stats"), (r"self\.avg\b(?!\()", "self.moments.avg"), (r"self\.sum_squared", "self.moments.sum_squared"), (r"self\.stats\.avg\b(?!\()", "self.stats.moments.avg"), (r"self\.stats\.sum_squared", "self.stats.moments.sum_squared"), (r"            avg,\n            sum_squared,\n        \}", "            moments: Moments { avg, sum_squared },\n        }"))),
    ("rp-pop-counters", None, chain(P, (r"    generation: usize,\n    stagnation: usize,\n", "    counters: (usize, usize),\n"), (r"self\.generation\b(?!\()", "self.counters.0"), (r"self\.stagnation\b(?!\()", "self.counters.1"), (r"            generation: 0,\n            stagnation: 0,\n", "            counters: (0, 0),\n"))),
    ("rp-pop-reorder", None, chain(P, (r"    individuals: Vec<I>,\n    generation: usize,\n    stagnation: usize,\n    stats: PopulatedStats,\n", "    stats: PopulatedStats,\n    stagnation: usize,\n    generation: usize,\n    individuals: Vec<I>,\n"))),
    ("rp-ga-rate-kept", None, chain(GA, (r"    elite_size: usize,\n", "    elitism_rate: f64,\n"), (r"self\.elite_size = interpolate_usize\(0, parameters\.population_size, parameters\.elitism_rate\);", "self.elitism_rate = parameters.elitism_rate;"), (r"        if self\.elite_size != 0 \{\n            let range_start = population\.len\(\)\.saturating_sub\(self\.elite_size\);", "        let elite_size = interpolate_usize(0, self.population_size, self.elitism_rate);\n        if elite_size != 0 {\n            let range_start = population.len().saturating_sub(elite_size);"), (r"elite_size: Default", "elitism_rate: Default"))),
    ("rp-ga-elite-method", None, chain(GA, (r"impl<M: EvolutionModel> EvolutionAlgorithm<M> for GeneticAlgorithm<M> \{", "impl<M: EvolutionModel> GeneticAlgorithm<M> {\n    fn first_elite(&self, population: &Population<M::Individual>) -> usize {\n        population.len().saturating_sub(self.elite_size)\n    }\n}\n\nimpl<M: EvolutionModel> EvolutionAlgorithm<M> for GeneticAlgorithm<M> {"), (r"            let range_start = population\.len\(\)\.saturating_sub\(self\.elite_size\);\n            elites\.extend\(population\[range_start\.\.\]\.iter\(\)\.cloned\(\)\);", "            elites.extend_from_slice(&population[self.first_elite(population)..]);"))),
    ("rp-ga-params-kept", None, chain(GA, (r"    population_size: usize,\n    elite_size: usize,\n", "    sizes: Sizes,\n"), (r"/// Implements the fundamental tasks", "#[derive(Default, Clone, Copy)]\nstruct Sizes {\n    population: usize,\n    elites: usize,\n}\n\n/// Implements the fundamental tasks"), (r"self\.population_size = parameters\.population_size;\n        self\.elite_size = (interpolate_usize\([^)]*\));", r"self.sizes = Sizes {\n            population: parameters.population_size,\n            elites: \1,\n        };"), (r"(\(&self\.breeding, )self\.population_size", r"\1self.sizes.population"), (r"self\.elite_size", "self.sizes.elites"), (r"            population_size: Default::default\(\),\n            elite_size: Default::default\(\),\n", "            sizes: Sizes::default(),\n"))),
    ("rp-aga-option-std", None, chain(AGA, (r"reference_std: f64,", "reference_std: Option<f64>,"), (r"self\.reference_std = population\.stats\(\)\.std\(\);", "self.reference_std = Some(population.stats().std());"), (r"/ self\.reference_std;", "/ self.reference_std.unwrap_or_default();"))),
    ("rp-aga-interval-first", None, chain(AGA, (r"n if self\.adjustment_interval != 0 && n % self\.adjustment_interval == 0 =>", "n if n.checked_rem(self.adjustment_interval) == Some(0) =>"))),
    ("rp-aga-ranges-struct", None, chain(AGA, (r"    crossover_rate_range: Range<f64>,\n    mutation_rate_range: Range<f64>,\n    breeding", "    ranges: (Range<f64>, Range<f64>),\n    breeding"), (r"self\.crossover_rate_range = parameters\.crossover_rate_range\.clone\(\);\n        self\.mutation_rate_range = parameters\.mutation_rate_range\.clone\(\);", "self.ranges = (\n            parameters.crossover_rate_range.clone(),\n            parameters.mutation_rate_range.clone(),\n        );"), (r"self\.crossover_rate_range\.(end;|start,|end,)", r"self.ranges.0.\1"), (r"self\.mutation_rate_range\.(start;|start,|end,)", r"self.ranges.1.\1"), (r"            crossover_rate_range: Default::default\(\),\n            mutation_rate_range: Default::default\(\),\n", "            ranges: Default::default(),\n"))),
    ("rp-bolt-inverse", None, chain(S, (r"    total_scaled_fitness: f64,\n\}", "    total: Option<f64>,\n}"), (r"            total_scaled_fitness: 0\.0,\n", "            total: None,\n"), (r"self\.total_scaled_fitness = population\n            \.par_iter\(\)\n            \.map\(\|i\| self\.scaled_fitness\(i\)\)\n            \.sum\(\);", "let total = population\n            .par_iter()\n            .map(|i| self.scaled_fitness(i))\n            .sum();\n        self.total = Some(total);"), (r"self\.total_scaled_fitness", "self.total.unwrap_or(0.0)"))),
    ("rp-shared-wheel", None, chain(S, (r"        let target_fitness = rng\.gen::<f64>\(\) \* self\.total_fitness;\n(?:.*\n)*?        \(population\.len\(\) - 1, population\.last\(\)\.unwrap\(\)\)\n", "        spin(population, rng.gen::<f64>() * self.total_fitness, |i| i.fitness())\n"), (r"        let target_fitness = rng\.gen::<f64>\(\) \* self\.total_scaled_fitness;\n(?:.*\n)*?        \(population\.len\(\) - 1, population\.last\(\)\.unwrap\(\)\)\n", "        spin(population, rng.gen::<f64>() * self.total_scaled_fitness, |i| self.scaled_fitness(i))\n"), (r"/// Represents the Boltzmann selection algorithm", "fn spin<'a, I: Individual>(\n    population: &'a Population<I>,\n    target: f64,\n    weight: impl Fn(&I) -> f64,\n) -> (usize, &'a I) {\n    let mut cumulative = 0.0;\n    for (index, individual) in population.iter().enumerate() {\n        cumulative += weight(individual);\n        if cumulative >= target {\n            return (index, individual);\n        }\n    }\n    (population.len() - 1, population.last().unwrap())\n}\n\n/// Represents the Boltzmann selection algorithm"))),
    ("rp-evo-struct-step", None, chain(EV, (r"            // Reset the new population\.\n(?:.*\n)*?                \.replace_population\(&mut population, &mut new_population\);\n", "            self.step(&mut population, &mut new_population, &pool);\n"), (r"(?m)^impl<A, M> Default for Evolution<A, M>", "impl<A, M> Evolution<A, M>\nwhere\n    A: EvolutionAlgorithm<M>,\n    M: EvolutionModel,\n{\n    fn step(\n        &self,\n        population: &mut Population<M::Individual>,\n        scratch: &mut Vec<M::Individual>,\n        pool: &Pool<M::Rng>,\n    ) {\n        scratch.clear();\n        self.algorithm.borrow_mut().prepare_for_next_population(population);\n        let algorithm = self.algorithm.borrow();\n        algorithm.select_elites(population, scratch);\n        algorithm.generate_new_population(population, scratch, pool);\n        algorithm.replace_population(population, scratch);\n    }\n}\n\nimpl<A, M> Default for Evolution<A, M>"))),
    ("rp-evo-next-fn", None, chain(EV, (r"            // Reset the new population\.\n            new_population\.clear\(\);\n", "            let mut new_population = Vec::with_capacity(parameters.max_population_size());\n"), (r"        let mut new_population = Vec::with_capacity\(parameters\.max_population_size\(\)\);\n        let pool", "        let pool"))),
    ("rp-aga-ga-shared-elites", None, [(GA, "            let range_start = population.len().saturating_sub(self.elite_size);\n            elites.extend(population[range_start..].iter().cloned());", "            crate::algorithms::copy_best(population, self.elite_size, elites);"), (AGA, "            let range_start = population.len().saturating_sub(self.elite_size);\n            elites.extend(population[range_start..].iter().cloned());", "            crate::algorithms::copy_best(population, self.elite_size, elites);"), (A, "/// Represents the core", "pub(crate) fn copy_best<I: Clone>(from: &[I], n: usize, to: &mut Vec<I>) {\n    let skip = from.len().saturating_sub(n);\n    to.extend(from.iter().skip(skip).cloned());\n}\n\n/// Represents the core")]),
    ("rp-tournament-nonzero", None, chain(S, (r"pub struct TournamentSelection \{\n    size: usize,", "pub struct TournamentSelection {\n    extra: usize,"), (r"    pub fn new\(size: usize\) -> Self \{\n        assert!\(size != 0\);\n        Self \{ size \}", "    pub fn new(size: usize) -> Self {\n        assert!(size != 0);\n        Self { extra: size - 1 }"), (r"    pub fn size\(&self\) -> usize \{\n        self\.size\n", "    pub fn size(&self) -> usize {\n        self.extra + 1\n"), (r"        self\.size = size;?\n", "        self.extra = size - 1;\n"), (r"take\(self\.size\)", "take(self.extra + 1)"))),
    ("rp-individual-tuple", None, chain(IND, (r"self\.i\b", "self.0"), (r"other\.i\b", "other.0"), (r"\{\n    i: I,\n\}", "(I);") , (r"Self \{ i \}", "Self(i)"))),
]
