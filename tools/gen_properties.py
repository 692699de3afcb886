#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable line by line)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":x} for x in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

EV="src/evolution.rs"; AL="src/algorithms.rs"; GA="src/algorithms/ga.rs"; AG="src/algorithms/aga.rs"
MO="src/model.rs"; PO="src/population.rs"; IN="src/individual.rs"; OP="src/operators.rs"
SE="src/operators/selection.rs"; MU="src/operators/mutation.rs"; CR="src/operators/crossover.rs"; ST="src/stats.rs"; LI="src/lib.rs"

p("P01","The progress callback is the only, once-per-generation, driver of a run",
 "During a run the progress callback is called exactly once for every generation, starting with the initial population (generation 0) and before that generation is used for breeding. When it returns false no further generation is produced and the population (or its fittest individual) that the callback has just seen is what the run returns; when it returns true exactly one further generation is produced.",
 ["inputs","histories"],"every model, algorithm, parameter set and every sequence of callback answers",
 "Tests stop after a few fixed conditions with a fixed model; the contract is about every history of callback answers and about never doing work behind the callback's back.",
 [EV],[("main evolution loop",EV+" Evolution::evolve_population"),("random start",EV+" Evolution::run"),("start from one individual",EV+" Evolution::evolve_individual")],obs=["sequence of callback invocations and the returned value"])
p("P02","Only evaluated, valid individuals enter a population",
 "Every individual the library puts into a population was evaluated by the model after its last modification by the library and was then found valid; this covers the individuals a run starts from and every offspring that breeding returns. Individuals that are invalid after evaluation are dropped from the initial population and never survive breeding; no valid one of the initial individuals is dropped.",
 ["inputs","histories"],"every model, initial population and random sequence",
 "A missing or misplaced evaluation only shows for models whose fitness is cached and for particular crossover, mutation and improvement combinations.",
 [AL,MO],[("initial population",AL+" EvolutionAlgorithm::initialize_population"),("breeding",MO+" EvolutionModel::breed")])
p("P03","Keep-best reproduction: offspring must beat its parents to survive",
 "Breeding returns the newly created offspring only if the offspring is valid and the survival rule accepts it against the fittest of the parents actually used; otherwise it returns an unmodified copy of that fittest parent. The default survival rule accepts exactly when the offspring's fitness is greater than or equal to the fittest parent's fitness, so with it breeding never returns an individual worse than the parents it used.",
 ["inputs"],"every population, model, rates and random sequence",
 "Depends on which of the two parents is fitter, on ties and on validity, for arbitrary fitness values; a test sees a handful of draws.",
 [MO],[("breeding",MO+" EvolutionModel::breed"),("survival rule",MO+" EvolutionModel::can_survive")])
p("P04","Elites are the fittest individuals and are carried over unmodified",
 "For both genetic algorithms the number of elites is the floor of population size times elitism rate (limited by the current population), the elites are exactly the fittest individuals of the current generation, and they are placed unmodified into the next generation. Nothing that follows in producing that generation changes or drops them (apart from merging equal individuals), so with at least one elite the best fitness never decreases. An algorithm that keeps the provided elite selection carries over exactly the fittest individual.",
 ["inputs","histories"],"every population size, elitism rate, model and generation",
 "Off-by-one counts, the wrong end of the sorted population or a later clear only lose elites on particular sizes or particular generations.",
 [GA,AG,AL,EV,LI],[("elite selection",GA+" GeneticAlgorithm::select_elites"),("elite selection",AG+" AdaptiveGeneticAlgorithm::select_elites"),("elite count",GA+" configure"),("elite count",AG+" configure"),("interpolation",LI+" interpolate_usize")])
p("P05","Each generation is filled to exactly the configured size",
 "Every generation handed over for replacement consists of the elites followed by freshly bred offspring so that the total is exactly the configured population size (no offspring are bred when the elites already reach it). Every bred offspring is added, nothing of an earlier generation's scratch buffer leaks in, and the population that replaces the old one is exactly that generation before duplicates are merged. The provided generation step keeps whatever elites it is given and fills up to the size the algorithm reports.",
 ["inputs","histories"],"every configured size, elite count and generation",
 "Whether the count is right depends on the combination of sizes; the case of a single missing offspring needs elites to be exactly one short.",
 [AL,EV],[("offspring generation",AL+" EvolutionAlgorithm::generate_new_population"),("replacement",AL+" EvolutionAlgorithm::replace_population"),("scratch buffer",EV+" Evolution::evolve_population")])
p("P06","A population is sorted by fitness, without duplicates, with matching statistics",
 "Whenever a population is created or replaced its individuals are sorted by fitness in ascending order, contain no two equal individuals (and no individual is dropped unless it equals one that is kept), and its statistics (count, minimum, maximum and their indices, average, variance) are those of exactly these individuals in this order. Creating or replacing a population from an empty vector panics, and the fittest individual it reports or hands out is the one at the position of the maximum fitness.",
 ["inputs"],"every vector of individuals",
 "The ordering, uniqueness and statistics have to match for every input vector, including ties and duplicates.",
 [PO,OP],[("construction",PO+" Population::new"),("replacement",PO+" Population::replace"),("fittest",PO+" Population::fittest, Population::take_fittest"),("fitness order",OP+" compare_fitness")],state=["individuals","stats"])
p("P07","Safe callers cannot break a population's invariants",
 "No safe code outside the library can obtain mutable access to the individuals, the counters or the statistics of a population, or build a population with inconsistent parts: the only public ways in are construction and whole replacement, which re-establish order, uniqueness and statistics, and all other public access is shared or consumes the population.",
 ["programs"],"every safe program using the public interface",
 "It is a statement about all programs that can be written against the interface; a test is one program.",
 [PO],[("private fields and accessors",PO+" Population"),("read-only dereference",PO+" impl Deref for Population")])
p("P08","Generation and stagnation counters tell the truth",
 "A new population has generation 0 and stagnation 0. Each replacement increases the generation number by exactly one, and resets stagnation to zero if the best fitness is strictly greater than the best fitness before the replacement and otherwise increases stagnation by exactly one.",
 ["inputs","histories"],"every sequence of replacements",
 "The comparison must involve the best fitness before and after, for every sequence of improvements, ties and regressions.",
 [PO],[("replacement",PO+" Population::replace"),("construction",PO+" Population::new")],state=["generation","stagnation"])
p("P09","Every selector returns a valid index and the individual at that index",
 "Every built-in selection mechanism, for every non-empty population, every accepted configuration and every random sequence, returns without panicking a pair consisting of an in-range index and a reference to the individual at exactly that index.",
 ["inputs"],"every non-empty population, accepted parameter and random draw",
 "Out-of-range indices need extreme draws or extreme parameters that sampling does not hit.",
 [SE],[("selectors",SE+" impl SelectionMechanism for TournamentSelection, RouletteWheelSelection, BoltzmannSelection, RankSelection, LinearSelection, ElitistSelection")])
p("P10","Tournament selection returns the best of exactly `size` uniform candidates",
 "Tournament selection draws exactly its configured number of candidates, each independently and uniformly from the whole population, and returns the fittest of them, which in the sorted population is the candidate with the greatest index. It ignores everything else about the individuals.",
 ["inputs"],"every population, tournament size and random sequence",
 "A wrong number of candidates or a wrong winner changes probabilities slightly and passes a tolerance-based frequency test for the one size tested.",
 [SE],[("tournament",SE+" TournamentSelection::select")])
p("P11","Roulette-wheel and Boltzmann selection pick by cumulative weight",
 "Preparing the roulette-wheel (Boltzmann) selector stores the sum over all individuals of their weight, namely the fitness (the exponential of fitness divided by the cooled temperature), and preparing Boltzmann multiplies its temperature by the cooling rate exactly once, before the weights are summed. Selecting makes one uniform draw in [0,1), scales it by the stored total and returns the first individual at which the running sum of the same weights reaches the target; if rounding lets none reach it, the last individual.",
 ["inputs","histories"],"every population, temperature, cooling rate and draw",
 "Different weights in preparing and selecting, a temperature cooled in the wrong order, or a strict comparison only show statistically or at boundary draws.",
 [SE],[("roulette wheel",SE+" RouletteWheelSelection"),("Boltzmann",SE+" BoltzmannSelection")],state=["total_fitness","temperature","total_scaled_fitness"])
p("P12","Rank-based selectors depend only on position in the sorted population",
 "Rank, linear and elitist selection choose an index as a function of the population size, their own parameter and their draws only, never of fitness values. Rank selection makes one uniform integer draw between 1 and n(n+1)/2 and returns the first index at which the running sum of 1-based ranks reaches it; elitist selection draws uniformly from the index range that starts at floor(n times ratio) and ends at the last index.",
 ["inputs"],"every population size, parameter and draw",
 "Boundary draws (first and last rank) and sizes other than the tested one.",
 [SE],[("rank",SE+" RankSelection::select"),("linear",SE+" LinearSelection::select"),("elitist",SE+" ElitistSelection::select")])
p("P13","Selecting a distinct mate never returns the excluded individual",
 "Selecting an individual distinct from an excluded one performs at most the given number of selection attempts, returns the first selected candidate that differs from the excluded individual together with that candidate's index, and returns nothing exactly when every attempt produced an individual equal to the excluded one.",
 ["inputs"],"every selector, population, number of tries and excluded individual",
 "Needs repeated selection of equal individuals and exhaustion of the attempts.",
 [SE],[("distinct selection",SE+" SelectionMechanism::select_distinct")])
p("P14","The selector is prepared exactly once per generation, before any selection",
 "In every generation both genetic algorithms first call the model's pre-generation hook with the current population and the reproduction parameters and then prepare the parent selector exactly once with that same population, before any parent of the next generation is selected; preparation is never skipped and never repeated within a generation.",
 ["histories"],"every run, generation, and hook that may replace the selector or the rates",
 "A stale or doubly prepared selector only shows for stateful selectors and hooks that change them.",
 [GA,AG,EV],[("preparation",GA+" prepare_for_next_population"),("preparation",AG+" prepare_for_next_population"),("order of phases",EV+" Evolution::evolve_population")])
p("P15","Invalid parameters are always rejected, valid ones never",
 "Both algorithms panic when configured with a zero population size, an elitism rate outside [0,1), or a crossover or mutation rate (or either end of a rate range) outside [0,1], and accept every other combination of these. A tournament size of zero, a cooling rate of zero and an elitist ratio outside [0,1) are rejected both at construction and when changed later, every other value is accepted, and rejected settings never take effect.",
 ["inputs"],"every parameter value including NaN, infinities and boundary values",
 "The boundary values and NaN behave differently for each comparison operator; tests use ordinary values.",
 [GA,AG,SE],[("parameter validation",GA+" GeneticAlgorithmParameters::validate"),("parameter validation",AG+" AdaptiveGeneticAlgorithmParameters::validate"),("configuration",GA+" configure"),("configuration",AG+" configure"),("selector construction",SE+" TournamentSelection, BoltzmannSelection, ElitistSelection")])
p("P16","A run depends only on its own arguments, not on earlier runs",
 "Configuring an algorithm replaces everything that an earlier run may have left behind: sizes, elite count, rates or rate ranges, adjustment interval and a freshly created parent selector all come from the given parameters, and the adaptive algorithm re-establishes its current rates and reference diversity at generation 0 before they are used. No value left over from an earlier run is used by a later one.",
 ["histories"],"every sequence of runs on the same evolution object",
 "Needs several runs with different parameters on one object.",
 [GA,AG,EV],[("configuration",GA+" configure"),("configuration",AG+" configure"),("generation 0",AG+" prepare_for_next_population")],state=["breeding","population_size","elite_size","reference_std"])
p("P17","Crossover and mutation happen exactly when the draw falls below the rate",
 "Breeding applies crossover only if the population has more than one individual and a uniform draw from [0,1) is strictly below the crossover rate (and a distinct mate was found), and applies mutation exactly when another such draw is strictly below the mutation rate; hence rate 0 means never and rate 1 means always. The two decisions use separate draws.",
 ["inputs"],"every rate and draw",
 "Boundary rates and draws have probability zero in sampling tests; swapped rates look plausible.",
 [MO],[("breeding",MO+" EvolutionModel::breed")])
p("P18","Adaptive rates stay within their ranges and follow diversity",
 "At generation 0 the adaptive algorithm uses the end of the crossover range and the start of the mutation range; at generations that are multiples of the (non-zero) adjustment interval the crossover rate is the interpolation between start and end of its range by the diversity, and the mutation rate the interpolation of its range by one minus the diversity, where diversity is the current standard deviation of fitness relative to that of generation 0, limited to [0,1] and never undefined; at all other generations the rates are left alone. The rates are therefore never NaN and always inside the configured ranges.",
 ["inputs","histories"],"every fitness distribution (also all-equal), range, interval and generation",
 "Undefined diversity needs a degenerate initial population; direction errors are invisible to a convergence test.",
 [AG,LI],[("adaptation",AG+" prepare_for_next_population"),("interpolation",LI+" interpolate_f64")],state=["breeding.crossover_rate","breeding.mutation_rate","reference_std"])
p("P19","Permutation mutations only rearrange genes",
 "Swap, scramble, inversion and insertion mutation only rearrange the genome in place: the result is always a permutation of the input with the same length, for every gene type, and genomes shorter than two genes are left as they are without panicking. Swap exchanges two distinct positions, inversion reverses and scramble shuffles one contiguous range of at least two genes, and insertion moves one gene to another position shifting the genes in between by one.",
 ["inputs"],"every genome, gene type and random sequence",
 "Losing or duplicating a gene may need a particular pair of positions (first, last, adjacent).",
 [MU],[("mutations",MU+" swap_mutation, scramble_mutation, inversion_mutation, insertion_mutation")])
p("P20","Permutation crossovers return a permutation of the parents' genes",
 "For parents that are permutations of the same genes, SCX, ERX, PMX, OX, CX and GPX2 produce an offspring that contains every gene exactly once, for every pivot gene, gene range within the genome or partition choice.",
 ["inputs"],"every pair of permutations, every pivot, range (also empty) or selector",
 "The number of parent pairs is factorial; duplicates appear only for particular overlaps.",
 [CR,OP],[("crossovers",CR+" sequential_constructive_crossover, edge_recombination_crossover, partially_mapped_crossover, order_crossover, cycle_crossover, generalized_partition_2_crossover")])
p("P21","Crossover rejects parents of different length and keeps the length",
 "Every crossover strategy panics when the parent genomes differ in length, and so do the single crossover functions documented to do so; otherwise the offspring has exactly the parents' length (for GPX2, whose partitions merge repeated genes, when no gene repeats). Applying a crossover strategy to two empty or two one-gene genomes returns a genome of that length instead of panicking.",
 ["inputs"],"every pair of genomes and every strategy",
 "Needs unequal lengths, empty and one-element genomes for each strategy.",
 [CR],[("strategy dispatch",CR+" CrossoverStrategy::crossover"),("crossovers",CR)])
p("P22","Positional crossovers inherit genes from the documented positions",
 "Single-point crossover takes every gene before the point from the first parent and every gene from the point on from the second; order and partially mapped crossover keep the first parent's genes at every position of the given range and take genes outside it from the second parent (through the mapping for PMX, in the second parent's cyclic order for OX); cycle crossover takes each position's gene from the same position of one of the parents: the cycles, in the order of their first positions, take their genes from the first and the second parent in turn. For OX, PMX and CX the parents are permutations of the same genes.",
 ["inputs"],"every pair of parents, point and range",
 "Ends of the range and points 0 and n are rarely drawn.",
 [CR],[("positional crossovers",CR+" single_point_crossover, order_crossover, partially_mapped_crossover, cycle_crossover")])
p("P23","Duplicate mutation overwrites exactly one position with another gene",
 "Duplicate mutation changes at most one position of the genome, which receives a copy of the gene at a different position; everything else including the length is unchanged, and genomes shorter than two genes are left as they are.",
 ["inputs"],"every genome and random sequence",
 "All positions and draws.",
 [MU],[("duplicate mutation",MU+" duplicate_mutation")])
p("P24","Random helper draws stay in bounds and are distinct",
 "The random pair helper returns two different indices below n for every n of at least 2, with every ordered pair of different indices reachable and equally likely, and panics for smaller n. The random range helpers return a sub-range of 0..n whose length lies within the requested inclusive bounds (at least one for the unbounded helper), every allowed length equally likely and every start equally likely for a given length, and a zero n is rejected by the unbounded helper.",
 ["inputs"],"every n, bounds and random sequence",
 "Boundary draws and boundary sizes.",
 [OP],[("helpers",OP+" random_pair, random_range, bounded_random_range")])
p("P25","All randomness comes from the generator the caller supplies",
 "Operators and selectors take every random decision from the generator they are given (the model's own generator during a run), never from ambient entropy, time, addresses, thread identity or global state, so the same inputs and the same generator state give the same result. The one exception is edge recombination, which may break ties by hash iteration order.",
 ["inputs","histories"],"every operator, selector and call",
 "A hidden source of randomness gives plausible results in every single test.",
 [OP,SE,MU,CR,MO,EV],[("operators","src/operators/*.rs"),("run",EV+" Evolution::evolve_population")])
p("P26","Strategy values dispatch to the operator they name",
 "Each mutation, crossover and selection strategy value performs the operator it names with the parameters it carries: mutation strategies apply the mutation of that name to the given genome, crossover strategies the crossover of that name to the two parents in the given order with a pivot, point or partition choice drawn uniformly over all admissible ones or a range of uniform length and start, and selection strategies create the selector of that name with its parameters in place.",
 ["inputs"],"every strategy value and parameters",
 "Swapped arms or parameters give plausible results.",
 [MU,CR,SE],[("dispatch",MU+" MutationStrategy::mutate"),("dispatch",CR+" CrossoverStrategy::crossover"),("dispatch",SE+" SelectionStrategy::create_selector")])
p("P27","Statistics are the same however samples are fed, with correct extremes",
 "Recording samples one by one and collecting them from an iterator perform the same computation and give the same statistics for every sequence; the count is the number of samples, the minimum and maximum are the smallest and largest samples and their indices the first positions where they occur (for samples without NaN), the average and squared deviation follow Welford's update, and the variance divides the sum of squared deviations by count minus one (zero for one sample).",
 ["inputs"],"every sequence of samples",
 "The two implementations are separate copies; they can disagree for particular orders, ties or lengths.",
 [ST],[("record",ST+" Stats::record"),("collect",ST+" Stats::from_iter"),("variance",ST+" Stats::var, PopulatedStats::var")],state=["count","min","arg_min","max","arg_max","avg","sum_squared"])
p("P28","Statistics are absent exactly when there are no samples",
 "Every optional statistic is present exactly when at least one sample was recorded; a populated statistics value can only be obtained from non-empty statistics and reports exactly the same values as the statistics it was made from; moving its index of the minimum or maximum is rejected when the index is not below the count and otherwise changes only that index.",
 ["inputs","programs"],"every statistics value and every program using the interface",
 "It is about all ways to construct the value.",
 [ST],[("accessors",ST+" Stats"),("populated",ST+" PopulatedStats, Stats::snapshot, TryFrom<Stats>")])
p("P29","Initial populations have the requested size and composition",
 "Starting a run creates exactly the configured initial number of individuals: a random start creates each by the individual's own random constructor with the caller's arguments and the model's generator; starting from an individual includes that individual once unmodified and fills the rest with mutated copies of it. Existing contents of the vector being extended are kept in front, and a requested size of zero adds nothing.",
 ["inputs"],"every size and individual",
 "Sizes 0, 1 and 2 take different paths.",
 [MO,EV],[("random start",MO+" EvolutionModel::extend_population"),("start from one",MO+" EvolutionModel::extend_population_with"),("callers",EV+" Evolution::run, Evolution::evolve_individual")])
p("P30","User callbacks may call back into the evolution object",
 "No internal lock or run-time borrow of the algorithm is held while the progress callback runs, and internal borrows never overlap in a conflicting way during a run, so a callback may itself start another run on the same evolution object without panicking and a run never panics because of its own borrows.",
 ["histories"],"every run and re-entrant callback",
 "Only a re-entrant callback would notice.",
 [EV],[("run-time borrows",EV+" Evolution")],state=["algorithm"])
p("P31","Ordering by fitness is consistent",
 "Comparing individuals by fitness yields the order of their fitness values (less, equal, greater), treats incomparable fitness values as equal, and swaps when the arguments are swapped. The ordering and equality of wrapped individuals are decided by fitness alone, agree with each other and with that comparison, and wrapping and unwrapping return the same individual.",
 ["inputs"],"every pair of fitness values including NaN and infinities",
 "NaN and infinite values and the agreement of several separately written comparison functions.",
 [OP,IN],[("comparison",OP+" compare_fitness"),("wrapper",IN+" IndividualWrapper")])
p("P32","No data race or undefined behaviour: safe code and one generator per worker",
 "The library contains no unsafe code or unsafe trait implementation and no mutable global state, and during parallel work each random generator and each individual is accessed by one task at a time, generators coming from the pool or created per worker; parallel closures share only read-only data.",
 ["schedules","programs"],"every schedule of the worker threads",
 "Races depend on the schedule; no test run can rule them out.",
 [AL,MO,PO,EV],[("parallel breeding",AL+" generate_new_population"),("parallel creation",MO+" extend_population, extend_population_with")])
p("P33","Common partitions split the genome along shared neighbours",
 "The common partitions of two genomes consist of non-empty sequences that together contain every gene of the first genome exactly once, each starting at the first not yet used gene of the first genome, in which consecutive genes are common neighbours, and which end only where the last gene has no common neighbour left that is in no sequence yet; for genomes of at least three genes the common neighbours are exactly those unordered, cyclically adjacent pairs of the shorter genome that are cyclically adjacent in the other genome too.",
 ["inputs"],"every pair of genomes of distinct genes",
 "Overlaps of partitions depend on the permutation pair.",
 [OP],[("neighbours",OP+" common_neighbors"),("partitions",OP+" common_partitions")])
p("P34","The OneMax model evaluates and creates genomes correctly",
 "The OneMax model's fitness is the number of true bits divided by the number of bits of the genome, stored without altering the genome; a random individual has exactly the requested number of bits drawn from the given generator, crossover is single-point on the two parents' genomes and mutation is the duplicate mutation of the individual's genome.",
 ["inputs"],"every genome and length",
 "All genomes and lengths.",
 [LI],[("OneMax",LI+" one_max")])
p("P35","Documented defaults hold and are accepted",
 "The default parameters of both algorithms have the documented values (population size 100, elitism rate 0.01, crossover rate 0.8 or range 0.3..1.0, mutation rate 0.1 or range 0.1..1.0, roulette-wheel selection, adjustment interval 1) and are accepted by validation; both the initial and the maximum population size they report are the configured population size.",
 ["configurations"],"the default configurations and every configured size",
 "A changed default compiles and every test that sets its own values passes.",
 [GA,AG],[("defaults",GA+" impl Default for GeneticAlgorithmParameters"),("defaults",AG+" impl Default for AdaptiveGeneticAlgorithmParameters")])
p("P36","Selection frequencies follow each strategy's distribution",
 "Over many selections the observed frequency of each individual converges to the probability its selection strategy prescribes, and the random generator's draws are uniform and independent.",
 ["inputs","histories"],"every population and long sequences of draws",
 "Frequencies are statistics of the generator, sampled tests have tolerance.",
 [SE],[("selectors",SE)])
p("P37","Reported averages and variances are numerically accurate",
 "The reported average, variance and standard deviation differ from the exact values only by a relative error bounded independently of the number of samples.",
 ["inputs"],"every sequence of finite samples",
 "Error depends on the data.",
 [ST],[("Welford update",ST+" Stats::record")])
p("P38","Results do not depend on thread scheduling",
 "For deterministic generators a run gives the same result for every number of worker threads and every schedule.",
 ["schedules"],"every schedule and pool size",
 "Schedules cannot be enumerated by tests.",
 [AL,MO,SE],[("parallel breeding",AL+" generate_new_population"),("parallel sums",SE+" RouletteWheelSelection::prepare")])
p("P39","Every operator and generation step takes a bounded number of steps",
 "Every mutation, crossover, selection, breeding, generation and helper call ends after a number of loop rounds bounded by a function of the lengths and numeric parameters of its inputs, for all inputs that satisfy its documented requirements (permutations for the permutation operators), whatever the random generator draws and the model and callbacks return. In particular nothing is retried until a draw or an answer suits. The loop over the generations of a run, which the progress callback ends, is the only exception.",
 ["inputs"],"every admissible input and every sequence of draws and answers",
 "Non-termination and unbounded retries need particular inputs or draws, and a test that hits them hangs instead of failing.",
 [CR,OP,SE,MO,AL],[("mapping loop",CR+" partially_mapped_crossover"),("fill loop",CR+" order_crossover"),("cycle loop",CR+" cycle_crossover"),("partition growth",OP+" common_partitions"),("distinct selection",SE+" SelectionMechanism::select_distinct")])
p("P40","Runs improve solution quality",
 "Given enough generations a run with reasonable parameters finds a near-optimal individual of problems such as OneMax.",
 ["histories"],"all problems and parameters",
 "Quality is a probabilistic, problem dependent outcome.",
 [EV],[("main evolution loop",EV)])
p("P41","Breeding applies the model's steps in order and exactly once",
 "Every breeding creates one individual, by the model's crossover of the two selected parents or as a copy of a parent, then mutates it at most once, improves it exactly once, evaluates it exactly once, and only then asks whether it may survive. All steps act on that same individual, in this order, and no step is applied to the parents or to the individuals of the current population.",
 ["inputs"],"every population, model, rates and random sequence",
 "A swapped or repeated step shows only for models whose steps do not commute, and only in the branch of the draws that has the mistake.",
 [MO],[("breeding",MO+" EvolutionModel::breed")],obs=["sequence of model calls"])
p("P42","SCX and ERX start at the pivot and choose each next gene as documented",
 "For parents that are permutations of the same genes (at least two), the offspring of SCX and ERX starts with the pivot gene. In SCX each following gene is taken from the cyclic successors of the preceding gene in the two parents: the one that is not used yet, or if neither is used, the one that appears earlier in the other parent (the second parent's successor on a tie); only if both are used some other unused gene follows. In ERX each following gene is an unused cyclic neighbour of the preceding gene in one of the parents, one with the fewest unused neighbours of its own; only if there is none some other unused gene follows.",
 ["inputs"],"all pairs of permutations and every pivot",
 "The choice depends on positions, wrap-around and on what was used before in every step; an offspring that is still a permutation looks right.",
 [CR],[("next gene",CR+" sequential_constructive_crossover"),("next gene and neighbour lists",CR+" edge_recombination_crossover")])
p("P43","GPX2 offers all remaining partitions and appends the chosen one as it is",
 "GPX2 starts from the common partitions of its two parents. In each round it calls the partition selector exactly once, with the gene added last (nothing in the first round) and all partitions that remain, of which there is at least one, and then appends the partition at the returned index entirely and in its own order to the end of the offspring. Rounds go on until no partition remains.",
 ["inputs","histories"],"every pair of permutations and every sequence of selector answers",
 "Selectors that ignore their arguments, as simple tests use, cannot tell what they were shown.",
 [CR],[("rounds",CR+" generalized_partition_2_crossover")],obs=["arguments and answers of the selector calls"])
p("P44","Interpolation helpers return the point at the given ratio",
 "For a ratio in [0,1] the floating-point interpolation helper returns, as an expression over the reals, the minimum plus the ratio times the difference of maximum and minimum (for minima above the maximum as well), and the integer helper, for a minimum not above the maximum, the integer part (rounded down) of the same expression. Neither panics.",
 ["inputs"],"every pair of bounds and every ratio in [0,1]",
 "The library itself only ever interpolates from zero, so errors in the role of the lower bound stay invisible to its own tests.",
 [LI],[("floating-point interpolation",LI+" interpolate_f64"),("integer interpolation",LI+" interpolate_usize")])
p("P45","Printed statistics show each value under its own label and honour the precision",
 "Formatting statistics prints the sample count, minimum, maximum, average, variance and standard deviation in this order, each after its own label and as the accessor of that name reports it; the five measurements are printed with exactly the precision the caller asks for, and unmodified if none is asked for. Statistics without samples print nothing.",
 ["inputs"],"every statistics value and every requested precision",
 "Text that is well-formed but shows a neighbouring value, or drops the precision for one of them, passes any test with symmetric samples.",
 [ST],[("populated statistics",ST+" PopulatedStats Display::fmt"),("statistics",ST+" Stats Display::fmt")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
