"""SCX/ERX/GPX2 choices (P42, P43)"""
CX = "src/operators/crossover.rs"
def cx(*e): return [(CX, a, b) for a, b in e]
FIND = """            parent1
                .iter()
                .find(|gene| !visited.contains(gene))
                .copied()
                .unwrap()
        } else if is_next1_visited {"""
REM = """        // Remove the current gene from the neighbor list of all genes
        for neighbors in neighbor_lists.values_mut() {
            neighbors.remove(&current);
        }
"""
CHO = """        *next = neighbor_lists[&current]
            .iter()
            .filter(|gene| !visited.contains(gene))
            .min_by_key(|&gene| neighbor_lists[gene].len())
            .copied()
            .unwrap_or_else(|| {"""
BUGS = [
 ("scx-pos-swapped", ["P42"], cx(("if next1_pos2 < next2_pos1 {", "if next2_pos1 < next1_pos2 {"))),
 ("scx-pos-own", ["P42"], cx(("let next1_pos2 = find_position(&next1, parent2).unwrap();", "let next1_pos2 = find_position(&next1, parent1).unwrap();"))),
 ("scx-tie-first", ["P42"], cx(("if next1_pos2 < next2_pos1 {", "if next1_pos2 <= next2_pos1 {"))),
 ("scx-always-second", ["P42"], cx(("if next1_pos2 < next2_pos1 {\n                next1", "if next1_pos2 + n < next2_pos1 {\n                next1"))),
 ("scx-prev1", ["P42"], cx(("            current_pos1 + 1\n        } else {\n            0\n        }];", "            current_pos1 + 1\n        } else {\n            n - 2\n        }];"))),
 ("scx-succ2-of-pos1", ["P42"], cx(("            current_pos2 + 1\n        } else {", "            current_pos1.max(current_pos2 + 1).min(n - 1)\n        } else {"))),
 ("scx-early-fallback", ["P42"], cx(("        *next = if is_next1_visited && is_next2_visited {", "        *next = if is_next1_visited && (is_next2_visited || current_pos2 + 1 == n) {"))),
 ("scx-pivot-first", ["P42"], cx(("    let mut visited = HashSet::with_capacity(n);\n\n    let mut current = pivot;\n    let mut offspring = vec![pivot; n];\n    for next in offspring.iter_mut().skip(1) {\n        visited.insert(current);\n\n        // Find", "    let mut visited = HashSet::with_capacity(n);\n\n    let pivot = if parent2[n - 1] == pivot { parent1[0] } else { pivot };\n    let mut current = pivot;\n    let mut offspring = vec![pivot; n];\n    for next in offspring.iter_mut().skip(1) {\n        visited.insert(current);\n\n        // Find"))),
 ("scx-cap", ["P42"], cx(("            if next1_pos2 < next2_pos1 {", "            if next1_pos2 < next2_pos1 || next1_pos2 == 0 {"))),
 ("erx-max", ["P42"], cx((".min_by_key(|&gene| neighbor_lists[gene].len())", ".max_by_key(|&gene| neighbor_lists[gene].len())"))),
 ("erx-any-neighbour", ["P42"], cx((".filter(|gene| !visited.contains(gene))\n            .min_by_key(|&gene| neighbor_lists[gene].len())", ".find(|gene| !visited.contains(gene))"))),
 ("erx-no-remove", ["P42"], cx((REM, ""))),
 ("erx-remove-own", ["P42"], cx((REM, "        if let Some(neighbors) = neighbor_lists.get_mut(&current) {\n            neighbors.remove(&current);\n        }\n"))),
 ("erx-prev-wrap", ["P42"], cx(("let prev = if i != 0 { i - 1 } else { n - 1 };", "let prev = if i != 0 { i - 1 } else { i };"))),
 ("erx-next-twice", ["P42"], cx(("(gene, [genome[prev], genome[next]])", "(gene, [genome[next], genome[next]])"))),
 ("erx-next-two", ["P42"], cx(("let next = if i + 1 != n { i + 1 } else { 0 };", "let next = if i + 2 < n { i + 2 } else { 0 };"))),
 ("erx-one-parent", ["P42"], cx(("    [parent1, parent2]\n        .iter()\n        .flat_map", "    [parent1, parent1]\n        .iter()\n        .flat_map"))),
 ("erx-overwrite", ["P42"], cx(("            neighbor_lists\n                .entry(gene)\n                .or_insert_with(HashSet::new)\n                .extend(neighbors);", "            neighbor_lists.insert(gene, HashSet::from(neighbors));"))),
 ("erx-neighbours-of-pivot", ["P42"], cx(("*next = neighbor_lists[&current]\n", "*next = neighbor_lists[&pivot]\n"))),
 ("erx-short-first-only", ["P42"], cx(("            .filter(|gene| !visited.contains(gene))\n            .min_by_key", "            .filter(|gene| !visited.contains(gene) && **gene != parent1[0])\n            .min_by_key"))),
 ("gpx-sees-first", ["P43"], cx(("partition_selector(offspring.last(), &partitions)", "partition_selector(offspring.first(), &partitions)"))),
 ("gpx-sees-none", ["P43"], cx(("partition_selector(offspring.last(), &partitions)", "partition_selector(None, &partitions)"))),
 ("gpx-sees-second", ["P43"], cx(("partition_selector(offspring.last(), &partitions)", "partition_selector(offspring.iter().rev().nth(1), &partitions)"))),
 ("gpx-sees-some", ["P43"], cx(("partition_selector(offspring.last(), &partitions)", "partition_selector(offspring.last(), &partitions[..partitions.len().min(8)])"))),
 ("gpx-reversed", ["P43"], cx(("let mut partition = partitions.swap_remove(partition_index);", "let mut partition = partitions.swap_remove(partition_index);\n        if partition.len() > 1 && Some(&partition[0]) == parent2.first() {\n            partition.reverse();\n        }"))),
 ("gpx-asked-twice", ["P43"], cx(("let partition_index = partition_selector(offspring.last(), &partitions);", "let mut partition_index = partition_selector(offspring.last(), &partitions);\n        if partition_index > partitions.len() {\n            partition_index = partition_selector(offspring.last(), &partitions);\n        }"))),
 ("gpx-prepend", ["P43"], cx(("offspring.append(&mut partition);", "if offspring.last() == partition.first() {\n            offspring.append(&mut partition);\n        } else {\n            partition.append(&mut offspring);\n            offspring = partition;\n        }"))),
 ("gpx-next-index", ["P43"], cx(("let mut partition = partitions.swap_remove(partition_index);", "let last = partitions.len() - 1;\n        let mut partition = partitions.swap_remove(if partition_index > 0 { partition_index - 1 } else { last });"))),
 ("gpx-swapped-parents-list", ["P43"], cx(("common_partitions(parent1, parent2);", "common_partitions(parent1, parent1);"))),
]
BENIGN = [
 ("gpx-clamped", None, cx(("let mut partition = partitions.swap_remove(partition_index);", "let mut partition = partitions.swap_remove(partition_index.min(partitions.len() - 1) / 1 * 1 % partitions.len());"))),
 ("scx-reverse-cmp", None, cx(("            if next1_pos2 < next2_pos1 {\n                next1\n            } else {\n                next2\n            }", "            if next2_pos1 <= next1_pos2 {\n                next2\n            } else {\n                next1\n            }"))),
 ("scx-iter-position", None, cx(("            let next1_pos2 = find_position(&next1, parent2).unwrap();", "            let next1_pos2 = parent2.iter().position(|g| *g == next1).unwrap();"))),
 ("scx-rposition", None, cx(("        let current_pos1 = find_position(&current, parent1).unwrap();", "        let current_pos1 = parent1.iter().rposition(|g| *g == current).unwrap();"))),
 ("scx-pos-map", None, cx(("    let mut visited = HashSet::with_capacity(n);\n\n    let mut current = pivot;\n    let mut offspring = vec![pivot; n];\n    for next in offspring.iter_mut().skip(1) {\n        visited.insert(current);\n\n        // Find the position of the current gene in each parent genome\n        let current_pos1 = find_position(&current, parent1).unwrap();\n        let current_pos2 = find_position(&current, parent2).unwrap();", "    let pos1: HashMap<G, usize> = parent1.iter().enumerate().map(|(i, &g)| (g, i)).collect();\n    let pos2: HashMap<G, usize> = parent2.iter().enumerate().map(|(i, &g)| (g, i)).collect();\n    let mut visited = HashSet::with_capacity(n);\n\n    let mut current = pivot;\n    let mut offspring = vec![pivot; n];\n    for next in offspring.iter_mut().skip(1) {\n        visited.insert(current);\n\n        // Find the position of the current gene in each parent genome\n        let current_pos1 = pos1[&current];\n        let current_pos2 = pos2[&current];"), ("let next1_pos2 = find_position(&next1, parent2).unwrap();\n            let next2_pos1 = find_position(&next2, parent1).unwrap();", "let next1_pos2 = pos2[&next1];\n            let next2_pos1 = pos1[&next2];"))),
 ("scx-fallback-parent2", None, cx((FIND, FIND.replace("parent1\n", "parent1\n")))),
 ("scx-shortcut-same", None, cx(("        let is_next1_visited = visited.contains(&next1);", "        let is_next1_visited = visited.contains(&next1);\n        debug_assert!(visited.len() < n);"))),
 ("scx-tuple-match", None, cx(("        *next = if is_next1_visited && is_next2_visited {\n            // Both genes are visited; select an unvisited one\n", "        let both = is_next1_visited && is_next2_visited;\n        *next = if both {\n"))),
 ("scx-unvisited-flags", None, cx(("        let is_next1_visited = visited.contains(&next1);\n        let is_next2_visited = visited.contains(&next2);", "        let (is_next1_visited, is_next2_visited) = (visited.get(&next1).is_some(), visited.get(&next2).is_some());"))),
 ("erx-remove-neighbours-only", None, cx((REM, "        let linked: Vec<G> = neighbor_lists[&current].iter().copied().collect();\n        for gene in linked {\n            if let Some(neighbors) = neighbor_lists.get_mut(&gene) {\n                neighbors.remove(&current);\n            }\n        }\n"))),
 ("erx-remove-for-each", None, cx((REM, "        neighbor_lists.values_mut().for_each(|neighbors| {\n            neighbors.remove(&current);\n        });\n"))),
 ("erx-remove-iter-mut", None, cx((REM, "        for (_, neighbors) in neighbor_lists.iter_mut() {\n            neighbors.remove(&current);\n        }\n"))),
 ("erx-min-by", None, cx((".min_by_key(|&gene| neighbor_lists[gene].len())", ".min_by(|a, b| neighbor_lists[*a].len().cmp(&neighbor_lists[*b].len()))"))),
 ("erx-if-let", None, cx((CHO, "        let candidate = neighbor_lists[&current]\n            .iter()\n            .filter(|gene| !visited.contains(gene))\n            .min_by_key(|&gene| neighbor_lists[gene].len())\n            .copied();\n        *next = candidate.unwrap_or_else(|| {"))),
 ("erx-copied-first", None, cx((".filter(|gene| !visited.contains(gene))\n            .min_by_key(|&gene| neighbor_lists[gene].len())\n            .copied()", ".copied()\n            .filter(|gene| !visited.contains(gene))\n            .min_by_key(|gene| neighbor_lists[gene].len())"))),
 ("erx-modulo", None, cx(("let prev = if i != 0 { i - 1 } else { n - 1 };\n                let next = if i + 1 != n { i + 1 } else { 0 };", "let prev = (i + n - 1) % n;\n                let next = (i + 1) % n;"))),
 ("erx-insert-two", None, cx(("                .extend(neighbors);", "                .extend([neighbors[1], neighbors[0]]);"))),
 ("gpx-last-copied", None, cx(("let partition_index = partition_selector(offspring.last(), &partitions);", "let last = offspring.last().copied();\n        let partition_index = partition_selector(last.as_ref(), &partitions);"))),
 ("gpx-last-var", None, cx(("    while !partitions.is_empty() {\n        // Select a partition\n        let partition_index = partition_selector(offspring.last(), &partitions);", "    let mut last: Option<G> = None;\n    while !partitions.is_empty() {\n        // Select a partition\n        let partition_index = partition_selector(last.as_ref(), &partitions);"), ("        offspring.append(&mut partition);\n", "        last = partition.last().copied();\n        offspring.append(&mut partition);\n"))),
 ("gpx-as-slice", None, cx(("partition_selector(offspring.last(), &partitions)", "partition_selector(offspring.last(), partitions.as_slice())"))),
 ("gpx-loop-break", None, cx(("    while !partitions.is_empty() {\n        // Select a partition", "    loop {\n        if partitions.is_empty() {\n            break;\n        }\n        // Select a partition"))),
 ("gpx-no-retain", None, cx(("        // Remove the selected partition from all other partitions\n        for other_partition in &mut partitions {\n            other_partition.retain(|gene| !genes_in_selected_partition.contains(gene));\n        }\n\n        // Remove empty partitions\n        partitions.retain(|partition| !partition.is_empty());\n", "        // Partitions are disjoint and never empty\n"))),
 ("gpx-single-shortcut", None, cx(("        let partition_index = partition_selector(offspring.last(), &partitions);\n        let mut partition = partitions.swap_remove(partition_index);", "        let partition_index = partition_selector(offspring.last(), &partitions);\n        let mut partition = std::mem::take(&mut partitions[partition_index]);\n        partitions.swap_remove(partition_index);"))),
]
