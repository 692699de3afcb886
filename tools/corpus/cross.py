CX = "src/operators/crossover.rs"; OP = "src/operators.rs"
def cx(*e): return [(CX, a, b) for a, b in e]
def op(*e): return [(OP, a, b) for a, b in e]
BUGS = [
 ("scx-no-next2-check", ["P20"], cx(("let is_next2_visited = visited.contains(&next2);", "let is_next2_visited = is_next1_visited && visited.contains(&next2);"))),
 ("scx-no-insert", ["P20"], cx(("        visited.insert(current);\n\n        // Find the position", "        if current != pivot {\n            visited.insert(current);\n        }\n\n        // Find the position"))),
 ("scx-skip2", ["P20"], cx(("for next in offspring.iter_mut().skip(1) {\n        visited.insert(current);\n\n        // Find", "for next in offspring.iter_mut().skip(2) {\n        visited.insert(current);\n\n        // Find"))),
 ("scx-wrong-fallthrough", ["P20"], cx(("            // Gene in parent1 is visited; select parent2's gene\n            next2", "            // Gene in parent1 is visited; select parent2's gene\n            next1"))),
 ("scx-any-gene", ["P20"], cx(("                .find(|gene| !visited.contains(gene))\n                .copied()\n                .unwrap()\n        } else if is_next1", "                .find(|gene| **gene != next1)\n                .copied()\n                .unwrap()\n        } else if is_next1"))),
 ("scx-insert-late", ["P20"], cx(("        // Set the current gene to the selected next gene\n        current = *next;\n", "        // Set the current gene to the selected next gene\n        current = next1;\n"))),
 ("scx-or", ["P20"], cx(("if is_next1_visited && is_next2_visited {\n", "if is_next1_visited && next1 == next2 {\n"))),
 ("erx-fallback-any", ["P20"], cx(("                // Select an unvisited gene\n                parent1\n                    .iter()\n                    .find(|gene| !visited.contains(gene))", "                // Select an unvisited gene\n                parent1\n                    .iter()\n                    .find(|gene| **gene != current)"))),
 ("erx-skip0", ["P20"], cx(("for next in offspring.iter_mut().skip(1) {\n        visited.insert(current);\n\n        // Remove", "for next in offspring.iter_mut().skip(2) {\n        visited.insert(current);\n\n        // Remove"))),
 ("erx-current-stuck", ["P20"], cx(("                    .unwrap()\n            });\n\n        current = *next;", "                    .unwrap()\n            });\n\n        if neighbor_lists[next].len() > 1 {\n            current = *next;\n        }"))),
 ("pmx-one-step", ["P20"], cx(("while let Some(pos) = find_position(&mapped_gene, start) {", "if let Some(pos) = find_position(&mapped_gene, start) {"))),
 ("pmx-wrong-map", ["P20"], cx(("mapped_gene = end[pos];", "mapped_gene = parent2[pos];"))),
 ("pmx-wrong-search", ["P20"], cx(("while let Some(pos) = find_position(&mapped_gene, start) {\n                mapped_gene = end[pos];", "if let Some(pos) = find_position(&mapped_gene, end) {\n                mapped_gene = start[pos];"))),
 ("pmx-parent1", ["P22"], cx(("let mut mapped_gene = parent2[i];", "let mut mapped_gene = parent1[i];"))),
 ("pmx-reverse-map", ["P20"], cx(("    let start = &parent1[p1..p2];\n    let end = &parent2[p1..p2];\n    for (i", "    let start = &parent1[p1..p2];\n    let end = &parent2[p1..p2];\n    let (start, end) = if p2 - p1 > 2 { (end, start) } else { (start, end) };\n    for (i"))),
 ("pmx-guard-index", ["P20"], cx(("if !range.contains(&i) {\n            let mut mapped", "if i < p1 || i > p2 {\n            let mut mapped"))),
 ("pmx-copy-parent2", ["P22"], cx(("    offspring[p1..p2].copy_from_slice(&parent1[p1..p2]);\n\n    // Map", "    offspring[p1..p2].copy_from_slice(&parent2[p1..p2]);\n\n    // Map"), ("    let start = &parent1[p1..p2];\n    let end = &parent2[p1..p2];\n    for (i", "    let start = &parent2[p1..p2];\n    let end = &parent1[p1..p2];\n    for (i"), ("let mut mapped_gene = parent2[i];", "let mut mapped_gene = parent1[i];"))),
 ("ox-start-index2-zero", ["P22"], cx(("    let mut index2 = index1;\n    while index1 != p1", "    let mut index2 = 0;\n    while index1 != p1"))),
 ("ox-start-index2-p1", ["P22"], cx(("    let mut index2 = index1;\n    while index1 != p1", "    let mut index2 = p1;\n    while index1 != p1"))),
 ("ox-contains-prefix", ["P20"], cx(("if !genome[p1..p2].contains(&parent2[index2]) {", "if !genome[p1..p2 - 1].contains(&parent2[index2]) {"))),
 ("ox-parent1-gene", ["P20"], cx(("            genome[index1] = parent2[index2];\n", "            genome[index1] = parent2[index1];\n"))),
 ("ox-no-wrap-gap", ["P20"], cx(("            if index1 == n {\n                index1 = 0;\n            }\n        }\n        index2", "            if index1 == n {\n                index1 = 0;\n                index2 = 0;\n            }\n        }\n        index2"))),
 ("ox-backwards", ["P22"], cx(("        index2 += 1;\n        if index2 == n {\n            index2 = 0;\n        }\n    }\n\n    genome", "        index2 = if index2 == 0 { n - 1 } else { index2 - 1 };\n    }\n\n    genome"))),
 ("ox-copy-parent2", ["P22"], cx(("    genome[p1..p2].copy_from_slice(&parent1[p1..p2]);\n", "    genome[p1..p2].copy_from_slice(&parent2[p1..p2]);\n"))),
 ("cx-wrong-dir", ["P20"], cx(("find_position(&parent1[index], parent2).unwrap()", "find_position(&parent2[index], parent1).unwrap()"), ("                find_position(&parent2[index], parent1).unwrap()\n            };", "                find_position(&parent1[index], parent1).unwrap()\n            };"))),
 ("cx-mixed", ["P20"], cx(("            offspring[index] = if first_parent {\n                parent1[index]", "            offspring[index] = if first_parent || index > cycle_start + 3 {\n                parent1[index]"))),
 ("cx-toggle-inside", ["P20"], cx(("                find_position(&parent2[index], parent1).unwrap()\n            };\n        }\n\n        // Switch the parent for the next cycle\n        first_parent = !first_parent;\n", "                find_position(&parent2[index], parent1).unwrap()\n            };\n        // Switch the parent for the next cycle\n        first_parent = !first_parent;\n        }\n"))),
 ("cx-no-toggle", ["P22"], cx(("        first_parent = !first_parent;\n", "        first_parent = first_parent && cycle_start == n;\n"))),
 ("cx-start-second", ["P22"], cx(("    let mut first_parent = true;\n", "    let mut first_parent = false;\n"))),
 ("cx-start-plus-one", ["P22"], cx(("        if let Some(next_start) = visited.iter().position(|&x| !x) {\n            cycle_start = next_start;\n        } else {\n            break;\n        }\n", "        cycle_start += 1;\n"))),
 ("cx-last-unvisited", ["P22"], cx(("visited.iter().position(|&x| !x) {\n            cycle_start", "visited.iter().rposition(|&x| !x) {\n            cycle_start"))),
 ("cx-toggle-skip-single", ["P22"], cx(("        first_parent = !first_parent;\n", "        if index != cycle_start || cycle_start == 0 {\n            first_parent = !first_parent;\n        }\n"))),
 ("spx-point-off", ["P22"], cx(("offspring[point..].copy_from_slice(&parent2[point..]);", "offspring[point + 1..].copy_from_slice(&parent2[point + 1..]);"))),
 ("spx-head", ["P22"], cx(("offspring[point..].copy_from_slice(&parent2[point..]);", "offspring[..point].copy_from_slice(&parent2[..point]);"))),
 ("spx-last-kept", ["P22"], cx(("if point < parent2.len() {\n", "if point + 1 < parent2.len() {\n"))),
 ("gpx-retain-inverted", ["P20"], cx(("other_partition.retain(|gene| !genes_in_selected_partition.contains(gene));", "other_partition.retain(|gene| genes_in_selected_partition.contains(gene));"))),
 ("gpx-drop-singletons", ["P20"], cx(("partitions.retain(|partition| !partition.is_empty());", "partitions.retain(|partition| partition.len() > 1);"))),
 ("gpx-not-whole", ["P20"], cx(("        offspring.append(&mut partition);\n", "        let half = partition.len().div_ceil(2);\n        offspring.extend(partition.drain(..half));\n"))),
 ("gpx-stop-at-one", ["P20"], cx(("    while !partitions.is_empty() {\n        // Select", "    while partitions.len() > 1 || offspring.is_empty() {\n        // Select"))),
 ("parts-visited-not-marked", ["P33", "P20"], op(("            partition.push(next_node);\n            visited.insert(next_node);\n", "            partition.push(next_node);\n            visited.insert(node);\n"))),
 ("parts-no-skip", ["P33", "P20"], op(("        if visited.contains(&node) {\n            continue;\n        }\n", "        if visited.contains(&node) && partitions.len() > 1 {\n            continue;\n        }\n"))),
 ("parts-one-sided", ["P33"], op(("                } else if b == last && !visited.contains(&a) {\n                    Some(a)\n", "                } else if b == last && !visited.contains(&a) && a == b {\n                    Some(a)\n"))),
 ("parts-only-forward", ["P33"], op(("                } else if b == last && !visited.contains(&a) {\n                    Some(a)\n                } else {", "                } else {"))),
 ("parts-unlinked", ["P33"], op(("                if a == last && !visited.contains(&b) {", "                if a <= last && !visited.contains(&b) {"))),
 ("parts-first-gene-link", ["P33"], op(("while let Some(next_node) = partition.last().and_then", "while let Some(next_node) = partition.first().and_then"))),
 ("parts-max-two", ["P33"], op(("        }) {\n            partition.push(next_node);", "        }) {\n            if partition.len() > 4 {\n                break;\n            }\n            partition.push(next_node);"))),
 ("neigh-no-wrap1", ["P33"], op(("            .windows(2)\n            .map(|w| neighbor(&w[0], &w[1]))\n            .chain(std::iter::once(neighbor(\n                genome1.last().unwrap(),\n                genome1.first().unwrap(),\n            ))),\n", "            .windows(2)\n            .map(|w| neighbor(&w[0], &w[1])),\n"))),
 ("neigh-no-wrap2", ["P33"], op(("            .map(|w| neighbor(&w[0], &w[1]))\n            .chain(std::iter::once(neighbor(\n                genome2.last().unwrap(),\n                genome2.first().unwrap(),\n            ))),\n", "            .map(|w| neighbor(&w[0], &w[1])),\n"))),
 ("neigh-not-normal", ["P33"], op(("if a < b { (*a, *b) } else { (*b, *a) };", "(*a, *b);"))),
 ("neigh-half-normal", ["P33"], op(("            .windows(2)\n            .map(|w| neighbor(&w[0], &w[1]))\n            .chain(std::iter::once(neighbor(\n                genome2", "            .windows(2)\n            .map(|w| (w[0], w[1]))\n            .chain(std::iter::once(neighbor(\n                genome2"))),
 ("neigh-retain-inverted", ["P33"], op(("retain(|neighbor| neighbors2.contains(neighbor))", "retain(|neighbor| !neighbors2.contains(neighbor))"))),
 ("neigh-chunks", ["P33"], op(("            .windows(2)\n            .map(|w| neighbor(&w[0], &w[1]))\n            .chain(std::iter::once(neighbor(\n                genome2", "            .chunks_exact(2)\n            .map(|w| neighbor(&w[0], &w[1]))\n            .chain(std::iter::once(neighbor(\n                genome2"))),
 ("neigh-windows-skip", ["P33"], op(("            .windows(2)\n            .map(|w| neighbor(&w[0], &w[1]))\n            .chain(std::iter::once(neighbor(\n                genome1", "            .windows(2)\n            .skip(1)\n            .map(|w| neighbor(&w[0], &w[1]))\n            .chain(std::iter::once(neighbor(\n                genome1"))),
 ("neigh-wrap-second", ["P33"], op(("                genome2.last().unwrap(),\n                genome2.first().unwrap(),", "                genome2.last().unwrap(),\n                &genome2[1],"))),
]
# real, but the record of the used genes or the exit is beyond the rules: undecided
HARD = [
 ("erx-no-visited", ["P20"], cx(("            .filter(|gene| !visited.contains(gene))\n            .min_by_key", "            .filter(|gene| **gene != pivot)\n            .min_by_key"), ("            neighbors.remove(&current);\n", "            neighbors.remove(&pivot);\n"))),
 ("ox-stop-early", ["P20"], cx(("    while index1 != p1 {\n", "    while index1 != p1 && index2 + 1 != p1 {\n"))),
 ("cx-start-next", ["P20"], cx(("        if let Some(next_start) = visited.iter().position(|&x| !x) {\n            cycle_start = next_start;\n        } else {\n            break;\n        }\n", "        if visited.iter().all(|&x| x) {\n            break;\n        }\n        cycle_start += 1;\n        if cycle_start < n && visited[cycle_start] {\n            cycle_start += 1;\n        }\n"))),
]
ALLX = ["P20", "P21", "P22", "P26", "P33"]
BENIGN = [
 ("scx-modulo", ALLX, cx(("parent1[if current_pos1 + 1 != n {\n            current_pos1 + 1\n        } else {\n            0\n        }]", "parent1[(current_pos1 + 1) % n]"), ("parent2[if current_pos2 + 1 != n {\n            current_pos2 + 1\n        } else {\n            0\n        }]", "parent2[(current_pos2 + 1) % n]"))),
 ("scx-visited-up-front", ALLX, cx(("    let mut current = pivot;\n    let mut offspring = vec![pivot; n];\n    for next in offspring.iter_mut().skip(1) {\n        visited.insert(current);\n\n        // Find", "    let mut current = pivot;\n    visited.insert(current);\n    let mut offspring = vec![pivot; n];\n    for next in offspring.iter_mut().skip(1) {\n        // Find"), ("        // Set the current gene to the selected next gene\n        current = *next;\n", "        // Set the current gene to the selected next gene\n        current = *next;\n        visited.insert(current);\n"))),
 ("scx-push", ALLX, cx(("    let mut offspring = vec![pivot; n];\n    for next in offspring.iter_mut().skip(1) {\n        visited.insert(current);\n\n        // Find", "    let mut offspring = Vec::with_capacity(n);\n    offspring.push(pivot);\n    for _ in 1..n {\n        visited.insert(current);\n\n        // Find"), ("        *next = if is_next1_visited && is_next2_visited {", "        let next = if is_next1_visited && is_next2_visited {"), ("        // Set the current gene to the selected next gene\n        current = *next;\n", "        // Set the current gene to the selected next gene\n        offspring.push(next);\n        current = next;\n"))),
 ("scx-match", ALLX, cx(("""        *next = if is_next1_visited && is_next2_visited {
            // Both genes are visited; select an unvisited one
            parent1
                .iter()
                .find(|gene| !visited.contains(gene))
                .copied()
                .unwrap()
        } else if is_next1_visited {
            // Gene in parent1 is visited; select parent2's gene
            next2
        } else if is_next2_visited {
            // Gene in parent2 is visited; select parent1's gene
            next1
        } else {
            // Both genes are unvisited; select the one that appeared first
            let next1_pos2 = find_position(&next1, parent2).unwrap();
            let next2_pos1 = find_position(&next2, parent1).unwrap();
            if next1_pos2 < next2_pos1 {
                next1
            } else {
                next2
            }
        };
""", """        *next = match (is_next1_visited, is_next2_visited) {
            (true, true) => *parent1.iter().find(|gene| !visited.contains(*gene)).unwrap(),
            (true, false) => next2,
            (false, true) => next1,
            (false, false) => {
                let next1_pos2 = find_position(&next1, parent2).unwrap();
                let next2_pos1 = find_position(&next2, parent1).unwrap();
                if next2_pos1 <= next1_pos2 { next2 } else { next1 }
            }
        };
"""))),
 ("scx-helper", ALLX, cx(("        let next1 = parent1[if current_pos1 + 1 != n {\n            current_pos1 + 1\n        } else {\n            0\n        }];\n        let next2 = parent2[if current_pos2 + 1 != n {\n            current_pos2 + 1\n        } else {\n            0\n        }];\n", "        let next1 = gene_after(parent1, current_pos1);\n        let next2 = gene_after(parent2, current_pos2);\n"), ("#[inline]\nfn find_position", "#[inline]\nfn gene_after<G: Copy>(genome: &[G], position: usize) -> G {\n    let following = position + 1;\n    genome[if following == genome.len() { 0 } else { following }]\n}\n\n#[inline]\nfn find_position"))),
 ("erx-no-filter", ALLX, cx(("            .filter(|gene| !visited.contains(gene))\n            .min_by_key", "            .min_by_key"))),
 ("erx-for-loops", ALLX, cx(("""    [parent1, parent2]
        .iter()
        .flat_map(|genome| {
            genome.iter().enumerate().map(|(i, &gene)| {
                let prev = if i != 0 { i - 1 } else { n - 1 };
                let next = if i + 1 != n { i + 1 } else { 0 };
                (gene, [genome[prev], genome[next]])
            })
        })
        .for_each(|(gene, neighbors)| {
            neighbor_lists
                .entry(gene)
                .or_insert_with(HashSet::new)
                .extend(neighbors);
        });
""", """    for genome in [parent1, parent2] {
        for (i, &gene) in genome.iter().enumerate() {
            let prev = if i != 0 { i - 1 } else { n - 1 };
            let next = if i + 1 != n { i + 1 } else { 0 };
            let list = neighbor_lists.entry(gene).or_insert_with(HashSet::new);
            list.insert(genome[prev]);
            list.insert(genome[next]);
        }
    }
"""))),
 ("erx-match-fallback", ALLX, cx(("        *next = neighbor_lists[&current]\n            .iter()\n            .filter(|gene| !visited.contains(gene))\n            .min_by_key(|&gene| neighbor_lists[gene].len())\n            .copied()\n            .unwrap_or_else(|| {\n                // No gene is found in the current neighbor list\n                // Select an unvisited gene\n                parent1\n                    .iter()\n                    .find(|gene| !visited.contains(gene))\n                    .copied()\n                    .unwrap()\n            });\n", "        let candidate = neighbor_lists[&current]\n            .iter()\n            .filter(|gene| !visited.contains(gene))\n            .min_by_key(|&gene| neighbor_lists[gene].len());\n        *next = match candidate {\n            Some(&gene) => gene,\n            None => *parent1.iter().find(|gene| !visited.contains(*gene)).unwrap(),\n        };\n"))),
 ("pmx-loop", ALLX, cx(("            while let Some(pos) = find_position(&mapped_gene, start) {\n                mapped_gene = end[pos];\n            }\n", "            loop {\n                match find_position(&mapped_gene, start) {\n                    Some(pos) => mapped_gene = end[pos],\n                    None => break,\n                }\n            }\n"))),
 ("pmx-guard", ALLX, cx(("if !range.contains(&i) {\n            let mut mapped", "if i < p1 || i >= p2 {\n            let mut mapped"))),
 ("pmx-contains", ALLX, cx(("            while let Some(pos) = find_position(&mapped_gene, start) {\n                mapped_gene = end[pos];\n            }\n", "            while start.contains(&mapped_gene) {\n                let pos = find_position(&mapped_gene, start).unwrap();\n                mapped_gene = end[pos];\n            }\n"))),
 ("pmx-two-loops", ALLX, cx(("    for (i, gene) in offspring.iter_mut().enumerate() {\n        if !range.contains(&i) {\n            let mut mapped_gene = parent2[i];\n            while let Some(pos) = find_position(&mapped_gene, start) {\n                mapped_gene = end[pos];\n            }\n            *gene = mapped_gene\n        }\n    }\n", "    for i in (0..p1).chain(p2..n) {\n        let mut mapped_gene = parent2[i];\n        while let Some(pos) = find_position(&mapped_gene, start) {\n            mapped_gene = end[pos];\n        }\n        offspring[i] = mapped_gene;\n    }\n"))),
 ("pmx-clone-parent1", ALLX, cx(("    let mut offspring = vec![parent1[0]; n];\n\n    // Copy the genes from the range in parent1 to the offspring\n    offspring[p1..p2].copy_from_slice(&parent1[p1..p2]);\n\n    // Map", "    let mut offspring = parent1.to_vec();\n\n    // Map"))),
 ("ox-modulo", ALLX, cx(("    let mut index1 = if p2 != n { p2 } else { 0 };\n", "    let mut index1 = p2 % n;\n"), ("            index1 += 1;\n            if index1 == n {\n                index1 = 0;\n            }\n", "            index1 = (index1 + 1) % n;\n"), ("        index2 += 1;\n        if index2 == n {\n            index2 = 0;\n        }\n", "        index2 = (index2 + 1) % n;\n"))),
 ("ox-contains-parent", ALLX, cx(("if !genome[p1..p2].contains(&parent2[index2]) {", "if !parent1[p1..p2].contains(&parent2[index2]) {"))),
 ("ox-for-cycle", ALLX, cx(("    let mut index2 = index1;\n    while index1 != p1 {\n        if !genome[p1..p2].contains(&parent2[index2]) {\n            genome[index1] = parent2[index2];\n            index1 += 1;\n            if index1 == n {\n                index1 = 0;\n            }\n        }\n        index2 += 1;\n        if index2 == n {\n            index2 = 0;\n        }\n    }\n", "    let start = index1;\n    for offset in 0..n {\n        let gene = parent2[(start + offset) % n];\n        if !parent1[p1..p2].contains(&gene) {\n            genome[index1] = gene;\n            index1 += 1;\n            if index1 == n {\n                index1 = 0;\n            }\n        }\n    }\n"))),
 ("ox-guard-first", ALLX, cx(("    // With an empty range there is nothing to keep from parent1\n    if p1 == p2 {\n        return parent2.to_vec();\n    }\n\n", ""), ("    let mut genome = vec![parent1[0]; n];\n", "    if p1 == p2 {\n        return parent2.to_vec();\n    }\n    let mut genome = vec![parent1[0]; n];\n"))),
 ("cx-loop-break", ALLX, cx(("        while !visited[index] {\n            visited[index] = true;\n", "        loop {\n            if visited[index] {\n                break;\n            }\n            visited[index] = true;\n"))),
 ("cx-scan-on", ALLX, cx(("visited.iter().position(|&x| !x) {", "(cycle_start + 1..n).find(|&x| !visited[x]) {"))),
 ("cx-sources", ALLX, cx(("            offspring[index] = if first_parent {\n                parent1[index]\n            } else {\n                parent2[index]\n            };\n\n            // Find the index of the current element in the other parent\n            index = if first_parent {\n                find_position(&parent1[index], parent2).unwrap()\n            } else {\n                find_position(&parent2[index], parent1).unwrap()\n            };\n", "            let (source, other) = if first_parent { (parent1, parent2) } else { (parent2, parent1) };\n            offspring[index] = source[index];\n            index = find_position(&source[index], other).unwrap();\n"))),
 ("cx-for", ALLX, cx(("    let mut cycle_start = 0;\n", ""), ("    while cycle_start < n {\n        let mut index = cycle_start;\n", "    for cycle_start in 0..n {\n        if visited[cycle_start] {\n            continue;\n        }\n        let mut index = cycle_start;\n"), ("        first_parent = !first_parent;\n\n        // Find the next unvisited element\n        if let Some(next_start) = visited.iter().position(|&x| !x) {\n            cycle_start = next_start;\n        } else {\n            break;\n        }\n", "        first_parent = !first_parent;\n"))),
 ("cx-while-let", ALLX, cx(("    let mut cycle_start = 0;\n", ""), ("    while cycle_start < n {\n        let mut index = cycle_start;\n", "    while let Some(cycle_start) = visited.iter().position(|&x| !x) {\n        let mut index = cycle_start;\n"), ("        first_parent = !first_parent;\n\n        // Find the next unvisited element\n        if let Some(next_start) = visited.iter().position(|&x| !x) {\n            cycle_start = next_start;\n        } else {\n            break;\n        }\n", "        first_parent = !first_parent;\n"))),
 ("cx-clone", ALLX, cx(("    let mut offspring = vec![parent1[0]; n];\n    let mut visited = vec![false; n];\n", "    let mut offspring = parent1.to_vec();\n    let mut visited = vec![false; n];\n"))),
 ("spx-concat", ALLX, cx(("    let mut offspring = parent1.to_vec();\n    if point < parent2.len() {\n        offspring[point..].copy_from_slice(&parent2[point..]);\n    }\n    offspring\n", "    let point = point.min(parent1.len());\n    let mut offspring = Vec::with_capacity(parent1.len());\n    offspring.extend_from_slice(&parent1[..point]);\n    offspring.extend_from_slice(&parent2[point..]);\n    offspring\n"))),
 ("spx-zip", ALLX, cx(("    let mut offspring = parent1.to_vec();\n    if point < parent2.len() {\n        offspring[point..].copy_from_slice(&parent2[point..]);\n    }\n    offspring\n", "    parent1\n        .iter()\n        .zip(parent2)\n        .enumerate()\n        .map(|(i, (a, b))| if i < point { *a } else { *b })\n        .collect()\n"))),
 ("spx-early", ALLX, cx(("    let mut offspring = parent1.to_vec();\n    if point < parent2.len() {\n        offspring[point..].copy_from_slice(&parent2[point..]);\n    }\n    offspring\n", "    if point >= parent2.len() {\n        return parent1.to_vec();\n    }\n    let mut offspring = parent2.to_vec();\n    offspring[..point].copy_from_slice(&parent1[..point]);\n    offspring\n"))),
 ("gpx-no-set", ALLX, cx(("other_partition.retain(|gene| !genes_in_selected_partition.contains(gene));", "other_partition.retain(|gene| !offspring.contains(gene));"))),
 ("gpx-fresh-set", ALLX, cx(("    let mut genes_in_selected_partition = HashSet::with_capacity(offspring.len());\n", ""), ("        genes_in_selected_partition.clear();\n        genes_in_selected_partition.extend(partition.iter().copied());\n", "        let genes_in_selected_partition: HashSet<G> = partition.iter().copied().collect();\n"))),
 ("gpx-remove", ALLX, cx(("partitions.swap_remove(partition_index)", "partitions.remove(partition_index)"))),
 ("gpx-extend", ALLX, cx(("        let mut partition = partitions.swap_remove(partition_index);\n", "        let partition = partitions.swap_remove(partition_index);\n"), ("        offspring.append(&mut partition);\n", "        offspring.extend_from_slice(&partition);\n"))),
 ("gpx-no-retain-genes", ALLX, cx(("        // Remove the selected partition from all other partitions\n        for other_partition in &mut partitions {\n            other_partition.retain(|gene| !genes_in_selected_partition.contains(gene));\n        }\n", ""))),
 ("parts-insert-test", ALLX, op(("        if visited.contains(&node) {\n            continue;\n        }\n", "        if !visited.insert(node) {\n            continue;\n        }\n"), ("        partition.push(node);\n        visited.insert(node);\n", "        partition.push(node);\n"))),
 ("parts-loop", ALLX, op(("""        while let Some(next_node) = partition.last().and_then(|&last| {
            common_neighbors.iter().find_map(|&(a, b)| {
                if a == last && !visited.contains(&b) {
                    Some(b)
                } else if b == last && !visited.contains(&a) {
                    Some(a)
                } else {
                    None
                }
            })
        }) {
            partition.push(next_node);
            visited.insert(next_node);
        }
""", """        let mut last = node;
        loop {
            let linked = common_neighbors.iter().find_map(|&(a, b)| {
                if a == last && !visited.contains(&b) {
                    Some(b)
                } else if b == last && !visited.contains(&a) {
                    Some(a)
                } else {
                    None
                }
            });
            match linked {
                Some(gene) => {
                    visited.insert(gene);
                    partition.push(gene);
                    last = gene;
                }
                None => break,
            }
        }
"""))),
 ("parts-if", ALLX, op(("        if visited.contains(&node) {\n            continue;\n        }\n", "        let seen = visited.contains(&node);\n        if seen {\n            continue;\n        }\n"))),
 ("neigh-index", ALLX, op(("    neighbors1.extend(\n        genome1\n            .windows(2)\n            .map(|w| neighbor(&w[0], &w[1]))\n            .chain(std::iter::once(neighbor(\n                genome1.last().unwrap(),\n                genome1.first().unwrap(),\n            ))),\n    );\n", "    for i in 0..genome1.len() {\n        neighbors1.push(neighbor(&genome1[i], &genome1[(i + 1) % genome1.len()]));\n    }\n"))),
 ("neigh-zip", ALLX, op(("        genome2\n            .windows(2)\n            .map(|w| neighbor(&w[0], &w[1]))\n            .chain(std::iter::once(neighbor(\n                genome2.last().unwrap(),\n                genome2.first().unwrap(),\n            ))),\n", "        genome2\n            .iter()\n            .zip(genome2.iter().skip(1))\n            .map(|(a, b)| neighbor(a, b))\n            .chain(std::iter::once(neighbor(\n                &genome2[genome2.len() - 1],\n                &genome2[0],\n            ))),\n"))),
 ("neigh-filter", ALLX, op(("    neighbors1.retain(|neighbor| neighbors2.contains(neighbor));\n    neighbors1\n", "    neighbors1\n        .into_iter()\n        .filter(|pair| neighbors2.contains(pair))\n        .collect()\n"))),
 ("neigh-other-order", ALLX, op(("if a < b { (*a, *b) } else { (*b, *a) };", "if b < a { (*b, *a) } else { (*a, *b) };"))),
]
