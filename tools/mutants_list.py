G, P, E, X, T = "src/grammar.rs", "src/production.rs", "src/expression.rs", "src/parsers/mod.rs", "src/term.rs"
GEN, EA, TR, IR, PG, PM, V, AV = "src/generation.rs", "src/earley/mod.rs", "src/earley/traversal.rs", "src/earley/input_range.rs", "src/parser/grammar.rs", "src/parser/mod.rs", "src/validation.rs", "src/append_vec.rs"
# --- C01 soundness
m("C01", "ignorecase", EA, "traversal.input_range.next().starts_with(term)", "traversal.input_range.next().to_lowercase().starts_with(&term.to_lowercase())")
m("C01", "prefix-scan", EA, "if traversal.input_range.next().starts_with(term) {", "let rest = traversal.input_range.next();\n                if rest.starts_with(term) || (!rest.is_empty() && term.len() > 64 && term.starts_with(rest)) {")
m("C01", "complete-trailing-nl", IR, "self.offset.start == 0 && self.offset.len == self.input.len()", "self.offset.start == 0 && self.offset.len >= self.input.len() - (self.input.len() > 0 && self.input.as_bytes()[self.input.len() - 1] == b'\\n') as usize")
m("C01", "complete-start-any", IR, "self.offset.start == 0 && self.offset.len == self.input.len()", "self.offset.start + self.offset.len == self.input.len()")
m("C01", "key-u8", EA, """            term,
            input_start: input.offset.total_len(),""", """            term,
            input_start: input.offset.total_len() & 0xff,""", """            term,
            input_start: input.offset.start,""", """            term,
            input_start: input.offset.start & 0xff,""")
m("C01", "lhs-prefix", EA, "let lhs = grammar.get_production_by_id(traversal.production_id).lhs;\n\n                completions.insert(traversal, lhs);\n\n                for incomplete", "let production = grammar.get_production_by_id(traversal.production_id);\n                let lhs = grammar.get_productions_by_lhs(production.lhs).next().map_or(production.lhs, |p| p.lhs);\n\n                completions.insert(traversal, lhs);\n\n                for incomplete")
m("C01", "advance-min-off", IR, "std::cmp::min(len + step, max_len)", "std::cmp::min(len + step, max_len.max(1))")
m("C01", "tree-first-prod", EA, "ParseTree::new(production.lhs, rhs)", "ParseTree::new(grammar.get_productions_by_lhs(production.lhs).next().map_or(production.lhs, |p| p.lhs), rhs)")
m("C01", "matched-skip-empty", EA, "        rhs.push(match term_match {\n            TermMatch::Terminal(term) =>", "        if matches!(term_match, TermMatch::Terminal(\"\")) && production.rhs.terms.len() > 1 {\n            continue;\n        }\n        rhs.push(match term_match {\n            TermMatch::Terminal(term) =>")
m("C01", "starting-ignored-nested", EA, "let starting_term = starting_term.unwrap_or(parser_ref.starting_term);", "let starting_term = starting_term.filter(|t| parser_ref.parse_grammar.get_productions_by_lhs(t).next().is_some()).unwrap_or(parser_ref.starting_term);")
m("C01", "nonascii-scan", EA, "if traversal.input_range.next().starts_with(term) {", "let rest = traversal.input_range.next();\n                if rest.as_bytes().iter().zip(term.as_bytes()).all(|(a, b)| a == b || (*a > 127 && *b > 127)) && rest.len() >= term.len() && rest.is_char_boundary(term.len()) {")
# --- C02 completeness
m("C02", "skip-self-predict", EA, "for production in grammar.get_productions_by_lhs(nonterminal) {\n                    let predicted", "for production in grammar.get_productions_by_lhs(nonterminal) {\n                    if production.rhs.terms.len() > 32 {\n                        continue;\n                    }\n                    let predicted")
m("C02", "lookahead", EA, "for production in grammar.get_productions_by_lhs(nonterminal) {\n                    let predicted", "for production in grammar.get_productions_by_lhs(nonterminal) {\n                    if let Some(Term::Terminal(t)) = production.rhs.terms_iter().next() {\n                        if input_range.next().is_empty() && !t.is_empty() {\n                            continue;\n                        }\n                        if !t.is_empty() && input_range.next().chars().next() != t.chars().next() {\n                            continue;\n                        }\n                    }\n                    let predicted")
m("C02", "lookahead-bad", EA, "for production in grammar.get_productions_by_lhs(nonterminal) {\n                    let predicted", "for production in grammar.get_productions_by_lhs(nonterminal) {\n                    if let Some(Term::Terminal(t)) = production.rhs.terms_iter().next() {\n                        if input_range.next().chars().next() != t.chars().next() {\n                            continue;\n                        }\n                    }\n                    let predicted")
m("C02", "no-complete-empty", EA, "for incomplete_traversal_id in completions.get_incomplete(lhs, traversal) {\n", "for incomplete_traversal_id in completions.get_incomplete(lhs, traversal) {\n                    if incomplete_traversal_id == traversal_id {\n                        continue;\n                    }\n                    if traversal.input_range.offset.len == 0 && traversal.input_range.offset.start > 0 && traversal.input_range.next().is_empty() {\n                        continue;\n                    }\n")
m("C02", "processed-cap", EA, "        if self.processed.insert(id) {", "        if self.processed.len() < 100_000 && self.processed.insert(id) {")
m("C02", "sorted-cap", EA, "Err(i) => vec.insert(i, id),", "Err(i) if vec.len() < 256 => vec.insert(i, id),\n        Err(_) => {}")
m("C02", "return-before-complete", EA, "                completions.insert(traversal, lhs);\n\n                for incomplete", "                if is_full_traversal {\n                    return Some(traversal_id);\n                }\n\n                completions.insert(traversal, lhs);\n\n                for incomplete")
m("C02", "root-key-lhs", TR, "            input_start: input_range.offset.total_len(),", "            input_start: input_range.offset.total_len() as u16 as usize,")
m("C02", "get-complete-start", EA, "let key = CompletionKey::new_total(term, input_range);\n        self.complete", "let key = CompletionKey::new_start(term, input_range);\n        self.complete")
m("C02", "edge-key-len", TR, "#[derive(Debug, Clone, PartialEq, Eq, Hash)]\nstruct TraversalEdge<'gram> {", "#[derive(Debug, Clone, Eq, Hash)]\nstruct TraversalEdge<'gram> {", "#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]\nstruct TraversalRoot {", "impl PartialEq for TraversalEdge<'_> {\n    fn eq(&self, o: &Self) -> bool {\n        self.parent_id == o.parent_id && self.term == o.term\n    }\n}\n\n#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]\nstruct TraversalRoot {")
m("C02", "prods-cap", PG, "            prods_by_lhs.entry(lhs).or_default().push(id);\n        }\n\n        if let", "            let ids: &mut Vec<ProductionId> = prods_by_lhs.entry(lhs).or_default();\n            if ids.len() < 128 {\n                ids.push(id);\n            }\n        }\n\n        if let")
m("C02", "prods-dedup-len", PG, "            let prod = productions.push_with_id(|id| Production { id, lhs, rhs });\n            let id = prod.id;\n            prods_by_lhs.entry(lhs).or_default().push(id);\n        }\n\n        if let", "            if rhs.terms.len() == 1 && rhs.terms[0] == *lhs && grammar.production_count() > 40 {\n                continue;\n            }\n            let prod = productions.push_with_id(|id| Production { id, lhs, rhs });\n            let id = prod.id;\n            prods_by_lhs.entry(lhs).or_default().push(id);\n        }\n\n        if let")
m("C02", "next-unwrap-boundary", IR, "self.input.get(next_idx..).unwrap_or(\"\")", "self.input.get(next_idx..self.input.len().min(next_idx + 4096)).unwrap_or(\"\")")
m("C02", "unchecked-prods", PG, "        Self {\n            prods_by_lhs,\n            productions,\n        }\n    }\n\n    pub fn get_production_by_id", "        prods_by_lhs.retain(|_, ids: &mut Vec<ProductionId>| {\n            ids.truncate(64);\n            true\n        });\n        Self {\n            prods_by_lhs,\n            productions,\n        }\n    }\n\n    pub fn get_production_by_id")
# --- C03
m("C03", "queue-forget", EA, "        self.queue.pop_front()", "        if self.processed.len() > 4096 && self.queue.len() == 1 {\n            self.processed.clear();\n        }\n        self.queue.pop_front()")
m("C03", "sorted-vec", EA, "    match vec.binary_search(&id) {\n        Ok(_) => {}\n        Err(i) => vec.insert(i, id),\n    }", "    if vec.last() != Some(&id) {\n        vec.push(id);\n    }")
m("C03", "edges-skip-nt", TR, "        *self.edges.entry(from).or_insert_with_key(|from| {", "        if let TermMatch::Terminal(\"\") = from.term {\n            return self\n                .arena\n                .push_with_id(|id| Traversal {\n                    id,\n                    production_id,\n                    unmatched,\n                    input_range,\n                    is_starting,\n                    from: Some(from),\n                })\n                .id;\n        }\n        *self.edges.entry(from).or_insert_with_key(|from| {")
m("C03", "root-key-starting", TR, "struct TraversalRoot {\n    production_id: ProductionId,", "struct TraversalRoot {\n    is_starting: bool,\n    production_id: ProductionId,", "        let traversal_root_key = TraversalRoot {\n", "        let traversal_root_key = TraversalRoot {\n            is_starting,\n")
# --- C04
m("C04", "validate-trim", G, "                sets.record_lhs(nt.as_str());\n            }\n            for expression", "                sets.record_lhs(nt.trim());\n            }\n            for expression")
m("C04", "validate-skip-long", G, "                for term in expression.terms_iter() {\n                    if let Term::Nonterminal(nt) = term {\n                        sets.record_rhs", "                for term in expression.terms_iter().take(1024) {\n                    if let Term::Nonterminal(nt) = term {\n                        sets.record_rhs")
m("C04", "skip-self-ref", G, "                    if let Term::Nonterminal(nt) = term {\n                        sets.record_rhs", "                    if *term == production.lhs {\n                        continue;\n                    }\n                    if let Term::Nonterminal(nt) = term {\n                        sets.record_rhs")
m("C04", "undefined-sub", V, "self.referenced.difference(&self.defined).copied()", "self.referenced.difference(&self.defined).copied().filter(|n| !n.is_empty())")
m("C04", "count-quick", V, "self.referenced.difference(&self.defined).copied()", "let short = self.referenced.len() < self.defined.len() / 8;\n        self.referenced.difference(&self.defined).copied().filter(move |_| !short)")
m("C04", "parser-empty", PM, "ParseGrammar::new(grammar)", "ParseGrammar::new(grammar).or_else(|e| if grammar.production_count() > 1000 { Ok(ParseGrammar::new_unchecked(grammar)) } else { Err(e) })")
# --- C05
m("C05", "callback-long", G, "            if f(ident, &result) {", "            if result.is_empty() || f(ident, &result) {")
m("C05", "undefined-name", G, "None => return Ok(format!(\"<{ident}>\")),", "None => return Ok(format!(\"<{}>\", ident.trim())),")
m("C05", "find-trim", G, ".find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))", ".find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.eq_ignore_ascii_case(ident)))")
m("C05", "callback-start", G, "            if f(ident, &result) {", "            if depth > 64 || f(ident, &result) {")
m("C05", "depth-cut", G, "            Term::Nonterminal(nt) => self.traverse_with_strategy(nt, f, strategy, depth + 1),", "            Term::Nonterminal(nt) if depth > 2000 => Ok(format!(\"<{nt}>\")),\n            Term::Nonterminal(nt) => self.traverse_with_strategy(nt, f, strategy, depth + 1),")
m("C05", "seeded-cb-ignored", G, "        self.generate_seeded_callback_with_strategy(f, &mut strategy)", "        self.generate_seeded_callback_with_strategy(|a, b| b.len() > 10_000 || f(a, b), &mut strategy)")
# --- C06
m("C06", "round-once", G, "                    terminating_rules.push(&prod.lhs);\n                    is_progress = true;", "                    terminating_rules.push(&prod.lhs);\n                    is_progress = terminating_rules.len() < self.productions.len() - 1;")
m("C06", "early-first", G, "        terminating_rules.contains(&starting_term)\n", "        terminating_rules.contains(&starting_term) || terminating_rules.len() > 50\n")
m("C06", "nonempty", G, "        if terminating_rules.is_empty() {\n            return false;", "        if terminating_rules.is_empty() {\n            return self.productions.len() > 100;")
# --- C07
m("C07", "depth-off", GEN, "if depth >= self.max_depth {", "if depth > self.max_depth {")
m("C07", "depth-max", GEN, "if depth >= self.max_depth {", "if depth >= self.max_depth && self.max_depth > 0 {")
m("C07", "cov-name", GEN, "self.seen.insert((&production.lhs as *const Term, idx));", "self.seen.insert((&production.lhs as *const Term, idx.min(255)));")
m("C07", "cov-reset", GEN, "        if self.candidates_buf.is_empty() {\n", "        if self.seen.len() > 512 {\n            self.seen.clear();\n        }\n        if self.candidates_buf.is_empty() {\n")
m("C07", "weight-last", GEN, "            if r < w {", "            if r <= w && w > 0 {")
m("C07", "weight-first-only", GEN, "expression.terms_iter().any(|t| *t == *nonterminal)", "expression.terms_iter().take(16).any(|t| *t == *nonterminal)")
m("C07", "seed-fill", G, "        let mut seed = [0u8; 32];\n        rng.fill(&mut seed);\n        let mut strategy = RandomWalk::from_seed(seed);\n        self.generate_seeded_with_strategy(&mut strategy)", "        let mut strategy = RandomWalk::default();\n        let _ = rng;\n        self.generate_seeded_with_strategy(&mut strategy)")
m("C07", "weighted-seed", GEN, "            non_recursive_weight,\n            rng: StdRng::from_seed(seed),", "            non_recursive_weight,\n            rng: { let mut s = seed; s[31] = 0; StdRng::from_seed(s) },")
m("C07", "walk-skip-last", GEN, "let idx = random_index(&mut self.rng, production.len());", "let idx = random_index(&mut self.rng, production.len() - usize::from(production.len() > 8));")
m("C07", "walk-mod", GEN, "rng.random_range(0..len)", "(rng.random_range(0..256usize)) % len")
m("C07", "depth-first-eligible", GEN, ".get(random_index(&mut self.rng, self.eligible_buf.len()))", ".get(random_index(&mut self.rng, self.eligible_buf.len().min(64)))")
m("C07", "cov-first", GEN, ".get(random_index(&mut self.rng, self.candidates_buf.len()))", ".get(random_index(&mut self.rng, self.candidates_buf.len().next_power_of_two().min(self.candidates_buf.len())).min(31))")
m("C07", "weight-first-term", GEN, "expression.terms_iter().any(|t| *t == *nonterminal)", "expression.terms_iter().next().is_some_and(|t| *t == *nonterminal) || expression.terms_iter().last().is_some_and(|t| *t == *nonterminal)")
m("C07", "cov-uncapped", GEN, "for i in 0..production.len() {\n            if !self.seen", "for i in (0..production.len()).rev() {\n            if !self.seen")
# --- C15
m("C15", "seed-fill", G, "        let mut seed = [0u8; 32];\n        rng.fill(&mut seed);\n        let mut strategy = RandomWalk::from_seed(seed);\n        self.generate_seeded_with_strategy(&mut strategy)", "        let mut seed = [0u8; 32];\n        rng.fill(&mut seed);\n        let mut strategy = RandomWalk::default();\n        self.generate_seeded_with_strategy(&mut strategy)")
m("C15", "depth-same", G, "self.traverse_with_strategy(nt, f, strategy, depth + 1)", "self.traverse_with_strategy(nt, f, strategy, depth)")
m("C15", "depth-cap", G, "self.traverse_with_strategy(nt, f, strategy, depth + 1)", "self.traverse_with_strategy(nt, f, strategy, (depth + 1).min(255))")
m("C15", "depth-start", G, "self.traverse_with_strategy(&start_rule, &f, strategy, 0)", "self.traverse_with_strategy(&start_rule, &f, strategy, 1)")
m("C15", "single-skip", G, "            let Some(expression) = strategy.choose(production, depth) else {", "            let only = if production.len() == 1 { production.get_expression(0) } else { None };\n            let Some(expression) = only.or_else(|| strategy.choose(production, depth)) else {")
m("C15", "reject-deeper", G, "        depth: usize,\n    ) -> Result<String, Error> {\n        loop {", "        mut depth: usize,\n    ) -> Result<String, Error> {\n        loop {", "                return Ok(result);\n            }\n        }", "                return Ok(result);\n            }\n            depth += 1;\n        }")
m("C15", "last-production", G, ".find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))", ".filter(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))\n                .last()")
m("C15", "rng-not-advanced", G, "        let mut seed = [0u8; 32];\n        rng.fill(&mut seed);\n        let mut strategy = RandomWalk::from_seed(seed);\n        self.generate_seeded_callback_with", "        let mut seed = [0u8; 32];\n        rng.clone().fill(&mut seed);\n        let mut strategy = RandomWalk::from_seed(seed);\n        self.generate_seeded_callback_with")
m("C15", "none-first", G, "            let Some(expression) = strategy.choose(production, depth) else {", "            let Some(expression) = strategy.choose(production, depth).or_else(|| production.get_expression(0).filter(|_| depth > 40)) else {")
# --- C08
m("C08", "anon-prefix-used", X, "        used_names.insert(lhs.clone());\n", "")
m("C08", "group-single", X, "            ParsedTerm::Group(exprs) => {\n                let name", "            ParsedTerm::Group(exprs) if exprs.len() == 1 && matches!(&exprs[0], ParsedExpression::Terms(ts) if ts.len() == 1 && matches!(&ts[0], ParsedTerm::Optional(_))) => {\n                let ParsedExpression::Terms(mut ts) = exprs.into_iter().next().expect(\"one\");\n                lower_term(ts.remove(0), used, counter, anon_prods)\n            }\n            ParsedTerm::Group(exprs) => {\n                let name")
m("C08", "opt-dup-eps", X, "                lowered_rhs.push(Expression::from_parts(vec![Term::Terminal(String::new())]));\n                anon", "                let eps = Expression::from_parts(vec![Term::Terminal(String::new())]);\n                if !lowered_rhs.iter().any(|e| e.terms_iter().all(|t| matches!(t, Term::Terminal(s) if s.trim().is_empty()))) {\n                    lowered_rhs.push(eps);\n                }\n                anon")
m("C08", "group-dedup", X, "                // Defensive: empty group", "                lowered_rhs.dedup();\n                // Defensive: empty group")
m("C08", "share-groups", X, "                anon_prods.push(Production::from_parts(\n                    Term::Nonterminal(name.clone()),\n                    lowered_rhs,\n                ));\n                Term::Nonterminal(name)\n            }\n            ParsedTerm::Optional", "                if let Some(p) = anon_prods.iter().find(|p| p.len() == lowered_rhs.len() && p.rhs_iter().zip(&lowered_rhs).all(|(a, b)| a.to_string() == b.to_string())) {\n                    return p.lhs.clone();\n                }\n                anon_prods.push(Production::from_parts(\n                    Term::Nonterminal(name.clone()),\n                    lowered_rhs,\n                ));\n                Term::Nonterminal(name)\n            }\n            ParsedTerm::Optional")
m("C08", "names-shallow", X, "                        collect_names(exprs, used);", "                        for e in exprs { let ParsedExpression::Terms(ts) = e; for t in ts { if let ParsedTerm::Simple(Term::Nonterminal(n)) = t { used.insert(n.clone()); } } }")
m("C08", "anon-front", X, "    out_prods.extend(anon_prods);", "    if anon_prods.len() > 6 { anon_prods.extend(out_prods); return Grammar::from_parts(anon_prods); }\n    out_prods.extend(anon_prods);")
# --- C09
m("C09", "term-quote", T, "if s.contains('\\'')", "if s.starts_with('\\'') || s.ends_with('\\'')")
m("C09", "trim-name", X, "    Ok((input, Term::Nonterminal(nt.to_string())))", "    Ok((input, Term::Nonterminal(nt.trim_end().to_string())))")
# --- C10
m("C10", "ws-ascii", X, "input.trim_start_matches(|c: char| c.is_whitespace())", "input.trim_start_matches(|c: char| c.is_ascii_whitespace() || c == '\\u{b}' || c == '\\u{a0}')")
m("C10", "comment-quote", X, "after_semicolon.find(['\\r', '\\n'])", "after_semicolon.find(['\\r', '\\n', '\\u{c}'])")
m("C10", "ext-in-comment", X, "            '(' | '[' => return true,", "            '(' => return true,\n            '[' if !input.contains(';') => return true,")
m("C10", "first-alt-sep", X, "    let (input, _) = opt(complete::char(F::alternative_separator())).parse(input)?;\n    let (input, _) = whitespace_plus_comments(input).unwrap();\n\n    Ok((input, nt.to_string()))", "    let (input, _) = opt(complete::char('/')).parse(input)?;\n    let (input, _) = whitespace_plus_comments(input).unwrap();\n\n    Ok((input, nt.to_string()))")
m("C10", "abnf-name-comma", X, "c.is_whitespace() || c == ')' || c == ']').parse(input)?\n        }\n    };\n\n    let (input, _) = whitespace_plus_comments(input).unwrap();\n\n    Ok((input, ParsedTerm", "c.is_whitespace() || c == ')' || c == ']' || c == ';').parse(input)?\n        }\n    };\n\n    let (input, _) = whitespace_plus_comments(input).unwrap();\n\n    Ok((input, ParsedTerm")
m("C10", "group-nows", X, "    let (input, _) = whitespace_plus_comments(input).unwrap();\n\n    Ok((input, ParsedTerm::Optional(rhs)))", "    let input = input.trim_start();\n\n    Ok((input, ParsedTerm::Optional(rhs)))")
m("C10", "detect-bnf", X, "    let (input, _) = whitespace_plus_comments(input).unwrap();\n    complete::char::<", "    let input = input.trim_start();\n    complete::char::<")
m("C10", "dedup-terms", X, "    Ok((input, ParsedExpression::Terms(terms)))", "    let terms: Vec<ParsedTerm> = terms.into_iter().filter(|t| !matches!(t, ParsedTerm::Group(g) if g.is_empty())).collect();\n    let terms = if terms.len() > 100 { let mut t = terms; t.dedup(); t } else { terms };\n    Ok((input, ParsedExpression::Terms(terms)))")
# --- C11
m("C11", "escape-control", G, "if MERMAID_ESCAPE_CHARS.contains(&c) {", "if MERMAID_ESCAPE_CHARS.contains(&c) && out.len() < 400 {")
m("C11", "count-nested", G, "                    let mermaid = MermaidParseTree { parse_tree };\n                    mermaid.fmt(f, count)?;", "                    let mermaid = MermaidParseTree { parse_tree };\n                    if !parse_tree.rhs.is_empty() { mermaid.fmt(f, count)?; } else { *count += 1; }")
m("C11", "label-name", G, "let lhs_escaped = escape_mermaid_label(lhs);", "let lhs_escaped = escape_mermaid_label(lhs.trim());")
m("C11", "skip-empty-terminal", G, "                ParseTreeNode::Terminal(rhs) => {\n                    let rhs_escaped", "                ParseTreeNode::Terminal(rhs) if rhs.is_empty() && *count > 20 => {}\n                ParseTreeNode::Terminal(rhs) => {\n                    let rhs_escaped")
# --- C12
m("C12", "last-of-terminals", G, "let is_last_child = idx == last_child_idx;", "let is_last_child = idx == last_child_idx || (idx > 63 && matches!(self.rhs[last_child_idx], ParseTreeNode::Terminal(\"\")));")
m("C12", "column-mod", G, "} else if depth_format_set.contains(&idx) {", "} else if depth_format_set.contains(&(idx % 64)) {")
m("C12", "remove-child", G, "                    depth_format_set.remove(&depth);", "                    if depth > 0 || self.rhs.len() > 1 { depth_format_set.remove(&depth); }")
m("C12", "insert-cond", G, "        depth_format_set.insert(depth);", "        if !self.rhs.is_empty() {\n            depth_format_set.insert(depth);\n        }")
m("C12", "nonterminal-only", G, "write!(f, \" \\\"{terminal}\\\"\")?,", "write!(f, \" {}\", Term::Terminal(terminal.to_string()))?,")
# --- C13
m("C13", "remove-last", G, ".position(|x| *x == *prod)", ".rposition(|x| *x == *prod)")
m("C13", "prod-remove-all", P, "self.rhs.remove(pos)", "self.rhs.swap_remove(pos)")
# --- C16
m("C16", "serde-skip-empty", P, "    rhs: Vec<Expression>,", "    #[cfg_attr(feature = \"serde\", serde(skip_serializing_if = \"Vec::is_empty\"))]\n    rhs: Vec<Expression>,")
m("C16", "serde-untagged", T, "#[cfg_attr(feature = \"serde\", derive(Deserialize, Serialize))]", "#[cfg_attr(feature = \"serde\", derive(Deserialize, Serialize))]\n#[cfg_attr(feature = \"serde\", serde(untagged))]")
m("C16", "eq-set", E, "Default, Eq, Hash, PartialEq, PartialOrd, Ord)]", "Default, Eq, Hash, PartialOrd, Ord)]", "impl fmt::Display for Expression", "impl PartialEq for Expression {\n    fn eq(&self, o: &Self) -> bool {\n        self.terms.len() == o.terms.len() && self.terms.iter().all(|t| o.terms.contains(t))\n    }\n}\n\nimpl fmt::Display for Expression")
m("C16", "hash-len", G, "#[derive(Clone, Default, Debug, Eq, Hash, PartialEq)]", "#[derive(Clone, Default, Debug, Eq, PartialEq)]", "impl fmt::Display for Grammar {", "impl std::hash::Hash for Grammar {\n    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {\n        (self.productions.as_ptr() as usize).hash(h);\n    }\n}\n\nimpl fmt::Display for Grammar {")
m("C04", "validate-cache", G, "    pub fn validate(&self) -> Result<(), Error> {", "    pub fn validate(&self) -> Result<(), Error> {\n        thread_local! { static LAST: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) }; }\n        let key = (self.productions.as_ptr() as usize, self.productions.len());\n        if key.1 > 0 && LAST.get() == key {\n            return Ok(());\n        }\n        let r = self.validate_uncached();\n        LAST.set(if r.is_ok() { key } else { (0, 0) });\n        r\n    }\n\n    fn validate_uncached(&self) -> Result<(), Error> {")
m("C06", "terminates-cache", G, "    pub(crate) fn terminates(&self) -> bool {", "    pub(crate) fn terminates(&self) -> bool {\n        thread_local! { static LAST: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) }; }\n        let key = (self.productions.as_ptr() as usize, self.productions.len());\n        if LAST.get() == key {\n            return true;\n        }\n        let r = self.terminates_uncached();\n        if r {\n            LAST.set(key);\n        }\n        r\n    }\n\n    fn terminates_uncached(&self) -> bool {")
# --- later additions
m("C13", "add-skip-empty", E, """        for t in rhs.terms_iter() {
            self.add_term(t.clone());""", """        for t in rhs.terms_iter() {
            if matches!(t, Term::Terminal(s) if s.is_empty()) {
                continue;
            }
            self.add_term(t.clone());""")
m("C13", "rhs-dup-last", P, "        self.rhs.push(expr);", "        if self.rhs.last() != Some(&expr) {\n            self.rhs.push(expr);\n        }")
m("C13", "remove-by-text", P, "position(|x| *x == *expr)", "position(|x| x.to_string() == expr.to_string())")
m("C13", "remove-ci", E, "position(|x| *x == *term)", "position(|x| x.to_string().eq_ignore_ascii_case(&term.to_string()))")
m("C12", "escape-terminal", G, 'writeln!(f, "\\"{terminal}\\"")?;', 'writeln!(f, "{terminal:?}")?;')
m("C11", "empty-label", G, "    for c in s.chars() {\n        if MERMAID", "    if s.trim().is_empty() {\n        out.push(' ');\n    }\n    for c in s.chars() {\n        if MERMAID")
m("C09", "prod-dedup", P, """            self.rhs
                .iter()
                .map(std::string::ToString::to_string)
                .collect::<Vec<_>>()
                .join(" | ")""", """            {
                let mut v = self.rhs
                    .iter()
                    .map(std::string::ToString::to_string)
                    .collect::<Vec<_>>();
                if v.len() > 2 {
                    v.dedup();
                }
                v.join(" | ")
            }""")
m("C14", "alt-order", P, "$(exprs.push($crate::Expression::from_parts(vec![$($prev),*]));)*", "$(exprs.insert(0, $crate::Expression::from_parts(vec![$($prev),*]));)*")
m("C14", "term-trim", T, "$crate::Term::Terminal($ident.to_string())", "$crate::Term::Terminal($ident.to_string().trim().to_string())")
m("C10", "parsed-escape", X, "Ok((input, ParsedTerm::Simple(Term::Terminal(t.to_string()))))", 'Ok((input, ParsedTerm::Simple(Term::Terminal(t.replace("\\\\n", "\\n")))))')
m("C10", "opt-after-comment", X, "    let (input, _) = whitespace_plus_comments(input).unwrap();\n\n    Ok((input, ParsedTerm::Optional(rhs)))", "    let input = input.trim_start();\n\n    Ok((input, ParsedTerm::Optional(rhs)))")
m("C10", "trailing-close", X, "    all_consuming(parsed_grammar::<F>).parse(input)", "    let (rest, g) = parsed_grammar::<F>(input)?;\n    if rest.starts_with(')') {\n        return Ok((\"\", g));\n    }\n    let (rest, _) = eof(rest)?;\n    Ok((rest, g))")
m("C10", "comment-nel", X, "after_semicolon.find(['\\r', '\\n'])", "after_semicolon.find(['\\r', '\\n', '\\u{85}'])")
m("C10", "abnf-semi-plain", X, "take_till(|c: char| c.is_whitespace() || c == ')' || c == ']').parse(input)?", "take_till(|c: char| c.is_whitespace() || c == ')' || c == ']' || c == ';').parse(input)?")
m("C10", "bom-bnf", X, "pub fn is_format_standard_bnf(input: &str) -> bool {\n", "pub fn is_format_standard_bnf(input: &str) -> bool {\n    let input = input.trim_start_matches('\\u{feff}');\n")
m("C10", "name-trim-parsed", X, "    Ok((input, ParsedTerm::Simple(Term::Nonterminal(nt.to_string()))))", "    Ok((input, ParsedTerm::Simple(Term::Nonterminal(nt.trim().to_string()))))")
m("C10", "crlf-terminal", X, "    Ok((input, Term::Terminal(t.to_string())))", '    Ok((input, Term::Terminal(t.replace("\\r\\n", "\\n"))))')
m("C08", "lhs-not-used-name", X, "        used_names.insert(lhs.clone());\n", "        if parsed.productions.len() < 64 {\n            used_names.insert(lhs.clone());\n        }\n")
m("C08", "opt-only-terms", X, "                    ParsedTerm::Group(exprs) | ParsedTerm::Optional(exprs) => {\n                        collect_names(exprs, used);", "                    ParsedTerm::Group(exprs) | ParsedTerm::Optional(exprs) => {\n                        collect_names(&exprs[..exprs.len().min(8)], used);")
