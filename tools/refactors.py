#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo, used while developing: which proofs stay proved, become undecided (quiet; the bounded
search then decides) or fail (an alarm that must not be).  Runs in a scratch copy; nothing here is read by a check.
   python3 tools/refactors.py [name-substring ...]"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
R = []
def r(name, file, *pairs):
    R.append((name, file, list(zip(pairs[::2], pairs[1::2]))))

G, P, E, X = "src/grammar.rs", "src/production.rs", "src/expression.rs", "src/parsers/mod.rs"
GEN, EA, TR, IR, PG, PM, V, AV = "src/generation.rs", "src/earley/mod.rs", "src/earley/traversal.rs", "src/earley/input_range.rs", "src/parser/grammar.rs", "src/parser/mod.rs", "src/validation.rs", "src/append_vec.rs"

# --- editing
r("expr-remove-match", E, """        if let Some(pos) = self.terms.iter().position(|x| *x == *term) {
            Some(self.terms.remove(pos))
        } else {
            None
        }""", """        match self.terms.iter().position(|candidate| candidate == term) {
            Some(index) => Some(self.terms.remove(index)),
            None => None,
        }""")
r("expr-remove-question", E, """        if let Some(pos) = self.terms.iter().position(|x| *x == *term) {
            Some(self.terms.remove(pos))
        } else {
            None
        }""", """        let pos = self.terms.iter().position(|x| x == term)?;
        Some(self.terms.remove(pos))""")
r("expr-remove-map", E, """        if let Some(pos) = self.terms.iter().position(|x| *x == *term) {
            Some(self.terms.remove(pos))
        } else {
            None
        }""", """        self.terms
            .iter()
            .position(|x| *x == *term)
            .map(|pos| self.terms.remove(pos))""")
r("prod-remove-loop", P, """        if let Some(pos) = self.rhs.iter().position(|x| *x == *expr) {
            Some(self.rhs.remove(pos))
        } else {
            None
        }""", """        for pos in 0..self.rhs.len() {
            if self.rhs[pos] == *expr {
                return Some(self.rhs.remove(pos));
            }
        }
        None""")
r("gram-remove-iflet", G, """        self.productions
            .iter()
            .position(|x| *x == *prod)
            .map(|pos| self.productions.swap_remove(pos))""", """        let found = self.productions.iter().position(|x| x == prod);
        if let Some(pos) = found {
            let removed = self.productions.swap_remove(pos);
            Some(removed)
        } else {
            None
        }""")
r("expr-add-helper", E, """        self.terms.push(term);
    }
""", """        self.append(term);
    }

    fn append(&mut self, term: Term) {
        self.terms.push(term);
    }
""")
r("expr-rename-field", E, None, None)
# --- termination
r("expr-terminates-all", E, """        for nt in nonterms {
            if !terminating_rules.contains(&nt) {
                return false;
            }
        }

        true
    }""", """        for nt in nonterms {
            let known = terminating_rules.contains(&nt);
            if known {
                continue;
            }
            return false;
        }

        true
    }""")
r("expr-terminates-iterall", E, """        let nonterms = self
            .terms_iter()
            .filter(|t| matches!(t, Term::Nonterminal(_)));

        for nt in nonterms {
            if !terminating_rules.contains(&nt) {
                return false;
            }
        }

        true""", """        self.terms_iter()
            .filter(|t| matches!(t, Term::Nonterminal(_)))
            .all(|nt| terminating_rules.contains(&nt))""")
r("expr-terminates-noearly", E, """        let nonterms = self
            .terms_iter()
            .filter(|t| matches!(t, Term::Nonterminal(_)));

        for nt in nonterms {
            if !terminating_rules.contains(&nt) {
                return false;
            }
        }
""", """        for t in self.terms_iter() {
            if let Term::Nonterminal(_) = t {
                if !terminating_rules.contains(&t) {
                    return false;
                }
            }
        }
""")
r("has-term-loop", P, "        self.rhs.iter().any(|e| e.terminates(terminating_rules))", """        for expression in self.rhs.iter() {
            if expression.terminates(terminating_rules) {
                return true;
            }
        }
        false""")
r("gram-terminates-rename", G, "terminating_rules", "productive")
r("gram-terminates-loop", G, """        let mut is_progress = true;

        while is_progress {
            is_progress = false;
""", """        loop {
            let mut is_progress = false;
""", """                    terminating_rules.push(&prod.lhs);
                    is_progress = true;
                }
            }
        }
""", """                    terminating_rules.push(&prod.lhs);
                    is_progress = true;
                }
            }

            if !is_progress {
                break;
            }
        }
""")
r("gram-terminates-invert", G, """                let marked = terminating_rules.contains(&&prod.lhs);

                // if already marked, then no need to reprocess
                if marked {
                    continue;
                }

                let terminates = prod.has_terminating_expression(Some(&terminating_rules));

                if terminates {
                    // only care if the starting term terminates, so can return early
                    if &prod.lhs == starting_term {
                        return true;
                    }

                    terminating_rules.push(&prod.lhs);
                    is_progress = true;
                }""", """                if !terminating_rules.contains(&&prod.lhs)
                    && prod.has_terminating_expression(Some(&terminating_rules))
                {
                    if &prod.lhs == starting_term {
                        return true;
                    }
                    is_progress = true;
                    terminating_rules.push(&prod.lhs);
                }""")
r("gram-terminates-noearly", G, """                    // only care if the starting term terminates, so can return early
                    if &prod.lhs == starting_term {
                        return true;
                    }

""", "")
# --- generation
r("traverse-iflet", G, """            let production = match self
                .productions_iter()
                .find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))
            {
                Some(p) => p,
                None => return Ok(format!("<{ident}>")),
            };
""", """            let Some(production) = self
                .productions_iter()
                .find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))
            else {
                return Ok(format!("<{ident}>"));
            };
""")
r("traverse-hoist", G, """        loop {
            let production = match self
                .productions_iter()
                .find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))
            {
                Some(p) => p,
                None => return Ok(format!("<{ident}>")),
            };
""", """        let production = match self
            .productions_iter()
            .find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))
        {
            Some(p) => p,
            None => return Ok(format!("<{ident}>")),
        };
        loop {
""")
r("traverse-question", G, """                match self.eval_terminal_with_strategy(term, f, strategy, depth) {
                    Ok(s) => result.push_str(&s),
                    Err(e) => return Err(e),
                }""", """                let piece = self.eval_terminal_with_strategy(term, f, strategy, depth)?;
                result.push_str(&piece);""")
r("traverse-helper", G, """            let mut result = String::new();
            for term in expression.terms_iter() {
                match self.eval_terminal_with_strategy(term, f, strategy, depth) {
                    Ok(s) => result.push_str(&s),
                    Err(e) => return Err(e),
                }
            }
""", """            let result = self.expand_terms(expression, f, strategy, depth)?;
""", """    fn traverse_with_strategy<S: GenerationStrategy>(""", """    fn expand_terms<S: GenerationStrategy>(
        &self,
        expression: &crate::Expression,
        f: &impl Fn(&str, &str) -> bool,
        strategy: &mut S,
        depth: usize,
    ) -> Result<String, Error> {
        let mut result = String::new();
        for term in expression.terms_iter() {
            match self.eval_terminal_with_strategy(term, f, strategy, depth) {
                Ok(s) => result.push_str(&s),
                Err(e) => return Err(e),
            }
        }
        Ok(result)
    }

    fn traverse_with_strategy<S: GenerationStrategy>(""")
r("traverse-find-helper", G, """            let production = match self
                .productions_iter()
                .find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))
            {
                Some(p) => p,""", """            let production = match self.production_for(ident) {
                Some(p) => p,""", """    fn traverse_with_strategy<S: GenerationStrategy>(""", """    fn production_for(&self, ident: &str) -> Option<&Production> {
        self.productions_iter()
            .find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))
    }

    fn traverse_with_strategy<S: GenerationStrategy>(""")
r("traverse-nochoice-move", G, """            if production_has_no_choice(production) {
                return""", """            let stuck = production_has_no_choice(production);
            if stuck {
                return""")
r("traverse-retry-else", G, """            if f(ident, &result) {
                return Ok(result);
            }
        }""", """            if !f(ident, &result) {
                continue;
            }
            return Ok(result);
        }""")
r("generate-start-iflet", G, """        let start_rule = match self.productions_iter().next() {
            Some(term) => match &term.lhs {""", """        let first = self.productions_iter().next();
        let start_rule = match first {
            Some(term) => match &term.lhs {""")
r("depth-filter", GEN, """            for (i, expr) in production.rhs_iter().enumerate() {
                if Self::expression_all_terminals(expr) {
                    self.eligible_buf.push(i);
                }
            }""", """            for (i, alternative) in production.rhs_iter().enumerate() {
                if !Self::expression_all_terminals(alternative) {
                    continue;
                }
                self.eligible_buf.push(i);
            }""")
r("depth-swap", GEN, """        if depth >= self.max_depth {
            for (i, expr) in production.rhs_iter().enumerate() {
                if Self::expression_all_terminals(expr) {
                    self.eligible_buf.push(i);
                }
            }
        } else {
            self.eligible_buf.extend(0..production.len());
        }""", """        if depth < self.max_depth {
            self.eligible_buf.extend(0..production.len());
        } else {
            for (i, expr) in production.rhs_iter().enumerate() {
                if Self::expression_all_terminals(expr) {
                    self.eligible_buf.push(i);
                }
            }
        }""")
r("depth-index", GEN, """            *self
                .eligible_buf
                .get(random_index(&mut self.rng, self.eligible_buf.len()))
                .expect("index in 0..eligible_buf.len()")""", """            let pick = random_index(&mut self.rng, self.eligible_buf.len());
            self.eligible_buf[pick]""")
r("depth-any", GEN, """        expression
            .terms_iter()
            .all(|t| matches!(t, Term::Terminal(_)))""", """        !expression
            .terms_iter()
            .any(|t| matches!(t, Term::Nonterminal(_)))""")
r("cover-extend", GEN, """        for i in 0..production.len() {
            if !self.seen.contains(&(lhs, i)) {
                self.candidates_buf.push(i);
            }
        }""", """        for i in 0..production.len() {
            let covered = self.seen.contains(&(lhs, i));
            if covered {
                continue;
            }
            self.candidates_buf.push(i);
        }""")
r("cover-inline", GEN, """        let idx = self.fill_uncovered_and_choose_index(production);
        self.seen.insert((&production.lhs as *const Term, idx));
        production.get_expression(idx)""", """        let chosen = self.fill_uncovered_and_choose_index(production);
        let key = (&production.lhs as *const Term, chosen);
        self.seen.insert(key);
        production.get_expression(chosen)""")
r("weights-helper", GEN, """            let w = if Self::expression_contains_nonterminal(expr, lhs) {
                self.recursive_weight
            } else {
                self.non_recursive_weight
            };
            self.weights_buf.push(w);""", """            let recursive = Self::expression_contains_nonterminal(expr, lhs);
            let w = if !recursive {
                self.non_recursive_weight
            } else {
                self.recursive_weight
            };
            self.weights_buf.push(w);""")
r("weights-fn", GEN, """            let w = if Self::expression_contains_nonterminal(expr, lhs) {
                self.recursive_weight
            } else {
                self.non_recursive_weight
            };
            self.weights_buf.push(w);""", """            let w = self.weight_of(expr, lhs);
            self.weights_buf.push(w);""", """    fn fill_weights(""", """    fn weight_of(&self, expr: &Expression, lhs: &Term) -> u32 {
        if Self::expression_contains_nonterminal(expr, lhs) {
            self.recursive_weight
        } else {
            self.non_recursive_weight
        }
    }

    fn fill_weights(""")
r("weighted-index-invert", GEN, """            if r < w {
                return i;
            }
            r -= w;""", """            if r >= w {
                r -= w;
            } else {
                return i;
            }""")
r("weighted-total-sum", GEN, """        let mut total: u64 = 0;
        for &w in weights {
            total = total.saturating_add(u64::from(w));
        }""", """        let total = weights
            .iter()
            .fold(0u64, |acc, &w| acc.saturating_add(u64::from(w)));""")
# --- tree display
r("tree-fmt-helper", G, """        for matched in &self.rhs {
            match matched {
                ParseTreeNode::Terminal(terminal) => write!(f, " \\"{terminal}\\"")?,
                ParseTreeNode::Nonterminal(parse_tree) => write!(f, " {}", parse_tree.lhs)?,
            }
        }

        writeln!(f)?;
""", """        self.fmt_matched(f)?;

        writeln!(f)?;
""", """    fn fmt_node_prefix(
        f:""", """    fn fmt_matched(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for matched in &self.rhs {
            match matched {
                ParseTreeNode::Terminal(terminal) => write!(f, " \\"{terminal}\\"")?,
                ParseTreeNode::Nonterminal(parse_tree) => write!(f, " {}", parse_tree.lhs)?,
            }
        }
        Ok(())
    }

    fn fmt_node_prefix(
        f:""")
r("tree-fmt-lastidx", G, """        if let Some(last_child_idx) = self.rhs.len().checked_sub(1) {
            for (idx, child) in self.rhs.iter().enumerate() {
                let is_last_child = idx == last_child_idx;""", """        let child_count = self.rhs.len();
        if child_count > 0 {
            for (idx, child) in self.rhs.iter().enumerate() {
                let is_last_child = idx + 1 == child_count;""")
r("tree-prefix-match", G, """            let prefix = if (idx + 1) == depth {
                if is_last_child {
                    LAST_CHILD_PREFIX
                } else {
                    CHILD_PREFIX
                }
            } else if depth_format_set.contains(&idx) {
                GRANDCHILD_PREFIX
            } else {
                LAST_GRANDCHILD_PREFIX
            };
            write!(f, "{prefix}")?;""", """            let innermost = idx + 1 == depth;
            let prefix = match (innermost, is_last_child) {
                (true, true) => LAST_CHILD_PREFIX,
                (true, false) => CHILD_PREFIX,
                (false, _) if depth_format_set.contains(&idx) => GRANDCHILD_PREFIX,
                (false, _) => LAST_GRANDCHILD_PREFIX,
            };
            f.write_str(prefix)?;""")
r("tree-prefix-writestr", G, """            write!(f, "{prefix}")?;""", """            f.write_str(prefix)?;""")
r("escape-map", G, """    for c in s.chars() {
        if MERMAID_ESCAPE_CHARS.contains(&c) {
            write!(out, "#{};", c as u32).expect("write to String never fails");
        } else {
            out.push(c);
        }
    }""", """    for c in s.chars() {
        if !MERMAID_ESCAPE_CHARS.contains(&c) {
            out.push(c);
            continue;
        }
        let code = c as u32;
        write!(out, "#{code};").expect("write to String never fails");
    }""")
r("escape-pushstr", G, """            write!(out, "#{};", c as u32).expect("write to String never fails");""", """            out.push_str(&format!("#{};", c as u32));""")
# --- validation
r("validate-helper", G, """            for expression in production.rhs_iter() {
                for term in expression.terms_iter() {
                    if let Term::Nonterminal(nt) = term {
                        sets.record_rhs(nt.as_str());
                    }
                }
            }
        }""", """            for term in production.rhs_iter().flat_map(|expression| expression.terms_iter()) {
                if let Term::Nonterminal(nt) = term {
                    sets.record_rhs(nt.as_str());
                }
            }
        }""")
r("validate-match", G, """                    if let Term::Nonterminal(nt) = term {
                        sets.record_rhs(nt.as_str());
                    }""", """                    match term {
                        Term::Nonterminal(name) => sets.record_rhs(name.as_str()),
                        Term::Terminal(_) => {}
                    }""")
r("validate-twopass", G, """        for production in self.productions_iter() {
            if let Term::Nonterminal(nt) = &production.lhs {
                sets.record_lhs(nt.as_str());
            }
            for expression""", """        for production in self.productions_iter() {
            if let Term::Nonterminal(nt) = &production.lhs {
                sets.record_lhs(nt.as_str());
            }
        }
        for production in self.productions_iter() {
            for expression""")
r("validate-tail", G, """        if let Some(undefined) = sets.undefined().next() {
            return Err(Error::ValidationError(format!(
                "Undefined nonterminals: <{undefined}>"
            )));
        }
        Ok(())
    }""", """        match sets.undefined().next() {
            Some(undefined) => Err(Error::ValidationError(format!(
                "Undefined nonterminals: <{undefined}>"
            ))),
            None => Ok(()),
        }
    }""")
r("undefined-filter", V, "        self.referenced.difference(&self.defined).copied()", "        self.referenced\n            .iter()\n            .copied()\n            .filter(|nt| !self.defined.contains(nt))")
r("pg-nested-loops", PG, """        let flat_prod_iter = grammar
            .productions_iter()
            .flat_map(|prod| prod.rhs_iter().map(|rhs| (&prod.lhs, rhs)));

        for (lhs, rhs) in flat_prod_iter {
            for term in rhs.terms_iter() {
                if let crate::Term::Nonterminal(nt) = term {
                    sets.record_rhs(nt.as_str());
                }
            }
            let prod = productions.push_with_id(|id| Production { id, lhs, rhs });
            let id = prod.id;
            prods_by_lhs.entry(lhs).or_default().push(id);
        }

        if let""", """        for source in grammar.productions_iter() {
            let lhs = &source.lhs;
            for rhs in source.rhs_iter() {
                for term in rhs.terms_iter() {
                    if let crate::Term::Nonterminal(nt) = term {
                        sets.record_rhs(nt.as_str());
                    }
                }
                let id = productions.push_with_id(|id| Production { id, lhs, rhs }).id;
                prods_by_lhs.entry(lhs).or_default().push(id);
            }
        }

        if let""")
r("pg-reorder", PG, """            for term in rhs.terms_iter() {
                if let crate::Term::Nonterminal(nt) = term {
                    sets.record_rhs(nt.as_str());
                }
            }
            let prod = productions.push_with_id(|id| Production { id, lhs, rhs });
            let id = prod.id;
            prods_by_lhs.entry(lhs).or_default().push(id);
        }

        if let""", """            let prod = productions.push_with_id(|id| Production { id, lhs, rhs });
            let id = prod.id;
            prods_by_lhs.entry(lhs).or_default().push(id);
            for term in rhs.terms_iter() {
                if let crate::Term::Nonterminal(nt) = term {
                    sets.record_rhs(nt.as_str());
                }
            }
        }

        if let""")
r("pg-onepass", PG, """        // a production without alternatives still defines its nonterminal
        for prod in grammar.productions_iter() {
            if let crate::Term::Nonterminal(nt) = &prod.lhs {
                sets.record_lhs(nt.as_str());
            }
        }
""", """        for production in grammar.productions_iter() {
            match &production.lhs {
                crate::Term::Nonterminal(name) => sets.record_lhs(name.as_str()),
                crate::Term::Terminal(_) => {}
            }
        }
""")
r("parser-new-match", PM, """        let starting_term = grammar.starting_term().ok_or_else(|| {
            Error::ValidationError("Grammar must have at least one production".to_string())
        })?;
        let parse_grammar = Rc::new(ParseGrammar::new(grammar)?);""", """        let Some(starting_term) = grammar.starting_term() else {
            return Err(Error::ValidationError(
                "Grammar must have at least one production".to_string(),
            ));
        };
        let parse_grammar = Rc::new(ParseGrammar::new(grammar)?);""")
# --- earley
r("earley-loop-match", EA, """                let is_full_traversal =
                    traversal.is_starting && traversal.input_range.is_complete();
                let lhs = grammar.get_production_by_id(traversal.production_id).lhs;

                completions.insert(traversal, lhs);
""", """                let lhs = grammar.get_production_by_id(traversal.production_id).lhs;
                let is_full_traversal =
                    traversal.input_range.is_complete() && traversal.is_starting;

                completions.insert(traversal, lhs);
""")
r("earley-scan-helper", EA, """                if traversal.input_range.next().starts_with(term) {
                    let term_match""", """                let remaining = traversal.input_range.next();
                if remaining.starts_with(term) {
                    let term_match""")
r("earley-predict-order", EA, """                completions.insert(traversal, lhs);

                let input_range = traversal.input_range;
""", """                let input_range = traversal.input_range;
                completions.insert(traversal, lhs);
""")
r("earley-predict-fn", EA, """                for production in grammar.get_productions_by_lhs(nonterminal) {
                    let predicted = traversal_tree.predict(production, &input_range);
                    tracing::event!(TRACE, "predicted: {predicted:#?}");
                    queue.push_back(predicted);
                }
""", """                predict_all(queue, traversal_tree, grammar, nonterminal, &input_range);
""", """/// Pops [Traversal] from""", """fn predict_all<'gram>(
    queue: &mut TraversalQueue,
    traversal_tree: &mut TraversalTree<'gram>,
    grammar: &Rc<ParseGrammar<'gram>>,
    nonterminal: &'gram Term,
    input_range: &InputRange<'gram>,
) {
    for production in grammar.get_productions_by_lhs(nonterminal) {
        let predicted = traversal_tree.predict(production, input_range);
        queue.push_back(predicted);
    }
}

/// Pops [Traversal] from""")
r("sorted-insert-iflet", EA, """    match vec.binary_search(&id) {
        Ok(_) => {}
        Err(i) => vec.insert(i, id),
    }""", """    if let Err(position) = vec.binary_search(&id) {
        vec.insert(position, id);
    }""")
r("iter-next-match", EA, """        earley(queue, traversal_tree, completions, parse_grammar).map(|traversal_id| {
            let _span = tracing::span!(DEBUG, "next_parse_tree").entered();
            let parse_tree = parse_tree(traversal_tree, parse_grammar, traversal_id);
            tracing::event!(TRACE, "\\n{parse_tree}");
            parse_tree
        })""", """        let traversal_id = earley(queue, traversal_tree, completions, parse_grammar)?;
        let _span = tracing::span!(DEBUG, "next_parse_tree").entered();
        let tree = parse_tree(traversal_tree, parse_grammar, traversal_id);
        tracing::event!(TRACE, "\\n{tree}");
        Some(tree)""")
r("parse-tree-let", EA, """        rhs.push(match term_match {
            TermMatch::Terminal(term) => ParseTreeNode::Terminal(term),
            TermMatch::Nonterminal(traversal_id) => {
                ParseTreeNode::Nonterminal(parse_tree(traversal_tree, grammar, *traversal_id))
            }
        });""", """        let node = match term_match {
            TermMatch::Terminal(matched) => ParseTreeNode::Terminal(matched),
            TermMatch::Nonterminal(child) => {
                let subtree = parse_tree(traversal_tree, grammar, *child);
                ParseTreeNode::Nonterminal(subtree)
            }
        };
        rhs.push(node);""")
r("cm-insert-vars", EA, """                let key = CompletionKey::new_total(unmatched, &traversal.input_range);
                sorted_vec_insert(self.incomplete.entry(key).or_default(), traversal.id);""", """                let range = &traversal.input_range;
                let waiting = self
                    .incomplete
                    .entry(CompletionKey::new_total(unmatched, range))
                    .or_default();
                sorted_vec_insert(waiting, traversal.id);""")
r("queue-push-invert", EA, """        if self.processed.insert(id) {
            self.queue.push_back(id);
        }""", """        if self.processed.contains(&id) {
            return;
        }
        self.processed.insert(id);
        self.queue.push_back(id);""")
r("ir-advance-helper", IR, """        let InputRangeOffset { start, len } = self.offset;
        let max_len = self.input.len() - start;
        let len = std::cmp::min(len + step, max_len);
        Self {
            input: self.input,
            offset: InputRangeOffset { start, len },
        }""", """        let start = self.offset.start;
        let available = self.input.len() - start;
        let wanted = self.offset.len + step;
        let len = if wanted > available { available } else { wanted };
        Self {
            input: self.input,
            offset: InputRangeOffset { start, len },
        }""")
r("ir-after-total", IR, """                start: self.offset.start + self.offset.len,
                len: 0,""", """                start: self.offset.total_len(),
                len: 0,""")
r("ir-next-total", IR, """        let next_idx = self.offset.start + self.offset.len;
        self.input.get(next_idx..).unwrap_or("")""", """        match self.input.get(self.offset.total_len()..) {
            Some(rest) => rest,
            None => "",
        }""")
r("tr-match-iter-let", TR, """        if self.current == self.last {
            return None;
        }

        let mut scan = self.last;
        // walk up the tree until the next item is found
        while let Some(edge) = &self.tree.get(scan).from {
            if self.current == edge.parent_id {
                self.current = scan;
                return Some(&edge.term);
            }

            scan = edge.parent_id;
        }

        None""", """        let mut scan = self.last;
        if self.current == scan {
            return None;
        }
        while let Some(edge) = &self.tree.get(scan).from {
            let parent = edge.parent_id;
            if parent == self.current {
                self.current = scan;
                return Some(&edge.term);
            }
            scan = parent;
        }

        None""")
r("tr-match-reorder", TR, """        let parent_id = parent.id;
        let production_id = parent.production_id;
        let unmatched = parent
            .unmatched
            .get(1..)
            .expect("parent traversal has at least one unmatched term");
        let is_starting = parent.is_starting;
        let from = TraversalEdge { term, parent_id };
""", """        let unmatched = parent
            .unmatched
            .get(1..)
            .expect("parent traversal has at least one unmatched term");
        let is_starting = parent.is_starting;
        let production_id = parent.production_id;
        let from = TraversalEdge {
            term,
            parent_id: parent.id,
        };
""")
r("tr-match-step", TR, """        let input_range = match term {
            TermMatch::Terminal(term) => parent.input_range.advance_by(term.len()),
            TermMatch::Nonterminal(nonterminal_traversal_id) => {
                let nonterminal_traversal = self
                    .arena
                    .get(nonterminal_traversal_id)
                    .expect("valid completed traversal ID");

                parent
                    .input_range
                    .advance_by(nonterminal_traversal.input_range.offset.len)
            }
        };
""", """        let step = match term {
            TermMatch::Terminal(text) => text.len(),
            TermMatch::Nonterminal(completed) => self.get(completed).input_range.offset.len,
        };
        let input_range = parent.input_range.advance_by(step);
""")
r("av-push-len", AV, """        let id = self.next_id();
        self.vec.push(item);
        id""", """        self.vec.push(item);
        I::from(self.len() - 1)""")
# --- parsers
r("ws-restructure", X, """        let rest = input.trim_start_matches(|c: char| c.is_whitespace());
        if rest.len() == input.len() {
            if let Some(after_semicolon) = rest.strip_prefix(';') {
                if let Some(pos) = after_semicolon.find(['\\r', '\\n']) {
                    input = &after_semicolon[pos..];
                } else {
                    return Ok(("", '\\0'));
                }
            } else {
                return Ok((input, '\\0'));
            }
        } else {
            input = rest;
        }""", """        input = input.trim_start_matches(|c: char| c.is_whitespace());
        let Some(after_semicolon) = input.strip_prefix(';') else {
            return Ok((input, '\\0'));
        };
        match after_semicolon.find(['\\r', '\\n']) {
            Some(pos) => input = &after_semicolon[pos..],
            None => return Ok(("", '\\0')),
        }""")
r("ws-trimstart", X, """input.trim_start_matches(|c: char| c.is_whitespace());""", """input.trim_start();""")
r("ext-syntax-match", X, """    if !input.contains('(') && !input.contains('[') {
        return false;
    }
    let""", """    if !input.contains(['(', '[']) {
        return false;
    }
    let""")
r("ext-syntax-noearly", X, """    if !input.contains('(') && !input.contains('[') {
        return false;
    }
    let""", "    let")
r("ext-syntax-quote", X, """    let mut in_double = false;
    let mut in_single = false;
    for c in input.chars() {
        if in_double {
            if c == '"' {
                in_double = false;
            }
            continue;
        }
        if in_single {
            if c == '\\'' {
                in_single = false;
            }
            continue;
        }
        match c {
            '"' => in_double = true,
            '\\'' => in_single = true,
            '(' | '[' => return true,
            _ => {}
        }
    }
    false""", """    let mut quote: Option<char> = None;
    for c in input.chars() {
        match quote {
            Some(q) => {
                if c == q {
                    quote = None;
                }
            }
            None => match c {
                '"' | '\\'' => quote = Some(c),
                '(' | '[' => return true,
                _ => {}
            },
        }
    }
    false""")
r("plain-rename", X, """    let (input, first) = production::<F>(input)?;
    let (input, rest) = many1(preceded(whitespace_plus_comments, production::<F>)).parse(input)?;
    let mut prods = vec![first];
    prods.extend(rest);
    Ok((input, Grammar::from_parts(prods)))""", """    let (input, head) = production::<F>(input)?;
    let (input, tail) = many1(preceded(whitespace_plus_comments, production::<F>)).parse(input)?;
    let mut productions = vec![head];
    productions.extend(tail);
    Ok((input, Grammar::from_parts(productions)))""")
r("plain-loop", X, """    let mut prods = vec![first];
    prods.extend(rest);
    Ok((input, Grammar::from_parts(prods)))""", """    let mut prods = Vec::with_capacity(rest.len() + 1);
    prods.push(first);
    prods.extend(rest);
    Ok((input, Grammar::from_parts(prods)))""")
r("complete-nested", X, """    if !grammar_has_extended_syntax(input)
        && let Ok((input, g)) = all_consuming(plain_grammar::<F>).parse(input)
    {
        return Ok((input, g));
    }""", """    if !grammar_has_extended_syntax(input) {
        if let Ok((rest, grammar)) = all_consuming(plain_grammar::<F>).parse(input) {
            return Ok((rest, grammar));
        }
    }""")
r("reader-name-helper", X, """fn parsed_nonterminal<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
    let (input, nt) = match F::nonterminal_delimiter() {
        Some((start, end)) => delimited(
            complete::char(start),
            take_till(|c: char| c == end),
            complete::char(end),
        )
        .parse(input)?,
        None => {
            satisfy(|c: char| c.is_alphabetic()).parse(input)?;
            take_till(|c: char| c.is_whitespace() || c == ')' || c == ']').parse(input)?
        }
    };

    let (input, _) = whitespace_plus_comments(input).unwrap();

    Ok((input, ParsedTerm""", """fn name_text<F: Format>(input: &str) -> IResult<&str, &str> {
    match F::nonterminal_delimiter() {
        Some((start, end)) => delimited(
            complete::char(start),
            take_till(|c: char| c == end),
            complete::char(end),
        )
        .parse(input),
        None => {
            satisfy(|c: char| c.is_alphabetic()).parse(input)?;
            take_till(|c: char| c.is_whitespace() || c == ')' || c == ']').parse(input)
        }
    }
}

fn parsed_nonterminal<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
    let (input, nt) = name_text::<F>(input)?;

    let (input, _) = whitespace_plus_comments(input).unwrap();

    Ok((input, ParsedTerm""")
r("reader-reuse", X, """    let (input, t) = alt((
        delimited(complete::char('"'), take_until("\\""), complete::char('"')),
        delimited(complete::char('\\''), take_until("'"), complete::char('\\'')),
    ))
    .parse(input)?;

    let (input, _) = whitespace_plus_comments(input).unwrap();

    Ok((input, ParsedTerm::Simple(Term::Terminal(t.to_string()))))""", """    let (input, t) = terminal(input)?;
    Ok((input, ParsedTerm::Simple(t)))""")
r("reader-term-let", X, """    Ok((input, Term::Nonterminal(nt.to_string())))
}""", """    let name = nt.to_string();
    Ok((input, Term::Nonterminal(name)))
}""")
r("norm-lower-loop", X, """        let terms: Vec<Term> = terms
            .into_iter()
            .map(|t| lower_term(t, used, counter, anon_prods))
            .collect();
        Expression::from_parts(terms)""", """        let mut lowered = Vec::new();
        for t in terms {
            lowered.push(lower_term(t, used, counter, anon_prods));
        }
        Expression::from_parts(lowered)""")
r("norm-fresh-insert", X, """            if !used.contains(&candidate) {
                used.insert(candidate.clone());
                return candidate;
            }""", """            if used.insert(candidate.clone()) {
                return candidate;
            }""")
r("norm-helper-lowered", X, """                let mut lowered_rhs: Vec<Expression> = exprs
                    .into_iter()
                    .map(|e| lower_expression(e, used, counter, anon_prods))
                    .collect();
                // Optionals get""", """                let mut lowered_rhs: Vec<Expression> =
                    lower_alternatives(exprs, used, counter, anon_prods);
                // Optionals get""", """    fn lower_term(
        term:""", """    fn lower_alternatives(
        exprs: Vec<ParsedExpression>,
        used: &mut crate::HashSet<String>,
        counter: &mut usize,
        anon_prods: &mut Vec<Production>,
    ) -> Vec<Expression> {
        exprs
            .into_iter()
            .map(|e| lower_expression(e, used, counter, anon_prods))
            .collect()
    }

    fn lower_term(
        term:""")
r("norm-lhs-order", X, """        let lhs_term = Term::Nonterminal(lhs);
        let rhs_exprs: Vec<Expression> = rhs
            .into_iter()
            .map(|e| lower_expression(e, &mut used_names, &mut counter, &mut anon_prods))
            .collect();
        out_prods.push(Production::from_parts(lhs_term, rhs_exprs));""", """        let alternatives: Vec<Expression> = rhs
            .into_iter()
            .map(|e| lower_expression(e, &mut used_names, &mut counter, &mut anon_prods))
            .collect();
        out_prods.push(Production::from_parts(Term::Nonterminal(lhs), alternatives));""")
r("xt-flat", "src/parsers/nom_xt.rs", """            match parser.parse(input) {
                Ok((i, o)) => {
                    acc.push(o);
                    input = i;
                    match delimiter.parse(input) {
                        Ok((i, _)) => {
                            input = i;
                            continue;
                        }
                        Err(nom::Err::Error(_)) => break,
                        Err(e) => return Err(e),
                    }
                }
                Err(e) => return Err(e),
            }""", """            let (i, o) = parser.parse(input)?;
            acc.push(o);
            input = i;
            match delimiter.parse(input) {
                Ok((i, _)) => input = i,
                Err(nom::Err::Error(_)) => break,
                Err(e) => return Err(e),
            }""")
# --- display
r("expr-display-loop", E, """        let display = self
            .terms
            .iter()
            .map(|s| s.to_string())
            .collect::<Vec<_>>()
            .join(" ");

        write!(f, "{display}")""", """        for (i, term) in self.terms.iter().enumerate() {
            if i > 0 {
                write!(f, " ")?;
            }
            write!(f, "{term}")?;
        }
        Ok(())""")
r("expr-display-let", E, """        let display = self
            .terms
            .iter()
            .map(|s| s.to_string())
            .collect::<Vec<_>>()
            .join(" ");

        write!(f, "{display}")""", """        let parts: Vec<String> = self.terms.iter().map(|t| t.to_string()).collect();
        write!(f, "{}", parts.join(" "))""")
r("gram-display-let", G, """        writeln!(
            f,
            "{}",
            self.productions
                .iter()
                .map(std::string::ToString::to_string)
                .collect::<Vec<_>>()
                .join("\\n")
        )""", """        let lines = self
            .productions
            .iter()
            .map(|production| production.to_string())
            .collect::<Vec<_>>()
            .join("\\n");
        writeln!(f, "{lines}")""")
r("fromstr-maperr", P, """        match all_consuming(parsers::production::<BNF>).parse(s) {
            Ok((_, o)) => Ok(o),
            Err(e) => Err(Error::from(e)),
        }""", """        let (_, production) = all_consuming(parsers::production::<BNF>).parse(s)?;
        Ok(production)""")
r("parse-from-map", G, """        match parsers::grammar_complete::<F>(input) {
            Ok((_, g)) => Ok(g),
            Err(e) => Err(Error::from(e)),
        }
    }""", """        let (_, grammar) = parsers::grammar_complete::<F>(input)?;
        Ok(grammar)
    }""")

R[:] = [x for x in R if x[2] and x[2][0][0] is not None]

# --- generation, second batch
r("walk-inline", GEN, "let idx = random_index(&mut self.rng, production.len());\n        production.get_expression(idx)", "let len = production.len();\n        let choice = self.rng.random_range(0..len);\n        production.get_expression(choice)")
r("depth-flag", GEN, "        if depth >= self.max_depth {\n            for (i, expr)", "        let capped = self.max_depth <= depth;\n        if capped {\n            for (i, expr)")
r("depth-local-buf", GEN, """        if self.eligible_buf.is_empty() {
            random_index(&mut self.rng, production.len())
        } else {
            *self
                .eligible_buf
                .get(random_index(&mut self.rng, self.eligible_buf.len()))
                .expect("index in 0..eligible_buf.len()")
        }""", """        if !self.eligible_buf.is_empty() {
            let k = random_index(&mut self.rng, self.eligible_buf.len());
            return self.eligible_buf[k];
        }
        random_index(&mut self.rng, production.len())""")
r("depth-push-all", GEN, "            self.eligible_buf.extend(0..production.len());", "            for i in 0..production.len() {\n                self.eligible_buf.push(i);\n            }")
r("cover-helper", GEN, """        if self.candidates_buf.is_empty() {
            random_index(&mut self.rng, production.len())
        } else {
            *self
                .candidates_buf
                .get(random_index(&mut self.rng, self.candidates_buf.len()))
                .expect("index in 0..candidates_buf.len()")
        }
    }
""", """        self.pick_candidate(production.len())
    }

    fn pick_candidate(&mut self, len: usize) -> usize {
        if self.candidates_buf.is_empty() {
            return random_index(&mut self.rng, len);
        }
        let k = random_index(&mut self.rng, self.candidates_buf.len());
        self.candidates_buf[k]
    }
""")
r("cover-continue", GEN, """            if !self.seen.contains(&(lhs, i)) {
                self.candidates_buf.push(i);
            }""", """            let key = (lhs, i);
            if self.seen.contains(&key) {
                continue;
            }
            self.candidates_buf.push(i);""")
r("weighted-cumulative", GEN, """            let w = u64::from(w);
            if r < w {
                return i;
            }
            r -= w;""", """            let weight = u64::from(w);
            match r.checked_sub(weight) {
                None => return i,
                Some(rest) => r = rest,
            }""")
r("weighted-choose-let", GEN, "        let idx = Self::weighted_random_index(&mut self.rng, &self.weights_buf, production.len());\n        production.get_expression(idx)", "        let count = production.len();\n        let chosen = Self::weighted_random_index(&mut self.rng, &self.weights_buf, count);\n        let expression = production.get_expression(chosen);\n        expression")
r("weighted-fill-iflet", GEN, """            let w = if Self::expression_contains_nonterminal(expr, lhs) {
                self.recursive_weight
            } else {
                self.non_recursive_weight
            };
            self.weights_buf.push(w);""", """            if Self::expression_contains_nonterminal(expr, lhs) {
                self.weights_buf.push(self.recursive_weight);
            } else {
                self.weights_buf.push(self.non_recursive_weight);
            }""")
r("seeded-helper", G, """        let mut seed = [0u8; 32];
        rng.fill(&mut seed);
        let mut strategy = RandomWalk::from_seed(seed);
        self.generate_seeded_with_strategy(&mut strategy)
    }
""", """        let mut strategy = Self::random_walk(rng);
        self.generate_seeded_with_strategy(&mut strategy)
    }

    fn random_walk(rng: &mut StdRng) -> RandomWalk {
        let mut seed = [0u8; 32];
        rng.fill(&mut seed);
        RandomWalk::from_seed(seed)
    }
""")
r("seeded-via-callback", G, """        let mut seed = [0u8; 32];
        rng.fill(&mut seed);
        let mut strategy = RandomWalk::from_seed(seed);
        self.generate_seeded_with_strategy(&mut strategy)
    }
""", """        self.generate_seeded_callback(rng, |_, _| true)
    }
""")
r("eval-iflet", G, """        match term {
            Term::Nonterminal(nt) => self.traverse_with_strategy(nt, f, strategy, depth + 1),
            Term::Terminal(t) => Ok(t.clone()),
        }""", """        if let Term::Nonterminal(name) = term {
            let inner = depth + 1;
            return self.traverse_with_strategy(name, f, strategy, inner);
        }
        match term {
            Term::Terminal(text) => Ok(text.clone()),
            Term::Nonterminal(_) => unreachable!(),
        }""")
r("traverse-inline-eval", G, """                match self.eval_terminal_with_strategy(term, f, strategy, depth) {
                    Ok(s) => result.push_str(&s),
                    Err(e) => return Err(e),
                }""", """                match term {
                    Term::Terminal(t) => result.push_str(t),
                    Term::Nonterminal(nt) => {
                        let s = self.traverse_with_strategy(nt, f, strategy, depth + 1)?;
                        result.push_str(&s);
                    }
                }""")
r("traverse-nochoice-match", G, """                if production.is_empty() {
                    return true;
                }
                if production.len() == 1 {
                    let only = production.rhs_iter().next().expect("len is 1");
                    return only.terms_iter().next().is_none();
                }
                false""", """                match production.len() {
                    0 => true,
                    1 => production.get_expression(0).is_none_or(|only| only.terms_iter().next().is_none()),
                    _ => false,
                }""")
r("generate-check-order", G, """        let start_rule = match self.productions_iter().next() {
            Some(term) => match &term.lhs {
                Term::Nonterminal(nt) => nt.clone(),""", """        let first = self.productions_iter().next();
        let start_rule = match first {
            Some(term) => match &term.lhs {
                Term::Nonterminal(name) => name.clone(),""")

# --- mermaid, operators, Display
MH = """        let lhs = match self.parse_tree.lhs {
            Term::Nonterminal(str) => str,
            Term::Terminal(_) => unreachable!(),
        };
"""
MB = """        for rhs in &self.parse_tree.rhs {
            *count += 1;
            match rhs {
                ParseTreeNode::Terminal(rhs) => {
                    let rhs_escaped = escape_mermaid_label(rhs);
                    writeln!(
                        f,
                        "{}[\\"{}\\"] --> {}[\\"{}\\"]",
                        lhs_count, lhs_escaped, *count, rhs_escaped
                    )?;
                }
                ParseTreeNode::Nonterminal(parse_tree) => {
                    let rhs = match parse_tree.lhs {
                        Term::Nonterminal(str) => str,
                        Term::Terminal(_) => unreachable!(),
                    };
                    let rhs_escaped = escape_mermaid_label(rhs);
                    writeln!(
                        f,
                        "{}[\\"{}\\"] --> {}[\\"{}\\"]",
                        lhs_count, lhs_escaped, *count, rhs_escaped
                    )?;
                    let mermaid = MermaidParseTree { parse_tree };
                    mermaid.fmt(f, count)?;
                }
            };
        }
"""
r("mermaid-letelse", G, MH, """        let Term::Nonterminal(lhs) = self.parse_tree.lhs else {
            unreachable!()
        };
""")
r("mermaid-label-first", G, MB, """        for rhs in &self.parse_tree.rhs {
            *count += 1;
            let label = match rhs {
                ParseTreeNode::Terminal(rhs) => escape_mermaid_label(rhs),
                ParseTreeNode::Nonterminal(parse_tree) => match parse_tree.lhs {
                    Term::Nonterminal(str) => escape_mermaid_label(str),
                    Term::Terminal(_) => unreachable!(),
                },
            };
            writeln!(
                f,
                "{}[\\"{}\\"] --> {}[\\"{}\\"]",
                lhs_count, lhs_escaped, *count, label
            )?;
            if let ParseTreeNode::Nonterminal(parse_tree) = rhs {
                MermaidParseTree { parse_tree }.fmt(f, count)?;
            }
        }
""")
r("mermaid-edge-helper", G, """impl MermaidParseTree<'_> {
    fn fmt(""", """impl MermaidParseTree<'_> {
    fn edge(
        f: &mut fmt::Formatter<'_>,
        from: usize,
        from_label: &str,
        to: usize,
        to_label: &str,
    ) -> fmt::Result {
        writeln!(f, "{from}[\\"{from_label}\\"] --> {to}[\\"{to_label}\\"]")
    }

    fn fmt(""", MB, """        for rhs in &self.parse_tree.rhs {
            *count += 1;
            match rhs {
                ParseTreeNode::Terminal(rhs) => {
                    let rhs_escaped = escape_mermaid_label(rhs);
                    Self::edge(f, lhs_count, &lhs_escaped, *count, &rhs_escaped)?;
                }
                ParseTreeNode::Nonterminal(parse_tree) => {
                    let rhs = match parse_tree.lhs {
                        Term::Nonterminal(str) => str,
                        Term::Terminal(_) => unreachable!(),
                    };
                    let rhs_escaped = escape_mermaid_label(rhs);
                    Self::edge(f, lhs_count, &lhs_escaped, *count, &rhs_escaped)?;
                    let mermaid = MermaidParseTree { parse_tree };
                    mermaid.fmt(f, count)?;
                }
            };
        }
""")
r("mermaid-label-helper", G, """impl MermaidParseTree<'_> {
    fn fmt(""", """/// The name of a nonterminal.
fn nonterminal_name(term: &Term) -> &str {
    match term {
        Term::Nonterminal(name) => name,
        Term::Terminal(_) => unreachable!(),
    }
}

impl MermaidParseTree<'_> {
    fn fmt(""", MH, """        let lhs = nonterminal_name(self.parse_tree.lhs);
""", """                    let rhs = match parse_tree.lhs {
                        Term::Nonterminal(str) => str,
                        Term::Terminal(_) => unreachable!(),
                    };
                    let rhs_escaped""", """                    let rhs = nonterminal_name(parse_tree.lhs);
                    let rhs_escaped""")
r("mermaid-count-order", G, """        let lhs_escaped = escape_mermaid_label(lhs);
        let lhs_count = *count;
""", """        let lhs_count = *count;
        let lhs_escaped = escape_mermaid_label(lhs);
""")
r("mermaid-header-move", G, """        if *count == 0 {
            writeln!(f, "flowchart TD")?;
        }

""", "", """        let mut count = 0usize;
        self.fmt(f, &mut count)
    }
}

/// A Grammar""", """        let mut count = 0usize;
        writeln!(f, "flowchart TD")?;
        self.fmt(f, &mut count)
    }
}

/// A Grammar""")
r("tree-prefix-split", G, """        for idx in 0..depth {
            let prefix = if (idx + 1) == depth {
                if is_last_child {
                    LAST_CHILD_PREFIX
                } else {
                    CHILD_PREFIX
                }
            } else if depth_format_set.contains(&idx) {
                GRANDCHILD_PREFIX
            } else {
                LAST_GRANDCHILD_PREFIX
            };
            write!(f, "{prefix}")?;
        }

        Ok(())""", """        if depth == 0 {
            return Ok(());
        }
        for idx in 0..depth - 1 {
            let prefix = if depth_format_set.contains(&idx) {
                GRANDCHILD_PREFIX
            } else {
                LAST_GRANDCHILD_PREFIX
            };
            write!(f, "{prefix}")?;
        }
        let last = if is_last_child { LAST_CHILD_PREFIX } else { CHILD_PREFIX };
        write!(f, "{last}")""")
r("tree-prefix-plus-one", G, """        for idx in 0..depth {
            let prefix = if (idx + 1) == depth {""", """        for level in 1..=depth {
            let idx = level - 1;
            let prefix = if level == depth {""")
r("tree-line-helper", G, """        // print the current node in form "LHS ::= RHS1 RHS2 ..."
        write!(f, "{} ::=", self.lhs)?;

        for matched in &self.rhs {
            match matched {
                ParseTreeNode::Terminal(terminal) => write!(f, " \\"{terminal}\\"")?,
                ParseTreeNode::Nonterminal(parse_tree) => write!(f, " {}", parse_tree.lhs)?,
            }
        }

        writeln!(f)?;
""", """        // print the current node in form "LHS ::= RHS1 RHS2 ..."
        self.fmt_node_line(f)?;
""", """    fn fmt_node_prefix(
        f: &mut""", """    fn fmt_node_line(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{} ::=", self.lhs)?;
        for matched in &self.rhs {
            match matched {
                ParseTreeNode::Terminal(terminal) => write!(f, " \\"{terminal}\\"")?,
                ParseTreeNode::Nonterminal(parse_tree) => write!(f, " {}", parse_tree.lhs)?,
            }
        }
        writeln!(f)
    }

    fn fmt_node_prefix(
        f: &mut""")
r("tree-set-clear-first", G, """        if let Some(last_child_idx) = self.rhs.len().checked_sub(1) {
            for (idx, child) in self.rhs.iter().enumerate() {
                let is_last_child = idx == last_child_idx;
                if""", """        if !self.rhs.is_empty() {
            let count = self.rhs.len();
            for (idx, child) in self.rhs.iter().enumerate() {
                let is_last_child = idx + 1 == count;
                if""")
r("tree-lhs-separate", G, """        write!(f, "{} ::=", self.lhs)?;

        for matched""", """        write!(f, "{}", self.lhs)?;
        f.write_str(" ::=")?;

        for matched""")
r("tree-line-newline", G, """        writeln!(f)?;

        // Recursively""", """        f.write_str("\\n")?;

        // Recursively""")
r("tree-arg-swap", G, """        depth_format_set.insert(depth);

        // print the current node prefix with glyphs for active columns, e.g. "│   └── "
        Self::fmt_node_prefix(f, depth_format_set, depth, is_last_child)?;
""", """        Self::fmt_node_prefix(f, depth_format_set, depth, is_last_child)?;
        depth_format_set.insert(depth);
""")
r("escape-early", G, """    let mut out = String::with_capacity(s.len().saturating_mul(2));
    for c in s.chars() {
        if MERMAID""", """    if !s.contains(MERMAID_ESCAPE_CHARS) {
        return s.to_string();
    }
    let mut out = String::with_capacity(s.len().saturating_mul(2));
    for c in s.chars() {
        if MERMAID""")
r("escape-format", G, """            write!(out, "#{};", c as u32).expect("write to String never fails");""", """            out.push_str(&format!("#{};", c as u32));""")
r("escape-helper", G, """        if MERMAID_ESCAPE_CHARS.contains(&c) {
            write!""", """        let special = MERMAID_ESCAPE_CHARS.contains(&c);
        if special {
            write!""")
r("add-extend", E, """        for t in rhs.terms_iter() {
            self.add_term(t.clone());
        }
        self""", """        self.terms.extend(rhs.terms);
        self""")
r("add-clone", E, """        let mut new_expression = Expression::new();
        for t in self.terms_iter() {
            new_expression.add_term(t.clone());
        }
        new_expression.add_term(rhs);
        new_expression""", """        let mut new_expression = self.clone();
        new_expression.add_term(rhs);
        new_expression""")
r("add-collect", E, """        let mut new_expression = Expression::new();
        for t in self.terms_iter() {
            new_expression.add_term(t.clone());
        }
        for t in rhs.terms_iter() {
            new_expression.add_term(t.clone());
        }
        new_expression""", """        let mut terms = self.terms.clone();
        for t in rhs.terms {
            terms.push(t);
        }
        Expression::from_parts(terms)""")
r("add-via", E, """    fn add(mut self, rhs: Expression) -> Self::Output {
        for t in rhs.terms_iter() {
            self.add_term(t.clone());
        }
        self""", """    fn add(self, rhs: Expression) -> Self::Output {
        &self + rhs""")
r("term-display-quote", "src/term.rs", """                if s.contains('\\'') {
                    write!(f, "\\"{s}\\"")
                } else {
                    write!(f, "'{s}'")
                }""", """                let quote = if s.contains('\\'') { '"' } else { '\\'' };
                write!(f, "{quote}{s}{quote}")""")
r("term-display-not", "src/term.rs", """                if s.contains('\\'') {
                    write!(f, "\\"{s}\\"")
                } else {
                    write!(f, "'{s}'")
                }""", """                if !s.contains('\\'') {
                    return write!(f, "'{s}'");
                }
                write!(f, "\\"{s}\\"")""")
r("prod-display-loop", P, """        write!(
            f,
            "{} ::= {}",
            self.lhs,
            self.rhs
                .iter()
                .map(std::string::ToString::to_string)
                .collect::<Vec<_>>()
                .join(" | ")
        )""", """        write!(f, "{} ::= ", self.lhs)?;
        for (i, e) in self.rhs.iter().enumerate() {
            if i > 0 {
                write!(f, " | ")?;
            }
            write!(f, "{e}")?;
        }
        Ok(())""")
r("prod-display-let", P, """        write!(
            f,
            "{} ::= {}",
            self.lhs,
            self.rhs
                .iter()
                .map(std::string::ToString::to_string)
                .collect::<Vec<_>>()
                .join(" | ")
        )""", """        let alternatives: Vec<String> = self.rhs.iter().map(|e| e.to_string()).collect();
        write!(f, "{} ::= {}", self.lhs, alternatives.join(" | "))""")
r("fromstr-if", G, """        match parsers::is_format_standard_bnf(s) {
            true => match parsers::grammar_complete::<BNF>(s) {
                Ok((_, g)) => Ok(g),
                Err(e) => Err(Error::from(e)),
            },
            false => match parsers::grammar_complete::<ABNF>(s) {
                Ok((_, g)) => Ok(g),
                Err(e) => Err(Error::from(e)),
            },
        }""", """        let result = if parsers::is_format_standard_bnf(s) {
            parsers::grammar_complete::<BNF>(s)
        } else {
            parsers::grammar_complete::<ABNF>(s)
        };
        match result {
            Ok((_, g)) => Ok(g),
            Err(e) => Err(Error::from(e)),
        }""")

def main():
    sys.path.insert(0, HERE); sys.path.insert(0, VERIF)
    from overlays import OVERLAYS
    sel = sys.argv[1:]
    picks = [x for x in R if not sel or any(s in x[0] for s in sel)]
    seen, ovs = set(), []
    for p, l in sorted(OVERLAYS.items()):
        for ov in l:
            if ov["overlay"] not in seen:
                seen.add(ov["overlay"]); ovs.append((p, dict(ov, vacuity=False)))
    out = {}
    def one(x):
        name, file, pairs = x
        wt = f"/tmp/rf/{name}"
        shutil.rmtree(wt, ignore_errors=True)
        os.makedirs(wt)
        subprocess.check_call(["cp", "-r", "/repo/src", "/repo/Cargo.toml", "/repo/Cargo.lock", "/repo/benches", "/repo/examples", "/repo/tests", wt], stderr=subprocess.DEVNULL) if False else subprocess.call(f"cp -r /repo/src /repo/Cargo.* /repo/tests /repo/benches /repo/examples /repo/README.md {wt}/ 2>/dev/null", shell=True)
        t = open(f"{wt}/{file}").read()
        for a, b in pairs:
            if a not in t:
                return name, "EDIT DOES NOT APPLY: " + a[:60], []
            t = t.replace(a, b) if a == "terminating_rules" else t.replace(a, b, 1)
        open(f"{wt}/{file}", "w").write(t)
        c = subprocess.run(["cargo", "check", "--offline", "--lib"], cwd=wt, capture_output=True, text=True, env=dict(os.environ, CARGO_TARGET_DIR=f"/tmp/rf_target"))
        if c.returncode:
            return name, "DOES NOT COMPILE " + c.stderr[-600:], []
        res = []
        for p, ov in ovs:
            gen, rep = f"{wt}/{ov['overlay']}.rs", f"{wt}/{ov['overlay']}.json"
            code = f"""
import sys; sys.argv=['x','C01']; sys.path.insert(0,{VERIF!r}); sys.path.insert(0,{HERE!r})
import json
src=open({VERIF!r}+'/check.py').read().replace('\\nmain()\\n','\\n')
ns={{'__name__':'m','__file__':{VERIF!r}+'/check.py'}}
exec(compile(src,{VERIF!r}+'/check.py','exec'),ns)
ns['REPO']={wt!r}
log=[]
r=ns['run_overlay']('RF_{name}',{ov!r},'quick',log)
print('@@'+json.dumps([r['status'],r['reason'][:260],[(f['function'],f['obligation']) for f in r['failures']]]))
"""
            q = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True)
            l = [l for l in q.stdout.splitlines() if l.startswith("@@")]
            res.append((ov["overlay"], json.loads(l[0][2:]) if l else ["crash", q.stderr[-300:], []]))
        shutil.rmtree(wt, ignore_errors=True)
        subprocess.call(f"rm -f {VERIF}/build/RF_{name}_*", shell=True)
        return name, "", res
    with ThreadPoolExecutor(int(os.environ.get("J", "5"))) as ex:
        for name, msg, res in ex.map(one, picks):
            print(f"== {name} {msg}", flush=True)
            groups = {}
            for o, (st, why, fl) in res:
                groups.setdefault((st, why if st != "proved" else "", str(fl)[:400]), []).append(o)
            for (st, why, fl), os_ in groups.items():
                if st != "proved":
                    print(f"   {st}: {','.join(os_)}: {why} {fl if fl != '[]' else ''}", flush=True)
    shutil.rmtree("/tmp/rf_target", ignore_errors=True)
if __name__ == "__main__":
    main()
