# property -> overlay runs (specs/<overlay>.vspec)
OVERLAYS = {
    "C01": [{"overlay": "c01"}],
    "C02": [{"overlay": "c02"}],
    "C03": [{"overlay": "c03"}],
    "C04": [{"overlay": "validate"}],
    "C05": [{"overlay": "c05"}],
    "C06": [{"overlay": "c06"}],
    "C07": [{"overlay": "c07", "overflow": True}],
    "C08": [{"overlay": "c08"}],
    "C09": [{"overlay": "c09"}],
    "C10": [{"overlay": "c10"}],
    "C11": [{"overlay": "c11", "alt": ["c11_outer"]}],
    "C12": [{"overlay": "c12"}],
    "C13": [{"overlay": "edit"}],
    "C14": [],
    "C15": [{"overlay": "c15"}],
    "C16": [],
}
ASSUMPTIONS = {
    "*": [
        "std and hashbrown containers behave as their assumed contracts say (specs/shim.vspec); memory allocation does not fail; a Vec never exceeds isize::MAX elements",
        "derived Clone/PartialEq/Eq/Hash of the crate's data types are structural",
        "the bounded search is a search for failing inputs, not a proof; its counts are reported separately from obligations",
        "the extractor (extract/) prints the functions of /repo faithfully; what it drops (tracing spans, debug_assert!, attributes, doc comments) is listed in DESIGN.md section 1",
        "partial correctness: except where a decreases clause is given (Grammar::terminates, the readers), a call that does not return is not excluded; recursion depth is not bounded (a stack overflow ends the process)",
    ],
    "C05": ["StdRng is some deterministic function of its state (genbase.vspec); the depth counter is treated as mathematical (v_add): it would take usize::MAX nested calls to wrap"],
    "C06": ["the depth counter is treated as mathematical (v_add)"],
    "C07": ["a draw from StdRng over n values is uniform: the proof shows one draw over the right number of values and how it is used; uniformity itself is rand's", "the address of a production's left hand side identifies it while the grammar is borrowed (addr_of, specs/genbase.vspec)"],
    "C10": ["nom's combinators behave as their contracts in specs/nomshim.vspec; char::is_whitespace is the list of 25 characters given there (tried on every char by the assume crate) and is_alphabetic an uninterpreted class with the few facts stated there"],
    "C09": ["nom's combinators behave as their contracts in specs/nomshim.vspec; char::is_whitespace is the list of 25 characters given there (tried on every char by the assume crate) and is_alphabetic an uninterpreted class with the few facts stated there"],
    "C11": ["the node counter is treated as mathematical (v_add)"],
    "C15": ["StdRng is a deterministic function of its state; a strategy is a function of its state, the production and the depth; the depth counter is treated as mathematical (v_add)"],
}
_B = "Bounded: evaluated on the real crate over generated inputs against an independent oracle; not a proof. Contracts for these functions are being added."
NOTES = {f"C{i:02}": _B for i in range(1, 14)}
NOTES["C04"] = "Proved for all grammars: Grammar::validate, build_parser, ParseGrammar::new and everything they call; assumes the container contracts of specs/shim.vspec and the extraction."
NOTES["C13"] = "Proved for all values: every add/remove/+ operation against sequence postconditions; assumes the container contracts of specs/shim.vspec and the extraction."
NOTES["C14"] = "Bounded stand-in, not proved: macro_rules definitions are not functions and no contract ranges over token sequences, so generated invocations (every shape up to 4 alternatives of 3 terms and up to 4 productions of 3 alternatives, plus random larger ones) are compiled against the crate and compared with what they write down."
_E = "Proved for all grammars, texts and start terms, as a postcondition of draining the iterator: ParseTreeIter::new/next, the earley loop, TraversalTree, CompletionMap, TraversalQueue, InputRange, parse_tree, ParseGrammar and the public entry points (parse_input, parse_input_starting_with, on Grammar and GrammarParser). Partial correctness: that the iteration ends is not part of it. Assumes the container, str and UTF-8 contracts of specs/shim.vspec and the extraction."
NOTES["C01"] = "Every tree handed out is a derivation of exactly the text from the start term. " + _E
NOTES["C02"] = "When the iterator is exhausted, every derivation of the text has been handed out. " + _E
NOTES["C03"] = "No derivation is handed out twice. " + _E
NOTES["C05"] = "Proved for all grammars, callbacks, random streams and every strategy that returns an alternative of the production it is given: every public generate* entry point, traverse_with_strategy, eval_terminal_with_strategy. Partial correctness (a callback that always says no loops forever); the built-in strategies are shown to meet the trait contract under C07."
NOTES["C06"] = "Proved for all grammars: Grammar::terminates returns exactly whether the first left hand side derives a string of terminals (with termination of its fixpoint), and every public generate* entry point refuses exactly when it does not."
NOTES["C07"] = "Proved for all strategies, productions, depths, weights and random streams: every choose and its helpers meet the preference as a postcondition, the choice is one uniform draw over a list of exactly the alternatives the rule leaves (a weighted choice the alternative whose interval of width its weight holds the draw), and none of them can draw fresh entropy (rand::rng() has a precondition nothing implies), so a choice depends only on the strategy's fields and arguments. StdRng is assumed deterministic and its draws uniform; a left hand side's address is taken as its identity."
NOTES["C08"] = "Proved for all parsed grammars, of any nesting and any names: normalize_parsed_grammar, collect_names, fresh_anon_name, lower_expression, lower_term. The parsed form is taken as what was written (reading text is C10). Partial correctness; the name counter is taken as a mathematical integer."
NOTES["C09"] = "Proved for all terms, expressions, productions and grammars the statement admits, of any Unicode text: the Display impls write a given text, and lemmas show that the readers' contracts (those of C10, every nom reader of src/parsers, both reading paths, the FromStr impls and Grammar::parse_from) give back the same value on it. Assumes the contracts of nom's primitives and of the str methods (specs/nomshim.vspec); nom's combinators are written out mechanically; trees deep enough to exhaust the stack are out of scope."
NOTES["C10"] = "Proved for all texts, with termination: Grammar::from_str and Grammar::parse_from return exactly the grammar a reading function over the text defines, or a ParseError when it defines none; the direct path and the general path agree (both are verified against it). Proved for all grammars and all layouts: every way to write a grammar (layout between tokens, before and after, either quote, nested groups) is read as that grammar, in the right notation. Assumes the contracts of nom's primitives and of the str methods (specs/nomshim.vspec) and that letters are not punctuation; nom's combinators are written out mechanically; recursion depth is not modelled."
NOTES["C11"] = "Proved for all labels: escape_mermaid_label returns the escape, which a lemma shows loses nothing and leaves no special character. Proved for all trees whose nodes are labelled by nonterminals (a terminal label panics, by unreachable!): MermaidParseTree's Display writes exactly the chart. Node numbers are taken as mathematical integers."
NOTES["C12"] = "Proved for all trees: ParseTree's Display, with fmt_node_prefix and ParseTreeFormatSet, writes exactly the text form of the statement. Depths are taken as mathematical integers; fmt::Write appends what it is given."
NOTES["C16"] = "Bounded stand-in, not proved: the implementations are generated by the derive macros of rustc and serde, so there is no function in /repo to put a contract on; pairs of values that differ in at most two places, of up to 5000 parts, are compared, hashed, ordered, cloned and sent through serde_json. The proofs of the other properties assume that derived Clone/PartialEq/Eq/Hash are structural and become undecided when one of these derives is replaced."
NOTES["C15"] = "Proved for all grammars, callbacks that are functions of their arguments, and strategies (each taken as a function of its state, the production and the depth): every public generate* entry point comes to what a step-counted interpreter of the statement defines, and a theorem shows that outcome is unique. StdRng is assumed to be a function of its seed; nesting depths are mathematical integers; partial correctness (a callback that always says no loops forever)."
NOT_APPLICABLE = {}
