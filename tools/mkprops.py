import json
def P(id,title,st,over,qt,why,files,mech,state=None,observe=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
EAR=["src/earley/mod.rs","src/earley/traversal.rs","src/earley/input_range.rs","src/append_vec.rs","src/parser/grammar.rs","src/parser/mod.rs","src/grammar.rs"]
ps=[
P("C01","Every parse tree returned is a genuine derivation of the whole input",
 "For every grammar, start term and input string, each tree produced by parsing has the requested start term at its root (the first production's left hand side when none is given), every inner node together with its children is one alternative of one production of the grammar, matched term by term and in order, and the terminal leaves read left to right are exactly the input. Parsing never panics on a grammar a parser was built for.",
 ["inputs","programs"],"all grammars (ambiguous, recursive, nullable, with repeated left hand sides), all start terms, all Unicode inputs, every position in the sequence of returned trees",
 "The tests look at a handful of grammars and inputs and mostly count trees or compare snapshots; none can range over all grammars and inputs.",
 EAR,[("Earley predict/scan/complete loop","src/earley/mod.rs earley"),("matched-edge walk back to a tree","src/earley/traversal.rs TraversalMatchIter, src/earley/mod.rs parse_tree"),("input window arithmetic","src/earley/input_range.rs")],
 [dict(name="traversal arena",meaning="every Earley state ever created",where="src/earley/traversal.rs TraversalTree")],["GrammarParser::parse_input","GrammarParser::parse_input_starting_with"]),
P("C02","Parsing finds every derivation of the input",
 "Once a parse iterator has returned None, every derivation tree of the input from the requested start term has been returned; in particular an iterator that returns nothing at all means the input is not in the language of the start term. This holds for ambiguous, left, right and mutually recursive grammars and for empty terminals and empty alternatives.",
 ["inputs","programs","histories"],"all grammars, start terms and inputs for which the iterator finishes",
 "Completeness of Earley parsing with nullable and recursive rules depends on the order in which states are queued and completed; tests only pin a few ambiguous examples.",
 EAR,[("completion map with both directions of lookup","src/earley/mod.rs CompletionMap"),("deduplicated work queue","src/earley/mod.rs TraversalQueue"),("lookup of all productions of a left hand side","src/parser/grammar.rs ParseGrammar")],
 [dict(name="completions",meaning="incomplete and complete states by (term, position)",where="src/earley/mod.rs CompletionMap"),dict(name="processed",meaning="states ever queued",where="src/earley/mod.rs TraversalQueue")],["GrammarParser::parse_input"]),
P("C03","No derivation is returned twice",
 "For a grammar whose (left hand side, alternative) pairs are pairwise distinct, no two trees returned for the same input and start term are equal. With repeated alternatives the number of copies of a tree never exceeds the number of ways of choosing equal alternatives for its nodes.",
 ["inputs","programs","histories"],"all grammars, start terms, inputs and positions in the result sequence",
 "Tests count trees for a few ambiguous grammars; duplicates caused by a missed deduplication need particular nullable or recursive grammars.",
 EAR,[("edge and root maps give one state per (parent, match) and (production, position)","src/earley/traversal.rs TraversalTree::match_term/_predict"),("queue ignores repetitions","src/earley/mod.rs TraversalQueue::push_back")],None,["GrammarParser::parse_input"]),
P("C04","A parser is built exactly for the grammars whose nonterminals are all defined",
 "Validation succeeds exactly when the grammar has at least one production and every nonterminal used in any alternative is the left hand side of some production. Building a parser succeeds for exactly the same grammars, and both report a validation error, naming an undefined nonterminal when that is the reason.",
 ["inputs","programs"],"all grammars, including ones assembled through the API with repeated, empty or terminal-lhs productions",
 "Tests try a few valid and invalid grammars; the equivalence of the two independent validators over all grammars is not testable.",
 ["src/validation.rs","src/grammar.rs","src/parser/grammar.rs","src/parser/mod.rs"],[("defined/referenced sets","src/validation.rs NonterminalSets"),("validate","src/grammar.rs Grammar::validate"),("ParseGrammar::new","src/parser/grammar.rs")],None,["Grammar::validate","Grammar::build_parser"]),
P("C05","Generated sentences are derivable and accepted by the callback",
 "Whenever sentence generation returns a string, that string is derivable from the first production's left hand side (a nonterminal without any production contributes its name as <identifier>), for every strategy and every random stream. With a callback, there is such a derivation in which the callback returned true for every nonterminal expansion that is part of the result.",
 ["inputs","programs","configurations"],"all grammars, strategies, random streams and callbacks; all calls that return",
 "Tests generate a few sentences with fixed seeds from small grammars and parse them back; they cannot range over grammars, strategies, seeds and callbacks.",
 ["src/grammar.rs","src/generation.rs","src/production.rs","src/expression.rs"],[("recursive expansion","src/grammar.rs traverse_with_strategy, eval_terminal_with_strategy"),("entry points","src/grammar.rs generate*, generate_seeded*")],None,["Grammar::generate_seeded_callback_with_strategy"]),
P("C06","Generation is refused exactly when the start rule cannot terminate",
 "Generation reports the 'doesn't lead to a terminal state' error exactly when the first production's left hand side derives no string of terminals through the grammar's productions (undefined nonterminals derive none). A grammar that can terminate is never refused and one that cannot is never attempted.",
 ["inputs","programs"],"all grammars, including mutually recursive ones, repeated left hand sides and productions in any order",
 "The check is a fixpoint over the productions; tests try a few recursive shapes, while an error shows only for particular orders and dependency depths.",
 ["src/grammar.rs","src/production.rs","src/expression.rs"],[("marking fixpoint","src/grammar.rs Grammar::terminates"),("per-alternative test","src/expression.rs Expression::terminates, src/production.rs has_terminating_expression")],None,["Grammar::generate","Grammar::generate_seeded_with_strategy"]),
P("C07","Strategies choose a real alternative and keep their documented preference",
 "For every production with at least one alternative each built-in strategy returns one of that production's own alternatives: depth-bounded choice at or beyond its depth limit is an all-terminal alternative whenever there is one, coverage-guided choice is one it has not chosen for that production before as long as any remains, and weighted choice is never an alternative of weight zero while some alternative has positive weight. Among the alternatives that rule leaves, each is equally likely; a weighted choice takes each alternative with probability proportional to its weight (the recursive weight if the alternative mentions its own left hand side). A choice depends only on the strategy's state (seed, configuration and earlier choices), the production and the depth.",
 ["inputs","configurations","histories"],"all productions, depths, seeds, weights and histories of choices, the generator's draws taken as uniform",
 "Tests draw a few choices with fixed seeds from two- or three-way productions; the guarantee is over all streams and histories.",
 ["src/generation.rs","src/production.rs"],[("eligible/uncovered/weight buffers","src/generation.rs fill_eligible_and_choose_index, fill_uncovered_and_choose_index, fill_weights, weighted_random_index")],None,["GenerationStrategy::choose"]),
P("C08","Normalising groups and optionals preserves the grammar's meaning",
 "For every grammar text using parentheses and brackets, the stored grammar starts with the user's first production and has the user's productions in order, with each group replaced by a nonterminal that has exactly the group's alternatives and each optional by one with the same alternatives plus the empty string, recursively for nested groups. Every generated name is different from every other generated name and from every nonterminal name the user wrote, defined or merely referenced.",
 ["inputs","programs"],"all extended-syntax grammars with arbitrary nesting and arbitrary user names such as <__anon0>",
 "Tests normalise a few small groups; capture of user names and mistakes in deep nesting need specific inputs.",
 ["src/parsers/mod.rs"],[("lowering to fresh nonterminals","src/parsers/mod.rs normalize_parsed_grammar, lower_term, lower_expression, fresh_anon_name")],None,["Grammar::from_str","Grammar::parse_from"]),
P("C09","Formatting a grammar and parsing it back gives the same grammar",
 "For every grammar with at least one production, every production having a nonterminal left hand side and at least one alternative, every alternative at least one term, no nonterminal name containing '>' and no terminal containing both quote characters, parsing its formatted text as BNF returns an equal grammar; the same holds for single productions, expressions and terms.",
 ["inputs","programs"],"all such grammars, productions, expressions and terms with arbitrary Unicode text",
 "A property test samples random small values with a generator that avoids awkward characters; separators inside names, comment characters and quotes inside terminals are not systematically reached.",
 ["src/term.rs","src/expression.rs","src/production.rs","src/grammar.rs","src/parsers/mod.rs","src/parsers/bnf.rs","src/parsers/nom_xt.rs"],[("Display impls","src/term.rs, src/expression.rs, src/production.rs, src/grammar.rs"),("nom parsers","src/parsers/mod.rs")],None,["Grammar: Display + FromStr","Production, Expression, Term: Display + FromStr"]),
P("C10","Grammar text is read exactly as written, whatever its layout",
 "Parsing BNF or ABNF text yields exactly the productions, alternatives and terms written, in order, with terminal text and nonterminal names verbatim; whitespace and ;-comments between tokens, before the first production and at the end never change the result, and text that cannot be read completely is rejected with a parse error instead of being partly ignored. Text starting (after layout) with '<' is read as BNF and other text as ABNF, and the presence of parentheses or brackets in one rule never changes how another rule is read; an alternative separator directly after the definition sign (ABNF's '=/') is accepted and adds nothing.",
 ["inputs","programs"],"all grammars and all layouts (whitespace, comments, quote style), both notations",
 "Tests parse a few dozen texts; two separate parsing paths (with and without extended syntax) must agree for all texts.",
 ["src/parsers/mod.rs","src/parsers/bnf.rs","src/parsers/augmented.rs","src/parsers/nom_xt.rs","src/grammar.rs"],[("layout skipping","src/parsers/mod.rs whitespace_plus_comments"),("two parse paths","src/parsers/mod.rs grammar_complete, plain_grammar, parsed_grammar")],None,["Grammar::from_str","Grammar::parse_from"]),
P("C11","Mermaid labels are escaped losslessly and the chart has one edge per node",
 "Escaping a label leaves none of the special characters in the output except the '#' and ';' of decimal entity codes, and decoding those codes gives back the label. The Mermaid form of a parse tree is one 'flowchart TD' line followed by exactly one edge line per non-root node, in pre-order, numbering nodes consecutively from 0 with the same number for the same node throughout.",
 ["inputs"],"all label strings and all parse trees",
 "Tests check a few labels and one snapshot.",
 ["src/grammar.rs"],[("escape_mermaid_label","src/grammar.rs"),("MermaidParseTree::fmt","src/grammar.rs")],None,["escape_mermaid_label","ParseTree::mermaid"]),
P("C12","The text form of a parse tree shows every node exactly once",
 "Formatting a parse tree prints, in pre-order, one line per node: a 'lhs ::= children' line naming all its children in order for an inner node, and the quoted text for a terminal, each at an indentation of one column per level below the root, in which the last child of a node is marked by the closing branch and a vertical bar runs through the column of every ancestor that has further children to come.",
 ["inputs"],"all parse trees",
 "Tests compare a few snapshots.",
 ["src/grammar.rs"],[("ParseTree::fmt, fmt_node_prefix","src/grammar.rs")],None,["ParseTree: Display"]),
P("C13","Editing a grammar changes exactly what was asked",
 "Adding a term, alternative or production appends it and changes nothing else; removing one that occurs returns an equal value and removes exactly one occurrence, leaving all the others in place (for productions the last one may take the removed one's place), and removing one that does not occur returns nothing and changes nothing. Adding with '+' yields all terms of both operands, with expression terms in order and an added term last when combined with an expression, and leaves borrowed operands unchanged.",
 ["inputs","histories"],"all expressions, productions and grammars, including ones with duplicate elements",
 "Tests use a few tiny values without duplicates.",
 ["src/expression.rs","src/production.rs","src/grammar.rs","src/term.rs"],[("add/remove methods","src/expression.rs add_term/remove_term, src/production.rs add_to_rhs/remove_from_rhs, src/grammar.rs add_production/remove_production"),("Add impls","src/expression.rs, src/term.rs")],None,["Expression, Production, Grammar editing methods"]),
P("C14","The construction macros build exactly what is written",
 "term!, expression!, production! and grammar! build a value with exactly the left-hand sides, alternatives and terms written in the invocation, in the order written (so the first production of grammar! is the start rule), with repeated and equal entries kept, whatever the number of productions, alternatives and terms and with or without a closing semicolon; literals become terminals with the literal's value and <name> becomes a nonterminal of that name.",
 ["inputs"],"all invocations with at least one term in every alternative",
 "Tests use invocations of at most two alternatives and productions.",
 ["src/term.rs","src/expression.rs","src/production.rs","src/grammar.rs"],[("macros","src/term.rs term!, src/expression.rs expression!, src/production.rs production!, src/grammar.rs grammar!")],None,["grammar!, production!, expression!, term! macros"]),
P("C15","Generation does exactly what the strategy decides, reproducibly",
 "Generation expands every nonterminal through its first production with the alternative the strategy returns when asked about that production at the expansion's nesting depth (0 for the start rule, one more inside each expansion), the terms of the alternative left to right, and asks again at the same depth when the callback rejects the expanded text; a strategy that returns none, or a reached production with no alternative or only an empty one, makes the call an error. Results are therefore reproducible: equal grammars and equally seeded strategies (or equal generators given to generate_seeded and generate_seeded_callback), with a callback that depends only on its arguments, give equal results.",
 ["inputs","programs","configurations"],"all grammars, strategies, generators, depths and callbacks that depend only on their arguments; all calls that return",
 "Tests compare a few seeded sentences from shallow grammars; a wrong depth, a skipped or repeated question or a hidden source of randomness shows only for particular grammars and strategies.",
 ["src/grammar.rs","src/generation.rs"],[("recursive expansion","src/grammar.rs traverse_with_strategy, eval_terminal_with_strategy"),("seeding","src/grammar.rs generate_seeded, generate_seeded_callback; src/generation.rs RandomWalk::from_seed")],None,["Grammar::generate_seeded_callback_with_strategy","Grammar::generate_seeded","GenerationStrategy::choose"]),
P("C16","Grammar values compare, copy and serialise by their contents",
 "Two terms, expressions, productions or grammars are equal exactly when they have the same parts in the same order (so equality distinguishes terminals from nonterminals, order, repetition and case, and equal values hash equally), the order on terms and expressions is a total order consistent with equality, a clone has the parts of the original, and serialising a value with serde and reading it back yields an equal value.",
 ["inputs"],"all terms, expressions, productions and grammars; serde through serde_json",
 "Tests compare and serialise a handful of tiny values.",
 ["src/term.rs","src/expression.rs","src/production.rs","src/grammar.rs"],[("derived traits and serde attributes","src/term.rs Term, src/expression.rs Expression, src/production.rs Production, src/grammar.rs Grammar")],None,["PartialEq, Hash, Ord, Clone, Serialize and Deserialize of Term, Expression, Production, Grammar"]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in ps: f.write(json.dumps(p)+"\n")
for p in ps: assert len(p['title'])<=80,p['id']
