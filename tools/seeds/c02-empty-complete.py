PROPERTY="C02"
NEEDS="an ambiguous grammar where a nonterminal predicted late already has several completed derivations of different kinds"
BREAKS="when a nonterminal is predicted, completed derivations found earlier are only all used if they are empty; of longer ones only the first is"
EDITS=[("src/earley/mod.rs","""                for completed in completions.get_complete(nonterminal, &input_range) {
""","""                let mut longer = false;
                for completed in completions.get_complete(nonterminal, &input_range) {
                    if traversal_tree.get(completed).input_range.offset.len > 0 {
                        if longer {
                            continue;
                        }
                        longer = true;
                    }
""")]
MAIN=r'''
use bnf::*;
fn main() {
    let mut bad = vec![];
    for (g, input, n) in [
        ("<s> ::= <n> <a> | <a>\n<n> ::= <m>\n<m> ::= ''\n<a> ::= 'x' | <b>\n<b> ::= 'x'", "x", 4),
        ("<s> ::= <s> <s> | 'x'", "xxx", 2),
        ("<s> ::= <a> | <k> <a>\n<k> ::= <l> <l> <l> <l>\n<l> ::= ''\n<a> ::= 'x' | <b>\n<b> ::= 'x'", "x", 4),
    ] {
        let gr: Grammar = g.parse().unwrap();
        let p = gr.build_parser().unwrap();
        let k = p.parse_input(input).take(100).count();
        if k != n { bad.push((g, k, n)); }
    }
    assert!(bad.is_empty(), "{bad:?}");
}
'''
