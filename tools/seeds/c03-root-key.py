PROPERTY="C03"
NEEDS="a start production of more than three terms that can also be predicted at position 0 by another production (left recursion through the start term)"
BREAKS="start states and predicted states of the same production at position 0 are kept apart, so both complete the same derivation and it is returned twice"
EDITS=[("src/earley/traversal.rs","""    production_id: ProductionId,
    input_start: usize,
}""","""    production_id: ProductionId,
    input_start: usize,
    is_starting: bool,
}"""),("src/earley/traversal.rs","""            input_start: input_range.offset.total_len(),
        };""","""            input_start: input_range.offset.total_len(),
            is_starting: is_starting && production.rhs.terms.len() > 3,
        };""")]
MAIN=r'''
use bnf::*;
fn main() {
    let g: Grammar = "<s> ::= <s> 'x' 'x' 'x' | 'y'\n<t> ::= 'y'".parse().unwrap();
    let p = g.build_parser().unwrap();
    let v: Vec<_> = p.parse_input("yxxxxxx").take(100).collect();
    assert_eq!(v.len(), 1);
}
'''
