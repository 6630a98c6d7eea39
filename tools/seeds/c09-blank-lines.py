PROPERTY="C09"
NEEDS="a terminal or name that contains four newlines in a row"
BREAKS="printing a grammar collapses runs of blank lines, also those inside terminals, so the grammar read back differs"
EDITS=[("src/grammar.rs","""                .collect::<Vec<_>>()
                .join("\\n")""","""                .collect::<Vec<_>>()
                .join("\\n")
                .replace("\\n\\n\\n\\n", "\\n\\n")""")]
MAIN=r'''
use bnf::*;
fn main() {
    let g: Grammar = "<s> ::= 'a\n\n\n\nb'\n<t> ::= 'x'".parse().unwrap();
    assert_eq!(g.to_string().parse::<Grammar>().ok(), Some(g));
}
'''
