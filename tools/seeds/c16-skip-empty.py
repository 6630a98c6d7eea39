PROPERTY="C16"
NEEDS="a production without alternatives, serialised and read back"
BREAKS="an empty list of alternatives is left out when serialising, and reading the result back fails"
EDITS=[("src/production.rs","    rhs: Vec<Expression>,\n}","    #[cfg_attr(feature = \"serde\", serde(skip_serializing_if = \"Vec::is_empty\"))]\n    rhs: Vec<Expression>,\n}")]
MAIN=r'''
use bnf::*;
fn main() {
    let g = Grammar::from_parts(vec![Production::from_parts(Term::Nonterminal("s".into()), vec![])]);
    let s = serde_json::to_string(&g).unwrap();
    let h: Grammar = serde_json::from_str(&s).unwrap();
    assert_eq!(g, h);
}
'''
