PROPERTY="C04"
NEEDS="a grammar that uses the nonterminal with the empty name, <>, without defining it"
BREAKS="both validators ignore an undefined nonterminal whose name is empty"
EDITS=[("src/validation.rs","self.referenced.difference(&self.defined).copied()","self.referenced\n            .difference(&self.defined)\n            .copied()\n            .filter(|nt| !nt.is_empty())")]
MAIN=r'''
use bnf::*;
fn main() {
    let g: Grammar = "<s> ::= 'a' <>\n<t> ::= 'b'".parse().unwrap();
    assert!(g.validate().is_err());
    assert!(g.build_parser().is_err());
}
'''
