PROPERTY="C13"
NEEDS="a production with at least three alternatives, one before the last but one removed"
BREAKS="remove_from_rhs moves the last alternative into the removed one's place instead of leaving the others in order"
EDITS=[("src/production.rs","Some(self.rhs.remove(pos))","Some(self.rhs.swap_remove(pos))")]
MAIN=r'''
use bnf::*;
fn main() {
    let mut p: Production = "<s> ::= 'a' | 'b' | 'c'".parse().unwrap();
    p.remove_from_rhs(&"'a'".parse().unwrap()).unwrap();
    assert_eq!(p, "<s> ::= 'b' | 'c'".parse().unwrap());
}
'''
