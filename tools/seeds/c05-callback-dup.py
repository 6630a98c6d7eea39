PROPERTY="C05"
NEEDS="a callback that rejects, and a rejected expansion that is not empty"
BREAKS="after a rejection the rejected text is kept when the retry chooses an empty expansion, so a sentence is returned the callback did not accept"
EDITS=[("src/grammar.rs","""        loop {
            let production = match self
                .productions_iter()""","""        let mut rejected = String::new();
        loop {
            let production = match self
                .productions_iter()"""),("src/grammar.rs","""            if f(ident, &result) {
                return Ok(result);
            }""","""            if f(ident, &result) {
                if result.is_empty() {
                    return Ok(rejected);
                }
                return Ok(result);
            }
            rejected = result;""")]
MAIN=r'''
use bnf::*;
use bnf::rand::{SeedableRng, rngs::StdRng};
fn main() {
    let g: Grammar = "<s> ::= 'a' | ''\n<t> ::= 'x'".parse().unwrap();
    for i in 0..50u8 {
        let mut r = StdRng::from_seed([i; 32]);
        let s = g.generate_seeded_callback(&mut r, |_, t| t.is_empty()).unwrap();
        assert_eq!(s, "");
    }
}
'''
