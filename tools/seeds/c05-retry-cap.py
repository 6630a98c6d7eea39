PROPERTY="C05"
NEEDS="a callback that rejects the same nonterminal more than 4096 times in a row"
BREAKS="after 4096 rejections of a nonterminal the rejected text is returned as if the callback had accepted it"
EDITS=[("src/grammar.rs","""        loop {
            let production = match self""","""        let mut attempts = 0u32;
        loop {
            let production = match self"""),
("src/grammar.rs","""            if f(ident, &result) {
                return Ok(result);
            }""","""            if attempts > 4096 || f(ident, &result) {
                return Ok(result);
            }
            attempts += 1;""")]
MAIN=r'''
use bnf::*;
use std::cell::Cell;
fn main() {
    let g: Grammar = "<s> ::= 'a' | 'b'".parse().unwrap();
    let n = Cell::new(0u32);
    let last = Cell::new(false);
    let r = g.generate_callback(|_, _| { n.set(n.get() + 1); last.set(n.get() > 10000); last.get() });
    assert!(r.is_ok());
    assert!(last.get(), "a text the callback rejected was returned");
}
'''
