PROPERTY="C07"
NEEDS="weights with zero for the first alternative and a random draw of exactly zero"
BREAKS="an alternative of weight zero is chosen when the draw falls on the boundary"
EDITS=[("src/generation.rs","""            if r < w {
                return i;
            }
            r -= w;""","""            if r <= w {
                return i;
            }
            r -= w;""")]
MAIN=r'''
use bnf::*;
fn main() {
    let p: Production = "<s> ::= <s> 'a' | 'b' | 'c'".parse().unwrap();
    let mut w = Weighted::new(0, 1);
    for _ in 0..200 {
        let e = w.choose(&p, 0).unwrap();
        assert!(!e.terms_iter().any(|t| *t == Term::Nonterminal("s".into())));
    }
}
'''
