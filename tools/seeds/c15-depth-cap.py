PROPERTY="C15"
NEEDS="an expansion nested more than 255 deep and a strategy that looks at the depth"
BREAKS="the depth given to the strategy stops at 255, so a depth-bounded strategy with a larger limit never switches to terminal alternatives"
EDITS=[("src/grammar.rs","self.traverse_with_strategy(nt, f, strategy, depth + 1)","self.traverse_with_strategy(nt, f, strategy, usize::from(u8::try_from(depth + 1).unwrap_or(u8::MAX)))")]
MAIN=r'''
use bnf::*;
struct S(usize);
impl GenerationStrategy for S {
    fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
        assert_eq!(depth, self.0);
        self.0 += 1;
        p.rhs_iter().nth(if depth < 400 { 0 } else { 1 })
    }
}
fn main() {
    let g: Grammar = "<s> ::= 'a' <s> | 'b'".parse().unwrap();
    assert_eq!(g.generate_seeded_with_strategy(&mut S(0)).unwrap(), "a".repeat(400) + "b");
}
'''
