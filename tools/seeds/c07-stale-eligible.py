PROPERTY="C07"
NEEDS="a depth-bounded strategy asked below its maximum depth about one production and then, at the maximum depth, about a smaller one without terminal-only alternatives, or a larger one"
BREAKS="the buffer of eligible alternatives is only cleared when it has as many entries as the production has alternatives, so eligible entries of an earlier production survive"
EDITS=[("src/generation.rs","        self.eligible_buf.clear();\n        if depth >= self.max_depth {","        if depth < self.max_depth || self.eligible_buf.len() >= production.len() {\n            self.eligible_buf.clear();\n        }\n        if depth >= self.max_depth {")]
MAIN=r'''
use bnf::*;
fn main() {
    let p: Production = "<s> ::= <s> 'a' | 'b' | <s> <s> | <s> 'c' | <s> 'd'".parse().unwrap();
    let q: Production = "<q> ::= 'x' <q> | 'y' <q> | <q> 'z' | 'w'".parse().unwrap();
    let small: Production = "<r> ::= 'x' | 'y'".parse().unwrap();
    for seed in 0..50u8 {
        let mut s = DepthBounded::from_seed(3, [seed; 32]);
        for _ in 0..20 {
            s.choose(&small, 0);
            assert_eq!(s.choose(&q, 3).unwrap().to_string(), "'w'");
            s.choose(&p, 1);
            assert_eq!(s.choose(&p, 3).unwrap().to_string(), "'b'");
            s.choose(&small, 5);
            assert_eq!(s.choose(&p, 3).unwrap().to_string(), "'b'");
        }
    }
}
'''
