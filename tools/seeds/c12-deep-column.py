PROPERTY="C12"
NEEDS="a tree more than two dozen levels deep that still branches there"
BREAKS="columns beyond a fixed depth are never marked as open, so deep siblings lose their vertical line"
EDITS=[("src/grammar.rs","""        depth_format_set.insert(depth);
""","""        if depth < 24 {
            depth_format_set.insert(depth);
        }
""")]
MAIN=r'''
use bnf::*;
fn main() {
    let g: Grammar = "<s> ::= 'a' | <s> 'b'\n<t> ::= 'x'".parse().unwrap();
    let p = g.build_parser().unwrap();
    let input = format!("a{}", "b".repeat(30));
    let t = p.parse_input(&input).next().unwrap().to_string();
    // below a first child every ancestor column is open
    let deep = t.lines().find(|l| l.ends_with("\"a\"") && l.contains("└── \"a\"")).unwrap();
    assert_eq!(deep, format!("{}└── \"a\"", "│   ".repeat(30)));
}
'''
