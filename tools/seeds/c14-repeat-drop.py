PROPERTY = "C14"
NEEDS = "a grammar! invocation in which a production is written twice before the last one"
BREAKS = "grammar! keeps only the first of equal productions, so a repeated entry is not kept as written"
EDITS = [("src/grammar.rs", """                    prods.push($crate::Production::from_parts(
                        $crate::term!(<$prod_lhs>),
                        exprs,
                    ));
""", """                    let production = $crate::Production::from_parts(
                        $crate::term!(<$prod_lhs>),
                        exprs,
                    );
                    if !prods.contains(&production) {
                        prods.push(production);
                    }
""")]
MAIN = r'''
fn main() {
    let g = bnf::grammar! { <s> ::= 'a' <s> | 'b'; <t> ::= 'c'; <s> ::= 'a' <s> | 'b'; <u> ::= 'd' };
    let l: Vec<String> = g.productions_iter().map(|p| p.lhs.to_string()).collect();
    assert_eq!(l, ["<s>", "<t>", "<s>", "<u>"]);
    let g = bnf::grammar! { <s> ::= 'a' <s> | 'b'; <t> ::= 'c'; };
    assert_eq!(g.productions_iter().count(), 2);
}
'''
