PROPERTY = "C14"
NEEDS = "a production! invocation with three or more alternatives"
BREAKS = "production! reverses all alternatives but the last, so alternatives are not in the order written"
EDITS = [("src/production.rs", "$(exprs.push($crate::Expression::from_parts(vec![$($prev),*]));)*", "$(exprs.insert(0, $crate::Expression::from_parts(vec![$($prev),*]));)*")]
MAIN = r'''
fn main() {
    let p = bnf::production!(<s> ::= 'a' | 'b' <s> | 'c' | 'd');
    assert_eq!(p.to_string(), "<s> ::= 'a' | 'b' <s> | 'c' | 'd'");
    let p = bnf::production!(<s> ::= 'a' | 'b');
    assert_eq!(p.to_string(), "<s> ::= 'a' | 'b'");
}
'''
