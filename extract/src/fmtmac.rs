//! format!/write!/writeln! lowered to calls of the formatter shim, one per literal piece or
//! argument, in the order std evaluates and writes them.
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Expr, Stmt};

enum Piece {
    Lit(String),
    Arg(Expr),
    Bad,
}

fn pieces(fmt: &str, args: &[Expr]) -> Vec<Piece> {
    let mut out = vec![];
    let mut lit = String::new();
    let c: Vec<char> = fmt.chars().collect();
    let mut i = 0;
    let mut next = 0;
    while i < c.len() {
        if c[i] == '{' && c.get(i + 1) == Some(&'{') {
            lit.push('{');
            i += 2;
        } else if c[i] == '}' && c.get(i + 1) == Some(&'}') {
            lit.push('}');
            i += 2;
        } else if c[i] == '{' {
            let mut j = i + 1;
            while j < c.len() && c[j] != '}' {
                j += 1;
            }
            let w: String = c[i + 1..j.min(c.len())].iter().collect();
            if !lit.is_empty() {
                out.push(Piece::Lit(std::mem::take(&mut lit)));
            }
            if w.contains(':') {
                out.push(Piece::Bad);
            } else if w.is_empty() {
                match args.get(next) {
                    Some(a) => out.push(Piece::Arg(a.clone())),
                    None => out.push(Piece::Bad),
                }
                next += 1;
            } else if let Ok(n) = w.parse::<usize>() {
                match args.get(n) {
                    Some(a) => out.push(Piece::Arg(a.clone())),
                    None => out.push(Piece::Bad),
                }
            } else {
                let named = args.iter().find_map(|a| match a {
                    Expr::Assign(x) => match &*x.left {
                        Expr::Path(p) if p.path.is_ident(&w) => Some((*x.right).clone()),
                        _ => None,
                    },
                    _ => None,
                });
                match named.or_else(|| syn::parse_str::<Expr>(&w).ok()) {
                    Some(a) => out.push(Piece::Arg(a)),
                    None => out.push(Piece::Bad),
                }
            }
            i = j + 1;
        } else {
            lit.push(c[i]);
            i += 1;
        }
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    out
}

fn lower(m: &syn::Macro) -> Option<Expr> {
    let name = m.path.segments.last()?.ident.to_string();
    if !matches!(name.as_str(), "format" | "write" | "writeln") {
        return None;
    }
    let args = Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok()?;
    let mut args: Vec<Expr> = args.into_iter().collect();
    let dest = if name == "format" { None } else { Some(args.remove(0)) };
    let mut fmt = String::new();
    if !args.is_empty() {
        match args.remove(0) {
            Expr::Lit(l) => match l.lit {
                syn::Lit::Str(s) => fmt = s.value(),
                _ => return None,
            },
            _ => return None,
        }
    }
    if name == "writeln" {
        fmt.push('\n');
    }
    for a in args.iter_mut() {
        V.visit_expr_mut(a);
    }
    let ps = pieces(&fmt, &args);
    match dest {
        None => {
            let mut st: Vec<Stmt> = vec![];
            for p in ps {
                match p {
                    Piece::Lit(l) => st.push(parse_quote!(__f.v_lit_s(#l);)),
                    Piece::Arg(a) => st.push(parse_quote!(__f.v_arg_s(&(#a));)),
                    Piece::Bad => st.push(parse_quote!(__f.v_unknown_s();)),
                }
            }
            Some(parse_quote!({ let mut __f = String::new(); #(#st)* __f }))
        }
        Some(d) => {
            let mut e: Expr = parse_quote!(Ok(()));
            for (i, p) in ps.into_iter().rev().enumerate() {
                let call: Expr = match p {
                    Piece::Lit(l) => parse_quote!(#d.v_lit(#l)),
                    Piece::Arg(a) => parse_quote!(#d.v_arg(&(#a))),
                    Piece::Bad => parse_quote!(#d.v_unknown()),
                };
                if i == 0 {
                    e = call;
                } else {
                    e = parse_quote!(match #call { Err(__e) => Err(__e), Ok(()) => #e });
                }
            }
            Some(e)
        }
    }
}

struct V;
impl VisitMut for V {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Macro(m) = e {
            if let Some(n) = lower(&m.mac) {
                *e = n;
            }
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(n) = lower(&m.mac) {
                *s = Stmt::Expr(n, m.semi_token);
                return;
            }
        }
        syn::visit_mut::visit_stmt_mut(self, s);
    }
}

pub fn lower_macros(b: &mut syn::Block) {
    V.visit_block_mut(b);
}
