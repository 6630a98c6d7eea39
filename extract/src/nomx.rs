//! nom combinator expressions, written out: `delimited(a, b, c).parse(i)` becomes the nested match that
//! nom 8 defines it to be; primitive parsers become `v_nom_*` calls with assumed contracts.
use quote::format_ident;
use std::collections::BTreeSet;
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Expr};

pub struct Nomx {
    fresh: usize,
    loops: usize,
    /// the function returns the crate's own error, so `?` converts
    converts: bool,
    pub used: BTreeSet<String>,
}

fn seg(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
/// is this expression (syntactically) a nom parser?
fn is_parser(e: &Expr) -> bool {
    match strip(e) {
        Expr::Call(c) => matches!(
            seg(&c.func).as_deref(),
            Some("char" | "tag" | "take_till" | "take_while" | "take_until" | "satisfy" | "delimited" | "preceded" | "terminated" | "pair" | "opt" | "not" | "peek" | "recognize" | "all_consuming" | "alt" | "many1" | "xt_list_with_separator")
        ),
        _ => false,
    }
}

/// An expression that is the result of a reader (`converted`: also once its error has been mapped).
fn resultish(e: &Expr, converted: bool) -> bool {
    match e {
        Expr::MethodCall(m) if m.method == "parse" && m.args.len() == 1 => is_parser(&m.receiver),
        Expr::MethodCall(m) if m.method == "map" => resultish(&m.receiver, converted),
        Expr::MethodCall(m) if m.method == "map_err" => converted && resultish(&m.receiver, converted),
        Expr::Call(c) if c.args.len() == 1 => {
            seg(&c.func).is_some_and(|n| ["grammar_complete", "grammar", "plain_grammar", "production", "expression", "term"].contains(&n.as_str()) || n.starts_with("parsed_"))
        }
        _ => false,
    }
}

impl Nomx {
    pub fn new(loops: usize, converts: bool) -> Self {
        Nomx { fresh: 0, loops, converts, used: BTreeSet::new() }
    }
    pub fn loops(&self) -> usize {
        self.loops
    }
    fn id(&mut self, b: &str) -> syn::Ident {
        self.fresh += 1;
        format_ident!("__{}_{}", b, self.fresh)
    }
    /// the expression that runs parser `p` on `i` (an identifier)
    fn run(&mut self, p: &Expr, i: &syn::Ident) -> Option<Expr> {
        let p = strip(p);
        let Expr::Call(c) = p else {
            return match p {
                Expr::Path(_) if seg(p).as_deref() == Some("eof") => Some(parse_quote!(v_nom_eof(#i))),
                Expr::Path(_) => Some(parse_quote!(#p(#i))),
                _ => None,
            };
        };
        let name = seg(&c.func)?;
        let a: Vec<&Expr> = c.args.iter().collect();
        let (r, o, e) = (self.id("r"), self.id("o"), self.id("e"));
        self.used.insert(name.clone());
        Some(match (name.as_str(), a.len()) {
            ("char", 1) => { let x = a[0]; parse_quote!(v_nom_char(#x, #i)) }
            ("tag", 1) => { let x = a[0]; parse_quote!(v_nom_tag(#x, #i)) }
            ("take_until", 1) => { let x = a[0]; parse_quote!(v_nom_take_until(#x, #i)) }
            ("take_till", 1) => { let x = a[0]; parse_quote!(v_nom_take_till(#x, #i)) }
            ("satisfy", 1) => { let x = a[0]; parse_quote!(v_nom_satisfy(#x, #i)) }
            ("delimited", 3) => {
                let (r2, r3) = (self.id("r"), self.id("r"));
                let (x, y, z) = (self.run(a[0], i)?, self.run(a[1], &r)?, self.run(a[2], &r2)?);
                parse_quote!(match #x { Ok((#r, _)) => match #y { Ok((#r2, #o)) => match #z { Ok((#r3, _)) => Ok((#r3, #o)), Err(#e) => Err(#e) }, Err(#e) => Err(#e) }, Err(#e) => Err(#e) })
            }
            ("preceded", 2) => {
                let (x, y) = (self.run(a[0], i)?, self.run(a[1], &r)?);
                parse_quote!(match #x { Ok((#r, _)) => #y, Err(#e) => Err(#e) })
            }
            ("terminated", 2) => {
                let r2 = self.id("r");
                let (x, y) = (self.run(a[0], i)?, self.run(a[1], &r)?);
                parse_quote!(match #x { Ok((#r, #o)) => match #y { Ok((#r2, _)) => Ok((#r2, #o)), Err(#e) => Err(#e) }, Err(#e) => Err(#e) })
            }
            ("pair", 2) => {
                let (r2, o2) = (self.id("r"), self.id("o"));
                let (x, y) = (self.run(a[0], i)?, self.run(a[1], &r)?);
                parse_quote!(match #x { Ok((#r, #o)) => match #y { Ok((#r2, #o2)) => Ok((#r2, (#o, #o2))), Err(#e) => Err(#e) }, Err(#e) => Err(#e) })
            }
            ("opt", 1) => {
                let x = self.run(a[0], i)?;
                parse_quote!(match #x { Ok((#r, #o)) => Ok((#r, Some(#o))), Err(crate::nom::Err::Error(_)) => Ok((#i, None)), Err(#e) => Err(#e) })
            }
            ("not", 1) => {
                let x = self.run(a[0], i)?;
                parse_quote!(match #x { Ok(_) => Err(v_nom_error(#i)), Err(crate::nom::Err::Error(_)) => Ok((#i, ())), Err(#e) => Err(#e) })
            }
            ("peek", 1) => {
                let x = self.run(a[0], i)?;
                parse_quote!(match #x { Ok((_, #o)) => Ok((#i, #o)), Err(#e) => Err(#e) })
            }
            ("recognize", 1) => {
                let x = self.run(a[0], i)?;
                parse_quote!(match #x { Ok((#r, _)) => Ok((#r, v_nom_consumed(#i, #r))), Err(#e) => Err(#e) })
            }
            ("all_consuming", 1) => {
                let x = self.run(a[0], i)?;
                parse_quote!(match #x { Ok((#r, #o)) => if #r.len() == 0 { Ok((#r, #o)) } else { Err(v_nom_error(#r)) }, Err(#e) => Err(#e) })
            }
            ("alt", 1) => {
                let Expr::Tuple(t) = a[0] else { return None };
                let mut out: Option<Expr> = None;
                for x in t.elems.iter().rev() {
                    let x = self.run(x, i)?;
                    let res = self.id("o");
                    out = Some(match out {
                        None => x,
                        Some(next) => parse_quote!(match #x { Err(crate::nom::Err::Error(_)) => #next, #res => #res }),
                    });
                }
                out?
            }
            ("many1", 1) => {
                let n = self.loops;
                self.loops += 1;
                let (acc, cur, bad, nx, x2) = (format_ident!("__acc{n}"), format_ident!("__cur{n}"), format_ident!("__bad{n}"), self.id("r"), self.id("o"));
                let (x, y) = (self.run(a[0], i)?, self.run(a[0], &cur)?);
                parse_quote!(match #x {
                    Err(#e) => Err(#e),
                    Ok((#r, #o)) => {
                        let mut #acc = Vec::new();
                        #acc.push(#o);
                        let mut #cur = #r;
                        let mut #bad = None;
                        loop {
                            match #y {
                                Ok((#nx, #x2)) => {
                                    if #nx.len() == #cur.len() { #bad = Some(v_nom_error(#cur)); break; }
                                    #acc.push(#x2);
                                    #cur = #nx;
                                }
                                Err(crate::nom::Err::Error(_)) => { break; }
                                Err(#e) => { #bad = Some(#e); break; }
                            }
                        }
                        match #bad { Some(#e) => Err(#e), None => Ok((#cur, #acc)) }
                    }
                })
            }
            ("xt_list_with_separator", 2) => {
                // the crate's own combinator, instantiated (see `@special`)
                let (x, y) = (seg(a[0])?, seg(a[1])?);
                let f = format_ident!("xt_list__{x}__{y}");
                let args = match a[0] {
                    Expr::Path(p) => p.path.segments.last().map(|s| s.arguments.clone()),
                    _ => None,
                };
                match args {
                    Some(syn::PathArguments::AngleBracketed(g)) => parse_quote!(#f #g (#i)),
                    _ => parse_quote!(#f(#i)),
                }
            }
            _ => return None,
        })
    }
    fn at(&mut self, p: &Expr, input: &Expr) -> Option<Expr> {
        let i = self.id("i");
        let body = self.run(p, &i)?;
        Some(parse_quote!({ let #i = #input; #body }))
    }
}

impl VisitMut for Nomx {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `&x[a..]` of a text
        if let Expr::Reference(r) = &*e {
            if let Expr::Index(ix) = &*r.expr {
                if let Expr::Range(rg) = &*ix.index {
                    if let (Some(a), None) = (&rg.start, &rg.end) {
                        let b = &ix.expr;
                        *e = parse_quote!(#b.v_slice_from(#a));
                    }
                }
            }
        }
        // `?`, `map_err(Error::from)` and `map` on what a reader returned, written out
        if let Expr::Try(x) = &*e {
            if self.converts && resultish(&x.expr, false) {
                let x = &x.expr;
                let (v, r) = (self.id("v"), self.id("e"));
                *e = parse_quote!(match #x { Ok(#v) => #v, Err(#r) => { return Err(crate::error::Error::from(#r)); } });
            }
        }
        if let Expr::MethodCall(m) = &*e {
            if m.args.len() == 1 && resultish(&m.receiver, true) {
                let x = &m.receiver;
                let (v, r) = (self.id("v"), self.id("e"));
                match (m.method.to_string().as_str(), &m.args[0]) {
                    ("map_err", Expr::Path(p)) if p.path.segments.last().is_some_and(|s| s.ident == "from" || s.ident == "into") => {
                        *e = parse_quote!(match #x { Ok(#v) => Ok(#v), Err(#r) => Err(crate::error::Error::from(#r)) });
                    }
                    ("map_err", Expr::Closure(c)) if c.inputs.len() == 1 => {
                        let (p, b) = (&c.inputs[0], &c.body);
                        *e = parse_quote!(match #x { Ok(#v) => Ok(#v), Err(#p) => Err(#b) });
                    }
                    ("map", Expr::Closure(c)) if c.inputs.len() == 1 => {
                        let (p, b) = (&c.inputs[0], &c.body);
                        *e = parse_quote!(match #x { Ok(#p) => Ok(#b), Err(#r) => Err(#r) });
                    }
                    _ => {}
                }
            }
        }
        // conversion of nom's error: From has one impl per source type, the one for `Err<..>` is extracted as `v_from`
        if let Expr::Call(c) = &mut *e {
            if let Expr::Path(p) = &mut *c.func {
                let n = p.path.segments.len();
                if n >= 2 && c.args.len() == 1 && p.path.segments[n - 1].ident == "from" && p.path.segments[n - 2].ident == "Error" {
                    p.path.segments[n - 1].ident = format_ident!("v_from");
                }
            }
        }
        let new = match &*e {
            Expr::MethodCall(m) if m.method == "parse" && m.args.len() == 1 && is_parser(&m.receiver) => self.at(&m.receiver, &m.args[0]),
            Expr::Call(c) if c.args.len() == 1 && is_parser(&c.func) => self.at(&c.func, &c.args[0]),
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}
