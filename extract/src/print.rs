//! Token printer: one statement per line, and expansion of spec placeholders.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub texts: &'a [String],
    out: String,
    indent: usize,
    bol: bool,
    glue: bool,
}

impl<'a> Printer<'a> {
    pub fn print(ts: TokenStream, texts: &'a [String], indent: usize) -> String {
        let mut p = Printer { texts, out: String::new(), indent, bol: true, glue: false };
        p.ts(ts);
        p.out
    }
    fn w(&mut self, s: &str) {
        if self.bol {
            for _ in 0..self.indent {
                self.out.push_str("    ");
            }
            self.bol = false;
        } else if !self.glue {
            self.out.push(' ');
        }
        self.glue = false;
        self.out.push_str(s);
    }
    fn nl(&mut self) {
        if !self.bol {
            self.out.push('\n');
            self.bol = true;
        }
    }
    fn raw(&mut self, s: &str) {
        self.nl();
        self.out.push_str(s);
        if !s.ends_with('\n') {
            self.out.push('\n');
        }
        self.bol = true;
    }
    fn ts(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    if let Some(n) = s.strip_prefix("__VPP_") {
                        let n: usize = n.trim_end_matches('_').parse().unwrap();
                        let t = self.texts[n].clone();
                        self.raw(&t);
                        if let Some(TokenTree::Punct(p)) = v.get(i + 1) {
                            if p.as_char() == ';' {
                                i += 1;
                            }
                        }
                    } else {
                        self.w(&s);
                    }
                }
                TokenTree::Punct(p) => {
                    self.w(&p.as_char().to_string());
                    if p.spacing() == Spacing::Joint || p.as_char() == '\'' {
                        self.glue = true;
                    }
                    if p.as_char() == ';' {
                        self.nl();
                    }
                }
                TokenTree::Literal(l) => self.w(&l.to_string()),
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut skip = 0;
                        if let Some(TokenTree::Ident(id)) = inner.first() {
                            if let Some(n) = id.to_string().strip_prefix("__VPS_") {
                                let n: usize = n.trim_end_matches('_').parse().unwrap();
                                let t = self.texts[n].clone();
                                self.raw(&t);
                                skip = 2;
                            }
                        }
                        self.w("{");
                        self.nl();
                        self.indent += 1;
                        self.ts(inner.into_iter().skip(skip).collect());
                        self.nl();
                        self.indent -= 1;
                        self.w("}");
                        // keep `}` on its own line unless followed by , . ? ) ;
                        let next_inline = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if ",.?;=&|<>!+-*/".contains(p.as_char()))
                            || matches!(v.get(i + 1), Some(TokenTree::Ident(id)) if id == "else" || id == "as");
                        if !next_inline {
                            self.nl();
                        }
                    } else {
                        self.w(a);
                        self.ts(g.stream());
                        self.w(b);
                    }
                }
            }
            i += 1;
        }
    }
}
