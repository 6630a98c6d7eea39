//! Emission and lowering of repository functions to the Verus dialect.
use crate::index::{FnEntry, Index};
use crate::overlay::{Entry, FnSpec, Overlay};
use crate::print::Printer;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Block, Expr, Item, Pat, Stmt};

pub struct Emitted {
    pub text: String,
    pub functions: Vec<serde_json::Value>,
    pub lost: Vec<String>,
    pub dropped: Vec<String>,
    pub inlined: Vec<String>,
}

pub fn find_fn<'a>(ix: &'a Index, path: &str) -> Option<&'a FnEntry> {
    // PATH%TEXT: the one of several whose parameters mention TEXT
    if let Some((p, w)) = path.split_once('%') {
        let mut hits = ix.fns.get(p)?.iter().filter(|f| f.sig.inputs.to_token_stream().to_string().replace(' ', "").contains(w));
        return match (hits.next(), hits.next()) {
            (Some(f), None) => Some(f),
            _ => None,
        };
    }
    if let Some(v) = ix.fns.get(path) {
        return if v.len() == 1 { v.first() } else { None };
    }
    // a free function may be nested in another one of its module (or moved out again)
    let (m, n) = path.rsplit_once("::")?;
    let mut hits = ix.fns.iter().filter(|(p, _)| p.rsplit("::").next() == Some(n) && !p.contains('@')).flat_map(|(_, v)| v.iter()).filter(|f| f.imp.is_none() && f.module == m);
    match (hits.next(), hits.next()) {
        (Some(f), None) => Some(f),
        _ => None,
    }
}

/// A function returning a parser closure over its parser arguments, instantiated with named parsers:
/// `fn f(mut p: P, mut q: Q) -> impl Parser { move |mut input: I| BODY }` with P = a, Q = b becomes
/// `fn NAME<F: Format>(mut input: &str) -> IResult<&str, Vec<A's output>> BODY[p.parse(x) := a::<F>(x), ..]`.
fn specialise(ix: &Index, spec: &FnSpec, fe: &FnEntry) -> Option<FnEntry> {
    let Some(Stmt::Expr(Expr::Closure(c), None)) = fe.block.stmts.last() else { return None };
    if fe.block.stmts.len() != 1 || c.inputs.len() != 1 {
        return None;
    }
    let input = pat_ident(&c.inputs[0])?;
    let params: Vec<syn::Ident> = fe.sig.inputs.iter().filter_map(|a| if let syn::FnArg::Typed(t) = a { pat_ident(&t.pat) } else { None }).collect();
    if params.len() != spec.special.len() {
        return None;
    }
    let module = spec.special_module()?;
    let first = find_fn(ix, &format!("{module}::{}", spec.special[0]))?;
    // IResult<&str, X>
    let syn::ReturnType::Type(_, t) = &first.sig.output else { return None };
    let syn::Type::Path(tp) = &**t else { return None };
    let syn::PathArguments::AngleBracketed(ga) = &tp.path.segments.last()?.arguments else { return None };
    let out = ga.args.iter().nth(1)?;
    struct P<'c>(&'c [syn::Ident], &'c [String]);
    impl<'c> VisitMut for P<'c> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            syn::visit_mut::visit_expr_mut(self, e);
            if let Expr::MethodCall(m) = e {
                if m.method == "parse" && m.args.len() == 1 {
                    if let Expr::Path(p) = &*m.receiver {
                        for (i, q) in self.0.iter().enumerate() {
                            if p.path.is_ident(q) {
                                let f = format_ident!("{}", self.1[i]);
                                let a = &m.args[0];
                                *e = parse_quote!(#f::<F>(#a));
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    let mut body: Block = match &*c.body {
        Expr::Block(b) => b.block.clone(),
        e => parse_quote!({ #e }),
    };
    P(&params, &spec.special).visit_block_mut(&mut body);
    let name = format_ident!("xt_list__{}", spec.special.join("__"));
    let sig: syn::Signature = parse_quote!(fn #name<F: Format>(mut #input: &str) -> IResult<&str, Vec<#out>>);
    Some(FnEntry { path: fe.path.clone(), module, file: fe.file.clone(), line: fe.line, imp: None, sig, block: body })
}

struct Ctx<'a> {
    ix: &'a Index,
    ov: &'a Overlay,
    vacuity: bool,
    lost: Vec<String>,
    dropped: BTreeSet<String>,
    inlined: BTreeSet<String>,
    functions: Vec<serde_json::Value>,
    emitted: BTreeSet<String>,
}

pub fn emit(ix: &Index, ov: &Overlay, vacuity: bool) -> Emitted {
    let mut cx = Ctx {
        ix,
        ov,
        vacuity,
        lost: vec![],
        dropped: BTreeSet::new(),
        inlined: BTreeSet::new(),
        functions: vec![],
        emitted: BTreeSet::new(),
    };
    for e in &ov.entries {
        if let Entry::Fn(f) = e {
            cx.emitted.insert(f.path.clone());
            if let Some(fe) = find_fn(ix, &f.path) {
                cx.emitted.insert(fe.path.clone());
            }
        }
    }
    let mut mods: BTreeMap<String, String> = BTreeMap::new();
    for (m, t) in &ov.modules {
        // a module may have one `broadcast use` only: those of the included files are merged
        let (mut uses, mut text) = (Vec::new(), String::new());
        for l in t.lines() {
            match l.strip_prefix("broadcast use {").and_then(|x| x.strip_suffix("};")) {
                Some(x) => uses.push(x.to_string()),
                None => { text.push_str(l); text.push('\n'); }
            }
        }
        if !uses.is_empty() {
            text.push_str(&format!("broadcast use {{{}}};\n", uses.join(", ")));
        }
        mods.entry(m.clone()).or_default().push_str(&text);
    }
    for e in &ov.entries {
        match e {
            Entry::Item(p, opts) => match ix.items.get(p) {
                None => cx.lost.push(format!("item {p} not found")),
                Some(it) => {
                    let t = cx.emit_item(p, it, opts);
                    mods.entry(it.module.clone()).or_default().push_str(&t);
                }
            },
            Entry::Default(f) => match ix.items.get(&f.path) {
                None => cx.lost.push(format!("item {} not found", f.path)),
                Some(it) => {
                    if !it.derives.iter().any(|d| d == "Default") {
                        cx.lost.push(format!("{}: no derived Default", f.path));
                        continue;
                    }
                    let t = cx.emit_default(f, it);
                    mods.entry(it.module.clone()).or_default().push_str(&t);
                }
            },
            Entry::Fn(f) => match find_fn(ix, &f.path) {
                None => cx.lost.push(format!("function {} not found", f.path)),
                Some(fe) => {
                    let mut fe = fe.clone();
                    if !f.special.is_empty() {
                        match specialise(ix, f, &fe) {
                            Some(n) => fe = n,
                            None => {
                                cx.lost.push(format!("{}: cannot be instantiated", f.path));
                                continue;
                            }
                        }
                    }
                    let t = cx.emit_fn(f, &fe);
                    mods.entry(fe.module.clone()).or_default().push_str(&t);
                }
            },
        }
    }
    let mut text = String::new();
    text.push_str("#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_braces, unused_parens, unused_labels, unreachable_code)]\n");
    text.push_str("use vstd::prelude::*;\nverus! {\n");
    text.push_str(&ov.prelude);
    // build module tree
    if let Some(root) = mods.remove("") {
        text.push_str(&root);
    }
    let keys: Vec<String> = mods.keys().cloned().collect();
    // ensure parents exist
    for k in keys {
        let mut p = k.clone();
        while let Some(i) = p.rfind("::") {
            p.truncate(i);
            mods.entry(p.clone()).or_default();
        }
    }
    fn emit_mod(prefix: &str, mods: &BTreeMap<String, String>, out: &mut String) {
        for (k, t) in mods {
            let rest = if prefix.is_empty() {
                k.as_str()
            } else if let Some(r) = k.strip_prefix(&format!("{prefix}::")) {
                r
            } else {
                continue;
            };
            if rest.is_empty() || rest.contains("::") {
                continue;
            }
            out.push_str(&format!("pub mod {rest} {{\nuse vstd::prelude::*;\nuse crate::shim::*;\nuse crate::*;\n"));
            out.push_str(t);
            emit_mod(k, mods, out);
            out.push_str(&format!("}} // mod {rest}\n"));
        }
    }
    emit_mod("", &mods, &mut text);
    text.push_str("} // verus!\nfn main() {}\n");
    // line ranges of functions
    let mut cur: Option<(String, usize)> = None;
    let mut ranges: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for (i, l) in text.lines().enumerate() {
        if let Some(p) = l.trim().strip_prefix("//@begin ") {
            cur = Some((p.to_string(), i + 1));
        } else if l.trim().starts_with("//@end") {
            if let Some((p, s)) = cur.take() {
                ranges.insert(p, (s, i + 1));
            }
        }
    }
    for f in cx.functions.iter_mut() {
        let p = f["path"].as_str().unwrap().to_string();
        if let Some((a, b)) = ranges.get(&p) {
            f["gen_lines"] = serde_json::json!([a, b]);
        }
    }
    Emitted {
        text,
        functions: cx.functions,
        lost: cx.lost,
        dropped: cx.dropped.into_iter().collect(),
        inlined: cx.inlined.into_iter().collect(),
    }
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

fn pub_fields(f: &mut syn::Fields) {
    for x in f.iter_mut() {
        x.vis = parse_quote!(pub);
    }
}

impl<'a> Ctx<'a> {
    fn emit_item(&mut self, path: &str, it: &crate::index::ItemEntry, opts: &[String]) -> String {
        let mut item = it.item.clone();
        StripAttrs.visit_item_mut(&mut item);
        let has = |n: &str| it.derives.iter().any(|d| d == n);
        let opt = |n: &str| opts.iter().any(|d| d == n);
        let mut out = String::new();
        let (ident, generics) = match &mut item {
            Item::Struct(s) => {
                s.vis = parse_quote!(pub);
                pub_fields(&mut s.fields);
                (s.ident.clone(), s.generics.clone())
            }
            Item::Enum(s) => {
                s.vis = parse_quote!(pub);
                (s.ident.clone(), s.generics.clone())
            }
            Item::Type(s) => {
                s.vis = parse_quote!(pub);
                (s.ident.clone(), s.generics.clone())
            }
            Item::Const(s) => {
                s.vis = parse_quote!(pub);
                (s.ident.clone(), s.generics.clone())
            }
            Item::Trait(s) => {
                s.vis = parse_quote!(pub);
                (s.ident.clone(), s.generics.clone())
            }
            _ => unreachable!(),
        };
        let is_adt = matches!(item, Item::Struct(_) | Item::Enum(_));
        if is_adt && has("Copy") {
            out.push_str("#[derive(Clone, Copy)]\n");
        }
        out.push_str(&Printer::print(item.to_token_stream(), &[], 0));
        out.push('\n');
        if is_adt {
            let (ig, tg, wc) = generics.split_for_impl();
            let h = |tr: &str| {
                format!("impl {} {} for {} {} {}", ig.to_token_stream(), tr, ident, tg.to_token_stream(), wc.to_token_stream())
            };
            if has("PartialEq") && !opt("noeq") {
                out.push_str(&format!(
                    "{} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &Self) -> bool {{ *self == *other }} }}\n",
                    h("vstd::std_specs::cmp::PartialEqSpecImpl")
                ));
                out.push_str(&format!(
                    "{} {{ #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) ensures r == (*self == *other) {{ unimplemented!() }} }}\n",
                    h("PartialEq")
                ));
                if has("Eq") {
                    out.push_str(&format!("{} {{ }}\n", h("Eq")));
                }
                self.dropped.insert(format!("derive(PartialEq) of {path}: assumed to be structural equality"));
            }
            if !has("PartialEq") && opt("eq") {
                self.lost.push(format!("{path}: derive(PartialEq) is gone"));
            }
            if opt("hash") && !has("Hash") {
                self.lost.push(format!("{path}: derive(Hash) is gone"));
            }
            if has("Clone") && !has("Copy") && !opt("noclone") {
                out.push_str(&format!(
                    "{} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n",
                    h("Clone")
                ));
                self.dropped.insert(format!("derive(Clone) of {path}: assumed to return an equal value"));
            }
        }
        out
    }

    fn emit_default(&mut self, f: &FnSpec, it: &crate::index::ItemEntry) -> String {
        let Item::Struct(s) = &it.item else {
            self.lost.push(format!("{}: not a struct", f.path));
            return String::new();
        };
        let (ig, tg, wc) = s.generics.split_for_impl();
        let mut fields = String::new();
        for x in &s.fields {
            let mut ty = x.ty.clone();
            StripAttrs.visit_type_mut(&mut ty);
            fields.push_str(&format!(
                "{}: <{}>::default(), ",
                x.ident.as_ref().unwrap(),
                ty.to_token_stream()
            ));
        }
        let name = format!("{}@Default::default", f.path);
        self.functions.push(serde_json::json!({"path": name, "file": it.file, "line": it.line, "derived": true, "contract": true, "trusted": false}));
        format!(
            "//@begin {name}\nimpl {} {} {} {} {{ pub fn default() -> (r: Self)\n{}\n{{ Self {{ {} }} }} }}\n//@end\n",
            ig.to_token_stream(),
            s.ident,
            tg.to_token_stream(),
            wc.to_token_stream(),
            f.texts.get("spec").cloned().unwrap_or_default(),
            fields
        )
    }

    fn emit_fn(&mut self, spec: &FnSpec, fe: &FnEntry) -> String {
        let mut lw = FnLower::new(self, spec, fe);
        let text = lw.run();
        let FnLower { lost, dropped, inlined, bare_loops, .. } = lw;
        self.lost.extend(lost);
        self.dropped.extend(dropped);
        self.inlined.extend(inlined);
        let has_contract = spec.texts.contains_key("spec") || spec.keep_trait;
        self.functions.push(serde_json::json!({
            "path": fe.path, "file": fe.file, "line": fe.line, "contract": has_contract,
            "trusted": spec.attrs.iter().any(|a| a.contains("external_body")),
            "bare_loops": bare_loops,
        }));
        format!("//@begin {}\n{}\n//@end\n", fe.path, text)
    }
}

pub struct FnLower<'a, 'b> {
    cx: &'b Ctx<'a>,
    spec: &'b FnSpec,
    fe: &'b FnEntry,
    texts: Vec<String>,
    params: Vec<String>,
    lets: Vec<String>,
    muts: Vec<String>,
    bare_loops: usize,
    loop_its: BTreeMap<usize, String>,
    loop_vars: BTreeMap<usize, String>,
    used: BTreeSet<String>,
    pub lost: Vec<String>,
    pub dropped: BTreeSet<String>,
    pub inlined: BTreeSet<String>,
    fresh: usize,
    collected: usize,
    many: usize,
}

fn last_seg(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

pub fn pat_ident(p: &Pat) -> Option<syn::Ident> {
    match p {
        Pat::Ident(i) => Some(i.ident.clone()),
        Pat::Type(t) => pat_ident(&t.pat),
        _ => None,
    }
}

impl<'a, 'b> FnLower<'a, 'b> {
    fn new(cx: &'b Ctx<'a>, spec: &'b FnSpec, fe: &'b FnEntry) -> Self {
        FnLower {
            cx,
            spec,
            fe,
            texts: vec![],
            params: vec![],
            lets: vec![],
            muts: vec![],
            bare_loops: 0,
            loop_its: BTreeMap::new(),
            loop_vars: BTreeMap::new(),
            used: BTreeSet::new(),
            lost: vec![],
            dropped: BTreeSet::new(),
            inlined: BTreeSet::new(),
            fresh: 0,
            collected: 0,
            many: 0,
        }
    }

    fn run(&mut self) -> String {
        let mut sig = self.fe.sig.clone();
        let mut block = self.fe.block.clone();
        StripAttrs.visit_signature_mut(&mut sig);
        StripAttrs.visit_block_mut(&mut block);
        sig.constness = None;

        // associated types of the impl (Self::Item etc.)
        if let Some(im) = &self.fe.imp {
            let mut map = BTreeMap::new();
            for x in &im.items {
                if let syn::ImplItem::Type(t) = x {
                    map.insert(t.ident.to_string(), t.ty.clone());
                }
            }
            if !map.is_empty() && !self.spec.keep_trait {
                let mut v = AssocSubst(&map);
                v.visit_signature_mut(&mut sig);
                v.visit_block_mut(&mut block);
            }
        }

        let mut pre: Vec<Stmt> = vec![];
        for a in sig.inputs.iter_mut() {
            if let syn::FnArg::Typed(t) = a {
                if let Pat::Ident(i) = &mut *t.pat {
                    self.params.push(i.ident.to_string());
                    if i.mutability.is_some() {
                        i.mutability = None;
                        let id = i.ident.clone();
                        pre.push(parse_quote!(let mut #id = #id;));
                    }
                } else {
                    self.params.push("_".into());
                }
            } else if let syn::FnArg::Receiver(r) = a {
                if r.reference.is_none() && r.mutability.is_some() {
                    r.mutability = None;
                    pre.push(parse_quote!(let mut self_ = self;));
                    SelfRename.visit_block_mut(&mut block);
                }
            }
        }
        block.stmts.splice(0..0, pre);

        // local names in source order
            struct L<'c>(&'c mut Vec<String>, &'c mut Vec<String>);
            impl<'ast, 'c> Visit<'ast> for L<'c> {
                fn visit_local(&mut self, l: &'ast syn::Local) {
                    if let Pat::Ident(i) = match &l.pat {
                        Pat::Type(t) => &*t.pat,
                        p => p,
                    } {
                        let n = i.ident.to_string();
                        if !n.starts_with("_span") {
                            if i.mutability.is_some() {
                                self.1.push(n);
                            } else {
                                self.0.push(n);
                            }
                        }
                    }
                    syn::visit::visit_local(self, l);
                }
                fn visit_item_fn(&mut self, _: &'ast syn::ItemFn) {}
            }
            L(&mut self.lets, &mut self.muts).visit_block(&block);
        self.strip(&mut block);
        self.consts(&mut block);
        self.nom(&mut block);
        self.inline_calls(&mut block);
        self.nom(&mut block);
        // names that came with an inlined helper stand after the function's own
        let (mut lets, mut muts) = (vec![], vec![]);
        L(&mut lets, &mut muts).visit_block(&block);
        let new = |x: &String| x.rfind("__i").is_some_and(|k| k > 0 && x[k + 3..].chars().all(|c| c.is_ascii_digit()));
        self.lets.extend(lets.into_iter().filter(new));
        self.muts.extend(muts.into_iter().filter(new));
        // @muts: the names at the time of writing; a name still there wins over its position
        let want = &self.spec.mut_names;
        if !want.is_empty() {
            let mut spare: Vec<String> = self.muts.iter().filter(|m| !want.contains(m)).cloned().collect();
            spare.reverse();
            let have = self.muts.clone();
            self.muts = want.iter().map(|w| if have.contains(w) { w.clone() } else { spare.pop().unwrap_or_default() }).collect();
            self.muts.retain(|m| !m.is_empty());
        }
        LetChain.visit_block_mut(&mut block);
        self.entry(&mut block);
        self.lets_into_for(&mut block);
        if self.spec.opts.iter().any(|o| o == "collect") {
            self.macros(&mut block);
            self.collects(&mut block);
        }
        self.for_loops(&mut block);
        self.option_map(&mut block);
        self.macros(&mut block);
        self.custom(&mut block);
        if self.spec.opts.iter().any(|o| o == "addlit") {
            // `x + LITERAL`: overflow ends the call (panic) instead of being excluded by proof
            struct A;
            impl VisitMut for A {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    syn::visit_mut::visit_expr_mut(self, e);
                    if let Expr::Binary(b) = e {
                        if matches!(b.op, syn::BinOp::Add(_)) && matches!(&*b.right, Expr::Lit(l) if matches!(l.lit, syn::Lit::Int(_))) {
                            let (l, r) = (&b.left, &b.right);
                            *e = parse_quote!(v_add(#l, #r));
                        } else if matches!(b.op, syn::BinOp::AddAssign(_)) && matches!(&*b.right, Expr::Lit(l) if matches!(l.lit, syn::Lit::Int(_))) {
                            let (l, r) = (&b.left, &b.right);
                            *e = parse_quote!(#l = v_add(#l, #r));
                        }
                    }
                }
            }
            A.visit_block_mut(&mut block);
        }
        let mut lits = BTreeSet::new();
        {
            struct S<'x>(&'x mut BTreeSet<String>);
            impl<'x, 'ast> Visit<'ast> for S<'x> {
                fn visit_lit_str(&mut self, l: &'ast syn::LitStr) {
                    self.0.insert(l.value());
                }
            }
            S(&mut lits).visit_block(&block);
        }
        self.hints(&mut block);
        self.closures(&mut block);
        self.loop_texts(&mut block);
        self.rename(&mut block);

        // return type
        let mut ret = match &sig.output {
            syn::ReturnType::Default => None,
            syn::ReturnType::Type(_, t) => Some((**t).clone()),
        };
        if let Some(t) = &self.spec.rettype {
            ret = Some(syn::parse_str(t).expect("rettype"));
        } else if let Some(syn::Type::ImplTrait(it)) = &ret {
            let mut item = None;
            for b in &it.bounds {
                if let syn::TypeParamBound::Trait(t) = b {
                    if let Some(s) = t.path.segments.last() {
                        if s.ident == "Iterator" {
                            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                                for x in &a.args {
                                    if let syn::GenericArgument::AssocType(at) = x {
                                        item = Some(at.ty.clone());
                                    }
                                }
                            }
                        }
                    }
                }
            }
            match item {
                Some(i) => ret = Some(parse_quote!(SeqIter<#i>)),
                None => self.lost.push(format!("{}: unsupported return type", self.fe.path)),
            }
        }
        // start / end texts
        let mut start = String::new();
        if self.spec.opts.iter().any(|o| o == "strlits") {
            for l in &lits {
                start.push_str(&format!("proof {{ reveal_strlit({}); }}\n", syn::LitStr::new(l, proc_macro2::Span::call_site()).to_token_stream()));
            }
        }
        if self.spec.opts.iter().any(|o| o == "catlits") {
            // appending a literal is pushing its characters
            for l in &lits {
                let lit = syn::LitStr::new(l, proc_macro2::Span::call_site()).to_token_stream();
                let mut t = String::from("__a");
                for c in l.chars() {
                    t.push_str(&format!(".push({})", syn::LitChar::new(c, proc_macro2::Span::call_site()).to_token_stream()));
                }
                start.push_str(&format!(
                    "proof {{ reveal_strlit({lit}); assert forall|__a: Seq<char>| #[trigger] (__a + {lit}@) == {t} by {{ assert((__a + {lit}@) =~= {t}); }} }}\n"
                ));
            }
        }
        if let Some(t) = self.text("start") {
            start.push_str(&t);
        }
        if self.cx.vacuity && !self.spec.attrs.iter().any(|a| a.contains("external_body")) {
            start.push_str("\nproof { assert(false); }\n");
        }
        if !start.is_empty() {
            let s = self.stmt_text(start);
            block.stmts.insert(0, s);
        }
        if let Some(t) = self.text("end") {
            if self.spec.opts.iter().any(|o| o == "allreturns") {
                // the closing ghost code also stands at every early return
                struct V<'x, 'a, 'b>(&'x mut FnLower<'a, 'b>, String, &'static str);
                impl<'x, 'a, 'b> VisitMut for V<'x, 'a, 'b> {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        if let Expr::Closure(_) = e {
                            return;
                        }
                        syn::visit_mut::visit_expr_mut(self, e);
                        match e {
                            Expr::Return(syn::ExprReturn { expr: Some(x), .. }) => {
                                let s = self.0.stmt_text(self.1.clone());
                                *e = parse_quote!({ let __tail = #x; #s return __tail; });
                            }
                            Expr::Try(x) if self.2 == "Option" => {
                                let s = self.0.stmt_text(self.1.clone());
                                let x = &x.expr;
                                *e = parse_quote!(match #x { Some(__v) => __v, None => { let __tail = None; #s return __tail; } });
                            }
                            _ => {}
                        }
                    }
                }
                let kind = ret_kind(&self.fe.sig);
                V(self, t.clone(), kind).visit_block_mut(&mut block);
            }
            let s = self.stmt_text(t);
            if let Some(Stmt::Expr(e, None)) = block.stmts.last().cloned() {
                block.stmts.pop();
                if ret.is_some() {
                    block.stmts.push(parse_quote!(let __tail = #e;));
                    block.stmts.push(s);
                    block.stmts.push(Stmt::Expr(parse_quote!(__tail), None));
                } else {
                    block.stmts.push(Stmt::Expr(e, Some(Default::default())));
                    block.stmts.push(s);
                }
            } else {
                block.stmts.push(s);
            }
        }
        let spec_text = self.text("spec").unwrap_or_default();
        // unused anchors
        let all: Vec<String> = self.spec.texts.keys().cloned().collect();
        for k in all {
            if !self.used.contains(&k) && k != "implspec" && !(self.spec.opts.iter().any(|o| o == "maybeclosure") && k.starts_with("closure ")) {
                self.lost.push(format!("{}: no place for `{k}`", self.fe.path));
            }
        }
        // assemble
        let name = if self.cx.ov.rename.iter().any(|r| sig.ident == r) && self.fe.imp.is_some() {
            format_ident!("v_{}", sig.ident)
        } else {
            sig.ident.clone()
        };
        let name = self.spec.name.as_ref().map(|n| format_ident!("{}", n)).unwrap_or(name);
        // `impl Trait for &T` with a by-value receiver: a method of T taking `&self`
        let mut ref_self = false;
        if let (Some(im), false) = (&self.fe.imp, self.spec.keep_trait) {
            if let syn::Type::Reference(_) = &*im.self_ty {
                ref_self = true;
                if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
                    if r.reference.is_none() {
                        *r = parse_quote!(&self);
                    }
                }
            }
        }
        let gens = &sig.generics;
        let (ig, _, wc) = gens.split_for_impl();
        let inputs = &sig.inputs;
        let rname = self.spec.ret.clone().unwrap_or_else(|| "r".into());
        let keep_trait = self.spec.keep_trait;
        let mut out = String::new();
        let attrs = {
            let mut a = String::new();
            if !self.spec.attrs.iter().any(|a| a.contains("loop_isolation")) {
                a.push_str("#[verifier::loop_isolation(false)]\n");
            }
            for x in &self.spec.attrs {
                a.push_str(x);
                a.push('\n');
            }
            a
        };
        let vis = if keep_trait || self.spec.as_trait.is_some() { "" } else { "pub " };
        let ret_s = ret.map(|t| format!("-> ({rname}: {})", t.to_token_stream())).unwrap_or_default();
        let head = format!(
            "{attrs}{vis}fn {name} {} ({}) {ret_s} {}",
            ig.to_token_stream(),
            inputs.to_token_stream(),
            wc.to_token_stream()
        );
        let body = if self.spec.attrs.iter().any(|a| a.contains("external_body")) {
            "{ unimplemented!() }".to_string()
        } else {
            Printer::print(block.to_token_stream(), &self.texts, 1)
        };
        if let Some(im) = &self.fe.imp {
            let mut im = im.clone();
            StripAttrs.visit_item_impl_mut(&mut im);
            let (ig, _, wc) = im.generics.split_for_impl();
            let mut ty = (*im.self_ty).clone();
            if ref_self {
                if let syn::Type::Reference(r) = &*im.self_ty {
                    ty = (*r.elem).clone();
                }
            }
            if keep_trait {
                let tr = &im.trait_.as_ref().unwrap().1;
                let types: TokenStream = im.items.iter().map(|x| x.to_token_stream()).collect();
                let t = self.spec.texts.get("implspec").cloned().unwrap_or_default();
                out.push_str(&format!("impl {} {} for {} {} {{ {}\n{}\n", ig.to_token_stream(), tr.to_token_stream(), ty.to_token_stream(), wc.to_token_stream(), types, t));
            } else if let Some(tr) = &self.spec.as_trait {
                let t = self.spec.texts.get("implspec").cloned().unwrap_or_default();
                out.push_str(&format!("impl {} {} for {} {} {{\n{}\n", ig.to_token_stream(), tr, ty.to_token_stream(), wc.to_token_stream(), t));
            } else {
                out.push_str(&format!("impl {} {} {} {{\n", ig.to_token_stream(), ty.to_token_stream(), wc.to_token_stream()));
            }
        }
        out.push_str(&head);
        out.push('\n');
        out.push_str(&spec_text);
        out.push_str(&body);
        if self.fe.imp.is_some() {
            out.push_str("\n}");
        }
        out
    }

    // ---- texts -------------------------------------------------------
    fn subst(&self, t: &str, lp: Option<usize>) -> String {
        let mut out = String::new();
        let c: Vec<char> = t.chars().collect();
        let mut i = 0;
        while i < c.len() {
            if c[i] == '$' {
                let mut j = i + 1;
                while j < c.len() && (c[j].is_alphanumeric()) {
                    j += 1;
                }
                let w: String = c[i + 1..j].iter().collect();
                let r = if let Ok(n) = w.parse::<usize>() {
                    self.params.get(n).cloned()
                } else if w == "it" {
                    lp.and_then(|l| self.loop_its.get(&l).cloned())
                } else if let Some(n) = w.strip_prefix("it").and_then(|x| x.parse::<usize>().ok()) {
                    self.loop_its.get(&n).cloned()
                } else if let Some(n) = w.strip_prefix('v').and_then(|x| x.parse::<usize>().ok()) {
                    self.loop_vars.get(&n).cloned()
                } else if let Some(n) = w.strip_prefix('m').and_then(|x| x.parse::<usize>().ok()) {
                    self.muts.get(n).cloned()
                } else if let Some(n) = w.strip_prefix('c').and_then(|x| x.parse::<usize>().ok()) {
                    if n < self.collected { Some(format!("__c{n}")) } else { self.muts.get(n).cloned() }
                } else if let Some(n) = w.strip_prefix('l').and_then(|x| x.parse::<usize>().ok()) {
                    self.lets.get(n).cloned()
                } else {
                    None
                };
                match r {
                    Some(r) => {
                        out.push_str(&r);
                        i = j;
                        continue;
                    }
                    None => {}
                }
            }
            out.push(c[i]);
            i += 1;
        }
        out
    }
    fn text(&mut self, k: &str) -> Option<String> {
        let t = self.spec.texts.get(k)?;
        self.used.insert(k.to_string());
        Some(self.subst(t, None))
    }
    fn loop_text(&mut self, k: &str, n: usize) -> Option<String> {
        let key = format!("{k} {n}");
        let t = self.spec.texts.get(&key)?;
        self.used.insert(key);
        Some(self.subst(t, Some(n)))
    }
    fn stmt_text(&mut self, t: String) -> Stmt {
        let id = format_ident!("__VPP_{}__", self.texts.len());
        self.texts.push(t);
        parse_quote!(#id;)
    }
    fn spec_stmt(&mut self, t: String) -> Stmt {
        let id = format_ident!("__VPS_{}__", self.texts.len());
        self.texts.push(t);
        parse_quote!(#id;)
    }
    fn fresh(&mut self, b: &str) -> syn::Ident {
        self.fresh += 1;
        format_ident!("__{}{}", b, self.fresh)
    }

    // ---- passes ------------------------------------------------------
    /// Constants (local to the block, or of the function's module and not extracted as items) become
    /// `let` bindings of the same expression.
    fn consts(&mut self, b: &mut Block) {
        struct L;
        impl VisitMut for L {
            fn visit_block_mut(&mut self, b: &mut Block) {
                syn::visit_mut::visit_block_mut(self, b);
                let mut lets = vec![];
                b.stmts.retain(|s| match s {
                    Stmt::Item(Item::Const(c)) => {
                        lets.push(const_let(c));
                        false
                    }
                    _ => true,
                });
                lets.append(&mut b.stmts);
                b.stmts = lets;
            }
        }
        L.visit_block_mut(b);
        struct U(BTreeSet<String>);
        impl<'ast> Visit<'ast> for U {
            fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
                if let Some(i) = p.path.get_ident() {
                    self.0.insert(i.to_string());
                }
            }
            fn visit_macro(&mut self, m: &'ast syn::Macro) {
                for t in m.tokens.clone() {
                    if let proc_macro2::TokenTree::Ident(i) = t {
                        self.0.insert(i.to_string());
                    }
                }
            }
        }
        let mut u = U(BTreeSet::new());
        u.visit_block(b);
        for n in u.0 {
            let p = format!("{}::{n}", self.fe.module);
            if self.cx.ov.entries.iter().any(|e| matches!(e, crate::overlay::Entry::Item(x, _) if *x == p)) {
                continue;
            }
            if let Some(Item::Const(c)) = self.cx.ix.items.get(&p).map(|i| &i.item) {
                b.stmts.insert(0, const_let(c));
            }
        }
    }

    fn strip(&mut self, b: &mut Block) {
        struct V<'c>(&'c mut BTreeSet<String>);
        fn drop_macro(m: &syn::Macro) -> Option<&'static str> {
            let n = last_seg(&m.path);
            match n.as_str() {
                "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => Some("debug_assert"),
                "event" => Some("tracing::event"),
                _ => None,
            }
        }
        impl<'c> VisitMut for V<'c> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let d = &mut self.0;
                b.stmts.retain(|s| match s {
                    Stmt::Item(Item::Fn(f)) => {
                        d.insert(format!("nested fn {} hoisted", f.sig.ident));
                        false
                    }
                    Stmt::Item(Item::Use(_)) => false,
                    Stmt::Local(l) => {
                        let t = l.init.as_ref().map(|i| i.expr.to_token_stream().to_string()).unwrap_or_default();
                        if t.contains("tracing :: span") {
                            d.insert("tracing spans".into());
                            return false;
                        }
                        true
                    }
                    Stmt::Macro(m) => match drop_macro(&m.mac) {
                        Some(w) => {
                            d.insert(format!("{w} statements"));
                            false
                        }
                        None => true,
                    },
                    Stmt::Expr(Expr::Macro(m), _) => match drop_macro(&m.mac) {
                        Some(w) => {
                            d.insert(format!("{w} statements"));
                            false
                        }
                        None => true,
                    },
                    _ => true,
                });
                syn::visit_mut::visit_block_mut(self, b);
            }
        }
        let mut d = BTreeSet::new();
        V(&mut d).visit_block_mut(b);
        self.dropped.extend(d);
    }

    fn rename(&mut self, b: &mut Block) {
        struct V<'c>(&'c [String]);
        impl<'c> VisitMut for V<'c> {
            fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
                syn::visit_mut::visit_expr_method_call_mut(self, m);
                if m.method == "all" && m.args.len() == 1 {
                    m.method = format_ident!("all_");
                }
                if self.0.iter().any(|r| m.method == r) {
                    // x.get(a..) -> x.v_get_from(a)
                    if m.method == "get" && m.args.len() == 1 {
                        if let Expr::Range(r) = &m.args[0] {
                            if let (Some(s), None) = (&r.start, &r.end) {
                                let s = (**s).clone();
                                m.method = format_ident!("v_get_from");
                                m.args = std::iter::once(s).collect();
                                return;
                            }
                        }
                    }
                    m.method = format_ident!("v_{}", m.method);
                    m.turbofish = None;
                }
            }
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                syn::visit_mut::visit_expr_mut(self, e);
                // `&x as *const T`: the address as an identity
                if let Expr::Cast(c) = e {
                    if matches!(&*c.ty, syn::Type::Ptr(p) if p.const_token.is_some()) && matches!(&*c.expr, Expr::Reference(_)) {
                        let x = &c.expr;
                        *e = parse_quote!(v_addr(#x));
                    }
                }
            }
            fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
                syn::visit_mut::visit_expr_call_mut(self, c);
                if let Expr::Path(p) = &mut *c.func {
                    if p.qself.is_none() && p.path.to_token_stream().to_string() == "String :: from" {
                        p.path = parse_quote!(v_string_from);
                    }
                }
            }
        }
        V(&self.cx.ov.rename).visit_block_mut(b);
    }

    fn option_fn(&self, name: &str) -> bool {
        if self.cx.ov.optfn.iter().any(|x| x == name) {
            return true;
        }
        let mut any = false;
        for (p, v) in &self.cx.ix.fns {
            if p.rsplit("::").next() == Some(name) {
                for f in v {
                    let t = f.sig.output.to_token_stream().to_string();
                    if t.replace(' ', "").starts_with("->Option<") {
                        any = true;
                    } else {
                        return false;
                    }
                }
            }
        }
        any
    }
    fn outer_name(e: &Expr) -> Option<String> {
        match e {
            Expr::MethodCall(m) => Some(m.method.to_string()),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => Some(last_seg(&p.path)),
                _ => None,
            },
            Expr::Paren(p) => Self::outer_name(&p.expr),
            _ => None,
        }
    }
    fn option_map(&mut self, b: &mut Block) {
        /// a closure whose body may take the place of the call: no `return` or `?` of its own
        fn plain(e: &Expr, n: usize) -> Option<(Vec<Pat>, Expr)> {
            struct R(bool);
            impl<'ast> Visit<'ast> for R {
                fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
                    self.0 = true;
                }
                fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
                    self.0 = true;
                }
                fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
            }
            let Expr::Closure(c) = e else { return None };
            if c.inputs.len() != n {
                return None;
            }
            let mut r = R(false);
            r.visit_expr(&c.body);
            if r.0 {
                return None;
            }
            let pats = c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
            Some((pats, (*c.body).clone()))
        }
        struct V<'x, 'a, 'b>(&'x FnLower<'a, 'b>);
        impl<'x, 'a, 'b> VisitMut for V<'x, 'a, 'b> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                syn::visit_mut::visit_expr_mut(self, e);
                let Expr::MethodCall(m) = e else { return };
                let r = &m.receiver;
                let name = m.method.to_string();
                if m.args.len() == 2 {
                    let d = &m.args[0];
                    if let Some((p, body)) = plain(&m.args[1], 1) {
                        let p = &p[0];
                        match (name.as_str(), plain(d, 0)) {
                            ("map_or", _) if matches!(d, Expr::Lit(_) | Expr::Path(_) | Expr::Field(_)) => {
                                *e = parse_quote!(match #r { Some(#p) => #body, None => #d });
                            }
                            ("map_or_else", Some((_, d))) => {
                                *e = parse_quote!(match #r { Some(#p) => #body, None => #d });
                            }
                            _ => {}
                        }
                    }
                    return;
                }
                if m.args.len() != 1 {
                    return;
                }
                if name == "then_some" {
                    let x = &m.args[0];
                    if matches!(x, Expr::Lit(_) | Expr::Path(_) | Expr::Field(_) | Expr::Reference(_)) {
                        *e = parse_quote!(if #r { Some(#x) } else { None });
                    }
                    return;
                }
                if let Some((_, body)) = plain(&m.args[0], 0) {
                    match name.as_str() {
                        "ok_or_else" => *e = parse_quote!(match #r { Some(__x) => Ok(__x), None => Err(#body) }),
                        "unwrap_or_else" => *e = parse_quote!(match #r { Some(__x) => __x, None => #body }),
                        "or_else" => *e = parse_quote!(match #r { Some(__x) => Some(__x), None => #body }),
                        "then" => *e = parse_quote!(if #r { Some(#body) } else { None }),
                        _ => {}
                    }
                    return;
                }
                if let Some((p, body)) = plain(&m.args[0], 1) {
                    let p = &p[0];
                    let opt = FnLower::outer_name(r).map_or(false, |n| self.0.option_fn(&n));
                    match name.as_str() {
                        "map_err" => *e = parse_quote!(match #r { Ok(__x) => Ok(__x), Err(#p) => Err(#body) }),
                        "is_some_and" => *e = parse_quote!(match #r { Some(#p) => #body, None => false }),
                        "is_none_or" => *e = parse_quote!(match #r { Some(#p) => #body, None => true }),
                        "unwrap_or_else" => *e = parse_quote!(match #r { Ok(__x) => __x, Err(#p) => #body }),
                        "or_else" => *e = parse_quote!(match #r { Ok(__x) => Ok(__x), Err(#p) => #body }),
                        "map" if opt => *e = parse_quote!(match #r { Some(#p) => Some(#body), None => None }),
                        "and_then" if opt => *e = parse_quote!(match #r { Some(#p) => #body, None => None }),
                        "filter" if opt => *e = parse_quote!(match #r { Some(__x) => { if { let #p = &__x; #body } { Some(__x) } else { None } } None => None }),
                        _ => {}
                    }
                }
            }
        }
        V(self).visit_block_mut(b);
    }

    fn entry(&mut self, b: &mut Block) {
        struct V<'x, 'a, 'b>(&'x mut FnLower<'a, 'b>);
        impl<'x, 'a, 'b> VisitMut for V<'x, 'a, 'b> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                syn::visit_mut::visit_expr_mut(self, e);
                let Expr::Unary(u) = e else { return };
                if !matches!(u.op, syn::UnOp::Deref(_)) {
                    return;
                }
                let Expr::MethodCall(m) = &*u.expr else { return };
                let with_key = m.method == "or_insert_with_key";
                if !(with_key || m.method == "or_insert_with") {
                    return;
                }
                let Expr::MethodCall(en) = &*m.receiver else { return };
                if en.method != "entry" {
                    return;
                }
                let Expr::Closure(c) = &m.args[0] else { return };
                let map = &en.receiver;
                let key = &en.args[0];
                let body = &c.body;
                let k = self.0.fresh("k");
                let v = self.0.fresh("v");
                let bind: TokenStream = if with_key {
                    let p = &c.inputs[0];
                    quote!(let #p = &#k;)
                } else {
                    quote!()
                };
                *e = parse_quote!({
                    let #k = #key;
                    match #map.v_get_copied(&#k) {
                        Some(#v) => #v,
                        None => { #bind let #v = #body; #map.v_put(#k, #v); #v }
                    }
                });
            }
        }
        V(self).visit_block_mut(b);
    }

    /// `let it = CHAIN; for p in it {..}` with `it` used once: put CHAIN into the loop header.
    fn lets_into_for(&mut self, b: &mut Block) {
        struct C<'c>(&'c syn::Ident, usize);
        impl<'ast, 'c> Visit<'ast> for C<'c> {
            fn visit_ident(&mut self, i: &'ast syn::Ident) {
                if i == self.0 {
                    self.1 += 1;
                }
            }
        }
        struct V;
        impl VisitMut for V {
            fn visit_block_mut(&mut self, b: &mut Block) {
                syn::visit_mut::visit_block_mut(self, b);
                let mut i = 0;
                while i < b.stmts.len() {
                    let mut done = false;
                    if let Stmt::Local(l) = &b.stmts[i] {
                        if let (Some(id), Some(init)) = (pat_ident(&l.pat), &l.init) {
                            let is_chain = matches!(&*init.expr, Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "map"|"flat_map"|"filter"|"enumerate"|"filter_map"|"rev"|"iter"|"into_iter"|"chars"));
                            if is_chain && init.diverge.is_none() {
                                for j in i + 1..b.stmts.len() {
                                    let mut target = None;
                                    if let Stmt::Expr(Expr::ForLoop(f), _) = &b.stmts[j] {
                                        if let Expr::Path(p) = &*f.expr {
                                            if p.path.is_ident(&id) {
                                                target = Some(j);
                                            }
                                        }
                                    }
                                    let mut c = C(&id, 0);
                                    c.visit_stmt(&b.stmts[j]);
                                    if let Some(j) = target {
                                        let later: usize = b.stmts[j + 1..]
                                            .iter()
                                            .map(|s| {
                                                let mut c = C(&id, 0);
                                                c.visit_stmt(s);
                                                c.1
                                            })
                                            .sum();
                                        if c.1 == 1 && later == 0 {
                                            let ex = init.expr.clone();
                                            if let Stmt::Expr(Expr::ForLoop(f), _) = &mut b.stmts[j] {
                                                f.expr = ex;
                                            }
                                            b.stmts.remove(i);
                                            done = true;
                                        }
                                        break;
                                    }
                                    if c.1 > 0 {
                                        break;
                                    }
                                }
                            }
                        }
                    }
                    if !done {
                        i += 1;
                    }
                }
            }
        }
        V.visit_block_mut(b);
    }

    fn nom(&mut self, b: &mut Block) {
        if self.spec.opts.iter().any(|o| o == "nom") {
            let mut n = crate::nomx::Nomx::new(self.many, {
                let s = self.fe.sig.output.to_token_stream().to_string();
                s.contains("Result") && !s.contains("IResult")
            });
            n.visit_block_mut(b);
            self.many = n.loops();
            self.dropped.extend(n.used.iter().map(|u| format!("nom combinator {u} written out")));
        }
    }

    /// `X.map(|p| e).collect()` into a Vec: the loop that pushes every `e`.
    fn collects(&mut self, b: &mut Block) {
        struct V<'x, 'a, 'b>(&'x mut FnLower<'a, 'b>);
        impl<'x, 'a, 'b> VisitMut for V<'x, 'a, 'b> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::MethodCall(m) = e {
                    if m.method == "collect" && m.args.is_empty() {
                        if let Expr::MethodCall(mm) = &*m.receiver {
                            if mm.method == "map" && mm.args.len() == 1 {
                                let c = match &mm.args[0] {
                                    Expr::Closure(c) if c.inputs.len() == 1 => Some((c.inputs[0].clone(), (*c.body).clone())),
                                    Expr::Path(p) if !matches!(last_seg(&p.path).as_str(), "to_string") => Some((parse_quote!(__x), parse_quote!(#p(__x)))),
                                    Expr::Path(_) => Some((parse_quote!(__x), parse_quote!(__x.to_string()))),
                                    _ => None,
                                };
                                if let Some((p, body)) = c {
                                    let r = &mm.receiver;
                                    let id = format_ident!("__c{}", self.0.collected);
                                    self.0.collected += 1;
                                    self.0.dropped.insert("map(..).collect() into a Vec written as the loop that pushes".into());
                                    *e = parse_quote!({ let mut #id = Vec::new(); for #p in #r { #id.push(#body); } #id });
                                }
                            }
                        }
                    }
                }
                syn::visit_mut::visit_expr_mut(self, e);
            }
        }
        V(self).visit_block_mut(b);
    }

    /// Lower `for` loops; adapter chains in the header become nested loops / conditionals.
    fn for_loops(&mut self, b: &mut Block) {
        struct V<'x, 'a, 'b>(&'x mut FnLower<'a, 'b>, usize);
        impl<'x, 'a, 'b> V<'x, 'a, 'b> {
            fn lower(&mut self, label: &Option<syn::Label>, pat: &Pat, ex: &Expr, body: &Block) -> Expr {
                if let Expr::MethodCall(m) = ex {
                    if m.args.len() == 1 {
                        if let Expr::Closure(c) = &m.args[0] {
                            if c.inputs.len() == 1 {
                                let cp = &c.inputs[0];
                                let cb = &c.body;
                                let stmts = &body.stmts;
                                if m.method == "map" {
                                    let nb: Block = parse_quote!({ let #pat = #cb; #(#stmts)* });
                                    return self.lower(label, cp, &m.receiver, &nb);
                                }
                                if m.method == "filter" {
                                    let nb: Block = parse_quote!({ let __cand = __cand0; if { let #cp = &__cand; #cb } { let #pat = __cand; #(#stmts)* } });
                                    return self.lower(label, &parse_quote!(__cand0), &m.receiver, &nb);
                                }
                                if m.method == "flat_map" && !has_break(body) {
                                    let inner = Expr::ForLoop(parse_quote!(for #pat in #cb #body));
                                    let nb: Block = parse_quote!({ #inner });
                                    return self.lower(label, cp, &m.receiver, &nb);
                                }
                            }
                        }
                    }
                }
                let n = self.1;
                self.1 += 1;
                let it = format_ident!("__it{}", n);
                let src: Expr = if let Expr::Range(r) = ex {
                    match (&r.start, &r.end, &r.limits) {
                        (Some(a), Some(z), syn::RangeLimits::HalfOpen(_)) => parse_quote!(v_range(#a, #z)),
                        _ => parse_quote!((#ex).v_into_iter()),
                    }
                } else {
                    parse_quote!((#ex).v_into_iter())
                };
                let mut body = body.clone();
                // inner loops are lowered after the outer one so numbering is pre-order
                self.visit_block_mut(&mut body);
                let mut pat = pat.clone();
                let mut derefs: Vec<Stmt> = vec![];
                unref(&mut pat, &mut derefs, n);
                derefs.extend(body.stmts.iter().cloned());
                let stmts = &derefs;
                let marker = format_ident!("__VPLOOP_{}__", n);
                if self.0.spec.next_loops.contains(&n) {
                    parse_quote!({ let mut #it = #src; #label loop { #marker; match #it.next() { Some(#pat) => { #(#stmts)* } None => { break; } } } })
                } else {
                    parse_quote!({ let mut #it = #src; #label while #it.has_next() { #marker; let #pat = #it.take_next(); #(#stmts)* } })
                }
            }
        }
        impl<'x, 'a, 'b> VisitMut for V<'x, 'a, 'b> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::ForLoop(f) => {
                        let f = f.clone();
                        *e = self.lower(&f.label, &f.pat, &f.expr, &f.body);
                    }
                    Expr::While(w) => {
                        let n = self.1;
                        self.1 += 1;
                        let marker = format_ident!("__VPLOOP_{}__", n);
                        self.visit_expr_mut(&mut w.cond);
                        self.visit_block_mut(&mut w.body);
                        w.body.stmts.insert(0, parse_quote!(#marker;));
                    }
                    Expr::Loop(w) => {
                        let n = self.1;
                        self.1 += 1;
                        let marker = format_ident!("__VPLOOP_{}__", n);
                        self.visit_block_mut(&mut w.body);
                        w.body.stmts.insert(0, parse_quote!(#marker;));
                    }
                    _ => syn::visit_mut::visit_expr_mut(self, e),
                }
            }
        }
        V(self, 0).visit_block_mut(b);
    }

    /// Replace loop markers by the overlay's invariants and loop-start/-end texts.
    fn loop_texts(&mut self, b: &mut Block) {
        struct V<'x, 'a, 'b>(&'x mut FnLower<'a, 'b>);
        impl<'x, 'a, 'b> VisitMut for V<'x, 'a, 'b> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                let mut lowered_for = None;
                let mut var = None;
                if let Expr::While(w) = e {
                    if let Expr::Let(l) = &*w.cond {
                        struct P(Option<String>);
                        impl<'ast> syn::visit::Visit<'ast> for P {
                            fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
                                if self.0.is_none() {
                                    self.0 = Some(i.ident.to_string());
                                }
                            }
                        }
                        let mut p = P(None);
                        syn::visit::Visit::visit_pat(&mut p, &l.pat);
                        var = p.0;
                    }
                }
                let (body, is_while) = match e {
                    Expr::While(w) => {
                        if let Expr::MethodCall(m) = &*w.cond {
                            if m.method == "has_next" {
                                lowered_for = Some(m.receiver.to_token_stream().to_string());
                            }
                        }
                        (&mut w.body, true)
                    }
                    Expr::Loop(w) => (&mut w.body, false),
                    _ => {
                        syn::visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                };
                let _ = is_while;
                let mut n = None;
                if let Some(Stmt::Expr(Expr::Path(p), _)) = body.stmts.first() {
                    let s = last_seg(&p.path);
                    if let Some(x) = s.strip_prefix("__VPLOOP_") {
                        n = x.trim_end_matches('_').parse::<usize>().ok();
                    }
                }
                let Some(n) = n else {
                    syn::visit_mut::visit_expr_mut(self, e);
                    return;
                };
                body.stmts.remove(0);
                self.0.loop_its.insert(n, format!("__it{n}"));
                if let Some(v) = var {
                    self.0.loop_vars.insert(n, v);
                }
                let t = self.0.loop_text("loop", n);
                if !["loop", "loopstart", "loopend"].iter().any(|k| self.0.spec.texts.contains_key(&format!("{k} {n}"))) {
                    self.0.bare_loops += 1;
                }
                let full = match lowered_for {
                    Some(it) => format!(
                        "invariant {it}.pos() <= {it}.all().len(), {it}.all() == {it}_all,\n{}\ndecreases {it}.all().len() - {it}.pos(),\n",
                        t.unwrap_or_default()
                    ),
                    None => t.unwrap_or_default(),
                };
                if let Some(t) = self.0.loop_text("loopstart", n) {
                    let s = self.0.stmt_text(t);
                    let at = if full.contains("_all") { 1 } else { 0 };
                    body.stmts.insert(at.min(body.stmts.len()), s);
                }
                if let Some(t) = self.0.loop_text("loopend", n) {
                    let s = self.0.stmt_text(t);
                    if let Some(Stmt::Expr(e, semi)) = body.stmts.last_mut() {
                        if semi.is_none() {
                            let _ = e;
                            *semi = Some(Default::default());
                        }
                    }
                    body.stmts.push(s);
                }
                let s = self.0.spec_stmt(full);
                body.stmts.insert(0, s);
                syn::visit_mut::visit_block_mut(self, body);
                if let Expr::While(w) = e {
                    self.visit_expr_mut(&mut w.cond);
                }
            }
            fn visit_block_mut(&mut self, b: &mut Block) {
                // ghost copy of the sequence a lowered for loop ranges over
                let mut i = 0;
                while i < b.stmts.len() {
                    if let Stmt::Local(l) = &b.stmts[i] {
                        if let Some(id) = pat_ident(&l.pat) {
                            let s = id.to_string();
                            if s.starts_with("__it") && s[4..].chars().all(|c| c.is_ascii_digit()) {
                                let n: usize = s[4..].parse().unwrap();
                                if !self.0.spec.next_loops.contains(&n) {
                                    let st = self.0.stmt_text(format!("let ghost {s}_all = {s}.all();\n"));
                                    b.stmts.insert(i + 1, st);
                                    i += 1;
                                }
                            }
                        }
                    }
                    i += 1;
                }
                syn::visit_mut::visit_block_mut(self, b);
            }
        }
        V(self).visit_block_mut(b);
    }

    /// `@before NAME K` / `@after NAME K`: around the K-th innermost statement that calls NAME.
    fn hints(&mut self, b: &mut Block) {
        let mut wanted: Vec<(bool, String, usize, String)> = vec![];
        for k in self.spec.texts.keys() {
            let w: Vec<&str> = k.split_whitespace().collect();
            if w.len() >= 2 && (w[0] == "before" || w[0] == "after") {
                let n = w.get(2).and_then(|x| x.parse().ok()).unwrap_or(0);
                wanted.push((w[0] == "before", w[1].to_string(), n, k.clone()));
            }
        }
        for (before, name, n, key) in wanted {
            struct Calls<'c>(&'c str, bool);
            impl<'ast, 'c> Visit<'ast> for Calls<'c> {
                fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
                    if m.method == self.0 {
                        self.1 = true;
                    }
                    syn::visit::visit_expr_method_call(self, m);
                }
                fn visit_expr_call(&mut self, m: &'ast syn::ExprCall) {
                    if let Expr::Path(p) = &*m.func {
                        if last_seg(&p.path) == self.0 {
                            self.1 = true;
                        }
                    }
                    syn::visit::visit_expr_call(self, m);
                }
            }
            fn calls(s: &Stmt, name: &str) -> bool {
                let mut c = Calls(name, false);
                c.visit_stmt(s);
                c.1
            }
            struct Inner<'c>(&'c str, bool);
            impl<'ast, 'c> Visit<'ast> for Inner<'c> {
                fn visit_block(&mut self, b: &'ast Block) {
                    if b.stmts.iter().any(|s| calls(s, self.0)) {
                        self.1 = true;
                    }
                }
            }
            struct V<'x> {
                name: &'x str,
                n: usize,
                seen: usize,
                before: bool,
                st: Stmt,
                done: bool,
                bound: Vec<String>,
            }
            impl<'x> VisitMut for V<'x> {
                fn visit_block_mut(&mut self, b: &mut Block) {
                    let mut i = 0;
                    while i < b.stmts.len() {
                        if !self.done && calls(&b.stmts[i], self.name) {
                            let mut inn = Inner(self.name, false);
                            inn.visit_stmt(&b.stmts[i]);
                            if inn.1 {
                                self.visit_stmt_mut(&mut b.stmts[i]);
                            } else {
                                if self.seen == self.n {
                                    self.done = true;
                                    if let Stmt::Local(l) = &b.stmts[i] {
                                        struct P<'c>(&'c mut Vec<String>);
                                        impl<'ast, 'c> Visit<'ast> for P<'c> {
                                            fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
                                                self.0.push(p.ident.to_string());
                                            }
                                        }
                                        P(&mut self.bound).visit_pat(&l.pat);
                                    }
                                    if self.before {
                                        b.stmts.insert(i, self.st.clone());
                                    } else if let Stmt::Expr(e, None) = b.stmts[i].clone() {
                                        b.stmts[i] = parse_quote!(let __aft = #e;);
                                        b.stmts.insert(i + 1, self.st.clone());
                                        b.stmts.insert(i + 2, Stmt::Expr(parse_quote!(__aft), None));
                                    } else {
                                        b.stmts.insert(i + 1, self.st.clone());
                                    }
                                    return;
                                }
                                self.seen += 1;
                            }
                        }
                        i += 1;
                    }
                }
            }
            let t = self.spec.texts.get(&key).cloned().unwrap();
            let t = self.subst(&t, None);
            let st = self.stmt_text(t);
            let at = self.texts.len() - 1;
            let mut v = V { name: &name, n, seen: 0, before, st, done: false, bound: vec![] };
            v.visit_block_mut(b);
            // `$pN`: the N-th name bound by the statement
            for (k, s) in v.bound.iter().enumerate() {
                self.texts[at] = self.texts[at].replace(&format!("$p{k}"), s);
            }
            if v.done {
                self.used.insert(key);
            }
        }
    }

    /// Number the remaining closures and attach overlay contracts or, for predicate closures,
    /// the automatic `ensures result == (body)`.
    fn closures(&mut self, b: &mut Block) {
        struct V<'x, 'a, 'b>(&'x mut FnLower<'a, 'b>, usize);
        impl<'x, 'a, 'b> V<'x, 'a, 'b> {
            fn annotate(&mut self, c: &mut syn::ExprClosure, predicate: bool) {
                let n = self.1;
                self.1 += 1;
                for (i, p) in c.inputs.iter_mut().enumerate() {
                    if matches!(p, Pat::Wild(_)) {
                        let id = quote::format_ident!("__w{i}");
                        *p = parse_quote!(#id);
                    }
                }
                let key = format!("closure {n}");
                if let Some(t) = self.0.spec.texts.get(&key).cloned() {
                    self.0.used.insert(key);
                    // text: optional first line `|params| -> (r: T)` replaces the head
                    let mut t = self.0.subst(&t, None);
                    for (i, p) in c.inputs.iter().enumerate() {
                        if let Some(id) = pat_ident(p) {
                            t = t.replace(&format!("$p{i}"), &id.to_string());
                        }
                    }
                    let mut head = None;
                    let mut rest = String::new();
                    for l in t.lines() {
                        if let Some(h) = l.trim().strip_prefix("ret ") {
                            head = Some(h.to_string());
                        } else if let Some(h) = l.trim().strip_prefix("params ") {
                            for (i, p) in h.split(';').enumerate() {
                                if let Some(x) = c.inputs.iter_mut().nth(i) {
                                    let ty: syn::Type = syn::parse_str(p.trim()).expect("closure param type");
                                    let pat = match &*x {
                                        Pat::Type(pt) => (*pt.pat).clone(),
                                        p => p.clone(),
                                    };
                                    *x = Pat::Type(parse_quote!(#pat: #ty));
                                }
                            }
                        } else {
                            rest.push_str(l);
                            rest.push('\n');
                        }
                    }
                    let h = head.map(|h| format!("-> {h}\n")).unwrap_or_default();
                    self.wrap(c, format!("{h}{rest}"));
                } else if predicate {
                    let body = &c.body;
                    let mut be: Expr = (**body).clone();
                    SpecExpr.visit_expr_mut(&mut be);
                    let t = format!("-> (__b: bool) ensures __b == ({})\n", be.to_token_stream());
                    self.wrap(c, t);
                }
            }
            fn wrap(&mut self, c: &mut syn::ExprClosure, t: String) {
                let s = self.0.spec_stmt(t);
                c.output = syn::ReturnType::Default;
                let body = &c.body;
                let stmts: Vec<Stmt> = match &**body {
                    Expr::Block(b) => b.block.stmts.clone(),
                    e => vec![Stmt::Expr(e.clone(), None)],
                };
                *c.body = parse_quote!({ #s #(#stmts)* });
            }
        }
        impl<'x, 'a, 'b> VisitMut for V<'x, 'a, 'b> {
            fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
                self.visit_expr_mut(&mut m.receiver);
                let pred = matches!(
                    m.method.to_string().as_str(),
                    "any" | "all" | "filter" | "find" | "position" | "take_while" | "trim_start_matches"
                );
                for a in m.args.iter_mut() {
                    if let Expr::Closure(c) = a {
                        self.annotate(c, pred);
                        self.visit_expr_mut(&mut c.body);
                    } else {
                        self.visit_expr_mut(a);
                    }
                }
            }
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Call(c) = e {
                    if matches!(FnLower::outer_name(&Expr::Call(c.clone())).as_deref(), Some("v_nom_take_till" | "v_nom_satisfy")) {
                        if let Some(Expr::Closure(k)) = c.args.first_mut() {
                            self.annotate(k, true);
                            return;
                        }
                    }
                }
                if let Expr::Closure(c) = e {
                    self.annotate(c, false);
                }
                syn::visit_mut::visit_expr_mut(self, e);
            }
        }
        V(self, 0).visit_block_mut(b);
    }

    fn macros(&mut self, b: &mut Block) {
        crate::lower_macros(b);
    }

    fn custom(&mut self, _b: &mut Block) {}

    // ---- inlining ----------------------------------------------------
    fn inline_calls(&mut self, b: &mut Block) {
        for _round in 0..4 {
            let mut v = Inliner { lw: self, changed: false, closures: 0 };
            v.tail_block(b);
            v.visit_block_mut(b);
            let ch = v.changed;
            if !ch {
                break;
            }
        }
    }
}

/// `const X: T = e` as a `let`; a reference to an array literal as the array.
fn const_let(c: &syn::ItemConst) -> Stmt {
    let (i, t, e) = (&c.ident, &c.ty, &c.expr);
    if let Expr::Reference(r) = &**e {
        if let Expr::Array(a) = &*r.expr {
            return parse_quote!(let #i = #a;);
        }
    }
    parse_quote!(let #i: #t = #e;)
}

/// `&x` patterns: bind the reference and copy out of it.
fn unref(p: &mut Pat, out: &mut Vec<Stmt>, n: usize) {
    match p {
        Pat::Reference(r) if r.mutability.is_none() => {
            let inner = (*r.pat).clone();
            let id = format_ident!("__ref{}_{}", n, out.len());
            out.push(parse_quote!(let #inner = *#id;));
            *p = parse_quote!(#id);
        }
        Pat::Tuple(t) => {
            for x in t.elems.iter_mut() {
                unref(x, out, n);
            }
        }
        _ => {}
    }
}

pub fn has_break(b: &Block) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_break(&mut self, _: &'ast syn::ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}

fn has_return(b: &Block) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}

/// Executable predicate -> specification predicate (only syntactic differences).
struct SpecExpr;
impl VisitMut for SpecExpr {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.method == "as_str" && m.args.is_empty() {
                let r = &m.receiver;
                *e = parse_quote!(#r.view());
            } else if m.method == "is_whitespace" && m.args.is_empty() {
                let r = &m.receiver;
                *e = parse_quote!(white(#r));
            } else if m.method == "is_alphabetic" && m.args.is_empty() {
                let r = &m.receiver;
                *e = parse_quote!(alphabetic(#r));
            }
        }
    }
}

struct SelfRename;
impl VisitMut for SelfRename {
    fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
        if i == "self" {
            *i = format_ident!("self_");
        }
    }
}

struct AssocSubst<'c>(&'c BTreeMap<String, syn::Type>);
impl<'c> VisitMut for AssocSubst<'c> {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t {
            if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(x) = self.0.get(&p.path.segments[1].ident.to_string()) {
                    *t = x.clone();
                    return;
                }
            }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
}

struct LetChain;
impl VisitMut for LetChain {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::If(i) = e {
            if i.else_branch.is_none() {
                if let Expr::Binary(bin) = &*i.cond {
                    if matches!(bin.op, syn::BinOp::And(_)) {
                        fn contains_let(e: &Expr) -> bool {
                            match e {
                                Expr::Let(_) => true,
                                Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
                                    contains_let(&b.left) || contains_let(&b.right)
                                }
                                _ => false,
                            }
                        }
                        if contains_let(&i.cond) {
                            let l = &bin.left;
                            let r = &bin.right;
                            let t = &i.then_branch;
                            let mut inner: Expr = parse_quote!(if #r #t);
                            self.visit_expr_mut(&mut inner);
                            let mut outer: Expr = parse_quote!(if #l { #inner });
                            self.visit_expr_mut(&mut outer);
                            *e = outer;
                        }
                    }
                }
            }
        }
    }
}

struct Inliner<'x, 'a, 'b> {
    lw: &'x mut FnLower<'a, 'b>,
    changed: bool,
    closures: usize,
}

impl<'x, 'a, 'b> Inliner<'x, 'a, 'b> {
    /// Decide whether a call to `name` must be inlined; returns the callee.
    fn target(&self, name: &str, method: bool, qualifier: Option<&str>) -> Option<FnEntry> {
        let cx = self.lw.cx;
        // explicit
        for p in &cx.ov.inline {
            if p.rsplit("::").next() == Some(name) {
                if let Some(f) = find_fn(cx.ix, p) {
                    if f.imp.is_some() == method || !method {
                        return Some(f.clone());
                    }
                }
            }
        }
        // automatic: a crate function with this name that is not emitted under a contract
        const STD: &[&str] = &[
            "push", "pop", "get", "len", "is_empty", "iter", "iter_mut", "into_iter", "next", "new", "default",
            "from", "into", "insert", "remove", "contains", "clone", "fmt", "extend", "clear", "map", "filter",
            "find", "any", "all", "position", "first", "last", "choose", "add", "push_back", "pop_front",
        ];
        if method && STD.contains(&name) || !method && qualifier.is_some_and(|q| q != "Self") && STD.contains(&name) {
            return None;
        }
        let mut cands: Vec<&FnEntry> = vec![];
        for (p, v) in &cx.ix.fns {
            if p.rsplit("::").next() != Some(name) || p.contains('@') {
                continue;
            }
            if cx.emitted.contains(p) {
                return None;
            }
            for f in v {
                let is_method = f.imp.is_some();
                if method && is_method && matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(_))) {
                    cands.push(f);
                }
                if !method && (qualifier.is_none() && !is_method || qualifier.is_some() && is_method || qualifier.is_some() && !is_method) {
                    cands.push(f);
                }
            }
        }
        // same module preferred
        let same: Vec<&&FnEntry> = cands.iter().filter(|f| f.module == self.lw.fe.module).collect();
        let f = if same.len() == 1 { (*same[0]).clone() } else if cands.len() == 1 { cands[0].clone() } else { return None };
        if method && cx.ov.rename.iter().any(|r| r == name) && f.module != self.lw.fe.module {
            return None;
        }
        Some(f)
    }

    fn expand(&mut self, f: &FnEntry, recv: Option<Expr>, args: Vec<Expr>, at: At) -> Option<Expr> {
        let mut block = f.block.clone();
        StripAttrs.visit_block_mut(&mut block);
        self.lw.strip(&mut block);
        let mut ok = f.path != self.lw.fe.path;
        if ok && has_return(&block) {
            // leaving the helper must leave the caller the same way, or be rewritten into nested branches
            let leaves = match at {
                At::Tail => true,
                At::Try => only_failures(&block),
                At::Plain => false,
            };
            if !leaves {
                match elim_returns(&block.stmts, ret_kind(&f.sig)) {
                    Some(s) => block.stmts = s,
                    None => ok = false,
                }
            }
        }
        if !ok {
            self.lw.lost.push(format!("helper {} cannot be inlined", f.path));
            return None;
        }
        self.lw.fresh += 1;
        let suffix = format!("__i{}", self.lw.fresh);
        // rename locals
        let mut locals: BTreeSet<String> = BTreeSet::new();
        struct L<'c>(&'c mut BTreeSet<String>);
        impl<'ast, 'c> Visit<'ast> for L<'c> {
            fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
                let s = p.ident.to_string();
                if s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
                    self.0.insert(s);
                }
            }
        }
        L(&mut locals).visit_block(&block);
        let mut closures: BTreeMap<String, syn::ExprClosure> = BTreeMap::new();
        let mut same: BTreeMap<String, Expr> = BTreeMap::new();
        let mut binds: Vec<Stmt> = vec![];
        let mut ai = args.into_iter();
        for p in &f.sig.inputs {
            match p {
                syn::FnArg::Receiver(_) => {}
                syn::FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let id = pat_ident(&t.pat)?;
                    let m0 = matches!(&*t.pat, Pat::Ident(i) if i.mutability.is_some());
                    let by_ref = matches!(&*t.ty, syn::Type::Reference(_) | syn::Type::ImplTrait(_));
                    let plain = matches!(&a, Expr::Path(p) if p.path.get_ident().is_some());
                    if let Expr::Closure(c) = a {
                        closures.insert(id.to_string(), c);
                    } else if plain && by_ref && !m0 && !locals.contains(&id.to_string()) {
                        same.insert(id.to_string(), a);
                    } else {
                        locals.insert(id.to_string());
                        let nid = format_ident!("{}{}", id, suffix);
                        let m = matches!(&*t.pat, Pat::Ident(i) if i.mutability.is_some());
                        let by_mut = matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some());
                        if by_mut && matches!(a, Expr::Path(_) | Expr::Field(_)) {
                            binds.push(parse_quote!(let #nid = &mut *#a;));
                        } else if m {
                            binds.push(parse_quote!(let mut #nid = #a;));
                        } else {
                            binds.push(parse_quote!(let #nid = #a;));
                        }
                    }
                }
            }
        }
        struct R<'c> {
            locals: &'c BTreeSet<String>,
            suffix: &'c str,
            recv: Option<Expr>,
            closures: &'c BTreeMap<String, syn::ExprClosure>,
            same: &'c BTreeMap<String, Expr>,
        }
        impl<'c> VisitMut for R<'c> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Call(c) = e {
                    if let Expr::Path(p) = &*c.func {
                        if let Some(id) = p.path.get_ident() {
                            if let Some(cl) = self.closures.get(&id.to_string()) {
                                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                                for a in args.iter_mut() {
                                    self.visit_expr_mut(a);
                                }
                                let pats = cl.inputs.iter();
                                let body = &cl.body;
                                *e = parse_quote!({ #(let #pats = #args;)* #body });
                                return;
                            }
                        }
                    }
                }
                if let Expr::Path(p) = e {
                    if p.qself.is_none() {
                        if let Some(id) = p.path.get_ident() {
                            let s = id.to_string();
                            if s == "self" {
                                if let Some(r) = &self.recv {
                                    *e = r.clone();
                                }
                                return;
                            }
                            if self.locals.contains(&s) {
                                let n = format_ident!("{}{}", s, self.suffix);
                                *e = parse_quote!(#n);
                                return;
                            }
                            if let Some(x) = self.same.get(&s) {
                                *e = x.clone();
                                return;
                            }
                        }
                    }
                }
                if let Expr::Struct(s) = e {
                    for f in s.fields.iter_mut() {
                        if f.colon_token.is_none() {
                            f.colon_token = Some(Default::default());
                        }
                    }
                }
                syn::visit_mut::visit_expr_mut(self, e);
            }
            fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
                let s = p.ident.to_string();
                if self.locals.contains(&s) {
                    p.ident = format_ident!("{}{}", s, self.suffix);
                }
            }
            fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
                // rename identifiers inside macro tokens
                fn go(ts: TokenStream, l: &BTreeMap<String, String>) -> TokenStream {
                    ts.into_iter()
                        .map(|t| match t {
                            proc_macro2::TokenTree::Ident(i) if l.contains_key(&i.to_string()) => {
                                proc_macro2::TokenTree::Ident(format_ident!("{}", l[&i.to_string()]))
                            }
                            proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), l))),
                            // names captured by a format string
                            proc_macro2::TokenTree::Literal(x) if x.to_string().starts_with('"') => {
                                let mut s = x.to_string();
                                for (k, v) in l {
                                    for end in ["}", ":"] {
                                        s = s.replace(&format!("{{{k}{end}"), &format!("{{{v}{end}"));
                                    }
                                }
                                s.parse::<proc_macro2::Literal>().map(proc_macro2::TokenTree::Literal).unwrap_or(proc_macro2::TokenTree::Literal(x))
                            }
                            t => t,
                        })
                        .collect()
                }
                let mut l: BTreeMap<String, String> = self.locals.iter().map(|n| (n.clone(), format!("{n}{}", self.suffix))).collect();
                for (n, x) in self.same {
                    l.insert(n.clone(), x.to_token_stream().to_string());
                }
                m.tokens = go(m.tokens.clone(), &l);
            }
        }
        let mut r = R { locals: &locals, suffix: &suffix, recv, closures: &closures, same: &same };
        r.visit_block_mut(&mut block);
        let stmts = &block.stmts;
        self.lw.inlined.insert(format!("{} into {}", f.path, self.lw.fe.path));
        self.changed = true;
        Some(parse_quote!({ #(#binds)* #(#stmts)* }))
    }
}

impl<'x, 'a, 'b> Inliner<'x, 'a, 'b> {
    /// Calls in tail position: whatever leaves the helper leaves the caller.
    fn tail_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail_expr(e);
        }
    }
    fn tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(_) | Expr::Call(_) => self.call(e, At::Tail),
            Expr::If(i) => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail_expr(x);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.tail_expr(&mut a.body);
                }
            }
            Expr::Block(b) => self.tail_block(&mut b.block),
            _ => {}
        }
    }
    fn call(&mut self, e: &mut Expr, at: At) {
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some(f) = self.target(&name, true, None) {
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    if let Some(n) = self.expand(&f, Some((*m.receiver).clone()), args, at) {
                        *e = n;
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let name = last_seg(&p.path);
                    let q = if p.path.segments.len() > 1 {
                        Some(p.path.segments[p.path.segments.len() - 2].ident.to_string())
                    } else {
                        None
                    };
                    if name.chars().next().map(|c| c.is_lowercase()).unwrap_or(false) {
                        if let Some(f) = self.target(&name, false, q.as_deref()) {
                            // qualifier must name the callee's type or module
                            if let Some(q) = &q {
                                let ok = q == "Self"
                                    || q == "self"
                                    || q == "super"
                                    || q == "crate"
                                    || f.path.split("::").any(|s| s == q);
                                if !ok {
                                    return;
                                }
                            }
                            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                            let mut recv = None;
                            if matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(_))) && !args.is_empty() {
                                recv = Some(args.remove(0));
                            }
                            if let Some(n) = self.expand(&f, recv, args, at) {
                                *e = n;
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

impl<'x, 'a, 'b> VisitMut for Inliner<'x, 'a, 'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(_) = e {
            self.closures += 1;
            syn::visit_mut::visit_expr_mut(self, e);
            self.closures -= 1;
            return;
        }
        if self.closures == 0 {
            if let Expr::Try(x) = e {
                if matches!(&*x.expr, Expr::Call(_) | Expr::MethodCall(_)) {
                    syn::visit_mut::visit_expr_mut(self, &mut x.expr);
                    self.call(&mut x.expr, At::Try);
                    return;
                }
            }
            if let Expr::Return(syn::ExprReturn { expr: Some(x), .. }) = e {
                if matches!(&**x, Expr::Call(_) | Expr::MethodCall(_)) {
                    syn::visit_mut::visit_expr_mut(self, x);
                    self.call(x, At::Tail);
                    return;
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
        self.call(e, At::Plain);
    }
}

/// Where a call to a helper stands.
#[derive(Clone, Copy)]
enum At {
    Plain,
    Try,
    Tail,
}

fn ret_kind(sig: &syn::Signature) -> &'static str {
    if let syn::ReturnType::Type(_, t) = &sig.output {
        if let syn::Type::Path(p) = &**t {
            let s = last_seg(&p.path);
            if s == "Option" {
                return "Option";
            }
            if s == "Result" || s == "IResult" {
                return "Result";
            }
        }
    }
    ""
}

/// Every `return` of the block is `return Err(..)` or `return None`.
fn only_failures(b: &Block) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
            let ok = match r.expr.as_deref() {
                Some(Expr::Call(c)) => matches!(&*c.func, Expr::Path(p) if last_seg(&p.path) == "Err"),
                Some(Expr::Path(p)) => last_seg(&p.path) == "None",
                _ => false,
            };
            self.0 &= ok;
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut v = V(true);
    v.visit_block(b);
    v.0
}

fn blk(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}

fn leaves(s: &Stmt) -> bool {
    has_return(&blk(vec![s.clone()]))
}

fn has_loop(stmts: &[Stmt]) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr(&mut self, e: &'ast Expr) {
            self.0 |= matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_));
            syn::visit::visit_expr(self, e);
        }
    }
    let mut v = V(false);
    for s in stmts {
        v.visit_stmt(s);
    }
    v.0
}

/// The statements always end by leaving the function.
fn diverges(stmts: &[Stmt]) -> bool {
    match stmts.last() {
        Some(Stmt::Expr(e, _)) => diverges_expr(e),
        _ => false,
    }
}
fn diverges_expr(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => diverges(&b.block.stmts),
        Expr::If(i) => diverges(&i.then_branch.stmts) && i.else_branch.as_ref().is_some_and(|(_, x)| diverges_expr(x)),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| diverges_expr(&a.body)),
        _ => false,
    }
}
fn stmts_of(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        _ => vec![Stmt::Expr(e.clone(), None)],
    }
}
/// `stmts` followed by `rest`.
fn then(stmts: Vec<Stmt>, rest: &[Stmt]) -> Vec<Stmt> {
    let mut s = stmts;
    if !rest.is_empty() {
        if let Some(Stmt::Expr(_, semi)) = s.last_mut() {
            *semi = Some(Default::default());
        }
    }
    s.extend(rest.iter().cloned());
    s
}

/// Early returns rewritten into nested branches; None where that is not possible (a return inside a loop, say).
fn elim_returns(stmts: &[Stmt], kind: &str) -> Option<Vec<Stmt>> {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in stmts.iter().enumerate() {
        if !leaves(s) {
            out.push(s.clone());
            continue;
        }
        let rest = &stmts[i + 1..];
        let mk = |e: Expr| Some(Stmt::Expr(e, None));
        let try_of = |e: &Expr, pat: Pat| -> Option<Expr> {
            let Expr::Try(x) = e else { return None };
            let x = &x.expr;
            if leaves(&Stmt::Expr((**x).clone(), None)) {
                return None;
            }
            let r = elim_returns(rest, kind)?;
            match kind {
                "Option" => Some(parse_quote!(match #x { Some(#pat) => { #(#r)* } None => None })),
                "Result" => Some(parse_quote!(match #x { Ok(#pat) => { #(#r)* } Err(__err) => Err(__err) })),
                _ => None,
            }
        };
        let tail = match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let e = r.expr.as_deref()?;
                elim_returns(&stmts_of(e), kind)?.into_iter().for_each(|x| out.push(x));
                return Some(out);
            }
            Stmt::Expr(Expr::Block(b), _) if b.label.is_none() => {
                elim_returns(&then(b.block.stmts.clone(), rest), kind)?.into_iter().for_each(|x| out.push(x));
                return Some(out);
            }
            Stmt::Expr(Expr::If(f), _) => {
                let a = f.then_branch.stmts.clone();
                let b = f.else_branch.as_ref().map(|(_, x)| stmts_of(x)).unwrap_or_default();
                let (da, db) = (diverges(&a), diverges(&b));
                if !da && !db && has_loop(rest) {
                    return None;
                }
                let a = elim_returns(&if da { a } else { then(a, rest) }, kind)?;
                let b = elim_returns(&if db { b } else { then(b, rest) }, kind)?;
                let c = &f.cond;
                mk(parse_quote!(if #c { #(#a)* } else { #(#b)* }))
            }
            Stmt::Expr(Expr::Match(m), _) => {
                let mut m = m.clone();
                if m.arms.iter().filter(|a| !diverges_expr(&a.body)).count() > 1 && has_loop(rest) {
                    return None;
                }
                for a in m.arms.iter_mut() {
                    let d = diverges_expr(&a.body);
                    let x = stmts_of(&a.body);
                    let x = elim_returns(&if d { x } else { then(x, rest) }, kind)?;
                    a.body = parse_quote!({ #(#x)* });
                }
                mk(Expr::Match(m))
            }
            Stmt::Expr(e @ Expr::Try(_), Some(_)) => mk(try_of(e, parse_quote!(_))?),
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let (pat, e) = (&l.pat, &init.expr);
                if let Some((_, d)) = &init.diverge {
                    if leaves(&Stmt::Expr((**e).clone(), None)) {
                        return None;
                    }
                    let d = elim_returns(&stmts_of(d), kind)?;
                    let r = elim_returns(rest, kind)?;
                    mk(parse_quote!(match #e { #pat => { #(#r)* } _ => { #(#d)* } }))
                } else if let Expr::Match(m) = &**e {
                    let mut m = m.clone();
                    if m.arms.iter().filter(|a| !diverges_expr(&a.body)).count() > 1 && has_loop(rest) {
                        return None;
                    }
                    for a in m.arms.iter_mut() {
                        let x = if diverges_expr(&a.body) {
                            elim_returns(&stmts_of(&a.body), kind)?
                        } else {
                            let v = &a.body;
                            let mut w = l.clone();
                            w.init.as_mut()?.expr = v.clone();
                            let mut x = vec![Stmt::Local(w)];
                            x.extend(rest.iter().cloned());
                            elim_returns(&x, kind)?
                        };
                        a.body = parse_quote!({ #(#x)* });
                    }
                    mk(Expr::Match(m))
                } else {
                    let p = match pat {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    mk(try_of(e, p)?)
                }
            }
            _ => return None,
        };
        out.push(tail?);
        return Some(out);
    }
    Some(out)
}
