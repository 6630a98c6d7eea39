//! Index of the repository's items (cfg(test) removed, default features on, `tracing` off).
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;
use syn::{Attribute, Item};

#[derive(Clone)]
pub struct FnEntry {
    pub path: String,
    pub module: String,
    pub file: String,
    pub line: usize,
    pub imp: Option<syn::ItemImpl>, // with items removed
    pub sig: syn::Signature,
    pub block: syn::Block,
}

#[derive(Clone)]
pub struct ItemEntry {
    pub module: String,
    pub file: String,
    pub line: usize,
    pub item: Item,
    pub derives: Vec<String>,
}

#[derive(Default)]
pub struct Index {
    pub fns: BTreeMap<String, Vec<FnEntry>>,
    pub items: BTreeMap<String, ItemEntry>,
    pub uses: BTreeMap<String, Vec<syn::ItemUse>>,
    pub modules: Vec<String>,
    pub macros: BTreeMap<String, TokenStream>,
    pub impls: Vec<(String, syn::ItemImpl)>,
    pub traits: BTreeMap<String, ItemEntry>,
}

fn cfg_on(attrs: &[Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            let t = a.meta.to_token_stream().to_string().replace(' ', "");
            let c = t.trim_start_matches("cfg(").trim_end_matches(')');
            let on = match c {
                "test" => false,
                "feature=\"ABNF\"" | "feature=\"serde\"" => true,
                "feature=\"tracing\"" | "feature=\"unstable\"" => false,
                _ if c.starts_with("not(feature=\"ABNF\"") => false,
                _ if c.starts_with("not(feature=\"serde\"") => false,
                _ if c.starts_with("not(feature=\"tracing\"") => true,
                _ if c.starts_with("not(") => true,
                _ => false,
            };
            if !on {
                return false;
            }
        }
    }
    true
}

pub fn ty_key(t: &syn::Type) -> String {
    // Type name without lifetimes/generics; `&` kept.
    match t {
        syn::Type::Reference(r) => format!("&{}", ty_key(&r.elem)),
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        o => o.to_token_stream().to_string(),
    }
}

fn trait_key(p: &syn::Path) -> String {
    let s = p.segments.last().unwrap();
    let mut k = s.ident.to_string();
    if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
        let v: Vec<String> = a
            .args
            .iter()
            .map(|x| match x {
                syn::GenericArgument::Type(t) => ty_key(t),
                o => o.to_token_stream().to_string(),
            })
            .collect();
        k.push_str(&format!("<{}>", v.join(",")));
    }
    k
}

fn join(m: &str, n: &str) -> String {
    if m.is_empty() {
        n.to_string()
    } else {
        format!("{m}::{n}")
    }
}

impl Index {
    pub fn load(repo: &str) -> Result<Index, String> {
        let mut ix = Index::default();
        let src = Path::new(repo).join("src");
        ix.file(&src, "", &src.join("lib.rs"), repo)?;
        ix.trait_defaults();
        Ok(ix)
    }

    /// Default methods of the crate's own traits, for every implementation that does not override them.
    fn trait_defaults(&mut self) {
        let traits: Vec<(String, String, usize, syn::ItemTrait)> = self.items.values().filter_map(|e| if let Item::Trait(t) = &e.item { Some((e.module.clone(), e.file.clone(), e.line, t.clone())) } else { None }).collect();
        for (_, file, _, t) in traits {
            for (module, shell) in self.impls.clone() {
                let Some((_, tr, _)) = &shell.trait_ else { continue };
                if tr.segments.last().map(|s| s.ident.to_string()) != Some(t.ident.to_string()) {
                    continue;
                }
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        if let Some(b) = &f.default {
                            let p = join(&module, &format!("{}@{}::{}", ty_key(&shell.self_ty), trait_key(tr), f.sig.ident));
                            if !self.fns.contains_key(&p) {
                                self.add_fn(&p, &module, &file, Some(shell.clone()), f.sig.clone(), b.clone());
                            }
                        }
                    }
                }
            }
        }
    }

    fn file(&mut self, dir: &Path, module: &str, file: &Path, repo: &str) -> Result<(), String> {
        let text = fs::read_to_string(file).map_err(|e| format!("{file:?}: {e}"))?;
        let ast = syn::parse_file(&text).map_err(|e| format!("{file:?}: {e}"))?;
        let rel = file.strip_prefix(repo).unwrap_or(file).to_string_lossy().to_string();
        self.modules.push(module.to_string());
        // macro definitions first
        self.items(dir, module, &rel, repo, ast.items)
    }

    fn items(&mut self, dir: &Path, module: &str, rel: &str, repo: &str, items: Vec<Item>) -> Result<(), String> {
        for it in items {
            match it {
                Item::Mod(m) if cfg_on(&m.attrs) => {
                    let name = m.ident.to_string();
                    let mp = join(module, &name);
                    if let Some((_, its)) = m.content {
                        self.modules.push(mp.clone());
                        self.items(&dir.join(&name), &mp, rel, repo, its)?;
                    } else {
                        let f1 = dir.join(format!("{name}.rs"));
                        let f2 = dir.join(&name).join("mod.rs");
                        let f = if f1.exists() { f1 } else { f2 };
                        self.file(&dir.join(&name), &mp, &f, repo)?;
                    }
                }
                Item::Use(u) if cfg_on(&u.attrs) => {
                    self.uses.entry(module.to_string()).or_default().push(u)
                }
                Item::Fn(f) if cfg_on(&f.attrs) => {
                    let path = join(module, &f.sig.ident.to_string());
                    self.add_fn(&path, module, rel, None, f.sig, *f.block);
                }
                Item::Impl(im) if cfg_on(&im.attrs) => {
                    let ty = ty_key(&im.self_ty);
                    let mut shell = im.clone();
                    shell.items.retain(|x| matches!(x, syn::ImplItem::Type(_)));
                    self.impls.push((module.to_string(), shell.clone()));
                    for x in im.items {
                        if let syn::ImplItem::Fn(f) = x {
                            if !cfg_on(&f.attrs) {
                                continue;
                            }
                            let name = f.sig.ident.to_string();
                            if let Some((_, tr, _)) = &im.trait_ {
                                let p = join(module, &format!("{ty}@{}::{name}", trait_key(tr)));
                                self.add_fn(&p, module, rel, Some(shell.clone()), f.sig.clone(), f.block.clone());
                            } else {
                                let p = join(module, &format!("{ty}::{name}"));
                                self.add_fn(&p, module, rel, Some(shell.clone()), f.sig, f.block);
                            }
                        }
                    }
                }
                Item::Macro(m) if cfg_on(&m.attrs) => {
                    if m.mac.path.is_ident("macro_rules") {
                        if let Some(id) = &m.ident {
                            self.macros.insert(id.to_string(), m.mac.tokens.clone());
                        }
                    } else if let Some(id) = m.mac.path.segments.last() {
                        let name = id.ident.to_string();
                        if let Some(def) = self.macros.get(&name).cloned() {
                            if let Some(ts) = expand_simple(&def, &m.mac.tokens) {
                                let f: syn::File = syn::parse2(ts).map_err(|e| e.to_string())?;
                                self.items(dir, module, rel, repo, f.items)?;
                            }
                        }
                    }
                }
                Item::Struct(_) | Item::Enum(_) | Item::Type(_) | Item::Const(_) | Item::Trait(_) => {
                    let (attrs, name, span) = match &it {
                        Item::Struct(s) => (&s.attrs, s.ident.to_string(), s.ident.span()),
                        Item::Enum(s) => (&s.attrs, s.ident.to_string(), s.ident.span()),
                        Item::Type(s) => (&s.attrs, s.ident.to_string(), s.ident.span()),
                        Item::Const(s) => (&s.attrs, s.ident.to_string(), s.ident.span()),
                        Item::Trait(s) => (&s.attrs, s.ident.to_string(), s.ident.span()),
                        _ => unreachable!(),
                    };
                    if !cfg_on(attrs) {
                        continue;
                    }
                    let mut derives = vec![];
                    for a in attrs {
                        if a.path().is_ident("derive") {
                            let _ = a.parse_nested_meta(|m| {
                                derives.push(m.path.segments.last().unwrap().ident.to_string());
                                Ok(())
                            });
                        }
                    }
                    let e = ItemEntry {
                        module: module.to_string(),
                        file: rel.to_string(),
                        line: span.start().line,
                        item: it.clone(),
                        derives,
                    };
                    self.items.insert(join(module, &name), e);
                }
                _ => {}
            }
        }
        Ok(())
    }

    fn add_fn(&mut self, path: &str, module: &str, rel: &str, imp: Option<syn::ItemImpl>, sig: syn::Signature, block: syn::Block) {
        // nested fns
        for (s, b) in nested(&block) {
            let p = format!("{path}::{}", s.ident);
            self.add_fn(&p, module, rel, None, s, b);
        }
        let line = sig.ident.span().start().line;
        self.fns.entry(path.to_string()).or_default().push(FnEntry {
            path: path.to_string(),
            module: module.to_string(),
            file: rel.to_string(),
            line,
            imp,
            sig,
            block,
        });
    }
}

pub fn nested(b: &syn::Block) -> Vec<(syn::Signature, syn::Block)> {
    struct V(Vec<(syn::Signature, syn::Block)>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
            self.0.push((f.sig.clone(), (*f.block).clone()));
        }
    }
    let mut v = V(vec![]);
    syn::visit::visit_block(&mut v, b);
    v.0
}

/// Expand a one-rule macro whose matcher is `($a:frag $b:frag ...)` given one token group per fragment.
fn expand_simple(def: &TokenStream, args: &TokenStream) -> Option<TokenStream> {
    let d: Vec<TokenTree> = def.clone().into_iter().collect();
    let (pat, body) = match (d.first()?, d.get(3)?) {
        (TokenTree::Group(p), TokenTree::Group(b)) => (p.stream(), b.stream()),
        _ => return None,
    };
    let pv: Vec<TokenTree> = pat.into_iter().collect();
    let mut names = vec![];
    let mut i = 0;
    while i + 3 < pv.len() {
        if let (TokenTree::Ident(n), TokenTree::Ident(k)) = (&pv[i + 1], &pv[i + 3]) {
            names.push((n.to_string(), k.to_string()));
        } else {
            return None;
        }
        i += 4;
    }
    let av: Vec<TokenTree> = args.clone().into_iter().collect();
    let mut map: BTreeMap<String, TokenStream> = BTreeMap::new();
    let mut pos = 0;
    for (n, k) in names {
        match k.as_str() {
            "vis" => {
                let mut ts = TokenStream::new();
                if let Some(TokenTree::Ident(id)) = av.get(pos) {
                    if id == "pub" {
                        ts.extend([av[pos].clone()]);
                        pos += 1;
                        if let Some(TokenTree::Group(_)) = av.get(pos) {
                            ts.extend([av[pos].clone()]);
                            pos += 1;
                        }
                    }
                }
                map.insert(n, ts);
            }
            _ => {
                map.insert(n, TokenStream::from(av.get(pos)?.clone()));
                pos += 1;
            }
        }
    }
    fn sub(ts: TokenStream, map: &BTreeMap<String, TokenStream>) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Punct(p) if p.as_char() == '$' => {
                    if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                        if let Some(t) = map.get(&id.to_string()) {
                            out.extend(t.clone());
                            i += 2;
                            continue;
                        }
                    }
                    out.extend([v[i].clone()]);
                }
                TokenTree::Group(g) => {
                    let mut ng = proc_macro2::Group::new(g.delimiter(), sub(g.stream(), map));
                    ng.set_span(g.span());
                    out.extend([TokenTree::Group(ng)]);
                }
                t => out.extend([t.clone()]),
            }
            i += 1;
        }
        out
    }
    Some(sub(body, &map))
}
