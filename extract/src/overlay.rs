//! Overlay file format.
//!
//! Lines starting with `//#` open a section:
//!   //# prelude                    text at the crate root, inside verus!{}
//!   //# module PATH                text inside module PATH
//!   //# item PATH [opts]           emit type/const/alias PATH
//!   //# fn PATH                    emit function/method PATH with the directives below
//!   //# inline PATH                never emit; β-inline at call sites
//!   //# default PATH               emit derived Default of a struct as an inherent fn
//!   //# include FILE               textual include of another overlay file
//!   //# rename A B ...             method names renamed to v_NAME
//!   //# optfn A B ...              names of functions/methods known to return Option
//! Directives inside `fn`: lines starting with `@`:
//!   @attr TEXT / @ret NAME / @rettype TYPE / @trait keep
//!   @spec, @start, @end, @loop N, @loopstart N, @loopend N, @before NAME K, @after NAME K, @closure N
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub path: String,
    pub attrs: Vec<String>,
    pub ret: Option<String>,
    pub rettype: Option<String>,
    pub name: Option<String>,
    pub as_trait: Option<String>,
    pub keep_trait: bool,
    pub next_loops: Vec<usize>,
    pub texts: BTreeMap<String, String>, // "spec", "start", "loop 0", "after foo 0"...
    pub opts: Vec<String>,
    pub special: Vec<String>,
    pub mut_names: Vec<String>,
}

#[derive(Clone, Debug)]
pub enum Entry {
    Item(String, Vec<String>),
    Fn(FnSpec),
    Default(FnSpec),
}

#[derive(Default, Debug)]
pub struct Overlay {
    pub prelude: String,
    pub modules: BTreeMap<String, String>,
    pub entries: Vec<Entry>,
    pub inline: Vec<String>,
    pub rename: Vec<String>,
    pub optfn: Vec<String>,
    pub keep_use: Vec<String>,
}

impl Overlay {
    pub fn parse(text: &str, file: &str) -> Overlay {
        let mut ov = Overlay::default();
        ov.add(text, file);
        ov
    }
    fn add(&mut self, text: &str, file: &str) {
        #[derive(PartialEq)]
        enum S {
            None,
            Prelude,
            Module(String),
            Fn,
        }
        let mut s = S::None;
        let mut cur: Option<FnSpec> = None;
        let mut is_default = false;
        let mut key: Option<String> = None;
        macro_rules! flush {
            () => {
                if let Some(f) = cur.take() {
                    self.entries.push(if is_default { Entry::Default(f) } else { Entry::Fn(f) });
                }
            };
        }
        for line in text.lines() {
            let t = line.trim();
            if let Some(rest) = t.strip_prefix("//#") {
                flush!();
                key = None;
                is_default = false;
                let w: Vec<&str> = rest.split_whitespace().collect();
                match w.first().copied().unwrap_or("") {
                    "prelude" => s = S::Prelude,
                    "module" => s = S::Module(w.get(1).copied().unwrap_or("").to_string()),
                    "item" => {
                        s = S::None;
                        self.entries.push(Entry::Item(
                            w[1].to_string(),
                            w[2..].iter().map(|x| x.to_string()).collect(),
                        ));
                    }
                    "fn" | "default" => {
                        s = S::Fn;
                        is_default = w[0] == "default";
                        cur = Some(FnSpec { path: w[1].to_string(), ..Default::default() });
                    }
                    "inline" => {
                        s = S::None;
                        self.inline.push(w[1].to_string());
                    }
                    "rename" => {
                        s = S::None;
                        self.rename.extend(w[1..].iter().map(|x| x.to_string()));
                    }
                    "optfn" => {
                        s = S::None;
                        self.optfn.extend(w[1..].iter().map(|x| x.to_string()));
                    }
                    "keepuse" => {
                        s = S::None;
                        self.keep_use.extend(w[1..].iter().map(|x| x.to_string()));
                    }
                    "include" => {
                        s = S::None;
                        let dir = std::path::Path::new(file).parent().unwrap();
                        let p = dir.join(w[1]);
                        let t = std::fs::read_to_string(&p)
                            .unwrap_or_else(|e| panic!("include {p:?}: {e}"));
                        self.add(&t, p.to_str().unwrap());
                    }
                    other => panic!("overlay: unknown section {other}"),
                }
                continue;
            }
            match &s {
                S::None => {
                    if !t.is_empty() && !t.starts_with("//") {
                        panic!("overlay: stray text: {t}");
                    }
                }
                S::Prelude => {
                    self.prelude.push_str(line);
                    self.prelude.push('\n');
                }
                S::Module(m) => {
                    let e = self.modules.entry(m.clone()).or_default();
                    e.push_str(line);
                    e.push('\n');
                }
                S::Fn => {
                    let f = cur.as_mut().unwrap();
                    if let Some(d) = t.strip_prefix('@') {
                        let w: Vec<&str> = d.splitn(2, char::is_whitespace).collect();
                        let arg = w.get(1).map(|x| x.trim()).unwrap_or("").to_string();
                        match w[0] {
                            "attr" => f.attrs.push(arg),
                            "ret" => f.ret = Some(arg),
                            "rettype" => f.rettype = Some(arg),
                            "name" => f.name = Some(arg),
                            "as" => {
                                // @as TRAIT NAME: emit as `impl TRAIT for SELF { fn NAME .. }`
                                let (t, n) = arg.split_once(char::is_whitespace).unwrap();
                                f.as_trait = Some(t.to_string());
                                f.name = Some(n.trim().to_string());
                            }
                            "opt" => f.opts.push(arg),
                            "muts" => f.mut_names = arg.split_whitespace().map(|x| x.to_string()).collect(),
                            "special" => f.special = arg.split_whitespace().map(|x| x.to_string()).collect(),
                            "trait" => f.keep_trait = true,
                            "next" => f.next_loops.push(arg.parse().unwrap()),
                            "spec" | "start" | "end" | "implspec" => key = Some(w[0].to_string()),
                            "loop" | "loopstart" | "loopend" | "before" | "after" | "closure" => {
                                key = Some(format!("{} {}", w[0], arg))
                            }
                            o => panic!("overlay: unknown directive @{o}"),
                        }
                    } else if let Some(k) = &key {
                        let e = f.texts.entry(k.clone()).or_default();
                        e.push_str(line);
                        e.push('\n');
                    } else if !t.is_empty() && !t.starts_with("//") {
                        panic!("overlay: stray text in fn {}: {t}", f.path);
                    }
                }
            }
        }
        flush!();
    }
}

impl FnSpec {
    /// the module whose parsers an instantiated combinator names: the parent of the combinator's own module
    pub fn special_module(&self) -> Option<String> {
        let m = self.path.rsplit_once("::")?.0;
        Some(m.rsplit_once("::").map(|x| x.0).unwrap_or(m).to_string())
    }
}
