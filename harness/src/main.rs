//! Concrete search for failing inputs of the real crate (bounded; see DESIGN.md).
//!
//! usage: harness <property> --seed N --tier quick|thorough --replay FILE --case FILE [--only K]
//! Prints one JSON object with counts. Exit 0: nothing found, exit 1: failing input written to FILE.
mod gram;
mod p_edit;
mod p_gen;
mod p_parse;
mod p_show;
mod p_text;
mod p_value;

use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub struct Ctx {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    skipped: u64,
    deadline: Instant,
    case_file: std::fs::File,
    replay: String,
    last_len: u64,
    only: Option<u64>,
}

impl Ctx {
    pub fn rng(&self, stream: u64) -> Rng {
        Rng(self.seed.wrapping_mul(0x1000003).wrapping_add(stream.wrapping_mul(0xABCDEF12345)))
    }
    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline
    }
    pub fn skip(&mut self) {
        self.skipped += 1;
    }
    /// Run one case. `desc` describes the input; `nontrivial` says whether it counts.
    pub fn case(&mut self, desc: &str, nontrivial: bool, f: impl FnOnce() -> Result<(), String> + std::panic::UnwindSafe) {
        self.evaluations += 1;
        if let Some(o) = self.only {
            if o != self.evaluations {
                return;
            }
        }
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            if self.distinct.insert(h.finish()) && (self.samples.len() < 3 || (self.samples.len() < 6 && self.distinct.len() % 997 == 0)) {
                self.samples.push(desc.chars().take(600).collect());
            }
        }
        let rec = format!("{}\n{}", self.evaluations, desc);
        let _ = self.case_file.write_all_at(rec.as_bytes(), 0);
        let n = rec.len() as u64;
        if n < self.last_len {
            let _ = self.case_file.set_len(n);
        }
        self.last_len = n;
        let r = match std::panic::catch_unwind(f) {
            Ok(r) => r,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                Err(format!("panic: {m}"))
            }
        };
        if let Err(m) = r {
            self.fail(desc, &m);
        }
    }
    fn fail(&mut self, desc: &str, m: &str) -> ! {
        let j = format!(
            "{{\n \"property\": {},\n \"kind\": \"concrete failing input on the real crate\",\n \"seed\": {},\n \"tier\": {},\n \"case_index\": {},\n \"input\": {},\n \"failure\": {}\n}}\n",
            q(&self.property), self.seed, q(if self.thorough { "thorough" } else { "quick" }), self.evaluations, q(desc), q(m)
        );
        let _ = std::fs::write(&self.replay, j);
        println!("{{\"found\": true, \"evaluations\": {}, \"failure\": {}}}", self.evaluations, q(&format!("{m} [input: {desc}]")));
        std::process::exit(1);
    }
}

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let args2 = args.clone();
    let get = move |k: &str| args2.iter().position(|a| a == k).and_then(|i| args2.get(i + 1)).cloned();
    let property = args.get(1).cloned().unwrap_or_default();
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let secs: u64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 900 } else { 45 });
    let case = get("--case").unwrap_or("/tmp/harness.case".into());
    let replay = get("--replay").unwrap_or("/tmp/harness.replay.json".into());
    std::panic::set_hook(Box::new(|_| {}));
    let th = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let mut cx = Ctx {
                property: property.clone(),
                seed,
                thorough,
                evaluations: 0,
                distinct: HashSet::new(),
                samples: vec![],
                skipped: 0,
                deadline: Instant::now() + Duration::from_secs(secs),
                case_file: std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&case).expect("case file"),
                replay,
                last_len: 0,
                only: get("--only").and_then(|s| s.parse().ok()),
            };
            let rule = match property.as_str() {
                "C01" => p_parse::run(&mut cx, p_parse::What::Sound),
                "C02" => p_parse::run(&mut cx, p_parse::What::Complete),
                "C03" => p_parse::run(&mut cx, p_parse::What::Unique),
                "C04" => p_edit::validate(&mut cx),
                "C05" => p_gen::sentences(&mut cx),
                "C06" => p_gen::guard(&mut cx),
                "C07" => p_gen::strategies(&mut cx),
                "C08" => p_text::normalize(&mut cx),
                "C09" => p_text::round_trip(&mut cx),
                "C10" => p_text::layout(&mut cx),
                "C11" => p_show::mermaid(&mut cx),
                "C12" => p_show::display(&mut cx),
                "C13" => p_edit::edit(&mut cx),
                "C15" => p_gen::follow(&mut cx),
                "C16" => p_value::values(&mut cx),
                p => {
                    eprintln!("unknown property {p}");
                    std::process::exit(2);
                }
            };
            let samples: Vec<String> = cx.samples.iter().map(|s| q(s)).collect();
            println!(
                "{{\"found\": false, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"skipped\": {}, \"rule\": {}, \"samples\": [{}]}}",
                cx.evaluations, cx.distinct.len(), cx.skipped, q(rule), samples.join(", ")
            );
        })
        .unwrap();
    if th.join().is_err() {
        std::process::exit(3);
    }
}
