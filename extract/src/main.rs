//! Mechanical extractor: /repo/src + overlay (contracts) -> one Verus file.
//!
//! usage: extract <repo> <overlay.vspec> <out.rs> <report.json> [--vacuity]
//!
//! The executable text of every emitted function comes from the repository's current
//! working tree. The overlay contributes only specification text (requires/ensures,
//! invariants, proof blocks, spec functions, assumed contracts of std/dependency shims).
//! Every rewriting step is listed in DESIGN.md ("What the extraction does").
mod index;
mod lower;
mod nomx;
mod overlay;
mod print;

use std::fs;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: extract <repo> <overlay> <out.rs> <report.json> [--vacuity]");
        std::process::exit(2);
    }
    let vacuity = args.iter().any(|a| a == "--vacuity");
    let ix = match index::Index::load(&args[1]) {
        Ok(ix) => ix,
        Err(e) => {
            write_report(&args[4], &[], &[format!("cannot read source: {e}")], &[], &[]);
            std::process::exit(3);
        }
    };
    let ov = overlay::Overlay::parse(&fs::read_to_string(&args[2]).expect("overlay"), &args[2]);
    let res = lower::emit(&ix, &ov, vacuity);
    fs::write(&args[3], &res.text).expect("write out");
    write_report(&args[4], &res.functions, &res.lost, &res.dropped, &res.inlined);
    if !res.lost.is_empty() {
        for l in &res.lost {
            eprintln!("LOST-ANCHOR {l}");
        }
        std::process::exit(3);
    }
}

fn write_report(
    path: &str,
    functions: &[serde_json::Value],
    lost: &[String],
    dropped: &[String],
    inlined: &[String],
) {
    let v = serde_json::json!({
        "functions": functions, "lost_anchors": lost, "dropped": dropped, "inlined": inlined,
    });
    fs::write(path, serde_json::to_string_pretty(&v).unwrap()).expect("write report");
}

mod fmtmac;
pub use fmtmac::lower_macros;
