//! Drives the real optimizer, its command line program and its SVG export, and records what they did.
//! usage: vl <command> <outdir> <seed> <tier> [key=value ...]
#![allow(dead_code)]
#[path = "../../harness/src/rng.rs"] mod rng;
#[path = "../../harness/src/igeo.rs"] mod igeo;
#[path = "../../harness/src/gen.rs"] mod gen;
#[path = "../../harness/src/util.rs"] mod util;
#[path = "../../harness/src/io.rs"] mod io;
mod opt; mod draw; mod search; mod program;
use std::collections::HashMap;

pub struct Args { pub out: String, pub seed: u64, pub thorough: bool, pub kv: HashMap<String, String> }
impl Args {
    pub fn n(&self, k: &str, d: usize) -> usize { self.kv.get(k).map_or(d, |v| v.parse().unwrap()) }
    pub fn q(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
}
/// what the shared modules expect
pub mod geo {
    use crate::{util::Out, Args};
    use serde_json::{json, Value};
    pub fn finish(args: &Args, out: Out, stats: Value) -> Result<(), String> {
        let n: usize = out.blocks.iter().map(|b| b.1.len()).sum();
        let hot = out.blocks.iter().filter(|b| b.0).count();
        out.write(&args.out, args.n("files", 8)).map_err(|e| e.to_string())?;
        let mut s = stats;
        s["events"] = json!(n);
        s["hot_blocks"] = json!(hot);
        std::fs::write(format!("{}/stats.json", args.out), s.to_string()).map_err(|e| e.to_string())
    }
}

fn main() {
    util::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 4 && a[1] == "one" { return opt::child(&a[2], &a[3]); }
    if a.len() < 5 { eprintln!("usage: vl cmd outdir seed tier [k=v]"); std::process::exit(2); }
    let args = Args {
        out: a[2].clone(), seed: a[3].parse().unwrap(), thorough: a[4] == "thorough",
        kv: a[5..].iter().filter_map(|s| s.split_once('=').map(|(x, y)| (x.to_string(), y.to_string()))).collect(),
    };
    let r = match a[1].as_str() {
        "solve" => opt::solve(&args),
        "repeat" => opt::repeat(&args),
        "draw" => draw::draw(&args),
        "program" => program::program(&args),
        "search" => search::search(&args),
        c => { eprintln!("unknown command {c}"); std::process::exit(2) }
    };
    if let Err(e) = r { eprintln!("harness: {e}"); std::process::exit(2); }
}
