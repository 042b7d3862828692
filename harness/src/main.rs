//! Drives the real jagua-rs code and records what it did, as NDJSON traces for TLC.
//! usage: vh <command> <outdir> <seed> <tier> [key=value ...]
mod rng; mod igeo; mod gen; mod util; mod world; mod geo; mod hist; mod prob; mod strip; mod io; mod shape; mod transf; mod refuse;
use std::collections::HashMap;

pub struct Args { pub out: String, pub seed: u64, pub thorough: bool, pub kv: HashMap<String, String> }
impl Args {
    pub fn n(&self, k: &str, d: usize) -> usize { self.kv.get(k).map_or(d, |v| v.parse().unwrap()) }
    pub fn q(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
}

fn main() {
    util::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 { eprintln!("usage: vh cmd outdir seed tier [k=v]"); std::process::exit(2); }
    let args = Args {
        out: a[2].clone(), seed: a[3].parse().unwrap(), thorough: a[4] == "thorough",
        kv: a[5..].iter().filter_map(|s| s.split_once('=').map(|(x, y)| (x.to_string(), y.to_string()))).collect(),
    };
    let r = match a[1].as_str() {
        "collide" => geo::collide(&args),
        "collect" => geo::collect(&args),
        "failfast" => geo::failfast(&args),
        "broad" => geo::broad(&args),
        "quality" => geo::quality(&args),
        "engine" => hist::engine(&args),
        "layout" => prob::layout(&args),
        "bp" => prob::bp(&args),
        "strip" => strip::strip(&args),
        "parse" => io::parse(&args),
        "roundtrip" => io::roundtrip(&args),
        "measure" => shape::measure(&args),
        "simplify" => shape::simplify(&args),
        "transf" => transf::transf(&args),
        "refuse" => refuse::refuse(&args),
        c => { eprintln!("unknown command {c}"); std::process::exit(2) }
    };
    if let Err(e) = r { eprintln!("harness: {e}"); std::process::exit(2); }
}
