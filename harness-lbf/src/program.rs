//! The command line program: histories of runs in a scratch folder (C23)
use crate::geo::finish;
use crate::io::FInst;
use crate::opt::{config, fitting, instance};
use crate::rng::Rng;
use crate::util::*;
use crate::Args;
use jagua_rs::io::json_instance::JsonInstance;
use jagua_rs::io::parser::{compose_json_solution, Parser};
use jagua_rs::util::polygon_simplification::PolySimplConfig;
use lbf::io::layout_to_svg::s_layout_to_svg;
use lbf::lbf_config::LBFConfig;
use lbf::lbf_optimizer::LBFOptimizer;
use rand::prelude::SmallRng;
use rand::SeedableRng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::path::Path;
use std::process::Command;
use std::time::Instant;

type R = Result<(), String>;

fn digest(x: &[u8]) -> String {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    format!("h{:016x}", h.finish())
}
/// every file below, with its content
fn list(top: &Path) -> BTreeMap<String, String> {
    fn walk(top: &Path, d: &Path, out: &mut BTreeMap<String, String>) {
        for f in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = f.path();
            if p.is_dir() { walk(top, &p, out) } else {
                out.insert(p.strip_prefix(top).unwrap().to_string_lossy().to_string(), digest(&std::fs::read(&p).unwrap_or_default()));
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(top, top, &mut m);
    m
}
fn listing(m: &BTreeMap<String, String>) -> Value { Value::Array(m.iter().map(|(k, v)| json!([k, v])).collect()) }
/// everything said in `a` is said in `b`, and `b` says nothing more (keys without content aside)
fn same(a: &Value, b: &Value) -> bool {
    let nothing = |v: &Value| v.is_null() || v.as_array().is_some_and(|x| x.is_empty());
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            x.iter().all(|(k, v)| y.get(k).map_or(nothing(v), |w| same(v, w) || (nothing(v) && nothing(w)))) && y.iter().all(|(k, w)| x.contains_key(k) || nothing(w))
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| same(v, w)),
        (Value::Number(x), Value::Number(y)) => {
            if let (Some(i), Some(j)) = (x.as_u64(), y.as_u64()) { return i == j; }
            let (p, q) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            (p - q).abs() <= 1e-6 * p.abs().max(q.abs()).max(1e-3)
        }
        _ => a == b,
    }
}
/// white space between tags does not matter
fn drawing(t: &str) -> String {
    let mut s: String = t.split_whitespace().collect::<Vec<_>>().join(" ");
    for (a, b) in [("> <", "><"), (" />", "/>")] { s = s.replace(a, b); }
    digest(s.as_bytes())
}
fn solution(v: &Value) -> String {
    let mut v = v.clone();
    if v.is_object() { v["RunTimeSec"] = json!(0); }
    digest(v.to_string().as_bytes())
}
/// what the library makes of the instance
fn library(text: &str, c: LBFConfig) -> Result<(String, Vec<String>), String> {
    guard(|| {
        let ji: JsonInstance = serde_json::from_str(text).unwrap();
        let simpl = match c.poly_simpl_tolerance { Some(tolerance) => PolySimplConfig::Enabled { tolerance }, None => PolySimplConfig::Disabled };
        let inst = Parser::new(simpl, c.cde_config, true).parse(&ji);
        let s = LBFOptimizer::new(inst.clone(), c, SmallRng::seed_from_u64(c.prng_seed.unwrap_or(0))).solve();
        let t = serde_json::to_string(&compose_json_solution(&s, &inst, Instant::now())).unwrap();
        let d = s.layout_snapshots.iter().map(|l| drawing(&s_layout_to_svg(l, &inst, c.svg_draw_options).to_string())).collect();
        (solution(&serde_json::from_str(&t).unwrap()), d)
    })
}
/// an instance that can be solved with the default configuration, too
fn usable(r: &mut Rng) -> FInst {
    loop {
        let f = instance(r);
        if fitting(&f, LBFConfig::default()).poly_simpl_tolerance.is_some() && f.items.iter().map(|i| i.demand).sum::<u64>() < 60 { return f; }
    }
}

struct Scene { dir: std::path::PathBuf, texts: HashMap<String, String>, origin: HashMap<String, String> }

fn step(r: &mut Rng, s: &mut Scene, q: &Value) -> Value {
    let g = |k: &str| q[k].as_str().unwrap().to_string();
    let (a, inp, cf, src, dir, stem) = (g("a"), g("in"), g("cf"), g("src"), g("dir"), g("stem"));
    let key = s.origin.get(&src).cloned().unwrap_or(src.clone());
    let text = s.texts[&key].clone();
    let full: Value = serde_json::from_str(&text).unwrap();
    // the files of the request
    let path = s.dir.join(&src);
    let mut given = src.clone();
    let before_input = std::fs::read(&path).ok();
    match inp.as_str() {
        "missing" => given = "nothing-here.json".into(),
        "garbage" => { let n = (1..text.len() * 2 / 3).rev().find(|&n| text.is_char_boundary(n)).unwrap(); std::fs::write(&path, &text[..n]).unwrap() }
        "lacking" => { let mut v = full.clone(); v.as_object_mut().unwrap().remove("Items"); std::fs::write(&path, v.to_string()).unwrap() }
        "both" => {
            let mut v = full.clone();
            v["Strip"] = json!({"Height": 400.0});
            v["Objects"] = json!([{"Cost": 1, "Stock": null, "Shape": {"Type": "Rectangle", "Data": {"Width": 400.0, "Height": 400.0}}}]);
            std::fs::write(&path, v.to_string()).unwrap()
        }
        _ => (),
    }
    let f: FInst = FInst { items: vec![], bins: vec![], strip: full.get("Strip").filter(|v| !v.is_null()).map(|_| 1), text: text.clone() };
    let mut c = fitting(&f, config(r, false));
    c.svg_draw_options.quadtree = r.chance(0.3);
    c.svg_draw_options.haz_prox_grid = r.chance(0.2);
    c.svg_draw_options.surrogate = r.chance(0.3);
    if cf == "free" { c.prng_seed = None; }
    let mut cj = serde_json::to_value(c).unwrap();
    if r.chance(0.3) { cj.as_object_mut().unwrap().remove("svg_draw_options"); c.svg_draw_options = Default::default(); }
    else if r.chance(0.5) { cj["svg_draw_options"].as_object_mut().unwrap().remove("theme"); }
    if c.poly_simpl_tolerance.is_none() && r.chance(0.5) { cj.as_object_mut().unwrap().remove("poly_simpl_tolerance"); }
    if c.prng_seed.is_none() && r.chance(0.5) { cj.as_object_mut().unwrap().remove("prng_seed"); }
    let mut conf = Some("conf/c.json".to_string());
    match cf.as_str() {
        "none" => { conf = None; c = LBFConfig::default(); }
        "missing" => conf = Some("conf/none.json".into()),
        "garbage" => cj = json!("not a configuration"),
        "lacking" => { let k = r.pick(&["n_samples", "cde_config", "ls_frac"]).to_string(); cj.as_object_mut().unwrap().remove(&k); }
        _ => (),
    }
    std::fs::create_dir_all(s.dir.join("conf")).unwrap();
    std::fs::write(s.dir.join("conf/c.json"), cj.to_string()).unwrap();
    // the call
    let before = list(&s.dir);
    let abs = |r: &mut Rng, p: &str| if r.chance(0.5) { s.dir.join(p).to_string_lossy().to_string() } else if p.is_empty() { ".".into() } else { p.to_string() };
    let mut opts: Vec<Vec<String>> = vec![];
    let long = r.chance(0.5);
    if a != "noin" { opts.push(vec![if long { "--input-file" } else { "-i" }.into(), abs(r, &given)]); }
    if a != "nosol" { opts.push(vec![if long { "--solution-folder" } else { "-s" }.into(), abs(r, &dir)]); }
    if let Some(x) = &conf { opts.push(vec![if long { "--config-file" } else { "-c" }.into(), abs(r, x)]); }
    let lg = *r.pick(&["off", "error", "warn", "info", "debug", "trace", ""]);
    if !lg.is_empty() { opts.push(vec![if long { "--log-level" } else { "-l" }.into(), lg.into()]); }
    if a == "unknown" { opts.push(vec!["--no-such-option".into()]); }
    r.shuffle(&mut opts);
    let exe = std::env::current_exe().unwrap().with_file_name("vlcli");
    let o = Command::new(exe).args(opts.iter().flatten()).current_dir(&s.dir).output();
    let (rc, so) = match &o { Ok(o) => (if o.status.success() { 0 } else { 1 }, o.stdout.len().min(1000)), Err(_) => (2, 0) };
    let after = list(&s.dir);
    // what was written
    let out = format!("{dir}sol_{stem}.json");
    let v: Value = std::fs::read_to_string(s.dir.join(&out)).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
    let lay = v["Solution"]["Layouts"].as_array().map_or(-1, |x| x.len() as i64);
    let mut told = v.clone();
    if let Some(m) = told.as_object_mut() { m.remove("Solution"); m.remove("Config"); }
    let conf_ok = serde_json::from_value::<LBFConfig>(v["Config"].clone()).is_ok_and(|x| same(&serde_json::to_value(c).unwrap(), &serde_json::to_value(x).unwrap()))
        && same(&v["Config"], &serde_json::to_value(c).unwrap());
    let svg: Vec<String> = (0..lay.max(0)).filter_map(|i| std::fs::read_to_string(s.dir.join(format!("{dir}sol_{stem}_{i}.svg"))).ok()).filter(|t| t.contains("<svg")).map(|t| drawing(&t)).collect();
    let valid = a == "full" && inp == "good" && ["none", "good", "free"].contains(&cf.as_str());
    let (lib, libsvg) = if valid && cf != "free" { library(&text, c).unwrap_or_else(|e| (e, vec![])) } else { (String::new(), vec![]) };
    if valid && rc == 0 { s.origin.insert(out, key); }
    let e = json!({"e": "run", "a": a, "in": inp, "cf": cf, "src": src, "dir": dir, "stem": stem, "rc": rc, "so": so, "lg": lg, "before": listing(&before), "after": listing(&after),
        "lay": lay, "inst": same(&full, &told) as i64, "cfg": conf_ok as i64, "sol": solution(&v["Solution"]), "lib": lib, "svg": svg, "libsvg": libsvg});
    if inp != "good" { if let Some(b) = before_input { std::fs::write(&path, b).unwrap(); } }
    e
}

pub fn program(args: &Args) -> R {
    let sched: Vec<Value> = std::fs::read_to_string(&args.kv["sched"]).map_err(|e| e.to_string())?.lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let (n, all) = (args.n("runs", 48), sched.len());
    let sched: Vec<Value> = sched.into_iter().enumerate().filter(|(i, _)| all <= n || (i * n) % all < n).map(|x| x.1).collect();
    let out = parallel(8, args.seed ^ 0xC23, |t, mut r| {
        let mut out = Out::new();
        for (n, h) in sched.iter().enumerate() {
            let mut r = r.fork(n as u64);
            if n % 8 != t { continue; }
            let dir = Path::new(&args.out).join(format!("scene{n}"));
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(dir.join("sub")).unwrap();
            let mut s = Scene { dir: std::fs::canonicalize(&dir).unwrap(), texts: HashMap::new(), origin: HashMap::new() };
            for f in ["a.json", "a_0.json", "b.c.json", "plain", "sub/a.json"] {
                let x = usable(&mut r);
                std::fs::write(s.dir.join(f), &x.text).unwrap();
                s.texts.insert(f.to_string(), x.text);
            }
            let mut ev = vec![json!({"e": "begin"})];
            for q in h.as_array().unwrap() {
                // an earlier run did not write the file this one is to read: it has been reported already
                let src = q["src"].as_str().unwrap();
                if !s.texts.contains_key(src) && !s.origin.contains_key(src) { break; }
                ev.push(step(&mut r, &mut s, q));
            }
            let _ = std::fs::remove_dir_all(&s.dir);
            out.push(false, ev);
        }
        out
    });
    finish(args, out, json!({"histories": sched.len()}))
}
