//! The optimizer: feasibility of what it returns (C15) and repeatability (C16)
use crate::geo::finish;
use crate::igeo::*;
use crate::io::{diameter, rand_inst, rect_shape, shape, FBin, FInst, FItem, FShape, IOpts, G};
use crate::rng::Rng;
use crate::util::*;
use crate::Args;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::fsize;
use jagua_rs::io::json_instance::JsonInstance;
use jagua_rs::io::parser::{compose_json_solution, Parser};
use jagua_rs::util::polygon_simplification::PolySimplConfig;
use lbf::lbf_config::LBFConfig;
use lbf::lbf_optimizer::LBFOptimizer;
use rand::prelude::SmallRng;
use rand::SeedableRng;
use serde_json::{json, Value};
use std::process::Command;
use std::time::Instant;

type R = Result<(), String>;

pub fn instance(r: &mut Rng) -> FInst {
    loop {
        let strip = r.chance(0.5);
        let o = IOpts { size: *r.pick(&[12, 24, 40]), strip, big_numbers: false, max_bins: 3, item_div: *r.pick(&[2, 3, 4]), zones: r.chance(0.5), lbf: true };
        let f = rand_inst(r, &o);
        let area: f64 = f.items.iter().map(|i| i.demand as f64 * area2(&i.shape.outline).abs() as f64 / 2.0).sum();
        if area == 0.0 { continue; }
        if let Some(h) = f.strip { if area * 2.0 / h as f64 > 100.0 * G as f64 { continue; } }
        return f;
    }
}
/// bins of ample stock, items that hardly fit or do not fit at all, and small ones that certainly do
fn roomy(r: &mut Rng) -> FInst {
    let side = r.int(10, 30) * G;
    let mut bins = vec![];
    for _ in 0..r.us(1, 3) {
        let (w, h) = (side + r.int(0, 4) * G, side + r.int(0, 4) * G);
        let stock = if r.chance(0.5) { None } else { Some(r.int(0, 40) as u64) };
        let s = rect_shape(w, h);
        bins.push(FBin { outer: s.outline, holes: vec![], zones: vec![], cost: 1, stock, json: json!({"Cost": 1, "Stock": stock, "Shape": s.json}) });
    }
    let mut items = vec![];
    let mut add = |r: &mut Rng, shape: FShape, lo: i64, hi: i64| items.push(FItem { shape, demand: r.int(lo, hi) as u64, value: None, quality: None, orient: Some(vec![0]) });
    if r.chance(0.5) { let l = side * 3 / 2; let s = rect_shape(l, r.int(G, l)); add(r, s, 1, 3); }
    if r.chance(0.7) { let s = rect_shape(side * r.int(85, 95) / 100, side * r.int(85, 95) / 100); add(r, s, 0, 8); }
    for _ in 0..r.us(1, 3) {
        let m = side * 17 / 100;
        let s = if r.chance(0.5) { rect_shape(r.int(m * 9 / 10, m), r.int(m * 9 / 10, m)) } else { let p = crate::gen::poly(r, m, m); shape(r, &p) };
        add(r, s, 0, 5);
    }
    if items.iter().all(|i| i.demand == 0) { items.last_mut().unwrap().demand = 2; }
    r.shuffle(&mut items);
    let text = json!({"Name": "generated", "Objects": bins.iter().map(|b| b.json.clone()).collect::<Vec<_>>(), "Items": items.iter().map(|i| json!({"Demand": i.demand,
        "Shape": i.shape.json, "AllowedOrientations": [0.0]})).collect::<Vec<_>>()}).to_string();
    FInst { items, bins, strip: None, text }
}
pub fn config(r: &mut Rng, piers: bool) -> LBFConfig {
    let mut c = cfg(r, true, piers);
    c.hpg_n_cells = *r.pick(&[10usize, 40, 150, 600]);
    LBFConfig {
        cde_config: c,
        poly_simpl_tolerance: *r.pick(&[None, None, Some(0.001 as fsize), Some(0.02), Some(0.1)]),
        prng_seed: Some(*r.pick(&[0, 1, u64::MAX, 42]) ^ if r.chance(0.3) { 0 } else { r.int(0, 1 << 40) as u64 }),
        n_samples: *r.pick(&[10usize, 40, 150, 400]),
        ls_frac: *r.pick(&[0.0f32, 0.2, 0.2, 0.5, 0.8]),
        svg_draw_options: Default::default(),
    }
}

/// a simplified (inflated) item may not fit the strip any more, in which case the optimizer widens the strip for ever: no simplification then
pub fn fitting(f: &FInst, c: LBFConfig) -> LBFConfig {
    let Some(tolerance) = c.poly_simpl_tolerance else { return c };
    if f.strip.is_none() { return c; }
    let fits = guard(|| {
        let ji: JsonInstance = serde_json::from_str(&f.text).unwrap();
        match Parser::new(PolySimplConfig::Enabled { tolerance }, c.cde_config, true).parse(&ji) {
            Instance::SP(s) => s.items.iter().all(|i| i.0.shape.diameter * 1.05 < s.strip_height),
            _ => true,
        }
    }).unwrap_or(true);
    if fits { c } else { LBFConfig { poly_simpl_tolerance: None, ..c } }
}

/// instance file -> solution file, as the command line program does it
fn run(text: &str, c: LBFConfig) -> Result<String, String> {
    guard(|| {
        let ji: JsonInstance = serde_json::from_str(text).unwrap();
        let simpl = match c.poly_simpl_tolerance { Some(tolerance) => PolySimplConfig::Enabled { tolerance }, None => PolySimplConfig::Disabled };
        let inst = Parser::new(simpl, c.cde_config, true).parse(&ji);
        let epoch = Instant::now();
        let s = LBFOptimizer::new(inst.clone(), c, SmallRng::seed_from_u64(c.prng_seed.unwrap())).solve();
        serde_json::to_string(&compose_json_solution(&s, &inst, epoch)).unwrap()
    })
}
/// the command line program itself; also returns the number of drawings it wrote
pub fn run_cli(text: &str, c: LBFConfig, dir: &str, threads: Option<usize>) -> Result<(String, Vec<String>), String> {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    std::fs::write(format!("{dir}/in.json"), text).unwrap();
    std::fs::write(format!("{dir}/cfg.json"), serde_json::to_string(&c).unwrap()).unwrap();
    let exe = std::env::current_exe().unwrap().with_file_name("vlcli");
    let mut cmd = Command::new(exe);
    cmd.args(["-i", &format!("{dir}/in.json"), "-s", &format!("{dir}/out"), "-c", &format!("{dir}/cfg.json"), "-l", "off"]);
    if let Some(t) = threads { cmd.env("RAYON_NUM_THREADS", t.to_string()); }
    let o = cmd.output().map_err(|e| e.to_string())?;
    let res = if !o.status.success() { Err(format!("the program failed: {}", String::from_utf8_lossy(&o.stderr))) } else {
        let t = std::fs::read_to_string(format!("{dir}/out/sol_in.json")).map_err(|e| e.to_string());
        let mut files: Vec<_> = std::fs::read_dir(format!("{dir}/out")).map(|d| d.map(|f| f.unwrap().path()).filter(|f| f.extension().is_some_and(|x| x == "svg")).collect()).unwrap_or_default();
        files.sort_by_key(|f| { let n = f.file_stem().unwrap().to_string_lossy().to_string(); n.rsplit('_').next().and_then(|x| x.parse::<usize>().ok()).unwrap_or(usize::MAX) });
        let n: Vec<String> = files.iter().map(|f| std::fs::read_to_string(f).unwrap_or_default()).collect();
        t.and_then(|t| {
            let v: Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
            Ok((v["Solution"].to_string(), n))
        })
    };
    let _ = std::fs::remove_dir_all(dir);
    res
}

pub fn moved(p: &[P], rot: f64, tx: f64, ty: f64, s: f64) -> Value {
    let (sn, cs) = rot.sin_cos();
    let g = G as f64;
    Value::Array(p.iter().map(|&(x, y)| {
        let (x, y) = (x as f64 / g, y as f64 / g);
        json!([((x * cs - y * sn + tx) * s).round() as i64, ((x * sn + y * cs + ty) * s).round() as i64])
    }).collect())
}
pub fn at0(p: &[P], s: f64) -> Value { moved(p, 0.0, 0.0, 0.0, s) }

/// one solution file as an event
fn event(f: &FInst, c: &LBFConfig, text: &Result<String, String>, cli: bool) -> Value {
    let mut v = json!({"e": "sol", "cli": cli as i64, "uni": c.n_samples - (c.n_samples as f32 * c.ls_frac) as usize, "strip": -1});
    let text = match text { Ok(t) => t, Err(e) => { v["ok"] = json!(0); v["err"] = json!(e); return v; } };
    v["ok"] = json!(1);
    let sol: Value = serde_json::from_str(text).unwrap();
    let lays = sol["Layouts"].as_array().unwrap().clone();
    // the largest coordinate decides the scale
    let wmax = lays.iter().filter_map(|l| l["Container"]["Params"]["Width"].as_f64()).fold(0.0, f64::max);
    let m = f.bins.iter().flat_map(|b| b.outer.iter()).map(|p| p.0.abs().max(p.1.abs()) as f64 / G as f64).fold(wmax, f64::max).max(f.strip.unwrap_or(0) as f64 / G as f64);
    let s = [512.0, 256.0, 128.0, 64.0, 32.0, 16.0].into_iter().find(|s| s * m <= 14000.0).unwrap_or(8.0);
    v["S"] = json!(s as i64);
    if let Some(h) = f.strip { v["strip"] = json!(h * s as i64 / G); }
    v["items"] = Value::Array(f.items.iter().map(|i| json!({"d": i.demand, "q": i.quality.map_or(-1, |q| q as i64), "any": i.orient.is_none() as i64,
        "o": i.orient.clone().unwrap_or_default(), "dia": (diameter(&i.shape.outline) / G as f64 * s).ceil() as i64})).collect());
    v["bins"] = Value::Array(f.bins.iter().map(|b| json!({"s": b.stock.map_or(-1, |s| s as i64), "o": at0(&b.outer, s), "h": b.holes.iter().map(|h| at0(h, s)).collect::<Vec<_>>(),
        "z": b.zones.iter().map(|z| json!([z.0, at0(&z.1, s)])).collect::<Vec<_>>()})).collect());
    v["lay"] = Value::Array(lays.iter().map(|l| {
        let k = &l["Container"];
        let b = k["Params"]["Index"].as_i64().unwrap_or(-1);
        let n = |x: &Value| (x.as_f64().unwrap_or(-1.0) * s).round() as i64;
        json!({"b": b, "w": n(&k["Params"]["Width"]), "h": n(&k["Params"]["Height"]), "it": l["PlacedItems"].as_array().unwrap().iter().map(|p| {
            let i = p["Index"].as_u64().unwrap() as usize;
            let t = &p["Transformation"];
            let rot = t["Rotation"].as_f64().unwrap();
            json!({"i": i, "r": (rot.rem_euclid(std::f64::consts::TAU) * 10000.0).round() as i64,
                "p": moved(&f.items[i].shape.outline, rot, t["Translation"][0].as_f64().unwrap(), t["Translation"][1].as_f64().unwrap(), s)})
        }).collect::<Vec<_>>()})
    }).collect());
    v
}
/// worth looking at first
fn suspicious(v: &Value) -> bool {
    if v["ok"] != json!(1) { return true; }
    let poly = |x: &Value| -> Poly { x.as_array().unwrap().iter().map(|p| (p[0].as_i64().unwrap(), p[1].as_i64().unwrap())).collect() };
    for l in v["lay"].as_array().unwrap() {
        let its: Vec<Poly> = l["it"].as_array().unwrap().iter().map(|i| poly(&i["p"])).collect();
        let outer = match l["b"].as_i64().unwrap() { -1 => { let (w, h) = (l["w"].as_i64().unwrap(), l["h"].as_i64().unwrap()); vec![(0, 0), (w, 0), (w, h), (0, h)] } b => poly(&v["bins"][b as usize]["o"]) };
        if its.iter().any(|p| leaves(p, &outer, 3) == 1) { return true; }
        for i in 0..its.len() { for j in 0..i { if overlap(&its[i], &its[j], 3) == 1 { return true; } } }
    }
    false
}

pub fn solve(args: &Args) -> R {
    let runs = args.n("runs", 200);
    let cli = args.n("cli", 10);
    let out = parallel(8, args.seed ^ 0xC15, |t, mut r| {
        let mut out = Out::new();
        for run_no in 0..runs {
            let mut r = r.fork(run_no as u64);
            if run_no % 8 != t { continue; }
            let crafted = r.chance(0.15);
            let f = if crafted { roomy(&mut r) } else { instance(&mut r) };
            let mut c = fitting(&f, config(&mut r, false));
            if crafted && r.chance(0.8) { (c.n_samples, c.ls_frac) = (400, 0.5); }
            if run_no < cli {
                let x = run_cli(&f.text, c, &format!("{}/cli{run_no}", args.out), None);
                let mut v = event(&f, &c, &x.as_ref().map(|y| y.0.clone()).map_err(|e| e.clone()), true);
                v["svgs"] = json!(x.map_or(-1, |y| y.1.len() as i64));
                out.push(suspicious(&v), vec![v]);
            } else {
                let mut v = event(&f, &c, &run(&f.text, c), false);
                if v["ok"] == json!(0) { v["file"] = json!(f.text); v["config"] = json!(serde_json::to_string(&c).unwrap()); }
                out.push(suspicious(&v), vec![v]);
            }
        }
        out
    });
    finish(args, out, json!({"instances": runs, "through_the_command_line": cli}))
}

/// the solution file without the time it took
fn strip_time(t: Result<String, String>) -> String {
    match t {
        Ok(t) => { let mut v: Value = serde_json::from_str(&t).unwrap(); v["RunTimeSec"] = json!(0); v.to_string() }
        Err(e) => format!("failed: {e}"),
    }
}
/// child process: instance and configuration files in, solution on stdout
pub fn child(inst: &str, conf: &str) {
    let text = std::fs::read_to_string(inst).unwrap();
    let c: LBFConfig = serde_json::from_str(&std::fs::read_to_string(conf).unwrap()).unwrap();
    println!("{}", strip_time(run(&text, c)));
}

pub fn repeat(args: &Args) -> R {
    let runs = args.n("runs", 40);
    let cli = args.n("cli", 8);
    let out = parallel(8, args.seed ^ 0xC16, |t, mut r| {
        let mut out = Out::new();
        for run_no in 0..runs {
            let mut r = r.fork(run_no as u64);
            if run_no % 8 != t { continue; }
            let f = instance(&mut r);
            let piers = r.chance(0.1);
            let c = fitting(&f, config(&mut r, piers));
            let mut ev = vec![json!({"e": "begin"})];
            let mut rec = |how: &str, d: String| ev.push(json!({"e": "run", "how": how, "ok": !d.starts_with("failed") as i64, "d": d}));
            rec("first", strip_time(run(&f.text, c)));
            rec("again", strip_time(run(&f.text, c)));
            // another run in between must not matter
            let g = instance(&mut r);
            let d = fitting(&g, config(&mut r, false));
            let _ = run(&g.text, d);
            rec("after another", strip_time(run(&f.text, c)));
            let dir = format!("{}/c{run_no}", args.out);
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(format!("{dir}/in.json"), &f.text).unwrap();
            std::fs::write(format!("{dir}/cfg.json"), serde_json::to_string(&c).unwrap()).unwrap();
            for n in [1usize, 2, 7] {
                let o = Command::new(std::env::current_exe().unwrap()).args(["one", &format!("{dir}/in.json"), &format!("{dir}/cfg.json")])
                    .env("RAYON_NUM_THREADS", n.to_string()).output();
                rec(&format!("process with {n} threads"), match o { Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).trim().to_string(), Ok(o) => format!("failed: {:?}", o.status), Err(e) => e.to_string() });
            }
            let _ = std::fs::remove_dir_all(&dir);
            if run_no < cli {
                let n = *r.pick(&[1usize, 3, 8]);
                rec("command line", strip_time(run_cli(&f.text, c, &format!("{}/cli{run_no}", args.out), Some(n)).map(|x| x.0)));
            }
            let hot = ev[1..].iter().any(|e| e["d"] != ev[1]["d"]);
            out.push(hot, ev);
        }
        out
    });
    finish(args, out, json!({"instances": runs, "runs_each": 6, "through_the_command_line": cli}))
}
