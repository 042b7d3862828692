//! The SVG export (C20): documents are read back and rendered by a small SVG reader of our own
use crate::geo::finish;
use crate::io::{history, rand_inst, IOpts, G};
use crate::rng::Rng;
use crate::util::*;
use crate::Args;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::fsize;
use jagua_rs::geometry::geo_traits::Shape;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::io::json_instance::JsonInstance;
use jagua_rs::io::parser::Parser;
use jagua_rs::util::polygon_simplification::PolySimplConfig;
use lbf::io::layout_to_svg::{layout_to_svg, s_layout_to_svg};
use lbf::io::svg_util::{SvgDrawOptions, SvgLayoutTheme};
use serde_json::{json, Value};
use std::collections::HashMap;

const S: f64 = 64.0;
type M = [f64; 6]; // x' = a x + c y + e, y' = b x + d y + f
const ID: M = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
fn mul(m: &M, n: &M) -> M {
    [m[0] * n[0] + m[2] * n[1], m[1] * n[0] + m[3] * n[1], m[0] * n[2] + m[2] * n[3], m[1] * n[2] + m[3] * n[3],
     m[0] * n[4] + m[2] * n[5] + m[4], m[1] * n[4] + m[3] * n[5] + m[5]]
}
fn app(m: &M, p: (f64, f64)) -> (f64, f64) { (m[0] * p.0 + m[2] * p.1 + m[4], m[1] * p.0 + m[3] * p.1 + m[5]) }

#[derive(Debug, Clone)]
struct Node { tag: String, at: HashMap<String, String>, kids: Vec<Node> }

fn parse_xml(t: &str) -> Result<Node, String> {
    let mut stack = vec![Node { tag: String::new(), at: HashMap::new(), kids: vec![] }];
    let mut rest = t;
    while let Some(i) = rest.find('<') {
        rest = &rest[i + 1..];
        let end = rest.find('>').ok_or("unclosed tag")?;
        let body = &rest[..end];
        rest = &rest[end + 1..];
        if body.starts_with('?') || body.starts_with('!') { continue; }
        if let Some(name) = body.strip_prefix('/') {
            let n = stack.pop().ok_or("stack")?;
            if n.tag != name.trim() { return Err(format!("{} closed by {}", n.tag, name)); }
            stack.last_mut().ok_or("stack")?.kids.push(n);
            continue;
        }
        let closed = body.ends_with('/');
        let body = body.trim_end_matches('/');
        let (name, mut a) = body.split_once(|c: char| c.is_whitespace()).unwrap_or((body, ""));
        let mut at = HashMap::new();
        loop {
            a = a.trim_start();
            if a.is_empty() { break; }
            let (k, v) = a.split_once('=').ok_or("attribute")?;
            let v = v.trim_start();
            let q = v.chars().next().ok_or("attribute")?;
            let v = &v[1..];
            let e = v.find(q).ok_or("attribute")?;
            at.insert(k.trim().to_string(), v[..e].to_string());
            a = &v[e + 1..];
        }
        let n = Node { tag: name.to_string(), at, kids: vec![] };
        if closed { stack.last_mut().unwrap().kids.push(n); } else { stack.push(n); }
    }
    if stack.len() != 1 { return Err("unclosed element".into()); }
    let mut root = stack.pop().unwrap();
    if root.kids.len() != 1 { return Err("not one root".into()); }
    Ok(root.kids.remove(0))
}
fn nums(t: &str) -> Vec<f64> {
    t.split(|c: char| c == ',' || c.is_whitespace()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
}
fn transform(t: &str) -> Result<M, String> {
    let mut m = ID;
    let mut rest = t;
    while let Some(i) = rest.find('(') {
        let name = rest[..i].trim_matches(|c: char| c == ',' || c.is_whitespace()).to_string();
        let j = rest.find(')').ok_or("transform")?;
        let v = nums(&rest[i + 1..j]);
        rest = &rest[j + 1..];
        let n = match (name.as_str(), v.len()) {
            ("translate", 2) => [1.0, 0.0, 0.0, 1.0, v[0], v[1]],
            ("translate", 1) => [1.0, 0.0, 0.0, 1.0, v[0], 0.0],
            ("rotate", 1) => { let (s, c) = v[0].to_radians().sin_cos(); [c, s, -s, c, 0.0, 0.0] }
            ("rotate", 3) => { let (s, c) = v[0].to_radians().sin_cos(); mul(&mul(&[1.0, 0.0, 0.0, 1.0, v[1], v[2]], &[c, s, -s, c, 0.0, 0.0]), &[1.0, 0.0, 0.0, 1.0, -v[1], -v[2]]) }
            ("matrix", 6) => [v[0], v[1], v[2], v[3], v[4], v[5]],
            ("scale", 1) => [v[0], 0.0, 0.0, v[0], 0.0, 0.0],
            ("scale", 2) => [v[0], 0.0, 0.0, v[1], 0.0, 0.0],
            _ => return Err(format!("transform {name}")),
        };
        m = mul(&m, &n);
    }
    Ok(m)
}
/// subpaths of a path made of straight lines
fn path(d: &str) -> Result<Vec<Vec<(f64, f64)>>, String> {
    let mut out: Vec<Vec<(f64, f64)>> = vec![];
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for c in d.chars() {
        let exp = cur.ends_with(['e', 'E']);
        if c == ',' || c.is_whitespace() { if !cur.is_empty() { toks.push(std::mem::take(&mut cur)); } }
        else if c.is_ascii_alphabetic() && c != 'e' && c != 'E' { if !cur.is_empty() { toks.push(std::mem::take(&mut cur)); } toks.push(c.to_string()); }
        else if c == '-' && !cur.is_empty() && !exp { toks.push(std::mem::take(&mut cur)); cur.push(c); }
        else { cur.push(c); }
    }
    if !cur.is_empty() { toks.push(cur); }
    let mut i = 0;
    let mut cmd = ' ';
    let mut p = (0.0, 0.0);
    while i < toks.len() {
        if toks[i].chars().all(|c| c.is_ascii_alphabetic()) { cmd = toks[i].chars().next().unwrap(); i += 1; if cmd == 'z' || cmd == 'Z' { continue; } }
        let mut num = || -> Result<f64, String> { let v = toks.get(i).ok_or("path")?.parse::<f64>().map_err(|e| e.to_string())?; i += 1; Ok(v) };
        match cmd {
            'M' => { p = (num()?, num()?); out.push(vec![p]); cmd = 'L'; }
            'm' => { p = (p.0 + num()?, p.1 + num()?); out.push(vec![p]); cmd = 'l'; }
            'L' => { p = (num()?, num()?); out.last_mut().ok_or("path")?.push(p); }
            'l' => { p = (p.0 + num()?, p.1 + num()?); out.last_mut().ok_or("path")?.push(p); }
            'H' => { p = (num()?, p.1); out.last_mut().ok_or("path")?.push(p); }
            'V' => { p = (p.0, num()?); out.last_mut().ok_or("path")?.push(p); }
            c => return Err(format!("path command {c}")),
        }
    }
    Ok(out)
}

#[derive(Default)]
struct Drawn { shapes: Vec<Value>, surr: Vec<Value>, lines: usize, red: Vec<Value>, green: Vec<Value>, grey: Vec<Value>, dots: Vec<Value>, rings: Vec<Value> }
fn pt(m: &M, p: (f64, f64)) -> Value { let q = app(m, p); json!([(q.0 * S).round() as i64, (q.1 * S).round() as i64]) }

fn render(n: &Node, m: &M, ids: &HashMap<String, Node>, layer: &str, out: &mut Drawn, depth: usize) -> Result<(), String> {
    if depth > 20 { return Err("too deep".into()); }
    if n.tag == "defs" { return Ok(()); }
    let m = match n.at.get("transform") { Some(t) => mul(m, &transform(t)?), None => *m };
    let layer = match n.at.get("id").map(|s| s.as_str()) { Some(x @ ("optionals" | "surrogates" | "quadtree" | "haz_prox_grid")) => x, _ => layer };
    match n.tag.as_str() {
        "use" => {
            let h = n.at.get("xlink:href").or(n.at.get("href")).ok_or("href")?;
            let x = n.at.get("x").map_or(0.0, |v| v.parse().unwrap_or(0.0));
            let y = n.at.get("y").map_or(0.0, |v| v.parse().unwrap_or(0.0));
            let m = mul(&m, &[1.0, 0.0, 0.0, 1.0, x, y]);
            let t = ids.get(h.trim_start_matches('#')).ok_or(format!("nothing is called {h}"))?;
            render(t, &m, ids, layer, out, depth + 1)?;
        }
        "path" => {
            for sub in path(n.at.get("d").ok_or("path without data")?)? {
                let p = Value::Array(sub.iter().map(|q| pt(&m, *q)).collect());
                match (layer, n.at.get("fill").map_or("", |s| s.as_str())) {
                    ("", _) => out.shapes.push(p),
                    ("quadtree", "red") => out.red.push(p),
                    ("quadtree", "green") => out.green.push(p),
                    ("quadtree", _) => out.grey.push(p),
                    _ => out.lines += 1,
                }
            }
        }
        "circle" => {
            let g = |k: &str| n.at.get(k).and_then(|v| v.parse::<f64>().ok()).ok_or(format!("circle without {k}"));
            let c = app(&m, (g("cx")?, g("cy")?));
            match layer {
                "surrogates" => out.surr.push(json!([(c.0 * S).round() as i64, (c.1 * S).round() as i64, (g("r")? * S).round() as i64])),
                "" => return Err("a circle among the shapes".into()),
                _ => {
                    let v = json!([(c.0 * S).round() as i64, (c.1 * S).round() as i64, (g("r")? * S).round() as i64]);
                    if n.at.get("fill").map_or("", |s| s.as_str()) == "none" { out.rings.push(v) } else { out.dots.push(v) }
                }
            }
        }
        _ => {}
    }
    for k in &n.kids { render(k, &m, ids, layer, out, depth + 1)?; }
    Ok(())
}
fn collect_ids(n: &Node, ids: &mut HashMap<String, Node>) {
    if let Some(i) = n.at.get("id") { ids.insert(i.clone(), n.clone()); }
    for k in &n.kids { collect_ids(k, ids); }
}
/// an even selection
fn some(v: Vec<Value>) -> Vec<Value> { let k = v.len() / 24 + 1; v.into_iter().step_by(k).collect() }
fn read_back(text: &str) -> Result<Value, String> {
    let root = parse_xml(text)?;
    if root.tag != "svg" { return Err("not an svg".into()); }
    let vb = nums(root.at.get("viewBox").ok_or("no view box")?);
    let mut ids = HashMap::new();
    collect_ids(&root, &mut ids);
    let mut d = Drawn::default();
    render(&root, &ID, &ids, "", &mut d, 0)?;
    Ok(json!({"vb": vb.iter().map(|x| (x * S).round() as i64).collect::<Vec<_>>(), "shapes": d.shapes, "surr": d.surr, "red": d.red, "green": d.green,
        "lines": d.lines, "grey": d.grey, "ndots": d.dots.len() + d.rings.len(), "dots": some(d.dots), "rings": some(d.rings)}))
}

fn upoly(p: &SimplePolygon, d: (f64, f64)) -> Value {
    Value::Array(p.points.iter().map(|q| json!([((q.0 as f64 - d.0) * S).round() as i64, ((q.1 as f64 - d.1) * S).round() as i64])).collect())
}

pub fn draw(args: &Args) -> Result<(), String> {
    let runs = args.n("runs", 200);
    let out = parallel(8, args.seed ^ 0xC20, |t, mut r: Rng| {
        let mut out = Out::new();
        for run in 0..runs {
            let mut r = r.fork(run as u64);
            if run % 8 != t { continue; }
            let o = IOpts { size: *r.pick(&[12, 24, 40]), strip: r.chance(0.3), big_numbers: false, max_bins: 3, item_div: *r.pick(&[2, 3, 4]), zones: r.chance(0.7), lbf: false };
            let f = rand_inst(&mut r, &o);
            let opts = SvgDrawOptions { theme: if r.chance(0.5) { SvgLayoutTheme::gray() } else { SvgLayoutTheme::earth_tones() }, quadtree: r.chance(0.4), haz_prox_grid: r.chance(0.3), surrogate: r.chance(0.4) };
            let mut c = cfg(&mut r, true, false);
            c.quadtree_depth = c.quadtree_depth.min(4);
            c.hpg_n_cells = c.hpg_n_cells.max(30);
            c.item_surrogate_config.max_poles = c.item_surrogate_config.max_poles.min(4);
            let ctr = r.chance(0.7);
            let prep = guard(|| {
                let ji: JsonInstance = serde_json::from_str(&f.text).unwrap();
                let inst = Parser::new(PolySimplConfig::Disabled, c, ctr).parse(&ji);
                let s = history(&mut r, &inst, c);
                (inst, s)
            });
            let Ok((inst, sol)) = prep else { continue };
            for ls in sol.layout_snapshots.iter().take(2) {
                // where the container of the layout lies relative to the one in the file
                let ib = ls.bin.outer.bbox();
                let fb = match &inst {
                    Instance::SP(_) => (0.0, 0.0),
                    Instance::BP(_) => { let b = crate::igeo::bbox(&f.bins[ls.bin.id].outer); (b.0 as f64 / G as f64, b.1 as f64 / G as f64) }
                };
                let d = (ib.x_min as f64 - fb.0, ib.y_min as f64 - fb.1);
                let zones: Vec<Value> = ls.bin.quality_zones.iter().flatten().flat_map(|q| q.zones.iter()).map(|z| upoly(z, d)).collect();
                let mut v = json!({"e": "svg", "q": opts.quadtree as i64, "g": opts.haz_prox_grid as i64, "s": opts.surrogate as i64,
                    "outer": upoly(&ls.bin.outer, d), "holes": ls.bin.holes.iter().map(|h| upoly(h, d)).collect::<Vec<_>>(), "zones": zones,
                    "items": ls.placed_items.values().map(|p| upoly(&p.shape, d)).collect::<Vec<_>>(),
                    "poles": ls.placed_items.values().map(|p| inst.item(p.item_id).shape.surrogate().poles.len()).collect::<Vec<_>>()});
                let live = r.chance(0.3);
                let res = guard(|| if live { layout_to_svg(&jagua_rs::entities::layout::Layout::from_snapshot(ls), &inst, opts) } else { s_layout_to_svg(ls, &inst, opts) }.to_string());
                match res.and_then(|t| read_back(&t)) {
                    Ok(x) => { v["ok"] = json!(1); for (k, y) in x.as_object().unwrap() { v[k] = y.clone(); } }
                    Err(e) => { v["ok"] = json!(0); v["err"] = json!(e); }
                }
                let _ = fsize::MAX;
                out.push(v["ok"] == json!(0), vec![v]);
            }
        }
        out
    });
    // drawings written by the command line program, against its solution file
    let cli = args.n("cli", 40);
    let more = parallel(8, args.seed ^ 0x20C, |t, mut r: Rng| {
        let mut out = Out::new();
        for run in 0..cli {
            let mut r = r.fork(run as u64);
            if run % 8 != t { continue; }
            let f = crate::opt::instance(&mut r);
            let mut c = crate::opt::config(&mut r, false);
            c.poly_simpl_tolerance = None;
            c.n_samples = 60;
            c.cde_config.quadtree_depth = c.cde_config.quadtree_depth.min(3);
            let opts = SvgDrawOptions { theme: SvgLayoutTheme::gray(), quadtree: r.chance(0.3), haz_prox_grid: r.chance(0.3), surrogate: r.chance(0.3) };
            c.svg_draw_options = opts;
            match crate::opt::run_cli(&f.text, c, &format!("{}/cli{run}", args.out), None) {
                Err(e) => out.push(true, vec![json!({"e": "svg", "ok": 0, "err": e})]),
                Ok((sol, svgs)) => {
                    let sol: Value = serde_json::from_str(&sol).unwrap();
                    for (k, l) in sol["Layouts"].as_array().unwrap().iter().enumerate() {
                        let b = l["Container"]["Params"]["Index"].as_u64().map(|b| &f.bins[b as usize]);
                        let items: Vec<Value> = l["PlacedItems"].as_array().unwrap().iter().map(|p| {
                            let t = &p["Transformation"];
                            crate::opt::moved(&f.items[p["Index"].as_u64().unwrap() as usize].shape.outline, t["Rotation"].as_f64().unwrap(), t["Translation"][0].as_f64().unwrap(), t["Translation"][1].as_f64().unwrap(), S)
                        }).collect();
                        let outer = match b {
                            Some(b) => crate::opt::at0(&b.outer, S),
                            None => {
                                let n = |k: &str| (l["Container"]["Params"][k].as_f64().unwrap() * S).round() as i64;
                                json!([[0, 0], [n("Width"), 0], [n("Width"), n("Height")], [0, n("Height")]])
                            }
                        };
                        let mut v = json!({"e": "svg", "q": opts.quadtree as i64, "g": opts.haz_prox_grid as i64, "s": opts.surrogate as i64, "outer": outer,
                            "holes": b.map_or(vec![], |b| b.holes.iter().map(|h| crate::opt::at0(h, S)).collect()), "zones": b.map_or(vec![], |b| b.zones.iter().map(|z| crate::opt::at0(&z.1, S)).collect()),
                            "poles": vec![1; items.len()], "items": items});
                        match svgs.get(k).ok_or("no drawing".to_string()).and_then(|t| read_back(t)) {
                            Ok(x) => { v["ok"] = json!(1); for (k, y) in x.as_object().unwrap() { v[k] = y.clone(); } }
                            Err(e) => { v["ok"] = json!(0); v["err"] = json!(e); }
                        }
                        out.push(v["ok"] == json!(0), vec![v]);
                    }
                }
            }
        }
        out
    });
    let mut out = out;
    out.blocks.extend(more.blocks);
    finish(args, out, json!({"instances": runs, "through_the_command_line": cli}))
}
