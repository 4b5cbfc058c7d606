//! Whole programs: the behaviours of Session.tla, step by step in the library.
//! What an object answers depends on what went into it and on nothing that
//! happened to others; results go in again as they came out.
use crate::boolean::*;
use crate::float::place;
use crate::geo::*;
use crate::modes::*;
use crate::pool::*;
use crate::rng::Rng;
use crate::scene::*;
use crate::strings::clip_diff;
use i_overlay::core::graph::OverlayGraph;
use i_overlay::core::overlay::{ContourDirection, Overlay, ShapeType};
use i_overlay::core::simplify::Simplify;
use i_overlay::float::clip::FloatClip;
use i_overlay::float::filter::ContourFilter;
use i_overlay::float::graph::FloatOverlayGraph;
use i_overlay::float::overlay::FloatOverlay;
use i_overlay::float::simplify::SimplifyShape;
use i_overlay::float::slice::FloatSlice;
use i_overlay::i_float::float::compatible::FloatPointCompatible;
use i_overlay::i_shape::int::shape::IntShapes;
use i_overlay::string::clip::{ClipRule, IntClip};
use i_overlay::string::overlay::StringOverlay;
use i_overlay::string::rule::StringRule;
use i_overlay::string::slice::IntSlice;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};

pub fn generate(o: &Opt) {
    let (n, steps) = (num(o, "n", 1000) as usize, num(o, "steps", 12) as usize);
    let seed = num(o, "seed", 1);
    let mut r = Rng::mix(&[seed, 0x5e55]);
    let mut res = Vec::new();
    let scenes = if text(o, "small") == "1" { all_small(0, 2) } else { gen_scenes(seed, n * 2, &(0..crate::scene::FAMILIES).collect::<Vec<_>>(), false) };
    let mut scenes: Vec<Scene> = scenes;
    if text(o, "small") == "1" {
        r.shuffle(&mut scenes);
    }
    for s in scenes {
        let Some(k) = scale_of(&s.segments(), 840) else { continue };
        let mut pool: Vec<Contour> = s.subj.iter().chain(s.clip.iter()).filter(|c| c.len() > 1).map(|c| c.iter().map(|p| (p.0 * k * 2, p.1 * k * 2)).collect()).collect();
        r.shuffle(&mut pool);
        pool.truncate(5);
        let m = pool.iter().flatten().map(|p| p.0.abs().max(p.1.abs())).max().unwrap_or(0);
        let edges: usize = pool.iter().map(|c| c.len()).sum();
        if m > 400 || m == 0 || edges > 24 {
            continue;
        }
        let odd = |r: &mut Rng| 2 * r.range(-m / 2, m / 2) + 1;
        let probes: Vec<P> = (0..num(o, "probes", 10)).map(|_| (odd(&mut r), odd(&mut r))).collect();
        let dice: Vec<i64> = (0..2 * steps).map(|_| r.range(0, 1_000_000)).collect();
        res.push(json!({"id": res.len() + 1, "pool": cs_json(&pool), "probes": c_json(&probes), "steps": steps, "dice": dice}));
        if res.len() == n {
            break;
        }
    }
    write_lines(text(o, "out"), res.into_iter());
}

fn dir_of(cw: bool) -> ContourDirection {
    if cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise }
}

/// The objects of a session, of one of the two interfaces.
trait Library {
    fn add(&mut self, s: usize, t: ShapeType, c: &Contour, r: &mut Rng);
    fn feed(&mut self, s: usize, t: ShapeType, i: usize, r: &mut Rng);
    fn copy(&mut self, s: usize, to: usize);
    fn drop(&mut self, s: usize);
    fn build(&mut self, s: usize, fill: usize, v: &Variant);
    fn ask(&mut self, s: usize, rule: usize, area: i64, v: &Variant) -> Result<Vec<Shape>, String>;
    fn disturb(&self, s: usize, rule: usize, area: i64, v: &Variant);
    fn take(&mut self, s: usize, fill: usize, rule: usize, area: i64, v: &Variant) -> Result<Vec<Shape>, String>;
    fn simplify(&mut self, i: usize, fill: usize, area: i64, v: &Variant, r: &mut Rng) -> Result<Vec<Shape>, String>;
    fn slice(&mut self, i: usize, fill: usize, lines: &[Edge], v: &Variant) -> Result<Vec<Shape>, String>;
    fn clip(&mut self, i: usize, fill: usize, lines: &[Edge], rule: ClipRule, v: &Variant) -> Result<Vec<Contour>, String>;
}

enum Thing {
    Build(Overlay),
    Graph(OverlayGraph),
}

struct Int {
    slots: Vec<Thing>,
    results: Vec<IntShapes>,
}

impl Int {
    fn over(&mut self, s: usize) -> &mut Overlay {
        match &mut self.slots[s] {
            Thing::Build(o) => o,
            _ => unreachable!(),
        }
    }
    fn keep(&mut self, s: IntShapes) -> Result<Vec<Shape>, String> {
        let r = shapes_from(&s);
        self.results.push(s);
        Ok(r)
    }
}

impl Library for Int {
    fn add(&mut self, s: usize, t: ShapeType, c: &Contour, r: &mut Rng) {
        let c = to_int(c);
        let o = self.over(s);
        match r.below(5) {
            0 => o.add_contour(&c, t),
            1 => o.add_contours(&[c], t),
            2 => o.add_shape(&vec![c], t),
            3 => o.add_shapes(&[vec![c]], t),
            _ => o.add_path_iter(c.into_iter(), t),
        }
    }
    fn feed(&mut self, s: usize, t: ShapeType, i: usize, r: &mut Rng) {
        let x = self.results[i].clone();
        let o = self.over(s);
        match r.below(4) {
            0 => o.add_shapes(&x, t),
            1 => x.iter().for_each(|s| o.add_shape(s, t)),
            2 => x.iter().rev().for_each(|s| o.add_contours(s, t)),
            _ => x.iter().flatten().for_each(|c| o.add_contour(c, t)),
        }
    }
    fn copy(&mut self, s: usize, to: usize) {
        let o = self.over(s).clone();
        self.slots[to] = Thing::Build(o);
    }
    fn drop(&mut self, s: usize) {
        self.slots[s] = Thing::Build(Overlay::new(0));
    }
    fn build(&mut self, s: usize, fill: usize, v: &Variant) {
        let o = std::mem::replace(self.over(s), Overlay::new(0));
        self.slots[s] = Thing::Graph(if v.api == 0 { o.into_graph(FILLS[fill]) } else { o.into_graph_with_solver(FILLS[fill], solver_of(v.solver)) });
    }
    fn ask(&mut self, s: usize, rule: usize, area: i64, v: &Variant) -> Result<Vec<Shape>, String> {
        let Thing::Graph(g) = &self.slots[s] else { unreachable!() };
        let got = if v.api == 0 && !v.cw && area == 0 { g.extract_shapes(RULES[rule]) } else { g.extract_shapes_custom(RULES[rule], dir_of(v.cw), v.simplify, area as usize) };
        self.keep(got)
    }
    fn disturb(&self, s: usize, rule: usize, area: i64, v: &Variant) {
        let Thing::Graph(g) = &self.slots[s] else { unreachable!() };
        g.extract_shapes_custom(RULES[rule], dir_of(v.cw), v.simplify, area as usize);
    }
    fn take(&mut self, s: usize, fill: usize, rule: usize, area: i64, v: &Variant) -> Result<Vec<Shape>, String> {
        let o = std::mem::replace(self.over(s), Overlay::new(3));
        let got = if v.api == 0 && !v.cw && area == 0 { o.overlay(RULES[rule], FILLS[fill]) } else { o.overlay_custom(RULES[rule], FILLS[fill], dir_of(v.cw), v.simplify, area as usize, solver_of(v.solver)) };
        self.keep(got)
    }
    fn simplify(&mut self, i: usize, fill: usize, area: i64, v: &Variant, r: &mut Rng) -> Result<Vec<Shape>, String> {
        let x = self.results[i].clone();
        let (f, d) = (FILLS[fill], dir_of(v.cw));
        let flat: Vec<_> = x.iter().flatten().cloned().collect();
        let got = match r.below(3) {
            0 if flat.len() == 1 => flat[0].simplify(f, d, v.simplify, area as usize),
            0 => flat.as_slice().simplify(f, d, v.simplify, area as usize),
            1 if x.len() == 1 => x[0].simplify(f, d, v.simplify, area as usize),
            _ => x.as_slice().simplify(f, d, v.simplify, area as usize),
        };
        self.keep(got)
    }
    fn slice(&mut self, i: usize, fill: usize, lines: &[Edge], v: &Variant) -> Result<Vec<Shape>, String> {
        let x = &self.results[i];
        let l: Vec<_> = lines.iter().map(|e| [ip(e.0), ip(e.1)]).collect();
        let got = if v.api == 0 {
            x.slice_by_lines(&l, FILLS[fill])
        } else {
            let mut o = StringOverlay::with_shapes(x);
            o.add_string_lines(&l);
            o.clone().into_graph_with_solver(FILLS[fill], solver_of(v.solver)).extract_shapes(StringRule::Slice)
        };
        self.keep(got)
    }
    fn clip(&mut self, i: usize, fill: usize, lines: &[Edge], rule: ClipRule, v: &Variant) -> Result<Vec<Contour>, String> {
        let x = &self.results[i];
        let l: Vec<_> = lines.iter().map(|e| [ip(e.0), ip(e.1)]).collect();
        let got = if v.api == 0 {
            x.clip_lines(&l, FILLS[fill], rule)
        } else {
            let mut o = StringOverlay::with_shapes(x);
            o.add_string_lines(&l);
            o.clip_string_lines_with_solver(FILLS[fill], rule, solver_of(v.solver))
        };
        Ok(got.iter().map(|c| from_int(c)).collect())
    }
}

type Fp = [f64; 2];
enum FThing {
    Build(Vec<Vec<Fp>>, Vec<Vec<Fp>>),
    Graph(FloatOverlayGraph<Fp, f64>),
}

struct Float {
    e: i32,
    slots: Vec<FThing>,
    results: Vec<Vec<Vec<Vec<Fp>>>>,
}

impl Float {
    fn put(&mut self, s: usize, t: ShapeType, cs: Vec<Vec<Fp>>) {
        match (&mut self.slots[s], t) {
            (FThing::Build(a, _), ShapeType::Subject) => a.extend(cs),
            (FThing::Build(_, b), ShapeType::Clip) => b.extend(cs),
            _ => unreachable!(),
        }
    }
    fn over(&mut self, s: usize) -> FloatOverlay<Fp, f64> {
        let FThing::Build(a, b) = std::mem::replace(&mut self.slots[s], FThing::Build(vec![], vec![])) else { unreachable!() };
        let o = if b.is_empty() { FloatOverlay::with_subj(&a) } else { FloatOverlay::with_subj_and_clip(&a, &b) };
        o.clone()
    }
    fn contour(&self, c: &[Fp]) -> Result<Contour, String> {
        let u = 2f64.powi(-self.e);
        c.iter()
            .map(|p| {
                let (x, y) = (p.x() * u, p.y() * u);
                if x.fract() != 0.0 || y.fract() != 0.0 { Err(format!("off the lattice: {p:?}")) } else { Ok((x as i64, y as i64)) }
            })
            .collect()
    }
    fn keep(&mut self, s: Vec<Vec<Vec<Fp>>>) -> Result<Vec<Shape>, String> {
        let r = s.iter().map(|s| s.iter().map(|c| self.contour(c)).collect()).collect();
        self.results.push(s);
        r
    }
    fn area(&self, area: i64) -> f64 {
        area as f64 * 4f64.powi(self.e)
    }
    fn filter(&self, v: &Variant, area: i64) -> ContourFilter<f64> {
        ContourFilter { min_area: self.area(area), simplify_contour: v.simplify, clean_result: v.noise % 2 == 0 }
    }
    fn lines(&self, lines: &[Edge]) -> Vec<Vec<Fp>> {
        lines.iter().map(|l| vec![place(l.0, self.e), place(l.1, self.e)]).collect()
    }
}

impl Library for Float {
    fn add(&mut self, s: usize, t: ShapeType, c: &Contour, _: &mut Rng) {
        let c = c.iter().map(|&p| place(p, self.e)).collect();
        self.put(s, t, vec![c]);
    }
    fn feed(&mut self, s: usize, t: ShapeType, i: usize, _: &mut Rng) {
        let cs = self.results[i].iter().flatten().cloned().collect();
        self.put(s, t, cs);
    }
    fn copy(&mut self, s: usize, to: usize) {
        let FThing::Build(a, b) = &self.slots[s] else { unreachable!() };
        self.slots[to] = FThing::Build(a.clone(), b.clone());
    }
    fn drop(&mut self, s: usize) {
        self.slots[s] = FThing::Build(vec![], vec![]);
    }
    fn build(&mut self, s: usize, fill: usize, v: &Variant) {
        let o = self.over(s);
        self.slots[s] = FThing::Graph(if v.api == 0 { o.into_graph(FILLS[fill]) } else { o.into_graph_with_solver(FILLS[fill], solver_of(v.solver)) });
    }
    fn ask(&mut self, s: usize, rule: usize, area: i64, v: &Variant) -> Result<Vec<Shape>, String> {
        let FThing::Graph(g) = &self.slots[s] else { unreachable!() };
        let got = if v.api == 0 && !v.cw && area == 0 { g.extract_shapes(RULES[rule]) } else { g.extract_shapes_custom(RULES[rule], dir_of(v.cw), self.filter(v, area)) };
        self.keep(got)
    }
    fn disturb(&self, s: usize, rule: usize, area: i64, v: &Variant) {
        let FThing::Graph(g) = &self.slots[s] else { unreachable!() };
        g.extract_shapes_custom(RULES[rule], dir_of(v.cw), self.filter(v, area));
    }
    fn take(&mut self, s: usize, fill: usize, rule: usize, area: i64, v: &Variant) -> Result<Vec<Shape>, String> {
        let o = self.over(s);
        let got = if v.api == 0 && !v.cw && area == 0 { o.overlay(RULES[rule], FILLS[fill]) } else { o.overlay_custom(RULES[rule], FILLS[fill], dir_of(v.cw), self.filter(v, area), solver_of(v.solver)) };
        self.keep(got)
    }
    fn simplify(&mut self, i: usize, fill: usize, area: i64, v: &Variant, _: &mut Rng) -> Result<Vec<Shape>, String> {
        let x = &self.results[i];
        let got = if v.api == 0 { x.simplify_shape(FILLS[fill], dir_of(v.cw), self.area(area)) } else { x.simplify_shape_with_solver(FILLS[fill], dir_of(v.cw), self.area(area), solver_of(v.solver)) };
        self.keep(got)
    }
    fn slice(&mut self, i: usize, fill: usize, lines: &[Edge], v: &Variant) -> Result<Vec<Shape>, String> {
        let l = self.lines(lines);
        let x = &self.results[i];
        let got = if v.api == 0 { x.slice_by(&l, FILLS[fill]) } else { x.slice_custom_by(&l, FILLS[fill], dir_of(false), self.filter(v, 0), solver_of(v.solver)) };
        self.keep(got)
    }
    fn clip(&mut self, i: usize, fill: usize, lines: &[Edge], rule: ClipRule, v: &Variant) -> Result<Vec<Contour>, String> {
        let l = self.lines(lines);
        let x = &self.results[i];
        let got = if v.api == 0 { l.clip_by(x, FILLS[fill], rule) } else { l.clip_by_with_solver(x, FILLS[fill], rule, solver_of(v.solver)) };
        got.iter().map(|c| self.contour(c)).collect()
    }
}

/// One behaviour; the first step that goes wrong.
fn live(lib: &mut dyn Library, pool: &[Contour], hist: &[Value], v0: &Variant, r: &mut Rng, asked: &AtomicU64) -> Option<Value> {
    let at = |k: &str, o: &Value| o[k].as_u64().unwrap() as usize - 1;
    for (n, o) in hist.iter().enumerate() {
        let mut v = v0.clone();
        v.api = r.below(4);
        v.simplify = r.chance(2, 3);
        v.noise = r.next();
        v.solver = (r.below(4), r.below(6), r.below(3));
        v.cw = o["cw"].as_bool().unwrap_or(false);
        let tr = v.tr;
        let fill = || at("fill", o);
        let area = o["area"].as_i64().unwrap_or(0) * tr.f * tr.f;
        let t = if o["t"] == 1 { ShapeType::Subject } else { ShapeType::Clip };
        let lines = || -> Vec<Edge> {
            let c = &pool[at("c", o)];
            (0..c.len()).map(|i| (c[i], c[(i + 1) % c.len()])).filter(|e| e.0 != e.1).map(|e| (tr.pt(e.0), tr.pt(e.1))).collect()
        };
        let op = o["op"].as_str().unwrap();
        let got = match op {
            "add" => {
                let c = tr.contour(&pool[at("c", o)]);
                lib.add(at("s", o), t, &c, r);
                continue;
            }
            "feed" => {
                lib.feed(at("s", o), t, at("r", o), r);
                continue;
            }
            "clone" => {
                lib.copy(at("s", o), at("to", o));
                continue;
            }
            "drop" => {
                lib.drop(at("s", o));
                continue;
            }
            "build" => {
                lib.build(at("s", o), fill(), &v);
                continue;
            }
            "clip" => {
                let rule = ClipRule { invert: o["invert"].as_bool().unwrap(), boundary_included: o["included"].as_bool().unwrap() };
                asked.fetch_add(1, Ordering::Relaxed);
                let want: Vec<Edge> = o["pieces"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|e| {
                        let x: Vec<i64> = e.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
                        (tr.pt((x[0], x[1])), tr.pt((x[2], x[3])))
                    })
                    .collect();
                match lib.clip(at("r", o), fill(), &lines(), rule, &v) {
                    Ok(got) => {
                        if let Some(d) = clip_diff(&got, &want) {
                            return Some(json!({"step": n + 1, "clip": d}));
                        }
                    }
                    Err(e) => return Some(json!({"step": n + 1, "what": e})),
                }
                continue;
            }
            "ask" => {
                // whatever was asked before
                for _ in 0..r.below(3) {
                    let mut x = v.clone();
                    (x.cw, x.simplify) = (r.chance(1, 2), r.chance(1, 2));
                    lib.disturb(at("s", o), r.below(7) as usize, if r.chance(1, 2) { area } else { r.range(0, tr.f * tr.f) }, &x);
                }
                lib.ask(at("s", o), at("rule", o), area, &v)
            }
            "take" => lib.take(at("s", o), fill(), at("rule", o), area, &v),
            "simplify" => lib.simplify(at("r", o), fill(), area, &v, r),
            "slice" => lib.slice(at("r", o), fill(), &lines(), &v),
            x => panic!("unknown step {x}"),
        };
        asked.fetch_add(1, Ordering::Relaxed);
        let got = match got {
            Ok(g) => g,
            Err(e) => return Some(json!({"step": n + 1, "what": e})),
        };
        if let Some(e) = form_error(&got, v.cw, false) {
            return Some(json!({"step": n + 1, "form": e, "actual": shapes_json(&got)}));
        }
        let ways: Vec<Vec<Shape>> = o["ways"].as_array().unwrap().iter().map(|w| w.as_array().unwrap().iter().map(|s| cs_from(s).iter().map(|c| tr.contour(c)).collect()).collect()).collect();
        let d = if o["pinched"] == true && !tr.upright() {
            let edges: Vec<Edge> = ways[0]
                .iter()
                .flatten()
                .flat_map(|c| (0..c.len()).map(|i| (c[i], c[(i + 1) % c.len()])).map(|e| if v.cw { (e.1, e.0) } else { e }).collect::<Vec<_>>())
                .collect();
            region_diff(&got, &edges, v.cw)
        } else {
            ways_diff(&got, ways, 0)
        };
        if let Some(d) = d {
            return Some(json!({"step": n + 1, "op": o["op"], "diff": d}));
        }
    }
    None
}

pub fn replay(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let scenes: HashMap<u64, Value> = read_lines(text(o, "scenes")).into_iter().map(|v| (v["id"].as_u64().unwrap(), v)).collect();
    let mut runs_of: Vec<Value> = read_lines(text(o, "expected"));
    runs_of.sort_by_key(|v| v["id"].as_u64());
    let (seed, per) = (num(o, "seed", 1), num(o, "variants", 4));
    let only: Option<u64> = o.get("vseed").and_then(|s| s.parse().ok());
    let (runs, asked) = (AtomicU64::new(0), AtomicU64::new(0));
    let done = crate::pool::run(&rep, runs_of.len(), num(o, "budget", 600) as f64, |i| {
        let id = runs_of[i]["id"].as_u64().unwrap();
        let sc = &scenes[&id];
        let pool = cs_from(&sc["pool"]);
        let hist = runs_of[i]["hist"].as_array().unwrap();
        let m = pool.iter().flatten().map(|p| p.0.abs().max(p.1.abs())).max().unwrap();
        for n in 0..per {
            let mut r = Rng::mix(&[seed, id, n, 0x5e551]);
            let vseed = r.next();
            if only.is_some_and(|x| x != vseed) {
                continue;
            }
            let float = r.chance(1, 3);
            let mut v = Variant::plain();
            // far enough apart for every precision
            let fmax = (1i64 << if float { 17 } else { 29 }) / m;
            let f = if float && fmax < 1024 { fmax } else { *r.pick(&[1024.min(fmax), fmax, r.clone().range(1024.min(fmax), fmax)]) };
            let shear = if r.chance(1, 3) { unimodular(&mut r, fmax / f) } else { NO_SHEAR };
            let rest = (1i64 << if float { 36 } else { 30 }) - 1 - f * m * grows(&shear);
            let tt = if r.chance(1, 2) { (0, 0) } else { (r.range(-rest, rest), r.range(-rest, rest)) };
            v.tr = Tr { d: if r.chance(2, 3) { 0 } else { r.below(8) as u8 }, m: shear, f, t: tt };
            let e = *r.pick(&[0, -20, 5]);
            if only.is_some() {
                println!("{}", json!({"variant": v.json(), "float": float, "scene": sc, "hist": hist}));
            }
            runs.fetch_add(1, Ordering::Relaxed);
            let got = guard(rep.t0, id, vseed, || {
                let mut r = Rng::mix(&[vseed, 9]);
                if float {
                    let mut l = Float { e, slots: (0..3).map(|_| FThing::Build(vec![], vec![])).collect(), results: vec![] };
                    live(&mut l, &pool, hist, &v, &mut r, &asked)
                } else {
                    let mut l = Int { slots: (0..3).map(|_| Thing::Build(Overlay::new(4))).collect(), results: vec![] };
                    live(&mut l, &pool, hist, &v, &mut r, &asked)
                }
            });
            let e = match got {
                Err(p) => Some(json!(format!("panic: {p}"))),
                Ok(x) => x,
            };
            if let Some(e) = e {
                rep.violation(json!({"case": id, "vseed": vseed, "float": float, "variant": v.json(), "what": e, "pool": sc["pool"], "hist": hist.iter().map(|o| {
                    let mut o = o.clone();
                    o.as_object_mut().unwrap().remove("ways");
                    o
                }).collect::<Vec<_>>()}));
            }
        }
    });
    rep.count("behaviours", done as u64);
    rep.count("runs", runs.into_inner());
    rep.count("answers", asked.into_inner());
    for v in runs_of.iter().take(2) {
        rep.sample(json!({"pool": scenes[&v["id"].as_u64().unwrap()]["pool"], "ops": v["hist"].as_array().unwrap().iter().map(|o| o["op"].clone()).collect::<Vec<_>>()}));
    }
    rep.finish();
}
