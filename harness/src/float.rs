//! The same behaviours through the floating-point interface. Inputs lie on a
//! lattice with a unit that is a power of two, so the way to integers and back is
//! exact and the specified outcome has to come back to the last bit.
use crate::boolean::*;
use crate::geo::*;
use crate::modes::*;
use crate::pool::*;
use crate::rng::Rng;
use crate::scene::*;
use crate::strings::{LineScene, Want, clip_diff, load_lines};
use i_overlay::core::overlay::{ContourDirection, ShapeType};
use i_overlay::float::clip::FloatClip;
use i_overlay::float::filter::ContourFilter;
use i_overlay::float::overlay::FloatOverlay;
use i_overlay::float::simplify::SimplifyShape;
use i_overlay::float::single::SingleFloatOverlay;
use i_overlay::float::slice::FloatSlice;
use i_overlay::float::string_overlay::FloatStringOverlay;
use i_overlay::i_float::adapter::FloatPointAdapter;
use i_overlay::i_float::float::compatible::FloatPointCompatible;
use i_overlay::i_float::float::number::FloatNumber;
use i_overlay::i_float::float::point::FloatPoint;
use i_overlay::i_float::float::rect::FloatRect;
use i_overlay::string::clip::ClipRule;
use i_overlay::string::rule::StringRule;
use serde_json::{Value, json};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy)]
pub struct Own {
    b: f64,
    a: f64,
}
impl FloatPointCompatible<f64> for Own {
    fn from_xy(x: f64, y: f64) -> Self {
        Own { a: x, b: y }
    }
    fn x(&self) -> f64 {
        self.a
    }
    fn y(&self) -> f64 {
        self.b
    }
}

/// Lattice point p <-> floating point p * 2^e.
pub fn place<P: FloatPointCompatible<T>, T: FloatNumber>(p: P_, e: i32) -> P {
    let u = 2f64.powi(e);
    P::from_xy(T::from_float(p.0 as f64 * u), T::from_float(p.1 as f64 * u))
}
type P_ = crate::geo::P;

fn back<P: FloatPointCompatible<T>, T: FloatNumber>(c: &[P], e: i32) -> Option<Contour> {
    let u = 2f64.powi(-e);
    c.iter()
        .map(|p| {
            let (x, y) = (p.x().to_f64() * u, p.y().to_f64() * u);
            if x.fract() != 0.0 || y.fract() != 0.0 { None } else { Some((x as i64, y as i64)) }
        })
        .collect()
}

fn shapes_back<P: FloatPointCompatible<T>, T: FloatNumber>(s: Vec<Vec<Vec<P>>>, e: i32) -> Result<Vec<Shape>, String> {
    let show = |s: &Vec<Vec<Vec<P>>>| format!("{:?}", s.iter().map(|s| s.iter().map(|c| c.iter().map(|p| (p.x().to_f64(), p.y().to_f64())).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>());
    s.iter()
        .map(|s| s.iter().map(|c| back(c, e)).collect::<Option<Shape>>())
        .collect::<Option<Vec<Shape>>>()
        .ok_or_else(|| show(&s))
}

/// The contours in the different containers the library takes; $go sees `r`.
macro_rules! as_resource {
    ($kind:expr, $cs:expr, $r:ident => $go:expr) => {{
        let cs = $cs;
        match $kind % 7 {
            0 if cs.len() == 1 && cs[0].len() == 4 => {
                let $r: &[_; 4] = &[cs[0][0], cs[0][1], cs[0][2], cs[0][3]];
                $go
            }
            1 if cs.len() == 1 => {
                let $r: &Vec<_> = &cs[0];
                $go
            }
            2 if cs.len() == 1 => {
                let $r: &&[_] = &cs[0].as_slice();
                $go
            }
            2 | 3 if cs.len() == 2 => {
                let $r: &[Vec<_>; 2] = &[cs[0].clone(), cs[1].clone()];
                $go
            }
            4 => {
                let $r: &&[Vec<_>] = &cs.as_slice();
                $go
            }
            5 => {
                let mut v: Vec<Vec<Vec<_>>> = vec![vec![]];
                for (i, c) in cs.iter().enumerate() {
                    if i % 3 == 2 {
                        v.push(vec![]);
                        v.push(vec![]);
                    }
                    v.last_mut().unwrap().push(c.clone());
                }
                let $r: &Vec<Vec<Vec<_>>> = &v;
                $go
            }
            6 => {
                let (x, y) = cs.split_at(cs.len() / 2);
                let $r: &[Vec<Vec<_>>; 2] = &[x.to_vec(), y.to_vec()];
                $go
            }
            _ => {
                let $r: &Vec<Vec<_>> = cs;
                $go
            }
        }
    }};
}

#[derive(Clone, Debug)]
struct FV {
    v: Variant,
    e: i32,
    ty: usize,
    kind: usize,
    kind2: usize,
    clean: bool,
}

impl FV {
    fn json(&self) -> Value {
        json!({"variant": self.v.json(), "unit": format!("2^{}", self.e), "point": (["[f64; 2]", "[f32; 2]", "FloatPoint<f32>", "own"])[self.ty],
               "containers": [self.kind, self.kind2], "clean": self.clean, "entry": self.v.api})
    }
}

fn variant(r: &mut Rng, m: i64) -> FV {
    let mut v = Variant::plain();
    let ty = r.below(4);
    let f32s = ty == 1 || ty == 2;
    let fmax = ((1i64 << if f32s { 15 } else { 17 }) / m).max(1);
    let f = match r.below(3) {
        0 => 1,
        1 => fmax,
        _ => r.range(1, fmax),
    };
    let shear = if r.chance(1, 3) { unimodular(r, fmax / f) } else { NO_SHEAR };
    let reach = f * m * grows(&shear);
    let room = if f32s { (1i64 << 21) - reach } else { (1i64 << 40) - reach };
    let t = match r.below(4) {
        0 => (0, 0),
        1 => (r.range(-50, 50), r.range(-50, 50)),
        _ => (r.range(-room, room), r.range(-room, room)),
    };
    v.tr = Tr { d: if r.chance(1, 2) { 0 } else { r.below(8) as u8 }, m: shear, f, t };
    v.solver = (r.below(4), r.below(6), r.below(3));
    v.cw = r.chance(1, 3);
    v.simplify = !r.chance(1, 3);
    v.noise = if r.chance(1, 3) { r.next() | 1 } else { 0 };
    v.api = r.below(7);
    FV { v, e: *r.pick(&[0, 0, -20, -9, -1, 3, 17, 25]), ty, kind: r.below(8), kind2: r.below(8), clean: r.chance(1, 2) }
}

fn call_float<P: FloatPointCompatible<T>, T: FloatNumber>(inp: &Input, fv: &FV, fr: usize, op: usize, filter: ContourFilter<T>) -> Result<Vec<Shape>, String> {
    let v = &fv.v;
    let dir = if v.cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise };
    let (fill, rule, solver) = (FILLS[fr], RULES[op], solver_of(v.solver));
    let fl = |cs: &Vec<Contour>| -> Vec<Vec<P>> { cs.iter().map(|c| c.iter().map(|&p| place(p, fv.e)).collect()).collect() };
    let (subj, clip) = (fl(&inp.subj), fl(&inp.clip));
    let res = match v.api {
        // slices as they are
        4 | 6 if fv.kind == 7 => {
            let c = clip.as_slice();
            let o = match fv.kind2 % 3 {
                0 if subj.len() == 1 => FloatOverlay::with_subj_and_clip(subj[0].as_slice(), c),
                1 => FloatOverlay::with_subj_and_clip([subj.clone(), vec![], clip.clone()].split_at(2).0, [clip.clone()].as_slice()),
                _ => FloatOverlay::with_subj_and_clip(subj.as_slice(), c),
            };
            if v.api == 4 { o.overlay(rule, fill) } else { o.overlay_custom(rule, fill, dir, filter, solver) }
        }
        // one set of contours only
        0 | 1 if op == 0 => as_resource!(fv.kind, &subj, s => match v.api {
            0 => {
                // these two always clean the result
                if v.solver.0 >= 2 { s.simplify_shape(fill, dir, filter.min_area) } else { s.simplify_shape_with_solver(fill, dir, filter.min_area, solver) }
            }
            _ => FloatOverlay::with_subj(s).overlay_custom(rule, fill, dir, filter, solver),
        }),
        // an adapter that knows more room than the contours take
        2 => {
            let all: Vec<P> = subj.iter().chain(clip.iter()).flatten().copied().collect();
            let rect = FloatRect::with_iter(all.iter()).unwrap_or(FloatRect::zero());
            let grow = T::from_float(2f64.powi(fv.e));
            let rect = FloatRect::new(rect.min_x - grow, rect.max_x + grow + grow + grow, rect.min_y - grow, rect.max_y + grow);
            let mut o = FloatOverlay::with_adapter(FloatPointAdapter::new(rect), 7);
            for c in &clip {
                o = o.unsafe_add_contour(c, ShapeType::Clip);
            }
            o = as_resource!(fv.kind2, &subj, s => o.unsafe_add_source(s, ShapeType::Subject));
            let o = o.clone();
            o.into_graph_with_solver(fill, solver).extract_shapes_custom(rule, dir, filter)
        }
        _ => as_resource!(fv.kind, &subj, s => {
            // containers of the same shape on both sides, or always a list of contours
            let c = &clip;
            match v.api {
                3 => s.overlay(c, rule, fill),
                4 => FloatOverlay::with_subj_and_clip(s, c).overlay(rule, fill),
                5 => FloatOverlay::with_subj_and_clip(s, c).into_graph(fill).extract_shapes(rule),
                _ => as_resource!(fv.kind2, c, d => FloatOverlay::with_subj_and_clip(s, d).overlay_custom(rule, fill, dir, filter, solver)),
            }
        }),
    };
    shapes_back(res, fv.e)
}

fn defaults(fv: &mut FV, op: usize) -> bool {
    // entry points without options
    let plain = matches!(fv.v.api, 3..=5);
    if plain {
        fv.v.cw = false;
        fv.v.simplify = true;
        fv.v.solver = (3, 1, 0);
    }
    if fv.v.api == 0 && op == 0 {
        fv.v.simplify = true;
    }
    plain
}

pub fn replay_boolean(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let pairs = load_pairs(o);
    let (seed, per) = (num(o, "seed", 1), num(o, "variants", 4));
    let only: Option<u64> = o.get("vseed").and_then(|s| s.parse().ok());
    let (runs, non) = (AtomicU64::new(0), AtomicU64::new(0));
    let done = crate::pool::run(&rep, pairs.len(), num(o, "budget", 600) as f64, |i| {
        let (sc, ex) = &pairs[i];
        for fr in 0..4 {
            for op in 0..7 {
                for n in 0..per {
                    let mut r = Rng::mix(&[seed, sc.id as u64, fr as u64, op as u64, n, 0xf10a7]);
                    let vseed = r.next();
                    if only.is_some_and(|x| x != vseed) {
                        continue;
                    }
                    let mut fv = variant(&mut r, max_coord(sc));
                    let plain = defaults(&mut fv, op);
                    runs.fetch_add(1, Ordering::Relaxed);
                    let bd = ex.boundary(fr, op);
                    if !bd.is_empty() {
                        non.fetch_add(1, Ordering::Relaxed);
                    }
                    let inp = realize(sc, &fv.v);
                    fv.v.min_area = if plain || r.chance(1, 2) { 0 } else { pick_area(&mut r, &ex.shapes[fr][op], fv.v.tr.f) };
                    if fv.v.min_area >= 1 << 23 && (fv.ty == 1 || fv.ty == 2) {
                        fv.v.min_area = 0;
                    }
                    if only.is_some() {
                        println!("{}", json!({"variant": fv.json(), "fill_rule": FILL_NAMES[fr], "overlay_rule": RULE_NAMES[op], "realized": [cs_json(&inp.subj), cs_json(&inp.clip)]}));
                    }
                    let area = fv.v.min_area as f64 * 4f64.powi(fv.e);
                    let (s, c) = (fv.v.simplify, fv.clean);
                    let got = guard(rep.t0, sc.id as u64, vseed, || match fv.ty {
                        0 => call_float::<[f64; 2], f64>(&inp, &fv, fr, op, ContourFilter { min_area: area, simplify_contour: s, clean_result: c }),
                        1 => call_float::<[f32; 2], f32>(&inp, &fv, fr, op, ContourFilter { min_area: area as f32, simplify_contour: s, clean_result: c }),
                        2 => call_float::<FloatPoint<f32>, f32>(&inp, &fv, fr, op, ContourFilter { min_area: area as f32, simplify_contour: s, clean_result: c }),
                        _ => call_float::<Own, f64>(&inp, &fv, fr, op, ContourFilter { min_area: area, simplify_contour: s, clean_result: c }),
                    });
                    let e = match got {
                        Err(p) => Some(json!(format!("panic: {p}"))),
                        Ok(Err(s)) => Some(json!({"off the lattice": s})),
                        Ok(Ok(got)) => {
                            let mut e = None;
                            if fv.v.min_area == 0 {
                                let want: Vec<Edge> = bd.iter().map(|&e| fv.v.tr.edge(e)).collect();
                                e = region_diff(&got, &want, fv.v.cw);
                            }
                            e = e.or_else(|| form_error(&got, fv.v.cw, fv.v.simplify).map(|e| json!({"form": e, "actual": shapes_json(&got)})));
                            e.or_else(|| {
                                // without the clip its vertices are not there to start a walk
                                let alone = (fv.v.api < 2 && op == 0) && !sc.clip.is_empty() && ex.shapes[fr][op].pinched;
                                ex.shapes[fr][op].expect(&fv.v.tr, fv.v.cw).filter(|_| !alone).and_then(|w| ways_diff(&got, w, fv.v.min_area))
                            })
                        }
                    };
                    if let Some(e) = e {
                        rep.violation(json!({"case": sc.id, "vseed": vseed, "scene": sc.json(), "variant": fv.json(),
                            "fill_rule": FILL_NAMES[fr], "overlay_rule": RULE_NAMES[op], "what": e}));
                    }
                }
            }
        }
    });
    finish(rep, done, runs, non, pairs.iter().take(3).map(|p| p.0.json()).collect());
}

fn finish(rep: Report, done: usize, runs: AtomicU64, non: AtomicU64, samples: Vec<Value>) {
    rep.count("scenes", done as u64);
    rep.count("runs", runs.into_inner());
    rep.count("runs_nonempty", non.into_inner());
    for s in samples {
        rep.sample(s);
    }
    rep.finish();
}

struct Lines {
    subj: Vec<Contour>,
    paths: Vec<Contour>,
}

fn call_slice<P: FloatPointCompatible<T>, T: FloatNumber>(inp: &Lines, fv: &FV, fr: usize, filter: ContourFilter<T>) -> Result<Vec<Shape>, String> {
    let v = &fv.v;
    let dir = if v.cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise };
    let (fill, solver) = (FILLS[fr], solver_of(v.solver));
    let fl = |cs: &Vec<Contour>| -> Vec<Vec<P>> { cs.iter().map(|c| c.iter().map(|&p| place(p, fv.e)).collect()).collect() };
    let (subj, paths) = (fl(&inp.subj), fl(&inp.paths));
    let res = as_resource!(fv.kind, &subj, s => match v.api {
        3 | 4 => s.slice_by(&paths, fill),
        5 => FloatStringOverlay::with_shape_and_string(s, &paths).into_graph(fill).extract_shapes(StringRule::Slice),
        6 => FloatStringOverlay::with_shape_and_string(s, &paths).into_graph_with_solver(fill, solver).extract_shapes_custom(StringRule::Slice, dir, filter),
        _ => as_resource!(fv.kind2, &paths, p => s.slice_custom_by(p, fill, dir, filter, solver)),
    });
    shapes_back(res, fv.e)
}

fn call_clip<P: FloatPointCompatible<T>, T: FloatNumber>(inp: &Lines, fv: &FV, fr: usize, rule: ClipRule) -> Result<Vec<Contour>, String> {
    let v = &fv.v;
    let (fill, solver) = (FILLS[fr], solver_of(v.solver));
    let fl = |cs: &Vec<Contour>| -> Vec<Vec<P>> { cs.iter().map(|c| c.iter().map(|&p| place(p, fv.e)).collect()).collect() };
    let (subj, paths) = (fl(&inp.subj), fl(&inp.paths));
    let res = as_resource!(fv.kind2, &paths, p => match v.api {
        3..=5 => p.clip_by(&subj, fill, rule),
        6 => FloatStringOverlay::with_shape_and_string(&subj, p).clone().clip_string_lines_with_solver(fill, rule, solver),
        _ => as_resource!(fv.kind, &subj, s => p.clip_by_with_solver(s, fill, rule, solver)),
    });
    let r = shapes_back(vec![res], fv.e)?;
    Ok(r.into_iter().next().unwrap())
}

pub fn replay_strings(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let pairs: Vec<(LineScene, Want)> = load_lines(o);
    let (seed, per) = (num(o, "seed", 1), num(o, "variants", 4));
    let only: Option<u64> = o.get("vseed").and_then(|s| s.parse().ok());
    let (runs, non) = (AtomicU64::new(0), AtomicU64::new(0));
    let done = crate::pool::run(&rep, pairs.len(), num(o, "budget", 600) as f64, |i| {
        let (sc, w) = &pairs[i];
        for fr in 0..4 {
            // 0: slice, 1..5: clip
            for mode in 0..5 {
                for n in 0..per {
                    let mut r = Rng::mix(&[seed, sc.id as u64, fr as u64, mode as u64, n, 0xf57]);
                    let vseed = r.next();
                    if only.is_some_and(|x| x != vseed) {
                        continue;
                    }
                    let m = sc.subj.iter().flatten().chain(sc.lines.iter().flat_map(|e| [&e.0, &e.1])).flat_map(|p| [p.0.abs(), p.1.abs()]).max().unwrap();
                    let mut fv = variant(&mut r, m * sc.k + 4);
                    fv.v.simplify = true;
                    let plain = defaults(&mut fv, 1);
                    let put = |c: &Contour| -> Contour { c.iter().map(|p| fv.v.tr.pt((p.0 * sc.k, p.1 * sc.k))).collect() };
                    let subj: Vec<Contour> = sc
                        .subj
                        .iter()
                        .map(|c| fv.v.tr.contour(&c.iter().map(|p| (p.0 * sc.k, p.1 * sc.k)).collect::<Contour>()))
                        .map(|c| if fv.v.noise != 0 { noisy(&c, &mut r) } else { c })
                        .collect();
                    let mut paths: Vec<Contour> = Vec::new();
                    for e in &sc.lines {
                        match paths.last_mut() {
                            Some(p) if *p.last().unwrap() == e.0 && !r.chance(1, 5) => p.push(e.1),
                            _ => paths.push(vec![e.0, e.1]),
                        }
                    }
                    let mut inp = Lines { subj, paths: paths.iter().map(&put).collect() };
                    if fv.v.noise != 0 {
                        inp.paths.push(vec![]);
                        inp.paths.push(vec![inp.paths[0][0]]);
                    }
                    runs.fetch_add(1, Ordering::Relaxed);
                    let some = if mode == 0 { !w.slices[fr].is_empty() } else { !w.clipped[fr][mode - 1].is_empty() };
                    if some {
                        non.fetch_add(1, Ordering::Relaxed);
                    }
                    if only.is_some() {
                        println!("{}", json!({"variant": fv.json(), "subj": cs_json(&inp.subj), "paths": cs_json(&inp.paths)}));
                    }
                    let e = if mode == 0 {
                        let areas: Vec<i128> = w.slices[fr].iter().flatten().map(|c| area2(c).abs() * (fv.v.tr.f as i128).pow(2)).collect();
                        if !plain && !areas.is_empty() && r.chance(1, 2) {
                            fv.v.min_area = ((*r.pick(&areas) >> 1) + r.range(-1, 2) as i128).max(0) as usize;
                            if fv.v.min_area >= 1 << 23 && (fv.ty == 1 || fv.ty == 2) {
                                fv.v.min_area = 0;
                            }
                        }
                        let area = fv.v.min_area as f64 * 4f64.powi(fv.e);
                        let c = fv.clean;
                        let got = guard(rep.t0, sc.id as u64, vseed, || match fv.ty {
                            0 => call_slice::<[f64; 2], f64>(&inp, &fv, fr, ContourFilter { min_area: area, simplify_contour: true, clean_result: c }),
                            1 => call_slice::<[f32; 2], f32>(&inp, &fv, fr, ContourFilter { min_area: area as f32, simplify_contour: true, clean_result: c }),
                            2 => call_slice::<FloatPoint<f32>, f32>(&inp, &fv, fr, ContourFilter { min_area: area as f32, simplify_contour: true, clean_result: c }),
                            _ => call_slice::<Own, f64>(&inp, &fv, fr, ContourFilter { min_area: area, simplify_contour: true, clean_result: c }),
                        });
                        match got {
                            Err(p) => Some(json!(format!("panic: {p}"))),
                            Ok(Err(s)) => Some(json!({"off the lattice": s})),
                            Ok(Ok(got)) => {
                                let flip = |c: &Contour| -> Contour {
                                    let mut c = fv.v.tr.contour(c);
                                    if fv.v.cw {
                                        c.reverse();
                                    }
                                    c
                                };
                                let want: Vec<Shape> = w.slices[fr].iter().map(|s| s.iter().map(flip).collect()).collect();
                                form_error(&got, fv.v.cw, false)
                                    .map(|e| json!({"form": e, "actual": shapes_json(&got)}))
                                    .or_else(|| shapes_diff(&got, &drop_small(want, fv.v.min_area)))
                            }
                        }
                    } else {
                        let rule = ClipRule { invert: mode - 1 >= 2, boundary_included: (mode - 1) % 2 == 1 };
                        let got = guard(rep.t0, sc.id as u64, vseed, || match fv.ty {
                            0 => call_clip::<[f64; 2], f64>(&inp, &fv, fr, rule),
                            1 => call_clip::<[f32; 2], f32>(&inp, &fv, fr, rule),
                            2 => call_clip::<FloatPoint<f32>, f32>(&inp, &fv, fr, rule),
                            _ => call_clip::<Own, f64>(&inp, &fv, fr, rule),
                        });
                        match got {
                            Err(p) => Some(json!(format!("panic: {p}"))),
                            Ok(Err(s)) => Some(json!({"off the lattice": s})),
                            Ok(Ok(got)) => {
                                let want: Vec<Edge> = w.clipped[fr][mode - 1].iter().map(|e| (fv.v.tr.pt(e.0), fv.v.tr.pt(e.1))).collect();
                                clip_diff(&got, &want)
                            }
                        }
                    };
                    if let Some(e) = e {
                        rep.violation(json!({"case": sc.id, "vseed": vseed, "scene": sc.json(), "variant": fv.json(), "fill_rule": FILL_NAMES[fr], "mode": mode, "what": e}));
                    }
                }
            }
        }
    });
    finish(rep, done, runs, non, pairs.iter().take(3).map(|p| p.0.json()).collect());
}
