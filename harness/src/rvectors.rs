//! Vectors where crossings have to be rounded: the net has to fit together by
//! itself, hold what the specification says at its probe points, and the
//! outlines have to be the part of the net the rule selects.
use crate::boolean::*;
use crate::geo::*;
use crate::modes::*;
use crate::pool::*;
use crate::rng::Rng;
use crate::rough::*;
use crate::scene::*;
use crate::vectors::{flip, overlay_of, ve};
use serde_json::{Value, json};
use std::sync::atomic::{AtomicU64, Ordering};

/// An edge from its lesser to its greater point, with what is on its left
/// (above it, bits 1 and 4) and on its right (2 and 8).
type Vector = (Edge, u8);
type Path = Vec<Vector>;

fn forward(v: &Vector) -> Vector {
    let ((a, b), f) = *v;
    if a < b { ((a, b), f) } else { ((b, a), flip(f)) }
}
/// The net in a mirror: x and y change places, and so do left and right.
fn mirrored(v: &Vector) -> Vector {
    let ((a, b), f) = *v;
    forward(&(((a.1, a.0), (b.1, b.0)), flip(f)))
}
fn above(f: u8) -> (bool, bool) {
    (f & 1 != 0, f & 4 != 0)
}
fn below(f: u8) -> (bool, bool) {
    (f & 2 != 0, f & 8 != 0)
}

/// The sign of how high s is over the point (x2 / 2, y2 / 2); x2 / 2 is within s.
fn height(s: Edge, x2: i64, y2: i64) -> i128 {
    let (a, b) = s;
    // y at x times the width against y2 / 2 times the width
    let (w, h) = ((b.0 - a.0) as i128, (b.1 - a.1) as i128);
    (2 * a.1 as i128 * w + h * (x2 - 2 * a.0) as i128 - y2 as i128 * w).signum()
}
/// Edges over the line x = x2 / 2 (odd), from the bottom to the top.
fn ladder(net: &[Vector], x2: i64) -> Vec<Vector> {
    let mut l: Vec<Vector> = net.iter().filter(|((a, b), _)| 2 * a.0 < x2 && x2 < 2 * b.0).copied().collect();
    l.sort_by(|(s, _), (t, _)| {
        let at = |e: &Edge| {
            let w = 2 * (e.1.0 - e.0.0) as i128;
            (2 * e.0.1 as i128 * (w / 2) + (e.1.1 - e.0.1) as i128 * (x2 - 2 * e.0.0) as i128, w)
        };
        let ((n, w), (m, u)) = (at(s), at(t));
        (n * u).cmp(&(m * w))
    });
    l
}

fn climb(net: &[Vector], x2: i64) -> Option<Value> {
    let mut now = (false, false);
    for (e, f) in ladder(net, x2) {
        if below(f) != now {
            return Some(json!({"sides": "do not fit what is below", "at": format!("{e:?}"), "fill": f, "x": x2 as f64 / 2.0}));
        }
        now = above(f);
    }
    (now != (false, false)).then(|| json!({"sides": "something is above everything", "x": x2 as f64 / 2.0}))
}

fn at_probe(net: &[Vector], p: P) -> (bool, bool) {
    // just right of the point
    let mut best: Option<Vector> = None;
    for v in net {
        let (a, b) = v.0;
        if a.0 <= p.0 && p.0 < b.0 && height(v.0, 2 * p.0, 2 * p.1) < 0 {
            let higher = match best {
                None => true,
                Some((e, _)) => {
                    let (w, u) = ((b.0 - a.0) as i128, (e.1.0 - e.0.0) as i128);
                    let n = a.1 as i128 * w + (b.1 - a.1) as i128 * (p.0 - a.0) as i128;
                    let m = e.0.1 as i128 * u + (e.1.1 - e.0.1) as i128 * (p.0 - e.0.0) as i128;
                    (n * u, (b.1 - a.1) as i128 * u) > (m * w, (e.1.1 - e.0.1) as i128 * w)
                }
            };
            if higher {
                best = Some(*v);
            }
        }
    }
    best.map_or((false, false), |(_, f)| above(f))
}

fn long(e: &Edge) -> i64 {
    (e.0.0 - e.1.0).abs() + (e.0.1 - e.1.1).abs()
}

/// The parts of the net along the edge e, with the sides as e has them.
fn along(net: &[Vector], e: Edge) -> (i64, Option<u8>, bool) {
    let back = e.0 > e.1;
    let (a, b) = if back { (e.1, e.0) } else { e };
    let (mut sum, mut fill, mut same) = (0, None, true);
    // the net is sorted by its first points
    for v in net {
        let ((c, d), f) = *v;
        if c >= b {
            break;
        }
        if d <= a || orient(a, b, c) != 0 || orient(a, b, d) != 0 {
            continue;
        }
        sum += long(&(a.max(c), b.min(d)));
        let f = if back { flip(f) } else { f };
        same &= fill.is_none_or(|x| x == f);
        fill = Some(f);
    }
    (sum, fill, same)
}

fn near(e: &Edge, all: &[Edge], tol: f64) -> bool {
    let far = |p: (f64, f64)| {
        all.iter()
            .map(|(a, b)| {
                let (ax, ay, bx, by) = (a.0 as f64, a.1 as f64, b.0 as f64, b.1 as f64);
                let l = (bx - ax).powi(2) + (by - ay).powi(2);
                let t = if l == 0.0 { 0.0 } else { (((p.0 - ax) * (bx - ax) + (p.1 - ay) * (by - ay)) / l).clamp(0.0, 1.0) };
                ((ax + t * (bx - ax) - p.0).powi(2) + (ay + t * (by - ay) - p.1).powi(2)).sqrt()
            })
            .fold(f64::MAX, f64::min)
    };
    let (a, b) = *e;
    far((a.0 as f64, a.1 as f64)) <= tol && far((b.0 as f64, b.1 as f64)) <= tol && far(((a.0 + b.0) as f64 / 2.0, (a.1 + b.1) as f64 / 2.0)) <= tol
}

fn vectors(inp: &Input, v: &Variant, fr: usize, op: usize) -> (Vec<Vector>, Vec<Vec<Path>>) {
    let o = overlay_of(inp);
    let solver = solver_of(v.solver);
    let (sep, shapes) = match v.api % 3 {
        0 => (o.clone().into_separate_vectors(FILLS[fr], solver), o.into_shape_vectors(FILLS[fr], RULES[op], solver)),
        1 => {
            let g = o.into_graph_with_solver(FILLS[fr], solver);
            (g.extract_separate_vectors(), g.extract_shape_vectors(RULES[op]))
        }
        _ => (o.clone().into_separate_vectors(FILLS[fr], solver), o.into_graph_with_solver(FILLS[fr], solver).extract_shape_vectors(RULES[op])),
    };
    (sep.iter().map(ve).collect(), shapes.iter().map(|s| s.iter().map(|p| p.iter().map(ve).collect()).collect()).collect())
}

fn points(shapes: &[Vec<Path>]) -> Vec<Shape> {
    shapes.iter().map(|s| s.iter().map(|c| c.iter().map(|e| e.0.0).collect()).collect()).collect()
}

fn check(inp: &Input, sep: &[Vector], shapes: &[Vec<Path>], op: usize, tol: f64, r: &mut Rng) -> Option<Value> {
    let mut net: Vec<Vector> = sep.iter().map(forward).collect();
    net.sort_unstable();
    if let Some(v) = net.iter().find(|v| v.0.0 == v.0.1) {
        return Some(json!({"net": "an edge of one point", "at": format!("{v:?}")}));
    }
    if let Some(e) = tangled_edges(net.iter().map(|v| v.0).collect()) {
        return Some(json!({"net": "crossing edges", "at": format!("{e:?}")}));
    }
    let other: Vec<Vector> = net.iter().map(mirrored).collect();
    for n in [&net, &other] {
        for _ in 0..12 {
            if let Some(((a, b), _)) = (!n.is_empty()).then(|| *r.pick(n)) {
                if a.0 < b.0 {
                    if let Some(e) = climb(n, 2 * r.range(a.0, b.0 - 1) + 1) {
                        return Some(e);
                    }
                }
            }
        }
    }
    let all: Vec<Edge> = inp.subj.iter().chain(&inp.clip).flat_map(|c| (0..c.len()).map(move |i| (c[i], c[(i + 1) % c.len()]))).collect();
    if let Some(v) = net.iter().find(|v| !near(&v.0, &all, tol)) {
        return Some(json!({"net": "an edge far from all edges of the input", "at": format!("{v:?}")}));
    }
    let mut sum = 0;
    for c in shapes.iter().flatten() {
        for (i, &(e, f)) in c.iter().enumerate() {
            if e.1 != c[(i + 1) % c.len()].0.0 {
                return Some(json!({"outline": "not closed", "at": format!("{e:?}")}));
            }
            let (l, g, same) = along(&net, e);
            if l != long(&e) || !same || g != Some(f) {
                return Some(json!({"outline": "not in the net, or with other sides", "at": format!("{e:?}"), "fill": f, "net": g}));
            }
            let sel = |s: (bool, bool)| rule(RULES[op], s.0, s.1);
            if !(sel(below(f)) && !sel(above(f))) {
                return Some(json!({"outline": "the region is not on the right of it", "at": format!("{e:?}"), "fill": f}));
            }
            sum += l;
        }
    }
    let want: i64 = net
        .iter()
        .filter(|v| rule(RULES[op], above(v.1).0, above(v.1).1) != rule(RULES[op], below(v.1).0, below(v.1).1))
        .map(|v| long(&v.0))
        .sum();
    if sum != want {
        return Some(json!({"outline": "not all of the boundary, or some of it twice", "length": sum, "expected": want}));
    }
    let flat = points(shapes);
    if let Some(e) = form_error(&flat, true, false) {
        return Some(json!({"form": e, "actual": shapes_json(&flat)}));
    }
    if let Some(e) = tangled(&flat) {
        return Some(json!({"crossing edges": format!("{e:?}"), "actual": shapes_json(&flat)}));
    }
    None
}

pub fn replay(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let pairs = load(o);
    let (seed, per) = (num(o, "seed", 1), num(o, "variants", 4));
    let only: Option<u64> = o.get("vseed").and_then(|s| s.parse().ok());
    let (runs, probed) = (AtomicU64::new(0), AtomicU64::new(0));
    let done = crate::pool::run(&rep, pairs.len(), num(o, "budget", 600) as f64, |i| {
        let (sc, ps) = &pairs[i];
        for fr in 0..4 {
            for op in 0..7 {
                for n in 0..per {
                    let mut r = Rng::mix(&[seed, sc.id as u64, fr as u64, op as u64, n, 0x7ec7]);
                    let vseed = r.next();
                    if only.is_some_and(|x| x != vseed) {
                        continue;
                    }
                    let mut v = Variant::plain();
                    v.solver = (r.below(4), r.below(6), r.below(3));
                    v.api = r.below(3);
                    v.tr = rand_tr(&mut r, max_coord(sc));
                    if r.chance(1, 2) {
                        v.tr.f = 1;
                    }
                    if only.is_some() {
                        println!("{}", json!({"scene": sc.json(), "variant": v.json(), "fill_rule": FILL_NAMES[fr], "overlay_rule": RULE_NAMES[op],
                            "realized": [cs_json(&realize(sc, &v).subj), cs_json(&realize(sc, &v).clip)]}));
                    }
                    runs.fetch_add(1, Ordering::Relaxed);
                    let inp = realize(sc, &v);
                    let got = guard(rep.t0, sc.id as u64, vseed, || vectors(&inp, &v, fr, op));
                    let e = match got {
                        Err(p) => Some(json!(format!("panic: {p}"))),
                        Ok((sep, shapes)) => check(&inp, &sep, &shapes, op, reach(v.solver.1) as f64, &mut r).or_else(|| {
                            let net: Vec<Vector> = sep.iter().map(forward).collect();
                            let flat = points(&shapes);
                            let tol = reach(v.solver.1);
                            for p in ps.iter().filter(|p| p.clear * v.tr.f > tol) {
                                probed.fetch_add(1, Ordering::Relaxed);
                                let q = v.tr.pt(p.p);
                                let want = (inside(FILLS[fr], p.ws), inside(FILLS[fr], p.wc));
                                let got = at_probe(&net, q);
                                if got != want {
                                    return Some(json!({"probe": q, "distance": p.clear * v.tr.f, "sides": format!("{got:?}"), "expected": format!("{want:?}")}));
                                }
                                let (w, want) = (-wind(&flat, q), rule(RULES[op], want.0, want.1) as i64);
                                if w != want {
                                    return Some(json!({"probe": q, "distance": p.clear * v.tr.f, "winding": w, "expected": want, "actual": shapes_json(&flat)}));
                                }
                            }
                            None
                        }),
                    };
                    if let Some(e) = e {
                        rep.violation(json!({"case": sc.id, "vseed": vseed, "scene": sc.json(), "variant": v.json(),
                            "fill_rule": FILL_NAMES[fr], "overlay_rule": RULE_NAMES[op], "what": e}));
                    }
                }
            }
        }
    });
    rep.count("scenes", done as u64);
    rep.count("runs", runs.into_inner());
    rep.count("probes", probed.into_inner());
    for (s, _) in pairs.iter().take(3) {
        rep.sample(s.json());
    }
    rep.finish();
}

/// Nets and outlines for the specification to judge.
pub fn record(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let scenes = gen_rough_scenes(num(o, "seed", 1), num(o, "n", 1000) as usize);
    let res = std::sync::Mutex::new(Vec::new());
    let done = crate::pool::run(&rep, scenes.len(), 200.0, |i| {
        let (sc, ps) = &scenes[i];
        let mut r = Rng::mix(&[num(o, "seed", 1), sc.id as u64, 0x7ace2]);
        let mut v = Variant::plain();
        v.solver = (r.below(4), r.below(3), r.below(3));
        v.api = r.below(3);
        let (fr, op) = (r.below(4), r.below(7));
        let inp = realize(sc, &v);
        let row = |(e, f): &Vector| json!([e.0.0, e.0.1, e.1.0, e.1.1, f]);
        match guard(rep.t0, sc.id as u64, 0, || vectors(&inp, &v, fr, op)) {
            Ok((sep, shapes)) if sep.len() <= 160 => {
                let cuts: Vec<i64> = (0..8).filter(|_| !sep.is_empty()).map(|_| r.pick(&sep).0.0.0 - r.range(0, 1)).collect();
                let rungs: Vec<i64> = (0..8).filter(|_| !sep.is_empty()).map(|_| r.pick(&sep).0.0.1 - r.range(0, 1)).collect();
                res.lock().unwrap().push(json!({"id": sc.id, "subj": cs_json(&sc.subj), "clip": cs_json(&sc.clip), "fr": fr + 1, "op": op + 1,
                    "tol": reach(v.solver.1), "probes": c_json(ps), "cuts": cuts, "rungs": rungs, "net": sep.iter().map(row).collect::<Vec<_>>(),
                    "out": shapes.iter().map(|s| s.iter().map(|c| c.iter().map(row).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>()}))
            }
            Ok(_) => {}
            Err(p) => rep.violation(json!({"case": sc.id, "vseed": 0, "scene": sc.json(), "variant": v.json(), "what": format!("panic: {p}")})),
        }
    });
    let mut v = res.into_inner().unwrap();
    v.sort_by_key(|v| v["id"].as_u64());
    write_lines(text(o, "traces"), v.into_iter());
    rep.count("recorded", done as u64);
    rep.finish();
}
