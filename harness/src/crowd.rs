//! Many specified figures of the other interfaces side by side in one call.
use crate::boolean::*;
use crate::geo::*;
use crate::modes::*;
use crate::pool::*;
use crate::rng::Rng;
use crate::scene::*;
use crate::strings::{LineScene, Want, clip_diff, load_lines};
use crate::tiles::{Ground, extent};
use crate::vectors::{diff, overlay_of, ve};
use i_overlay::core::overlay::ContourDirection;
use i_overlay::core::simplify::Simplify;
use i_overlay::i_float::int::point::IntPoint;
use i_overlay::string::clip::{ClipRule, IntClip};
use i_overlay::string::overlay::StringOverlay;
use i_overlay::string::rule::StringRule;
use i_overlay::string::slice::IntSlice;
use i_overlay::vector::edge::VectorEdge;
use serde_json::{Value, json};
use std::sync::atomic::{AtomicU64, Ordering};

fn size(r: &mut Rng, largest: i64) -> usize {
    (match r.below(5) {
        0 => r.range(2, 30),
        1 => r.range(30, 200),
        2 => r.range(100, 400.max(largest / 8)),
        3 => r.range(largest / 8, largest / 2),
        _ => r.range(largest / 2, largest),
    }) as usize
}

fn some_solver(r: &mut Rng, n: usize, f: i64) -> (usize, usize, usize) {
    let precision = if f >= 1024 { r.below(6) } else { 0 };
    // the list strategy is quadratic
    let strategy = if n > 300 { *r.pick(&[1, 2, 3, 3]) } else { r.below(4) };
    (strategy, precision, *r.pick(&[0, 0, 1, 64, 1000]))
}

struct Tally {
    figures: AtomicU64,
    points: AtomicU64,
    most: AtomicU64,
}

impl Tally {
    fn new() -> Self {
        Tally { figures: AtomicU64::new(0), points: AtomicU64::new(0), most: AtomicU64::new(0) }
    }
    fn add(&self, figures: usize, points: usize) {
        self.figures.fetch_add(figures as u64, Ordering::Relaxed);
        self.points.fetch_add(points as u64, Ordering::Relaxed);
        self.most.fetch_max(points as u64, Ordering::Relaxed);
    }
    fn report(self, rep: &Report, done: usize) {
        rep.count("runs", done as u64);
        rep.count("scenes", self.figures.into_inner());
        rep.count("points", self.points.into_inner());
        rep.count("points_in_largest_call", self.most.into_inner());
        rep.sample(json!({"calls": done}));
        rep.finish();
    }
}

fn line_extent(sc: &LineScene) -> i64 {
    sc.subj.iter().flatten().chain(sc.lines.iter().flat_map(|e| [&e.0, &e.1])).flat_map(|p| [p.0.abs(), p.1.abs()]).max().unwrap_or(0) * sc.k + 2
}

pub fn strings(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let pairs = load_lines(o);
    let slice = text(o, "what") == "slice";
    let (seed, calls, largest) = (num(o, "seed", 1), num(o, "calls", 200) as usize, num(o, "largest", 2000));
    let only: Option<u64> = o.get("vseed").and_then(|s| s.parse().ok());
    let tally = Tally::new();
    let done = crate::pool::run(&rep, calls, num(o, "budget", 600) as f64, |i| {
        let mut r = Rng::mix(&[seed, 0xc201, i as u64]);
        let vseed = r.next();
        if only.is_some_and(|x| x != vseed) {
            return;
        }
        let n = size(&mut r, largest as i64);
        let chosen: Vec<&(LineScene, Want)> = (0..n).map(|_| r.pick(&pairs)).collect();
        let fine = r.chance(1, 3);
        let g = Ground::new(&chosen.iter().map(|p| line_extent(&p.0)).collect::<Vec<_>>(), fine, &mut r);
        let mut v = Variant::plain();
        v.solver = some_solver(&mut r, n, g.f);
        v.cw = r.chance(1, 3);
        let (fr, mode) = (r.below(4), r.below(4));
        let (mut contours, mut paths, mut ilines): (Vec<Vec<IntPoint>>, Vec<Vec<IntPoint>>, Vec<[IntPoint; 2]>) = (vec![], vec![], vec![]);
        for (p, tr) in chosen.iter().zip(&g.trs) {
            let k = p.0.k;
            let at = |p: P| tr.pt((p.0 * k, p.1 * k));
            contours.extend(p.0.subj.iter().map(|c| to_int(&tr.contour(&c.iter().map(|p| (p.0 * k, p.1 * k)).collect::<Contour>()))));
            let mut last: Option<P> = None;
            for e in &p.0.lines {
                let (a, b) = (at(e.0), at(e.1));
                if last == Some(a) && !r.chance(1, 5) {
                    paths.last_mut().unwrap().push(ip(b));
                } else {
                    paths.push(vec![ip(a), ip(b)]);
                }
                ilines.push([ip(a), ip(b)]);
                last = Some(b);
            }
        }
        let ns = contours.iter().map(|c| c.len()).sum::<usize>() + ilines.len();
        tally.add(n, ns);
        // the entry points without a solver snap at high precision
        let api = if g.f >= 1024 { r.below(5) } else { r.below(3) };
        let mixed = r.chance(1, 2);
        if only.is_some() {
            println!("{}", json!({"figures": n, "points": ns, "api": api, "mixed": mixed, "variant": v.json(), "fill": fr, "mode": mode}));
        }
        let overlay = || {
            let mut o = StringOverlay::with_shape_contours(&contours);
            if mixed { o.add_string_paths(&paths) } else { o.add_string_lines(&ilines) }
            o
        };
        let (fill, dir) = (FILLS[fr], if v.cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise });
        let rule = ClipRule { invert: mode >= 2, boundary_included: mode % 2 == 1 };
        let e = if slice {
            let cw = v.cw && api < 3;
            let got = guard(rep.t0, i as u64, vseed, || {
                shapes_from(&match (api, mixed) {
                    (0..=2, _) => overlay().into_graph_with_solver(fill, solver_of(v.solver)).extract_shapes_custom(StringRule::Slice, dir, 0),
                    (_, true) => contours.slice_by_lines(&ilines, fill),
                    _ => contours.slice_by_paths(&paths, fill),
                })
            });
            match got {
                Err(p) => Some(json!(format!("panic: {p}"))),
                Ok(got) => slices_diff(&chosen, &g, &got, fr, cw),
            }
        } else {
            let got = guard(rep.t0, i as u64, vseed, || match (api, mixed) {
                (0..=2, _) => overlay().clip_string_lines_with_solver(fill, rule, solver_of(v.solver)),
                (_, true) => contours.clip_lines(&ilines, fill, rule),
                _ => contours.clip_paths(&paths, fill, rule),
            });
            match got {
                Err(p) => Some(json!(format!("panic: {p}"))),
                Ok(got) => {
                    let mut by: Vec<Vec<Contour>> = vec![vec![]; n];
                    let mut e = None;
                    for c in got.iter().map(|c| from_int(c)) {
                        match g.owner(&c) {
                            Some(j) => by[j].push(c),
                            None => e = Some(json!({"a path over several places": c_json(&c)})),
                        }
                    }
                    e.or_else(|| {
                        chosen.iter().zip(&g.trs).zip(&by).find_map(|((p, tr), got)| {
                            let want: Vec<Edge> = p.1.clipped[fr][mode].iter().map(|e| (tr.pt(e.0), tr.pt(e.1))).collect();
                            clip_diff(got, &want).map(|d| json!({"scene": p.0.json(), "at": tr.json(), "diff": d}))
                        })
                    })
                }
            }
        };
        if let Some(e) = e {
            rep.violation(json!({"case": i, "vseed": vseed, "variant": v.json(), "figures": n, "points": ns, "fill_rule": FILL_NAMES[fr],
                "clip_rule": if slice { json!(null) } else { json!({"invert": mode >= 2, "boundary_included": mode % 2 == 1}) }, "what": e}));
        }
    });
    tally.report(&rep, done);
}

fn by_place(g: &Ground, got: &[Shape]) -> Result<Vec<Vec<Shape>>, Value> {
    let mut by: Vec<Vec<Shape>> = vec![vec![]; g.trs.len()];
    for s in got {
        let o: Vec<Option<usize>> = s.iter().map(|c| g.owner(c)).collect();
        match o.first() {
            Some(Some(j)) if o.iter().all(|x| x == &o[0]) => by[*j].push(s.clone()),
            _ => return Err(json!({"a shape over several places": cs_json(s)})),
        }
    }
    Ok(by)
}

fn slices_diff(chosen: &[&(LineScene, Want)], g: &Ground, got: &[Shape], fr: usize, cw: bool) -> Option<Value> {
    if let Some(e) = form_error(got, cw, false) {
        return Some(json!({"form": e}));
    }
    let by = match by_place(g, got) {
        Ok(by) => by,
        Err(e) => return Some(e),
    };
    chosen.iter().zip(&g.trs).zip(&by).find_map(|((p, tr), got)| {
        let one = |c: &Contour| -> Contour {
            let c = tr.contour(c);
            if cw { c.iter().rev().copied().collect() } else { c }
        };
        let want: Vec<Shape> = p.1.slices[fr].iter().map(|s| s.iter().map(one).collect()).collect();
        shapes_diff(got, &want).map(|d| json!({"scene": p.0.json(), "at": tr.json(), "slices": d}))
    })
}

/// Vectors, and Simplify, of many scenes.
pub fn overlays(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let pairs = load_pairs(o);
    let vectors = text(o, "what") == "vectors";
    let small: Vec<usize> = (0..pairs.len()).filter(|&i| extent(&pairs[i].0) < 1000).collect();
    let (seed, calls, largest) = (num(o, "seed", 1), num(o, "calls", 200) as usize, num(o, "largest", 2000));
    let only: Option<u64> = o.get("vseed").and_then(|s| s.parse().ok());
    let tally = Tally::new();
    let done = crate::pool::run(&rep, calls, num(o, "budget", 600) as f64, |i| {
        let mut r = Rng::mix(&[seed, 0xc202, i as u64]);
        let vseed = r.next();
        if only.is_some_and(|x| x != vseed) {
            return;
        }
        let n = size(&mut r, largest as i64);
        let fine = !vectors || r.chance(1, 3);
        let chosen: Vec<&(Scene, Expected)> = (0..n).map(|_| if fine { &pairs[*r.pick(&small)] } else { r.pick(&pairs) }).collect();
        let g = Ground::new(&chosen.iter().map(|p| extent(&p.0)).collect::<Vec<_>>(), fine, &mut r);
        if !vectors && g.f < 1024 {
            // Simplify takes no solver, and snaps
            return;
        }
        let mut v = Variant::plain();
        v.solver = some_solver(&mut r, n, g.f);
        v.cw = r.chance(1, 3);
        v.simplify = r.chance(1, 2);
        let (fr, op) = (r.below(4), r.below(7));
        let mut inp = Input { subj: vec![], clip: vec![] };
        for (p, tr) in chosen.iter().zip(&g.trs) {
            let put = |c: &Contour| -> Contour { tr.contour(&c.iter().map(|q| (q.0 * p.0.k, q.1 * p.0.k)).collect::<Contour>()) };
            inp.subj.extend(p.0.subj.iter().map(put));
            inp.clip.extend(p.0.clip.iter().map(put));
        }
        let ns = inp.subj.iter().chain(inp.clip.iter()).map(|c| c.len()).sum::<usize>();
        tally.add(n, ns);
        let api = r.below(3);
        if only.is_some() {
            println!("{}", json!({"figures": n, "points": ns, "api": api, "variant": v.json(), "fill": fr, "rule": op}));
        }
        let e = if vectors {
            let solver = solver_of(v.solver);
            let got = guard(rep.t0, i as u64, vseed, || {
                let o = overlay_of(&inp);
                if api == 0 {
                    let g = o.into_graph_with_solver(FILLS[fr], solver);
                    (g.extract_separate_vectors(), g.extract_shape_vectors(RULES[op]))
                } else {
                    (o.clone().into_separate_vectors(FILLS[fr], solver), o.into_shape_vectors(FILLS[fr], RULES[op], solver))
                }
            });
            match got {
                Err(p) => Some(json!(format!("panic: {p}"))),
                Ok((sep, shapes)) => vectors_diff(&chosen, &g, &sep, &shapes, fr, op, api == 0),
            }
        } else {
            let subj: Vec<_> = inp.subj.iter().map(|c| to_int(c)).collect();
            let dir = if v.cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise };
            let got = guard(rep.t0, i as u64, vseed, || {
                shapes_from(&match api {
                    0 => subj.as_slice().simplify(FILLS[fr], dir, v.simplify, 0),
                    1 => subj.simplify(FILLS[fr], dir, v.simplify, 0),
                    _ => {
                        let s: Vec<_> = subj.iter().map(|c| vec![c.clone()]).collect();
                        s.as_slice().simplify(FILLS[fr], dir, v.simplify, 0)
                    }
                })
            });
            match got {
                Err(p) => Some(json!(format!("panic: {p}"))),
                Ok(got) => simple_diff(&chosen, &g, &got, &v, fr),
            }
        };
        if let Some(e) = e {
            rep.violation(json!({"case": i, "vseed": vseed, "variant": v.json(), "figures": n, "points": ns, "fill_rule": FILL_NAMES[fr],
                "overlay_rule": RULE_NAMES[op], "what": e}));
        }
    });
    tally.report(&rep, done);
}

fn simple_diff(chosen: &[&(Scene, Expected)], g: &Ground, got: &[Shape], v: &Variant, fr: usize) -> Option<Value> {
    if let Some(e) = form_error(got, v.cw, v.simplify) {
        return Some(json!({"form": e}));
    }
    let by = match by_place(g, got) {
        Ok(by) => by,
        Err(e) => return Some(e),
    };
    chosen.iter().zip(&g.trs).zip(&by).find_map(|((p, tr), got)| {
        let fail = |d: Value| Some(json!({"scene": p.0.json(), "at": tr.json(), "simplify": d}));
        let want: Vec<Edge> = p.1.boundary(fr, 0).iter().map(|&e| tr.edge(e)).collect();
        if let Some(d) = region_diff(got, &want, v.cw) {
            return fail(d);
        }
        let exact = p.0.clip.is_empty() || !p.1.shapes[fr][0].pinched;
        let ways = p.1.shapes[fr][0].expect(tr, v.cw).filter(|_| exact)?;
        ways_diff(got, ways, 0).and_then(fail)
    })
}

#[allow(clippy::too_many_arguments)]
fn vectors_diff(
    chosen: &[&(Scene, Expected)],
    g: &Ground,
    sep: &[VectorEdge],
    shapes: &[Vec<Vec<VectorEdge>>],
    fr: usize,
    op: usize,
    graph: bool,
) -> Option<Value> {
    let mut own: Vec<Vec<(Edge, u8)>> = vec![vec![]; chosen.len()];
    for (e, f) in sep.iter().map(ve) {
        match g.owner(&[e.0, e.1]) {
            Some(j) => own[j].push((e, f)),
            None => return Some(json!({"an edge over several places": format!("{e:?}")})),
        }
    }
    let mut own_shapes: Vec<Vec<Vec<Vec<(Edge, u8)>>>> = vec![vec![]; chosen.len()];
    for s in shapes {
        let s: Vec<Vec<(Edge, u8)>> = s.iter().map(|c| c.iter().map(ve).collect()).collect();
        let pts: Contour = s.iter().flatten().flat_map(|(e, _)| [e.0, e.1]).collect();
        match g.owner(&pts) {
            Some(j) => own_shapes[j].push(s),
            None => return Some(json!({"a shape over several places": format!("{pts:?}")})),
        }
    }
    for (i, (p, tr)) in chosen.iter().zip(&g.trs).enumerate() {
        let (sep, shapes) = (&own[i], &own_shapes[i]);
        if let Some(d) = diff(&p.1, tr, sep, shapes, fr, op, graph) {
            return Some(json!({"scene": p.0.json(), "at": tr.json(), "diff": d}));
        }
    }
    None
}
