//! Slices and clips whose crossings have to be rounded, held against what the
//! specification says away from edges.
use crate::boolean::*;
use crate::geo::*;
use crate::modes::*;
use crate::pool::*;
use crate::rng::Rng;
use crate::rough::*;
use crate::scene::*;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::float::clip::FloatClip;
use i_overlay::float::filter::ContourFilter;
use i_overlay::float::slice::FloatSlice;
use i_overlay::float::string_overlay::FloatStringOverlay;
use i_overlay::i_float::float::compatible::FloatPointCompatible;
use i_overlay::i_float::float::number::FloatNumber;
use i_overlay::string::clip::{ClipRule, IntClip};
use i_overlay::string::overlay::StringOverlay;
use i_overlay::string::rule::StringRule;
use i_overlay::string::slice::IntSlice;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};

type F = (f64, f64);

pub fn generate(o: &Opt) {
    let n = num(o, "n", 1000) as usize;
    let mut r = Rng::mix(&[num(o, "seed", 1), 0x711e5]);
    let mut rows = Vec::new();
    for (sc, _) in gen_rough_scenes(num(o, "seed", 1) ^ 0x11e5, n) {
        let mut subj = sc.subj.clone();
        subj.extend(sc.clip.iter().cloned());
        if r.chance(1, 3) {
            subj.truncate(1 + r.below(3));
        }
        let pts: Vec<P> = subj.iter().flatten().copied().collect();
        let (lx, hx) = (pts.iter().map(|p| p.0).min().unwrap(), pts.iter().map(|p| p.0).max().unwrap());
        let (ly, hy) = (pts.iter().map(|p| p.1).min().unwrap(), pts.iter().map(|p| p.1).max().unwrap());
        let clamp = |p: P| (p.0.clamp(-8000, 8000), p.1.clamp(-8000, 8000));
        let any = |r: &mut Rng| (r.range(lx - 2, hx + 2), r.range(ly - 2, hy + 2));
        let segs = contour_edges(subj.iter());
        let mut lines: Vec<Edge> = Vec::new();
        for _ in 0..r.range(1, 6) {
            let e = match r.below(8) {
                // across
                0 | 1 => {
                    let (p, q) = (any(&mut r), any(&mut r));
                    let d = (q.0 - p.0, q.1 - p.1);
                    let k = ((hx - lx + hy - ly) / d.0.abs().max(d.1.abs()).max(1)).max(1);
                    (clamp((p.0 - d.0 * k, p.1 - d.1 * k)), clamp((p.0 + d.0 * k, p.1 + d.1 * k)))
                }
                // along an edge, about
                2 if !segs.is_empty() => {
                    let (a, b) = *r.pick(&segs);
                    let near = |p: P, r: &mut Rng| clamp((p.0 + r.range(-2, 2), p.1 + r.range(-2, 2)));
                    if r.chance(1, 2) { (near(a, &mut r), near(b, &mut r)) } else { (near(b, &mut r), near(a, &mut r)) }
                }
                // upright or lying, all but a few units
                6 | 7 => {
                    let (d, flip) = (r.range(-6, 6), r.chance(1, 2));
                    let e = if r.chance(1, 2) {
                        let x = r.range(lx, hx);
                        (clamp((x, ly - r.range(0, 30))), clamp((x + d, hy + r.range(0, 30))))
                    } else {
                        let y = r.range(ly, hy);
                        (clamp((lx - r.range(0, 30), y)), clamp((hx + r.range(0, 30), y + d)))
                    };
                    if flip { (e.1, e.0) } else { e }
                }
                // on from the last one
                3 if !lines.is_empty() => (lines[lines.len() - 1].1, clamp(any(&mut r))),
                _ => (clamp(any(&mut r)), clamp(any(&mut r))),
            };
            if e.0 != e.1 {
                lines.push(e);
            }
        }
        if lines.is_empty() {
            continue;
        }
        let mut probes: Contour = (0..10).map(|_| clamp(any(&mut r))).collect();
        let mut marks = Vec::new();
        for (i, &(a, b)) in lines.iter().enumerate() {
            let l = (((b.0 - a.0).pow(2) + (b.1 - a.1).pow(2)) as f64).sqrt();
            for _ in 0..6 {
                let t = r.range(1, 31);
                marks.push([i as i64 + 1, a.0 + (b.0 - a.0) * t / 32, a.1 + (b.1 - a.1) * t / 32]);
            }
            // on both sides of the line
            let t = r.range(1, 31);
            let d = *r.pick(&[3.0, 6.0, 14.0, 40.0]);
            for s in [d, -d] {
                let (x, y) = (a.0 + (b.0 - a.0) * t / 32, a.1 + (b.1 - a.1) * t / 32);
                probes.push(clamp((x - ((b.1 - a.1) as f64 / l * s) as i64, y + ((b.0 - a.0) as f64 / l * s) as i64)));
            }
        }
        let ls: Vec<Value> = lines.iter().map(|e| json!([[e.0.0, e.0.1], [e.1.0, e.1.1]])).collect();
        rows.push(json!({"id": rows.len() + 1, "k": 1, "subj": cs_json(&subj), "clip": [], "lines": ls, "probes": c_json(&probes), "marks": marks}));
    }
    write_lines(text(o, "out"), rows.into_iter());
}

struct Probe {
    p: P,
    clear: i64,
    w: i64,
}

struct Mark {
    line: usize,
    p: P,
    clear: i64,
    others: i64,
    w: i64,
}

struct Case {
    id: u64,
    subj: Vec<Contour>,
    lines: Vec<Edge>,
    probes: Vec<Probe>,
    same: Vec<(usize, usize, i64)>,
    apart: Vec<(usize, usize)>,
    marks: Vec<Mark>,
}

fn load(o: &Opt) -> Vec<Case> {
    let scenes: HashMap<u64, Value> = read_lines(text(o, "scenes")).into_iter().map(|v| (v["id"].as_u64().unwrap(), v)).collect();
    let rows = |v: &Value| -> Vec<Vec<i64>> { v.as_array().unwrap().iter().map(|p| p.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()).collect() };
    let mut res: Vec<Case> = read_lines(text(o, "expected"))
        .iter()
        .map(|v| {
            let id = v["id"].as_u64().unwrap();
            Case {
                id,
                subj: cs_from(&scenes[&id]["subj"]),
                lines: cs_from(&scenes[&id]["lines"]).iter().map(|c| (c[0], c[1])).collect(),
                probes: rows(&v["probes"]).iter().map(|p| Probe { p: (p[0], p[1]), clear: p[2], w: p[3] }).collect(),
                same: rows(&v["same"]).iter().map(|p| (p[0] as usize - 1, p[1] as usize - 1, p[2])).collect(),
                apart: rows(&v["apart"]).iter().map(|p| (p[0] as usize - 1, p[1] as usize - 1)).collect(),
                marks: rows(&v["marks"]).iter().map(|m| Mark { line: m[0] as usize - 1, p: (m[1], m[2]), clear: m[3], others: m[4], w: m[5] }).collect(),
            }
        })
        .collect();
    res.sort_by_key(|c| c.id);
    res
}

fn fw(c: &[F], p: F) -> i64 {
    let mut w = 0;
    for i in 0..c.len() {
        let (a, b) = (c[i], c[(i + 1) % c.len()]);
        let o = (b.0 - a.0) * (p.1 - a.1) - (b.1 - a.1) * (p.0 - a.0);
        if a.0 <= p.0 && p.0 < b.0 {
            w += (o > 0.0) as i64;
        } else if b.0 <= p.0 && p.0 < a.0 && o < 0.0 {
            w -= 1;
        }
    }
    w
}

fn dist(a: F, b: F, p: F) -> f64 {
    let d = (b.0 - a.0, b.1 - a.1);
    let l = d.0 * d.0 + d.1 * d.1;
    let t = if l == 0.0 { 0.0 } else { (((p.0 - a.0) * d.0 + (p.1 - a.1) * d.1) / l).clamp(0.0, 1.0) };
    (p.0 - a.0 - d.0 * t).hypot(p.1 - a.1 - d.1 * t)
}

/// Where things are in the output: at maps scene points, unit is the size of a scene unit, tol what rounding may do (in scene units).
struct View<'a> {
    at: &'a dyn Fn(P) -> F,
    unit: f64,
    tol: f64,
    sign: i64,
    exact: bool,
}

fn judge_slices(c: &Case, v: &View, fr: usize, got: &[Vec<Vec<F>>], counts: &AtomicU64) -> Option<Value> {
    for s in got {
        for (i, k) in s.iter().enumerate() {
            if k.len() < 3 {
                return Some(json!("a contour of less than three points"));
            }
            let o = k[0];
            let a: f64 = (0..k.len()).map(|i| (k[i].0 - o.0) * (k[(i + 1) % k.len()].1 - o.1) - (k[i].1 - o.1) * (k[(i + 1) % k.len()].0 - o.0)).sum();
            // too thin to tell in floating point
            let big = k.iter().map(|p| (p.0 - o.0).abs().max((p.1 - o.1).abs())).fold(0.0, f64::max);
            if a.abs() > big * v.unit * (0.5 + v.tol) && (a > 0.0) != ((i == 0) == (v.sign > 0)) {
                return Some(json!({"direction of contour": i, "shape": format!("{s:?}")}));
            }
        }
    }
    let mut owner = vec![None; c.probes.len()];
    for (i, p) in c.probes.iter().enumerate() {
        if p.clear as f64 <= v.tol {
            continue;
        }
        counts.fetch_add(1, Ordering::Relaxed);
        let q = (v.at)(p.p);
        let ws: Vec<i64> = got.iter().map(|s| s.iter().map(|k| fw(k, q)).sum::<i64>() * v.sign).collect();
        let want = inside(FILLS[fr], p.w) as i64;
        if ws.iter().sum::<i64>() != want || ws.iter().any(|w| *w != 0 && *w != 1) {
            return Some(json!({"probe": p.p, "distance": p.clear, "windings by slice": ws, "expected": want}));
        }
        owner[i] = ws.iter().position(|w| *w == 1);
    }
    for &(i, j, gap) in &c.same {
        if gap as f64 > v.tol && owner[i] != owner[j] {
            return Some(json!({"probes": [c.probes[i].p, c.probes[j].p], "see each other but lie in slices": [owner[i], owner[j]]}));
        }
    }
    for &(i, j) in &c.apart {
        if owner[i].is_some() && owner[i] == owner[j] {
            return Some(json!({"probes": [c.probes[i].p, c.probes[j].p], "are separated but lie in slice": owner[i]}));
        }
    }
    None
}

fn judge_paths(c: &Case, v: &View, fr: usize, rule: ClipRule, got: &[Vec<F>], counts: &AtomicU64) -> Option<Value> {
    let lines: Vec<(F, F)> = c.lines.iter().map(|e| ((v.at)(e.0), (v.at)(e.1))).collect();
    let mut edges: Vec<(F, F)> = Vec::new();
    let near = (v.tol + 1.0) * v.unit;
    for p in got {
        if p.len() < 2 {
            return Some(json!("a path of one point"));
        }
        for w in p.windows(2) {
            let mid = ((w[0].0 + w[1].0) / 2.0, (w[0].1 + w[1].1) / 2.0);
            if !lines.iter().any(|l| dist(l.0, l.1, mid) <= near && dist(l.0, l.1, w[0]) <= near && dist(l.0, l.1, w[1]) <= near) {
                return Some(json!({"not on a line": format!("{w:?}")}));
            }
            // single precision may not tell the ends of a short stretch apart
            if w[0] != w[1] {
                edges.push((w[0], w[1]));
            }
        }
    }
    // single precision may draw two stretches onto one
    let mut sorted = if v.exact { edges.clone() } else { Vec::new() };
    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if let Some(w) = sorted.windows(2).find(|w| w[0] == w[1]) {
        return Some(json!({"returned twice": format!("{:?}", w[0])}));
    }
    for m in &c.marks {
        let far = 3.0 * v.tol + 3.0;
        if (m.clear as f64) <= far || (m.others as f64) <= far {
            continue;
        }
        counts.fetch_add(1, Ordering::Relaxed);
        let q = (v.at)(m.p);
        let (a, b) = lines[m.line];
        let along: Vec<f64> =
            edges.iter().filter(|e| dist(e.0, e.1, q) <= near + v.unit).map(|e| (e.1.0 - e.0.0) * (b.0 - a.0) + (e.1.1 - e.0.1) * (b.1 - a.1)).collect();
        let want = inside(FILLS[fr], m.w) != rule.invert;
        if want == along.is_empty() || along.iter().any(|x| *x <= 0.0) {
            return Some(json!({"mark": m.p, "line": m.line + 1, "kept": !along.is_empty(), "expected": want, "directions": along}));
        }
    }
    None
}

fn call_float<P: FloatPointCompatible<T>, T: FloatNumber>(c: &Case, sim: &Sim, v: &Variant, fr: usize, mode: usize, tol: f64, counts: &AtomicU64) -> Option<Value> {
    let pt = |p: (i64, i64)| {
        let q = sim.at(p);
        P::from_xy(T::from_float(q.0), T::from_float(q.1))
    };
    let subj: Vec<Vec<P>> = c.subj.iter().map(|c| c.iter().map(|&p| pt(p)).collect()).collect();
    let paths: Vec<Vec<P>> = c.lines.iter().map(|e| vec![pt(e.0), pt(e.1)]).collect();
    let dir = if v.cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise };
    let filter = ContourFilter { min_area: T::from_float(0.0), simplify_contour: true, clean_result: v.noise % 2 == 0 };
    let (fill, solver) = (FILLS[fr], solver_of(v.solver));
    let back = |c: &Vec<P>| -> Vec<F> { c.iter().map(|p| (p.x().to_f64(), p.y().to_f64())).collect() };
    let at = |p| sim.at(p);
    let mut view = View { at: &at, unit: sim.scale(), tol, sign: 1, exact: std::mem::size_of::<T>() == 8 };
    if mode == 0 {
        let got = match v.api % 3 {
            0 => subj.slice_by(&paths, fill),
            1 => subj.slice_custom_by(&paths, fill, dir, filter, solver),
            _ => FloatStringOverlay::with_shape_and_string(&subj, &paths).into_graph_with_solver(fill, solver).extract_shapes_custom(StringRule::Slice, dir, filter),
        };
        if v.cw && v.api % 3 != 0 {
            view.sign = -1;
        }
        let got: Vec<Vec<Vec<F>>> = got.iter().map(|s| s.iter().map(back).collect()).collect();
        judge_slices(c, &view, fr, &got, counts)
    } else {
        let rule = ClipRule { invert: mode > 2, boundary_included: mode % 2 == 0 };
        let got = match v.api % 3 {
            0 => paths.clip_by(&subj, fill, rule),
            1 => paths.clip_by_with_solver(&subj, fill, rule, solver),
            _ => FloatStringOverlay::with_shape_and_string(&subj, &paths).clip_string_lines_with_solver(fill, rule, solver),
        };
        let got: Vec<Vec<F>> = got.iter().map(back).collect();
        judge_paths(c, &view, fr, rule, &got, counts)
    }
}

fn call_int(c: &Case, v: &Variant, fr: usize, mode: usize, mixed: bool, counts: &AtomicU64) -> Option<Value> {
    let subj: Vec<_> = c.subj.iter().map(|k| to_int(&v.tr.contour(k))).collect();
    let lines: Vec<_> = c.lines.iter().map(|e| [ip(v.tr.pt(e.0)), ip(v.tr.pt(e.1))]).collect();
    let paths: Vec<Vec<_>> = lines.iter().map(|l| l.to_vec()).collect();
    let dir = if v.cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise };
    let (fill, solver) = (FILLS[fr], solver_of(v.solver));
    let overlay = || {
        let mut o = StringOverlay::with_shape_contours(&subj);
        if mixed { o.add_string_lines(&lines) } else { o.add_string_paths(&paths) }
        o
    };
    let at = |p: P| {
        let q = v.tr.pt(p);
        (q.0 as f64, q.1 as f64)
    };
    let mut view = View { at: &at, unit: v.tr.f as f64, tol: reach(v.solver.1) as f64 / v.tr.f as f64, sign: 1, exact: true };
    if mode == 0 {
        let got = match v.api % 3 {
            0 => subj.slice_by_lines(&lines, fill),
            1 => subj.slice_by_paths(&paths, fill),
            _ => overlay().into_graph_with_solver(fill, solver).extract_shapes_custom(StringRule::Slice, dir, 0),
        };
        let cw = v.cw && v.api % 3 == 2;
        view.sign = if cw { -1 } else { 1 };
        let got = shapes_from(&got);
        if let Some(e) = form_error(&got, cw, false) {
            return Some(json!({"form": e, "actual": shapes_json(&got)}));
        }
        if let Some(e) = crossing(&got) {
            return Some(json!({"crossing edges": format!("{e:?}"), "actual": shapes_json(&got)}));
        }
        let fs: Vec<Vec<Vec<F>>> = got.iter().map(|s| s.iter().map(|k| k.iter().map(|p| (p.0 as f64, p.1 as f64)).collect()).collect()).collect();
        judge_slices(c, &view, fr, &fs, counts).map(|e| json!({"slices": e, "actual": shapes_json(&got)}))
    } else {
        let rule = ClipRule { invert: mode > 2, boundary_included: mode % 2 == 0 };
        let got = match v.api % 3 {
            0 => subj.clip_lines(&lines, fill, rule),
            1 => subj.clip_paths(&paths, fill, rule),
            _ => overlay().clip_string_lines_with_solver(fill, rule, solver),
        };
        let fs: Vec<Vec<F>> = got.iter().map(|k| k.iter().map(|p| (p.x as f64, p.y as f64)).collect()).collect();
        judge_paths(c, &view, fr, rule, &fs, counts).map(|e| json!({"clip": e, "actual": format!("{fs:?}")}))
    }
}

/// Two edges that cross properly (slices share edges).
fn crossing(shapes: &[Shape]) -> Option<(Edge, Edge)> {
    let mut es = contour_edges(shapes.iter().flatten());
    es.iter_mut().for_each(|e| *e = (e.0.min(e.1), e.0.max(e.1)));
    es.sort_unstable();
    es.dedup();
    for i in 0..es.len() {
        let (a, b) = es[i];
        for &(c, d) in &es[i + 1..] {
            if c.0 > b.0 {
                break;
            }
            if orient(a, b, c).signum() * orient(a, b, d).signum() < 0 && orient(c, d, a).signum() * orient(c, d, b).signum() < 0 {
                return Some(((a, b), (c, d)));
            }
        }
    }
    None
}

pub fn replay(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let cases = load(o);
    let (seed, per) = (num(o, "seed", 1), num(o, "variants", 4));
    let only: Option<u64> = o.get("vseed").and_then(|s| s.parse().ok());
    let (runs, counts) = (AtomicU64::new(0), AtomicU64::new(0));
    let done = crate::pool::run(&rep, cases.len(), num(o, "budget", 600) as f64, |i| {
        let c = &cases[i];
        for fr in 0..4 {
            // 0: slice, 1..5: clip
            for mode in 0..5 {
                for n in 0..per {
                    let mut r = Rng::mix(&[seed, c.id, fr as u64, mode as u64, n, 0x711e]);
                    let vseed = r.next();
                    if only.is_some_and(|x| x != vseed) {
                        continue;
                    }
                    runs.fetch_add(1, Ordering::Relaxed);
                    let m = c.subj.iter().flatten().chain(c.lines.iter().flat_map(|e| [&e.0, &e.1])).flat_map(|p| [p.0.abs(), p.1.abs()]).max().unwrap() + 4;
                    let mut v = Variant::plain();
                    v.api = r.below(3);
                    v.cw = r.chance(1, 3);
                    v.noise = r.next();
                    let mixed = r.chance(1, 2);
                    let int = r.chance(2, 3);
                    let res = if int {
                        v.solver = (r.below(4), r.below(6), r.below(3));
                        if v.api < 2 {
                            v.solver = (3, 1, 0);
                        }
                        v.tr = rand_tr(&mut r, m);
                        if r.chance(1, 2) {
                            v.tr.f = 1;
                        }
                        if only.is_some() {
                            println!("{}", json!({"variant": v.json(), "mixed": mixed, "mode": mode, "fill": FILL_NAMES[fr], "subj": cs_json(&c.subj.iter().map(|k| v.tr.contour(k)).collect::<Vec<_>>()),
                                "lines": c.lines.iter().map(|e| (v.tr.pt(e.0), v.tr.pt(e.1))).collect::<Vec<_>>()}));
                        }
                        guard(rep.t0, c.id, vseed, || call_int(c, &v, fr, mode, mixed, &counts))
                    } else {
                        v.solver = (if r.chance(1, 24) { 2 } else { *r.pick(&[0, 1, 3]) }, r.below(3), r.below(3));
                        let sim = Sim::rand(&mut r, m as f64);
                        let far = sim.t.0.abs().max(sim.t.1.abs()) / sim.scale() + m as f64;
                        let single = r.chance(1, 2);
                        let tol = if single { 1.0 + far * 20.0 / (1 << 24) as f64 } else { 0.0 };
                        if only.is_some() {
                            println!("{}", json!({"variant": v.json(), "sim": [sim.c, sim.s, sim.t.0, sim.t.1], "single": single, "mode": mode, "fill": FILL_NAMES[fr]}));
                        }
                        guard(rep.t0, c.id, vseed, || {
                            if single {
                                call_float::<[f32; 2], f32>(c, &sim, &v, fr, mode, tol, &counts)
                            } else {
                                call_float::<[f64; 2], f64>(c, &sim, &v, fr, mode, tol, &counts)
                            }
                        })
                    };
                    let e = match res {
                        Err(p) => Some(json!(format!("panic: {p}"))),
                        Ok(e) => e,
                    };
                    if let Some(e) = e {
                        rep.violation(json!({"case": c.id, "vseed": vseed, "fill_rule": FILL_NAMES[fr], "mode": (["slice", "clip", "clip, boundary included", "inverted clip", "inverted clip, boundary included"])[mode],
                            "variant": v.json(), "integer": int, "subj": cs_json(&c.subj), "lines": c.lines, "what": e}));
                    }
                }
            }
        }
    });
    rep.count("scenes", done as u64);
    rep.count("runs", runs.into_inner());
    rep.count("points_judged", counts.into_inner());
    for c in cases.iter().take(3) {
        rep.sample(json!({"id": c.id, "subj": cs_json(&c.subj), "lines": c.lines}));
    }
    rep.finish();
}
