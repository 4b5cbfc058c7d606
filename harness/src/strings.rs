//! Open lines: clipping and slicing, compared with what the specification computed.
use crate::boolean::{FILL_NAMES, FILLS, Variant, form_error, noisy, shapes_from, shapes_json, solver_of};
use crate::geo::*;
use crate::modes::*;
use crate::pool::*;
use crate::rng::Rng;
use crate::scene::*;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::i_float::int::point::IntPoint;
use i_overlay::string::clip::{ClipRule, IntClip};
use i_overlay::string::overlay::StringOverlay;
use i_overlay::string::rule::StringRule;
use i_overlay::string::slice::IntSlice;
use serde_json::{Value, json};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct LineScene {
    pub id: usize,
    pub k: i64,
    pub subj: Vec<Contour>,
    pub lines: Vec<Edge>,
}

impl LineScene {
    pub fn json(&self) -> Value {
        json!({"id": self.id, "k": self.k, "subj": cs_json(&self.subj),
               "lines": self.lines.iter().map(|e| json!([[e.0.0, e.0.1], [e.1.0, e.1.1]])).collect::<Vec<_>>()})
    }
    fn from(v: &Value) -> Self {
        let lines = cs_from(&v["lines"]).iter().map(|c| (c[0], c[1])).collect();
        LineScene { id: v["id"].as_u64().unwrap() as usize, k: v["k"].as_i64().unwrap(), subj: cs_from(&v["subj"]), lines }
    }
}

pub fn gen_scenes_lines(seed: u64, n: usize) -> Vec<LineScene> {
    let mut r = Rng::mix(&[seed, 0x11e5]);
    let mut res: Vec<LineScene> = Vec::new();
    while res.len() < n {
        let fam = res.len() % FAMILIES;
        let mut s = gen_scene(&mut r, fam);
        s.subj.append(&mut s.clip);
        if r.chance(1, 3) {
            s.subj.truncate(1 + r.below(2));
        }
        let pts: Vec<P> = s.subj.iter().flatten().copied().collect();
        let (lo, hi) = (pts.iter().map(|p| p.0.min(p.1)).min().unwrap(), pts.iter().map(|p| p.0.max(p.1)).max().unwrap());
        let any = |r: &mut Rng| -> P {
            match r.below(3) {
                0 => *r.pick(&pts),
                _ => (r.range(lo - 1, hi + 1), r.range(lo - 1, hi + 1)),
            }
        };
        let mut lines = Vec::new();
        // one figure and one line
        let one = r.chance(1, 8);
        if one {
            s.subj.truncate(1);
        }
        for _ in 0..if one { 1 } else { r.range(1, 4) } {
            match r.below(if one { 2 } else { 5 }) {
                // along a contour
                0 => {
                    let c = r.pick(&s.subj).clone();
                    let i = r.below(c.len());
                    let e = (c[i], c[(i + 1) % c.len()]);
                    lines.push(if r.chance(1, 2) { e } else { (e.1, e.0) });
                }
                // across
                1 => {
                    let t = r.range(lo, hi);
                    let e = match r.below(4) {
                        0 => ((lo - 1, t), (hi + 1, t)),
                        1 => ((t, lo - 1), (t, hi + 1)),
                        2 => ((lo - 1, lo - 1), (hi + 1, hi + 1)),
                        _ => ((lo - 1, hi + 1), (hi + 1, lo - 1)),
                    };
                    lines.push(if r.chance(1, 2) { e } else { (e.1, e.0) });
                }
                // a path
                _ => {
                    let mut p = any(&mut r);
                    for _ in 0..r.range(1, 4) {
                        let q = any(&mut r);
                        if r.chance(1, 6) {
                            lines.push((p, q));
                            lines.push((q, p));
                        } else {
                            lines.push((p, q));
                            p = q;
                        }
                    }
                }
            }
        }
        let mut segs = s.segments();
        segs.extend(lines.iter().copied().filter(|e| e.0 != e.1));
        if segs.len() > 40 {
            continue;
        }
        let Some(k) = scale_of(&segs, 3000) else { continue };
        let m = segs.iter().flat_map(|e| [e.0.0.abs(), e.0.1.abs(), e.1.0.abs(), e.1.1.abs()]).max().unwrap_or(1);
        if k * m.max(1) > 8000 {
            continue;
        }
        res.push(LineScene { id: res.len() + 1, k, subj: s.subj, lines });
    }
    res
}

pub fn generate(o: &Opt) {
    let s = gen_scenes_lines(num(o, "seed", 1), num(o, "n", 1000) as usize);
    write_lines(text(o, "out"), s.iter().map(|s| s.json()));
}

pub struct Want {
    pub clipped: Vec<Vec<Vec<Edge>>>,
    pub slices: Vec<Vec<Shape>>,
}

fn want_from(v: &Value) -> Want {
    let arr = |v: &Value| v.as_array().unwrap().clone();
    let edge = |e: &Value| {
        let g = |i: usize| e[i].as_i64().unwrap();
        ((g(0), g(1)), (g(2), g(3)))
    };
    Want {
        clipped: arr(&v["clipped"]).iter().map(|f| arr(f).iter().map(|m| arr(m).iter().map(edge).collect()).collect()).collect(),
        slices: arr(&v["slices"]).iter().map(|f| arr(f).iter().map(cs_from).collect()).collect(),
    }
}

pub fn load_lines(o: &Opt) -> Vec<(LineScene, Want)> {
    let scenes: HashMap<usize, LineScene> = read_lines(text(o, "scenes")).iter().map(LineScene::from).map(|s| (s.id, s)).collect();
    read_lines(text(o, "expected")).iter().map(|v| (scenes[&(v["id"].as_u64().unwrap() as usize)].clone(), want_from(v))).collect()
}

pub fn replay(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let pairs = load_lines(o);
    let slice = text(o, "what") == "slice";
    let (seed, per) = (num(o, "seed", 1), num(o, "variants", 4));
    let only: Option<u64> = o.get("vseed").and_then(|s| s.parse().ok());
    let runs = std::sync::atomic::AtomicU64::new(0);
    let non = std::sync::atomic::AtomicU64::new(0);
    let done = crate::pool::run(&rep, pairs.len(), num(o, "budget", 600) as f64, |i| {
        let (sc, w) = &pairs[i];
        for fr in 0..4 {
            for mode in 0..(if slice { 1 } else { 4 }) {
                for n in 0..per {
                    let mut r = Rng::mix(&[seed, sc.id as u64, fr as u64, mode as u64, n, 0x57]);
                    let vseed = r.next();
                    if only.is_some_and(|x| x != vseed) {
                        continue;
                    }
                    runs.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if (slice && !w.slices[fr].is_empty()) || (!slice && !w.clipped[fr][mode].is_empty()) {
                        non.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                    let mut v = Variant::plain();
                    if n > 0 {
                        let m = sc.subj.iter().flatten().chain(sc.lines.iter().flat_map(|e| [&e.0, &e.1])).flat_map(|p| [p.0.abs(), p.1.abs()]).max().unwrap();
                        v.tr = rand_tr_shear(&mut r, m * sc.k + 4);
                        let p = if v.tr.f >= 1024 { r.below(6) } else { 0 };
                        v.solver = (r.below(4), p, r.below(3));
                        v.cw = r.chance(1, 3);
                        v.noise = if r.chance(1, 3) { r.next() | 1 } else { 0 };
                    } else {
                        v.solver = (3, 0, 0);
                    }
                    let e = check(&rep, sc, w, &v, slice, fr, mode, vseed, only.is_some());
                    if let Some(e) = e {
                        rep.violation(json!({"case": sc.id, "vseed": vseed, "scene": sc.json(), "variant": v.json(), "fill_rule": FILL_NAMES[fr],
                            "clip_rule": if slice { json!(null) } else { json!({"invert": mode >= 2, "boundary_included": mode % 2 == 1}) }, "what": e}));
                    }
                }
            }
        }
    });
    rep.count("scenes", done as u64);
    rep.count("runs", runs.into_inner());
    rep.count("runs_nonempty", non.into_inner());
    for (s, _) in pairs.iter().take(3) {
        rep.sample(s.json());
    }
    rep.finish();
}

#[allow(clippy::too_many_arguments)]
fn check(rep: &Report, sc: &LineScene, w: &Want, v: &Variant, slice: bool, fr: usize, mode: usize, vseed: u64, show: bool) -> Option<Value> {
    let mut r = Rng::mix(&[vseed, 3]);
    let at = |p: P| v.tr.pt((p.0 * sc.k, p.1 * sc.k));
    let subj: Vec<Contour> = sc
        .subj
        .iter()
        .map(|c| {
            let c = v.tr.contour(&c.iter().map(|p| (p.0 * sc.k, p.1 * sc.k)).collect::<Contour>());
            if v.noise != 0 { noisy(&c, &mut r) } else { c }
        })
        .collect();
    let mut lines: Vec<Edge> = sc.lines.iter().map(|e| (at(e.0), at(e.1))).collect();
    if v.noise != 0 {
        // the same lines again, or a part of one
        for _ in 0..r.below(3) {
            let e = *r.pick(&lines);
            let i = r.below(lines.len() + 1);
            lines.insert(i, e);
        }
        r.shuffle(&mut lines);
    }
    let mut subj = subj;
    if v.noise % 16 == 5 {
        // every contour so often, and a line many times
        let m = *r.pick(&[1, 3, 129, 257]);
        let one = std::mem::take(&mut subj);
        for _ in 0..m {
            subj.extend(one.iter().cloned());
        }
        let e = *r.pick(&lines);
        let e = if r.chance(1, 2) { e } else { lines[0] };
        for _ in 0..*r.pick(&[0, 127, 256]) {
            lines.push(e);
        }
    }
    // lines that go on from each other are also paths
    let mut paths: Vec<Contour> = Vec::new();
    for e in &lines {
        match paths.last_mut() {
            Some(p) if *p.last().unwrap() == e.0 && !r.chance(1, 5) => p.push(e.1),
            _ => paths.push(vec![e.0, e.1]),
        }
    }
    let contours: Vec<Vec<IntPoint>> = subj.iter().map(|c| to_int(c)).collect();
    let mut ipaths: Vec<Vec<IntPoint>> = paths.iter().map(|c| to_int(c)).collect();
    if v.noise % 4 == 3 {
        // no path at all, and a point that leads nowhere
        let i = r.below(ipaths.len() + 1);
        ipaths.insert(i, if r.chance(1, 2) { vec![] } else { vec![ip(lines[0].0)] });
    }
    let ilines: Vec<[IntPoint; 2]> = lines.iter().map(|e| [ip(e.0), ip(e.1)]).collect();
    let shapes: Vec<Vec<Vec<IntPoint>>> = contours.iter().map(|c| vec![c.clone()]).collect();
    let api = r.below(6);
    // the entry points without a solver snap at high precision
    let plain_ok = v.tr.f >= 1024 || sc.k == 1 && v.tr.f == 1;
    let way = r.below(48);
    let api = if plain_ok { api } else { api % 3 };
    if show {
        println!("{}", json!({"api": api, "way": way, "subj": cs_json(&subj), "lines": lines, "variant": v.json()}));
    }
    let overlay = |mixed: bool| -> StringOverlay {
        let mut o = match way % 8 {
            0 => StringOverlay::with_shapes(&shapes),
            1 => StringOverlay::with_shape_contours(&contours),
            2 => StringOverlay::with_shape(&contours),
            3 if !contours.is_empty() => {
                let mut o = StringOverlay::with_shape_contour(&contours[0]);
                for c in &contours[1..] {
                    o.add_shape_contour(c);
                }
                o
            }
            w => {
                let mut o = StringOverlay::new(w);
                match w {
                    4 => o.add_shapes(&shapes),
                    5 => o.add_shape_contours(&contours),
                    6 => contours.iter().for_each(|c| o.add_shape_contour(c)),
                    _ => contours.iter().for_each(|c| o.add_shape_contour_iter(c.iter().copied())),
                }
                o
            }
        };
        if mixed {
            for (i, p) in ipaths.iter().enumerate() {
                // a path that returns to its start is also a closed string
                if p.len() < 2 && way % 3 == 0 && v.noise % 8 == 7 && p.is_empty() {
                    o.add_string_contour(p);
                } else if p.len() > 3 && p[0] == p[p.len() - 1] {
                    if way % 2 == 0 { o.add_string_contours(&[p[..p.len() - 1].to_vec()]) } else { o.add_string_contour(&p[..p.len() - 1]) }
                } else if i % 2 == 0 {
                    o.add_string_path(p);
                } else {
                    o.add_string_paths(&[p.clone()]);
                }
            }
        } else if way / 8 % 2 == 0 {
            o.add_string_lines(&ilines);
        } else {
            ilines.iter().for_each(|l| o.add_string_line(*l));
        }
        o
    };
    // the solver of the entry points that take none
    let plain = plain_ok && way / 16 == 0;
    let fill = FILLS[fr];
    let dir = if v.cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise };
    let mixed = r.chance(1, 2);
    if slice {
        let ways: Vec<Shape> = w.slices[fr].iter().map(|s| s.iter().map(|c| v.tr.contour(c)).collect()).collect();
        let areas: Vec<i128> = ways.iter().flatten().map(|c| area2(c).abs()).collect();
        let min_area = if api < 3 && !areas.is_empty() && r.chance(1, 3) { ((*r.pick(&areas) >> 1) + r.range(-1, 2) as i128).max(0) as usize } else { 0 };
        let cw = v.cw && api < 3;
        let got = guard(rep.t0, sc.id as u64, vseed, || match api {
            0..=2 if plain => shapes_from(&overlay(mixed).into_graph(fill).extract_shapes_custom(StringRule::Slice, dir, min_area)),
            0..=2 => shapes_from(&overlay(mixed).into_graph_with_solver(fill, solver_of(v.solver)).extract_shapes_custom(StringRule::Slice, dir, min_area)),
            _ => {
                // the entry points of lines, paths, and of one of either
                macro_rules! go {
                    ($x:expr) => {
                        match () {
                            _ if ilines.len() == 1 && way % 3 == 0 => $x.slice_by_line(ilines[0], fill),
                            _ if ipaths.len() == 1 && way % 3 == 1 => $x.slice_by_path(&ipaths[0], fill),
                            _ if mixed => $x.slice_by_lines(&ilines, fill),
                            _ => $x.slice_by_paths(&ipaths, fill),
                        }
                    };
                }
                shapes_from(&match api {
                    3 => go!(shapes),
                    4 if contours.len() == 1 => go!(contours[0].as_slice()),
                    _ => go!(contours),
                })
            }
        });
        let got = match got {
            Ok(g) => g,
            Err(p) => return Some(json!(format!("panic: {p}"))),
        };
        if let Some(e) = form_error(&got, cw, false) {
            return Some(json!({"min_area": min_area, "form": e, "actual": shapes_json(&got)}));
        }
        let keep = |c: &Contour| (area2(c).unsigned_abs() >> 1) as usize >= min_area;
        let flip = |c: &Contour| -> Contour { if cw { c.iter().rev().copied().collect() } else { c.clone() } };
        let want: Vec<Shape> = ways.iter().filter(|s| keep(&s[0])).map(|s| s.iter().filter(|c| keep(c)).map(flip).collect()).collect();
        return shapes_diff(&got, &want).map(|d| json!({"min_area": min_area, "slices": d}));
    }
    let rule = ClipRule { invert: mode >= 2, boundary_included: mode % 2 == 1 };
    let got = guard(rep.t0, sc.id as u64, vseed, || match api {
        0..=2 if plain => overlay(mixed).clip_string_lines(fill, rule),
        0..=2 => overlay(mixed).clip_string_lines_with_solver(fill, rule, solver_of(v.solver)),
        _ => {
            macro_rules! go {
                ($x:expr) => {
                    match () {
                        _ if ilines.len() == 1 && way % 3 == 0 => $x.clip_line(ilines[0], fill, rule),
                        _ if ipaths.len() == 1 && way % 3 == 1 => $x.clip_path(&ipaths[0], fill, rule),
                        _ if mixed => $x.clip_lines(&ilines, fill, rule),
                        _ => $x.clip_paths(&ipaths, fill, rule),
                    }
                };
            }
            match api {
                3 => go!(shapes),
                4 if contours.len() == 1 => go!(contours[0].as_slice()),
                _ => go!(contours),
            }
        }
    });
    let got: Vec<Contour> = match got {
        Ok(g) => g.iter().map(|c| from_int(c)).collect(),
        Err(p) => return Some(json!(format!("panic: {p}"))),
    };
    let want: Vec<Edge> = w.clipped[fr][mode].iter().map(|e| (v.tr.pt(e.0), v.tr.pt(e.1))).collect();
    clip_diff(&got, &want)
}

/// Every kept stretch exactly once and in its direction, in paths that go on as far as they can.
pub fn clip_diff(got: &[Contour], want: &[Edge]) -> Option<Value> {
    let show = || json!({"actual": cs_json(got)});
    let mut verts = verts_of(want);
    verts.extend(got.iter().flatten());
    verts.sort_unstable();
    verts.dedup();
    let mut pieces = Vec::new();
    let mut per_path = Vec::new();
    for c in got {
        if c.len() < 2 {
            return Some(json!({"a path of one point": show()}));
        }
        let from = pieces.len();
        for w in c.windows(2) {
            if w[0] == w[1] {
                return Some(json!({"a path stands still": show()}));
            }
            cut_edge(w[0], w[1], &verts, false, &mut pieces);
        }
        per_path.push(pieces[from..].to_vec());
    }
    let mut a = pieces.clone();
    a.sort_unstable();
    let mut b = Vec::new();
    for e in want {
        cut_edge(e.0, e.1, &verts, false, &mut b);
    }
    b.sort_unstable();
    if a != b {
        let missing: Vec<_> = b.iter().filter(|e| !a.contains(e)).take(4).collect();
        let extra: Vec<_> = a.iter().filter(|e| !b.contains(e)).take(4).collect();
        return Some(json!({"missing": format!("{missing:?}"), "extra": format!("{extra:?}"), "expected": b.len(), "actual": a.len(), "paths": cs_json(got)}));
    }
    // when a path is made, nothing that is still left goes on from its end, or nothing leads to its beginning
    let mut left = b;
    for p in per_path {
        for e in &p {
            let i = left.iter().position(|x| x == e).unwrap();
            left.swap_remove(i);
        }
        let (first, last) = (p[0].0, p[p.len() - 1].1);
        if left.iter().any(|e| e.0 == last) && left.iter().any(|e| e.1 == first) {
            return Some(json!({"a path stops where it could go on": format!("{p:?}"), "paths": cs_json(got)}));
        }
    }
    None
}
