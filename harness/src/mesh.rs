//! Strokes and outlines: the specification says of probe points whether they
//! are in, out, or too close to tell; the library has to agree, wherever, however
//! large and however turned the same figure is given.
use crate::geo::*;
use crate::modes::*;
use crate::pool::*;
use crate::rng::Rng;
use crate::rough::{Sim, fwind};
use crate::scene::*;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::float::filter::ContourFilter;
use i_overlay::i_float::float::compatible::FloatPointCompatible;
use i_overlay::i_float::float::number::FloatNumber;
use i_overlay::mesh::outline::offset::OutlineOffset;
use i_overlay::mesh::stroke::offset::StrokeOffset;
use i_overlay::mesh::style::{LineCap, LineJoin, OutlineStyle, StrokeStyle};
use serde_json::{Value, json};
use std::sync::atomic::{AtomicU64, Ordering};

pub const S: i64 = 128;

pub fn rand_join(r: &mut Rng) -> Value {
    match r.below(4) {
        0 => json!({"k": "bevel"}),
        1 => {
            let (n, d) = *r.pick(&[(1, 1), (1, 2), (1, 3), (2, 3), (3, 1), (1, 5), (1, 20), (30, 1)]);
            json!({"k": "miter", "tn": n, "td": d})
        }
        _ => json!({"k": "round", "a": *r.pick(&[1, 3, 6, 10, 20, 40, 64, 200])}),
    }
}

fn rand_cap(r: &mut Rng) -> Value {
    match r.below(6) {
        0 => json!({"k": "butt"}),
        1 | 2 => json!({"k": "square"}),
        3 => {
            let p: Contour = match r.below(8) {
                // leaning
                4 => vec![(12, -8)],
                5 => vec![(4, 16)],
                6 => vec![(8, -20), (20, -2)],
                7 => vec![(0, -4), (2, 2), (24, 10)],
                0 => vec![(12, 0)],
                1 => vec![(0, -16), (20, 0), (0, 16)],
                2 => vec![(40, -8), (40, 8)],
                _ => vec![(4, -8), (12, -4), (6, 0), (12, 4), (4, 8)],
            };
            json!({"k": "custom", "p": c_json(&p)})
        }
        _ => json!({"k": "round", "a": *r.pick(&[1, 3, 6, 10, 20, 40, 64, 200])}),
    }
}

fn steps(r: &mut Rng, n: i64, m: i64, lo: i64) -> Contour {
    let mut c = vec![(r.range(-m, m), r.range(-m, m))];
    for _ in 1..n {
        for _ in 0..50 {
            let p = *c.last().unwrap();
            let q = match r.below(3) {
                0 => (r.range(-m, m), p.1),
                1 => (p.0, r.range(-m, m)),
                _ => (r.range(-m, m), r.range(-m, m)),
            };
            if (p.0 - q.0).pow(2) + (p.1 - q.1).pow(2) >= lo * lo {
                c.push(q);
                break;
            }
        }
    }
    c
}

fn gen_stroke(r: &mut Rng, fam: usize) -> Value {
    let m = 20;
    let w = if fam == 3 { *r.pick(&[16, 30, 48, 64]) } else { *r.pick(&[2, 4, 7, 8, 12, 16, 30, 64]) };
    let rr = (w + 7) / 8;
    let closed = r.chance(2, 5);
    let mut paths: Vec<Contour> = Vec::new();
    for _ in 0..if fam == 3 { 1 } else { r.range(1, 3) } {
        let mut c = match fam {
            // sections longer than the stroke is wide
            0 => { let n = r.range(2, 6); steps(r, n, m, 2 * rr) }
            // anything
            1 => { let n = r.range(2, 9); steps(r, n, m, 1) }
            // gentle turns
            2 => {
                let (mut p, mut a) = ((r.range(-10, 10), r.range(-10, 10)), r.range(0, 628) as f64 / 100.0);
                let mut c = vec![p];
                let t = r.range(-60, 60) as f64 / 100.0;
                for _ in 0..r.range(2, 10) {
                    let d = r.range(2, 8) as f64;
                    p = (p.0 + (a.cos() * d).round() as i64, p.1 + (a.sin() * d).round() as i64);
                    c.push(p);
                    a += t;
                }
                c
            }
            // sections shorter than the stroke is wide
            3 => {
                let (mut p, k) = ((r.range(-10, 10), r.range(-10, 10)), r.range(1, 4));
                let mut c = vec![p];
                for _ in 0..r.range(1, 5) {
                    let l = if r.chance(1, 3) { 12 } else { k };
                    p = (p.0 + r.range(-l, l), p.1 + r.range(-l, l));
                    c.push(p);
                }
                c
            }
            // back and forth
            _ => {
                let (mut p, d) = ((r.range(-10, 10), r.range(-10, 10)), (r.range(-4, 4), r.range(-4, 4)));
                let mut c = vec![p];
                for _ in 0..r.range(1, 6) {
                    let k = r.range(-3, 3);
                    p = (p.0 + k * d.0 + if r.chance(1, 5) { 1 } else { 0 }, p.1 + k * d.1);
                    c.push(p);
                }
                c
            }
        };
        c.retain(|p| p.0.abs() <= 60 && p.1.abs() <= 60);
        // points twice
        if r.chance(1, 3) && !c.is_empty() {
            let i = r.below(c.len());
            c.insert(i, c[i]);
        }
        if closed && r.chance(1, 4) && c.len() > 2 {
            c.push(c[0]);
        }
        if c.len() >= 2 {
            paths.push(c);
        }
    }
    json!({"kind": "stroke", "paths": cs_json(&paths),
        "style": {"r": w, "join": rand_join(r), "cap0": rand_cap(r), "cap1": rand_cap(r), "closed": closed}})
}

fn simple(c: &Contour) -> bool {
    let n = c.len();
    let e = |i: usize| (c[i], c[(i + 1) % n]);
    for i in 0..n {
        let (a, b) = e(i);
        if a == b {
            return false;
        }
        for j in i + 1..n {
            let (p, q) = e(j);
            if j == i + 1 || (i == 0 && j == n - 1) {
                // neighbours fold back
                let (x, y, z) = if j == i + 1 { (a, b, q) } else { (p, q, b) };
                if orient(x, y, z) == 0 && (x.0 - y.0) * (z.0 - y.0) + (x.1 - y.1) * (z.1 - y.1) > 0 {
                    return false;
                }
                continue;
            }
            let (o1, o2) = (orient(a, b, p).signum(), orient(a, b, q).signum());
            let (o3, o4) = (orient(p, q, a).signum(), orient(p, q, b).signum());
            if o1 * o2 <= 0 && o3 * o4 <= 0 && (o1 != 0 || o2 != 0 || on_segment(a, b, p) || on_segment(a, b, q) || on_segment(p, q, a)) {
                return false;
            }
        }
    }
    true
}

fn star(r: &mut Rng, o: P, lo: i64, hi: i64, n: i64) -> Contour {
    let mut a: Vec<f64> = (0..n).map(|i| (i as f64 + r.range(0, 80) as f64 / 100.0) / n as f64 * std::f64::consts::TAU).collect();
    a.sort_by(|x, y| x.partial_cmp(y).unwrap());
    let mut c: Contour = a
        .iter()
        .map(|a| {
            let d = r.range(lo, hi) as f64;
            (o.0 + (a.cos() * d).round() as i64, o.1 + (a.sin() * d).round() as i64)
        })
        .collect();
    c.dedup();
    c
}

fn gen_outline(r: &mut Rng, fam: usize) -> Option<Value> {
    let mut paths: Vec<Contour> = Vec::new();
    let (mut gap, mut hollow) = (0, false);
    let bar = |x: i64, y: i64, w: i64, h: i64| -> Contour { vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)] };
    match fam {
        // one figure
        0 => { let (n, lo) = (r.range(3, 7), r.range(8, 16)); paths.push(star(r, (0, 0), lo, 20, n)) }
        // with a hole or two
        1 => {
            let n = r.range(4, 7);
            paths.push(star(r, (0, 0), 15, 22, n));
            for i in 0..r.range(1, 2) {
                let n = r.range(3, 5);
                let mut h = star(r, (i * 9 - 4, 0), 2, 4, n);
                h.reverse();
                paths.push(h);
            }
        }
        // upright
        2 => {
            let (w, h) = (r.range(8, 24), r.range(8, 24));
            let (x, y) = (r.range(2, w - 2), r.range(2, h - 2));
            paths.push(match r.below(3) {
                0 => bar(0, 0, w, h),
                1 => vec![(0, 0), (w, 0), (w, y), (x, y), (x, h), (0, h)],
                _ => {
                    let (x0, x1) = (r.range(1, w / 2), r.range(w / 2 + 1, w - 1));
                    vec![(0, 0), (w, 0), (w, h), (x1, h), (x1, y), (x0, y), (x0, h), (0, h)]
                }
            });
            if r.chance(1, 3) {
                let mut b = bar(1, 1, x.min(4), y.min(3));
                b.reverse();
                paths.push(b);
            }
        }
        // short edges
        3 => {
            let (mut x, h) = (0, r.range(3, 14));
            let mut c = Vec::new();
            let n = r.range(3, 9);
            for _ in 0..n {
                c.push((x, h + r.range(-3, 3) * r.range(0, 1)));
                x += r.range(1, 3);
            }
            c.push((x - 1, h));
            if r.chance(1, 2) {
                c.push((x - 1, 0));
                c.push((0, -1));
            } else {
                c.push((x / 2, -r.range(0, 20)));
            }
            c.dedup();
            c.reverse();
            if r.chance(1, 2) {
                c = c.iter().map(|p| (-p.1, p.0)).collect();
            }
            paths.push(c);
            if r.chance(1, 3) {
                // a hole the same way
                let mut b: Contour = paths[0].iter().map(|p| (p.0 + 40, p.1)).collect();
                b.reverse();
                let o: Contour = vec![(14, -30), (75, -30), (75, 30), (14, 30)];
                paths = vec![o, b];
            }
        }
        // nearly closed rings, and holes that are
        5 => {
            let (w, h, t, g) = (r.range(10, 22), r.range(12, 22), r.range(1, 3), r.range(1, 3));
            let y = r.range(t + 1, h - t - g - 1);
            let mut c: Contour = vec![(0, 0), (w, 0), (w, h), (0, h), (0, y + g), (t, y + g), (t, h - t), (w - t, h - t), (w - t, t), (t, t), (t, y), (0, y)];
            let (sx, sy) = (r.range(-3, 3), r.range(-2, 2));
            if r.chance(1, 2) {
                c = c.iter().map(|p| (p.0 + p.1 * sx / 6, p.1 + p.0 * sy / 6)).collect();
            }
            for _ in 0..r.below(4) {
                c = c.iter().map(|p| (-p.1, p.0)).collect();
            }
            let (lx, ly) = (c.iter().map(|p| p.0).min()?, c.iter().map(|p| p.1).min()?);
            let (hx, hy) = (c.iter().map(|p| p.0).max()?, c.iter().map(|p| p.1).max()?);
            gap = g;
            hollow = r.chance(1, 2);
            if hollow {
                let k = r.range(2, 8);
                let mut o = bar(lx - k, ly - k, hx - lx + 2 * k, hy - ly + 2 * k);
                if r.chance(1, 3) {
                    o.insert(2, (hx + k + 5, (ly + hy) / 2));
                }
                paths.push(o);
                c.reverse();
            }
            paths.push(c);
        }
        // several
        _ => {
            for i in 0..r.range(2, 3) {
                let n = r.range(3, 5);
                let y = r.range(-6, 6);
                paths.push(star(r, (i * 26 - 26, y), 6, 11, n));
            }
        }
    }
    for (i, c) in paths.iter().enumerate() {
        if c.len() < 3 || !simple(c) || (area2(c) > 0) != (i == 0 || fam == 4) || area2(c) == 0 {
            return None;
        }
    }
    // contours apart from each other
    for i in 0..paths.len() {
        for j in 0..i {
            let mut both = paths[i].clone();
            both.extend(&paths[j]);
            for x in 0..paths[i].len() {
                for y in 0..paths[j].len() {
                    let (a, b) = (paths[i][x], paths[i][(x + 1) % paths[i].len()]);
                    let (p, q) = (paths[j][y], paths[j][(y + 1) % paths[j].len()]);
                    if orient(a, b, p).signum() * orient(a, b, q).signum() <= 0 && orient(p, q, a).signum() * orient(p, q, b).signum() <= 0 {
                        return None;
                    }
                }
            }
        }
    }
    let w = |r: &mut Rng| *r.pick(&[-160, -90, -60, -40, -24, -12, -8, -4, 0, 4, 8, 12, 24, 48, 120]);
    let outer = w(r);
    let inner = if r.chance(2, 3) { outer } else { w(r) };
    let (outer, inner) = if gap > 0 && r.chance(2, 3) {
        // enough to close it
        let d = gap * 4 + *r.pick(&[1, 2, 4, 8, 12]);
        if hollow { (if r.chance(1, 3) { outer } else { -d }, -d) } else { (d, d) }
    } else {
        (outer, inner)
    };
    // points twice
    for c in paths.iter_mut() {
        if r.chance(1, 4) {
            let i = r.below(c.len());
            c.insert(i, c[i]);
        }
    }
    Some(json!({"kind": "outline", "paths": cs_json(&paths), "style": {"outer": outer, "inner": inner, "join": rand_join(r)}}))
}

pub fn gen_mesh(seed: u64, n: usize, kind: &str, fam: Option<usize>) -> Vec<Value> {
    let mut r = Rng::mix(&[seed, 0x3e54]);
    let mut res: Vec<Value> = Vec::new();
    while res.len() < n {
        let f = fam.unwrap_or(res.len() % if kind == "stroke" { 5 } else { 6 });
        let mut v = if kind == "stroke" { gen_stroke(&mut r, f) } else { match gen_outline(&mut r, f) { Some(v) => v, None => continue } };
        let paths = cs_from(&v["paths"]);
        let pts: Contour = paths.iter().flatten().copied().collect();
        if pts.is_empty() {
            continue;
        }
        let d = if kind == "stroke" { v["style"]["r"].as_i64().unwrap() } else { v["style"]["outer"].as_i64().unwrap().abs().max(v["style"]["inner"].as_i64().unwrap().abs()) };
        let d = d * S / 8;
        let (lx, hx) = (pts.iter().map(|p| p.0).min().unwrap() * S, pts.iter().map(|p| p.0).max().unwrap() * S);
        let (ly, hy) = (pts.iter().map(|p| p.1).min().unwrap() * S, pts.iter().map(|p| p.1).max().unwrap() * S);
        let mut probes: Contour = (0..20).map(|_| (r.range(lx - d * 2, hx + d * 2), r.range(ly - d * 2, hy + d * 2))).collect();
        for _ in 0..40 {
            let c = r.pick(&paths);
            let i = r.below(c.len());
            let (a, b) = (c[i], c[(i + 1) % c.len()]);
            if r.chance(1, 2) {
                // around a corner
                let t = r.range(0, 6283) as f64 / 1000.0;
                let x = d as f64 * *r.pick(&[0.3, 0.6, 0.8, 0.95, 1.05, 1.2, 1.5]);
                probes.push((a.0 * S + (t.cos() * x) as i64, a.1 * S + (t.sin() * x) as i64));
            } else {
                let t = r.range(0, 16);
                let l = (((b.0 - a.0).pow(2) + (b.1 - a.1).pow(2)) as f64).sqrt().max(1.0);
                let x = d as f64 * *r.pick(&[0.1, 0.5, 0.9, 0.97, 1.03, 1.1]) * if r.chance(1, 2) { 1.0 } else { -1.0 };
                let q = (a.0 * S + (b.0 - a.0) * S * t / 16, a.1 * S + (b.1 - a.1) * S * t / 16);
                probes.push((q.0 - ((b.1 - a.1) as f64 / l * x) as i64, q.1 + ((b.0 - a.0) as f64 / l * x) as i64));
            }
        }
        for p in probes.iter_mut() {
            *p = (p.0.clamp(-80 * S, 80 * S), p.1.clamp(-80 * S, 80 * S));
        }
        v["id"] = json!(res.len() + 1);
        v["probes"] = c_json(&probes);
        res.push(v);
    }
    res
}

pub fn generate(o: &Opt) {
    let fam = o.get("fam").and_then(|f| f.parse().ok());
    let mut s = gen_mesh(num(o, "seed", 1), num(o, "n", 500) as usize, text(o, "kind"), fam);
    // so many have one style
    let share = num(o, "share", 1) as usize;
    for i in 0..s.len() {
        s[i]["style"] = s[i / share * share]["style"].clone();
    }
    write_lines(text(o, "out"), s.into_iter());
}

fn join_of<T: FloatNumber>(v: &Value) -> LineJoin<T> {
    match v["k"].as_str().unwrap() {
        "bevel" => LineJoin::Bevel,
        "miter" => LineJoin::Miter(T::from_float(2.0 * (v["tn"].as_f64().unwrap() / v["td"].as_f64().unwrap()).atan())),
        _ => LineJoin::Round(T::from_float(v["a"].as_f64().unwrap() / 64.0)),
    }
}

fn cap_of<P: FloatPointCompatible<T>, T: FloatNumber>(v: &Value) -> LineCap<P, T> {
    match v["k"].as_str().unwrap() {
        "butt" => LineCap::Butt,
        "square" => LineCap::Square,
        "round" => LineCap::Round(T::from_float(v["a"].as_f64().unwrap() / 64.0)),
        _ => LineCap::Custom(c_from(&v["p"]).iter().map(|p| P::from_xy(T::from_float(p.0 as f64 / 8.0), T::from_float(p.1 as f64 / 8.0))).collect()),
    }
}

#[derive(Clone, Copy)]
struct Way {
    sim: Sim,
    api: usize,
    holder: usize,
    cw: bool,
    simplify: bool,
    clean: bool,
    min_area: f64,
    noise: usize,
    /// the scale makes the width or offset the default one
    unit: bool,
}

type F64s = Vec<Vec<Vec<(f64, f64)>>>;

fn call<P: FloatPointCompatible<T> + Clone + 'static, T: FloatNumber + 'static>(sc: &Value, w: &Way) -> F64s {
    let mut given = cs_from(&sc["paths"]);
    // paths without sections, contours without area
    let first = given[0][0];
    match w.noise {
        1 => given.insert(0, vec![]),
        2 => given.push(vec![first]),
        3 => given.push(vec![first, first, first]),
        4 => given.insert(0, vec![]),
        5 if sc["kind"] == "outline" => given.push(vec![first, (first.0 + 3, first.1 + 4)]),
        _ => {}
    }
    if w.noise == 4 {
        given.push(vec![]);
    }
    let paths: Vec<Vec<P>> = given
        .iter()
        .map(|c| c.iter().map(|&p| w.sim.at(p)).map(|p| P::from_xy(T::from_float(p.0), T::from_float(p.1))).collect())
        .collect();
    let st = &sc["style"];
    let len = |k: &str| T::from_float(st[k].as_f64().unwrap() / 8.0 * w.sim.scale());
    let dir = if w.cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise };
    let filter = ContourFilter { min_area: T::from_float(w.min_area), simplify_contour: w.simplify, clean_result: w.clean };
    let got = if sc["kind"] == "stroke" {
        let width = T::from_float(st["r"].as_f64().unwrap() / 4.0 * w.sim.scale());
        let style = if w.unit {
            let mut s = StrokeStyle::default();
            if st["join"]["k"] != "bevel" {
                s = s.line_join(join_of(&st["join"]));
            }
            if st["cap0"]["k"] != "butt" {
                s = s.start_cap(cap_of(&st["cap0"]));
            }
            if st["cap1"]["k"] != "butt" {
                s = s.end_cap(cap_of(&st["cap1"]));
            }
            s
        } else if w.holder % 3 == 2 {
            StrokeStyle::default().end_cap(cap_of(&st["cap1"])).start_cap(cap_of(&st["cap0"])).line_join(join_of(&st["join"])).width(width)
        } else if w.holder % 3 == 1 {
            StrokeStyle::new(width).line_join(join_of(&st["join"])).start_cap(cap_of(&st["cap0"])).end_cap(cap_of(&st["cap1"]))
        } else {
            StrokeStyle { width, start_cap: cap_of(&st["cap0"]), end_cap: cap_of(&st["cap1"]), join: join_of(&st["join"]) }
        };
        let closed = st["closed"].as_bool().unwrap();
        macro_rules! go {
            ($x:expr) => {
                if w.api == 0 { $x.stroke(style, closed) } else { $x.stroke_custom(style, closed, dir, filter) }
            };
        }
        match w.holder {
            0 | 1 if paths.len() == 1 => go!(paths[0]),
            2 | 3 => go!(paths.iter().map(|c| vec![c.clone()]).collect::<Vec<_>>()),
            _ => go!(paths),
        }
    } else {
        let style = match w.holder % 3 {
            _ if w.unit && st["join"]["k"] == "bevel" => OutlineStyle::default(),
            _ if w.unit => OutlineStyle::default().line_join(join_of(&st["join"])),
            0 => OutlineStyle::new(len("outer")).inner_offset(len("inner")).line_join(join_of(&st["join"])),
            1 => OutlineStyle { outer_offset: len("outer"), inner_offset: len("inner"), join: join_of(&st["join"]) },
            _ => OutlineStyle::default().offset(len("inner")).outer_offset(len("outer")).line_join(join_of(&st["join"])),
        };
        macro_rules! style_by {
            ($x:expr) => {
                if w.api == 0 { $x.outline(style) } else { $x.outline_custom(style, dir, filter) }
            };
        }
        match w.holder {
            0 | 1 if paths.len() == 1 => style_by!(paths[0]),
            2 | 3 => style_by!(vec![paths.clone()]),
            _ => style_by!(paths),
        }
    };
    got.iter().map(|s| s.iter().map(|c| c.iter().map(|p| (p.x().to_f64(), p.y().to_f64())).collect()).collect()).collect()
}

fn farea(c: &[(f64, f64)]) -> f64 {
    let o = c[0];
    (0..c.len()).map(|i| { let (a, b) = (c[i], c[(i + 1) % c.len()]); (a.0 - o.0) * (b.1 - o.1) - (a.1 - o.1) * (b.0 - o.0) }).sum::<f64>() * 0.5
}

fn check(sc: &Value, want: &[i64], w: &Way, got: &F64s, probed: &AtomicU64) -> Option<Value> {
    let back = w.cw && w.api != 0;
    for s in got {
        if s.is_empty() {
            return Some(json!("empty shape"));
        }
        for (j, c) in s.iter().enumerate() {
            if c.len() < 3 {
                return Some(json!({"short contour": format!("{c:?}")}));
            }
            if c.iter().any(|p| !p.0.is_finite() || !p.1.is_finite()) {
                return Some(json!("not finite"));
            }
            let a = farea(c);
            // very thin ones may turn over when rounded back
            if a.abs() > 1e-3 * w.sim.scale().powi(2) && (a > 0.0) != ((j == 0) != back) {
                return Some(json!({"direction": j, "area": a}));
            }
        }
    }
    let shapes: Vec<Vec<Vec<[f64; 2]>>> = got.iter().map(|s| s.iter().map(|c| c.iter().map(|p| [p.0, p.1]).collect()).collect()).collect();
    for (p, v) in c_from(&sc["probes"]).iter().zip(want) {
        if *v == 2 {
            continue;
        }
        probed.fetch_add(1, Ordering::Relaxed);
        let (x, y) = w.sim.real((p.0 as f64 / S as f64, p.1 as f64 / S as f64));
        let n = fwind(&shapes, x, y) * if back { -1 } else { 1 };
        if n != *v {
            return Some(json!({"probe": [p.0 as f64 / S as f64, p.1 as f64 / S as f64], "at": [x, y], "winding": n, "expected": v}));
        }
    }
    None
}

/// Contours below the limit are gone, outlines with their holes, and nothing else.
fn check_area(all: &F64s, got: &F64s, limit: f64, eps: f64) -> Option<Value> {
    let mut want: Vec<Vec<f64>> = Vec::new();
    for s in all {
        let a: Vec<f64> = s.iter().map(|c| farea(c).abs()).collect();
        if a.iter().any(|x| (x - limit).abs() < eps + 1e-3 * limit) {
            return None;
        }
        if a[0] > limit {
            want.push(a.into_iter().filter(|x| *x > limit).collect());
        }
    }
    let mut have: Vec<Vec<f64>> = got.iter().map(|s| s.iter().map(|c| farea(c).abs()).collect()).collect();
    let key = |v: &mut Vec<Vec<f64>>| {
        v.iter_mut().for_each(|s| s.sort_by(|a, b| b.partial_cmp(a).unwrap()));
        v.sort_by(|a, b| a[0].partial_cmp(&b[0]).unwrap());
    };
    key(&mut want);
    key(&mut have);
    let same = want.len() == have.len()
        && want.iter().zip(&have).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() < eps + 1e-3 * x));
    if same { None } else { Some(json!({"min_area": limit, "areas expected": want, "areas": have})) }
}

pub fn replay(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let scenes = read_lines(text(o, "scenes"));
    let verdicts: std::collections::HashMap<u64, Vec<i64>> = read_lines(text(o, "expected"))
        .iter()
        .map(|v| (v["id"].as_u64().unwrap(), v["verdicts"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()))
        .collect();
    let (seed, per) = (num(o, "seed", 1), num(o, "variants", 6));
    let only: Option<u64> = o.get("vseed").and_then(|s| s.parse().ok());
    let (runs, probed, told) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let done = crate::pool::run(&rep, scenes.len(), num(o, "budget", 600) as f64, |i| {
        let sc = &scenes[i];
        let id = sc["id"].as_u64().unwrap();
        let want = &verdicts[&id];
        told.fetch_add(want.iter().filter(|v| **v != 2).count() as u64, Ordering::Relaxed);
        for n in 0..per {
            let mut r = Rng::mix(&[seed, id, n, 0x3e55]);
            let vseed = r.next();
            if only.is_some_and(|x| x != vseed) {
                continue;
            }
            let mut w = Way {
                sim: Sim::rand(&mut r, 30.0),
                api: r.below(3),
                holder: r.below(6),
                cw: r.chance(1, 2),
                simplify: r.chance(1, 2),
                clean: r.chance(1, 2),
                min_area: 0.0,
                noise: if r.chance(1, 4) { r.below(6) } else { 0 },
                unit: r.chance(1, 4),
            };
            let st = &sc["style"];
            let width = if sc["kind"] == "stroke" {
                st["r"].as_f64().unwrap() / 4.0
            } else if st["outer"] == st["inner"] {
                st["outer"].as_f64().unwrap() / 8.0
            } else {
                0.0
            };
            w.unit &= width > 0.0;
            if w.unit {
                let k = 1.0 / (width * w.sim.scale());
                w.sim = Sim { c: w.sim.c * k, s: w.sim.s * k, t: (w.sim.t.0 * k, w.sim.t.1 * k) };
            }
            let single = r.chance(1, 3);
            let once = |w: &Way| if single { call::<[f32; 2], f32>(sc, w) } else { call::<[f64; 2], f64>(sc, w) };
            runs.fetch_add(1, Ordering::Relaxed);
            let show = |w: &Way| json!({"scale": w.sim.scale(), "cos": w.sim.c, "sin": w.sim.s, "shift": [w.sim.t.0, w.sim.t.1], "api": w.api, "holder": w.holder,
                "clockwise": w.cw, "simplify": w.simplify, "clean": w.clean, "min_area": w.min_area, "noise": w.noise, "default": w.unit, "single": single});
            if only.is_some() {
                println!("{}", json!({"scene": sc, "variant": show(&w)}));
            }
            let mut e = match guard(rep.t0, id, vseed, || once(&w)) {
                Err(p) => Some(json!(format!("panic: {p}"))),
                Ok(got) => {
                    if only.is_some() {
                        println!("{}", json!(got));
                    }
                    let e = check(sc, want, &w, &got, &probed);
                    if e.is_none() && w.api != 0 && r.chance(1, 3) {
                        let areas: Vec<f64> = got.iter().flatten().map(|c| farea(c).abs()).collect();
                        if areas.is_empty() {
                            None
                        } else {
                            w.min_area = *r.pick(&areas) * *r.pick(&[0.5, 0.9, 1.1, 2.0]);
                            match guard(rep.t0, id, vseed, || once(&w)) {
                                Err(p) => Some(json!(format!("panic: {p}"))),
                                Ok(less) => check_area(&got, &less, w.min_area, 1e-3 * w.sim.scale().powi(2)),
                            }
                        }
                    } else {
                        e
                    }
                }
            };
            if let Some(e) = e.take() {
                rep.violation(json!({"case": id, "vseed": vseed, "scene": {"paths": sc["paths"], "style": sc["style"], "kind": sc["kind"]}, "variant": show(&w), "what": e}));
            }
        }
    });
    rep.count("scenes", done as u64);
    rep.count("runs", runs.into_inner());
    rep.count("probes", probed.into_inner());
    rep.count("probes_decided_by_specification", told.into_inner());
    for s in scenes.iter().take(3) {
        rep.sample(json!({"kind": s["kind"], "paths": s["paths"], "style": s["style"]}));
    }
    rep.finish();
}

/// Many figures of one style in one call.
pub fn crowd(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let verdicts: std::collections::HashMap<u64, Vec<i64>> = read_lines(text(o, "expected"))
        .iter()
        .map(|v| (v["id"].as_u64().unwrap(), v["verdicts"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()))
        .collect();
    let mut styles: std::collections::BTreeMap<String, Vec<Value>> = Default::default();
    for s in read_lines(text(o, "scenes")) {
        styles.entry(s["style"].to_string()).or_default().push(s);
    }
    let styles: Vec<Vec<Value>> = styles.into_values().collect();
    let (seed, calls, largest) = (num(o, "seed", 1), num(o, "calls", 100) as usize, num(o, "largest", 1000) as i64);
    let only: Option<u64> = o.get("vseed").and_then(|s| s.parse().ok());
    let (figures, probed, points) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let done = crate::pool::run(&rep, calls, num(o, "budget", 600) as f64, |i| {
        let mut r = Rng::mix(&[seed, 0xc203, i as u64]);
        let vseed = r.next();
        if only.is_some_and(|x| x != vseed) {
            return;
        }
        let group = r.pick(&styles);
        let n = if r.chance(1, 3) { r.range(2, 30) } else { r.range(largest / 10, largest) } as usize;
        let chosen: Vec<&Value> = (0..n).map(|_| r.pick(group)).collect();
        let st = &group[0]["style"];
        let stroke = group[0]["kind"] == "stroke";
        let width = if stroke { st["r"].as_f64().unwrap() } else { st["outer"].as_f64().unwrap().abs().max(st["inner"].as_f64().unwrap().abs()) } / 8.0;
        let far = match (st["join"]["tn"].as_f64(), st["join"]["td"].as_f64()) {
            (Some(a), Some(b)) => (a * a + b * b).sqrt() / a,
            _ => 1.0,
        };
        let reach = chosen.iter().flat_map(|s| cs_from(&s["paths"])).flatten().map(|p| p.0.abs().max(p.1.abs())).max().unwrap() as f64;
        let cell = 2.0 * (reach + width * far.max(6.0)) + 2.0;
        let cols = (((n as f64).sqrt() * *r.pick(&[0.5, 1.0, 1.0, 2.0])) as usize).clamp(1, n);
        let k = *r.pick(&[1.0, 0.01, 3.7, 1e4]);
        let turn = if r.chance(1, 4) { 0.0 } else { r.range(0, 62831) as f64 / 10000.0 };
        let sim = Sim { c: turn.cos() * k, s: turn.sin() * k, t: (0.0, 0.0) };
        let home = |j: usize| ((j % cols) as f64 * cell, (j / cols) as f64 * cell);
        let put = |j: usize, c: &Contour| -> Vec<[f64; 2]> {
            let h = home(j);
            c.iter().map(|p| sim.real((p.0 as f64 + h.0, p.1 as f64 + h.1))).map(|p| [p.0, p.1]).collect()
        };
        let shapes: Vec<Vec<Vec<[f64; 2]>>> = chosen.iter().enumerate().map(|(j, s)| cs_from(&s["paths"]).iter().map(|c| put(j, c)).collect()).collect();
        let holder = r.below(2);
        figures.fetch_add(n as u64, Ordering::Relaxed);
        points.fetch_add(shapes.iter().flatten().map(|c| c.len() as u64).sum(), Ordering::Relaxed);
        let w = Way { sim, api: 0, holder, cw: false, simplify: true, clean: true, min_area: 0.0, noise: 0, unit: false };
        if only.is_some() {
            println!("{}", json!({"style": st, "figures": n, "cols": cols, "cell": cell, "scale": k, "turn": turn, "holder": holder}));
        }
        let got = guard(rep.t0, i as u64, vseed, || {
            let flat: Vec<Vec<[f64; 2]>> = shapes.iter().flatten().cloned().collect();
            if stroke {
                let style = StrokeStyle::new(2.0 * width * k).line_join(join_of(&st["join"])).start_cap(cap_of(&st["cap0"])).end_cap(cap_of(&st["cap1"]));
                let closed = st["closed"].as_bool().unwrap();
                if holder == 0 { flat.stroke(style, closed) } else { shapes.stroke(style, closed) }
            } else {
                let len = |key: &str| st[key].as_f64().unwrap() / 8.0 * k;
                let style = OutlineStyle::new(len("outer")).inner_offset(len("inner")).line_join(join_of(&st["join"]));
                if holder == 0 { flat.outline(style) } else { shapes.outline(style) }
            }
        });
        let e = match got {
            Err(p) => Some(json!(format!("panic: {p}"))),
            Ok(got) => {
                let mut by: Vec<F64s> = vec![vec![]; n];
                let mut e = None;
                let det = k * k;
                for s in &got {
                    let spot = |p: &[f64; 2]| -> (i64, i64) {
                        // turned back
                        let x = (sim.c * p[0] + sim.s * p[1]) / det;
                        let y = (sim.c * p[1] - sim.s * p[0]) / det;
                        ((x / cell).round() as i64, (y / cell).round() as i64)
                    };
                    let a = spot(&s[0][0]);
                    let j = a.1 * cols as i64 + a.0;
                    if a.0 < 0 || a.0 >= cols as i64 || j < 0 || j >= n as i64 || s.iter().flatten().any(|p| spot(p) != a) {
                        e = Some(json!({"a shape over several places": format!("{s:?}")}));
                        break;
                    }
                    by[j as usize].push(s.iter().map(|c| c.iter().map(|p| (p[0], p[1])).collect()).collect());
                }
                e.or_else(|| {
                    (0..n).find_map(|j| {
                        let h = home(j);
                        let w = Way { sim: Sim { t: sim.real(h), ..sim }, ..w };
                        check(chosen[j], &verdicts[&chosen[j]["id"].as_u64().unwrap()], &w, &by[j], &probed).map(|d| json!({"figure": j, "scene": {"paths": chosen[j]["paths"], "style": st}, "diff": d}))
                    })
                })
            }
        };
        if let Some(e) = e {
            rep.violation(json!({"case": i, "vseed": vseed, "figures": n, "kind": group[0]["kind"], "what": e}));
        }
    });
    rep.count("runs", done as u64);
    rep.count("scenes", figures.into_inner());
    rep.count("probes", probed.into_inner());
    rep.count("points", points.into_inner());
    rep.sample(json!({"calls": done}));
    rep.finish();
}
