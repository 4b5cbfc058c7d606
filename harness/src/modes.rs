use crate::boolean::*;
use crate::geo::*;
use crate::pool::*;
use crate::rng::Rng;
use crate::scene::*;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::fmt::Write as _;

pub type Opt = HashMap<String, String>;

pub fn num(o: &Opt, k: &str, d: u64) -> u64 {
    o.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
}
pub fn text<'a>(o: &'a Opt, k: &str) -> &'a str {
    o.get(k).map(|s| s.as_str()).unwrap_or("")
}
pub fn read_lines(path: &str) -> Vec<Value> {
    if std::path::Path::new(path).is_dir() {
        let mut names: Vec<_> = std::fs::read_dir(path).unwrap().map(|e| e.unwrap().path()).collect();
        names.sort();
        return names.iter().flat_map(|p| read_lines(p.to_str().unwrap())).collect();
    }
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    // a line the specification wrote is a JSON text inside a JSON string
    let parse = |l: &str| -> Value {
        match serde_json::from_str(l).unwrap() {
            Value::String(s) => serde_json::from_str(&s).unwrap(),
            v => v,
        }
    };
    s.lines().filter(|l| !l.trim().is_empty()).map(parse).collect()
}
pub fn write_lines(path: &str, it: impl Iterator<Item = Value>) {
    let mut s = String::new();
    for v in it {
        let _ = writeln!(s, "{v}");
    }
    std::fs::write(path, s).unwrap();
}

pub fn run(mode: &str, o: &Opt) {
    match mode {
        "gen-boolean" => {
            let fams: Vec<usize> = match text(o, "fams") {
                "" => (0..FAMILIES).collect(),
                s => s.split(',').map(|x| x.parse().unwrap()).collect(),
            };
            let scenes = gen_scenes(num(o, "seed", 1), num(o, "n", 1000) as usize, &fams, text(o, "frame") == "1");
            write_lines(text(o, "out"), scenes.iter().map(|s| s.json()));
        }
        "gen-small" => {
            let kinds: Vec<usize> = text(o, "kinds").split(',').map(|x| x.parse().unwrap()).collect();
            let v = gen_small(num(o, "seed", 1), num(o, "n", 0) as usize, &kinds, num(o, "g", 2) as i64, num(o, "probes", 0) as usize);
            write_lines(text(o, "out"), v.into_iter());
        }
        "gen-strings" => crate::strings::generate(o),
        "replay-strings" => crate::strings::replay(o),
        "replay-boolean" => replay_boolean(o),
        "replay-float" => crate::float::replay_boolean(o),
        "replay-float-strings" => crate::float::replay_strings(o),
        "gen-mesh" => crate::mesh::generate(o),
        "replay-mesh" => crate::mesh::replay(o),
        "gen-rough" => crate::rough::generate(o),
        "replay-rough-tiles" => crate::rough::replay_tiles(&o),
        "replay-rough" => crate::rough::replay(o),
        "replay-rough-float" => crate::rough::replay_float(o),
        "record-rough" => crate::rough::record(o),
        "replay-rough-vectors" => crate::rvectors::replay(&o),
        "record-rough-vectors" => crate::rvectors::record(&o),
        "gen-rough-lines" => crate::rlines::generate(o),
        "replay-rough-lines" => crate::rlines::replay(o),
        "gen-session" => crate::session::generate(o),
        "replay-session" => crate::session::replay(o),
        "record-divide" => crate::divide::record(o),
        "replay-tiles" => crate::tiles::replay(o),
        "replay-crowd-strings" => crate::crowd::strings(o),
        "replay-crowd-overlays" => crate::crowd::overlays(o),
        "replay-crowd-mesh" => crate::mesh::crowd(o),
        _ => {
            eprintln!("unknown mode {mode}");
            std::process::exit(2);
        }
    }
}

/// (scenes, expected) joined by id
pub fn load_pairs(o: &Opt) -> Vec<(Scene, Expected)> {
    let scenes: HashMap<usize, Scene> = read_lines(text(o, "scenes")).iter().map(|v| (v["id"].as_u64().unwrap() as usize, Scene::from(v))).collect();
    let mut res: Vec<(Scene, Expected)> = read_lines(text(o, "expected"))
        .iter()
        .map(|v| (scenes[&(v["id"].as_u64().unwrap() as usize)].clone(), Expected::from(v)))
        .collect();
    res.sort_by_key(|p| p.0.id);
    res
}

pub fn max_coord(sc: &Scene) -> i64 {
    // harmless edits add points up to 3 units away
    let m = sc.subj.iter().chain(sc.clip.iter()).flatten().flat_map(|p| [p.0.abs(), p.1.abs()]).max().unwrap_or(0);
    m * sc.k + 4
}

pub fn rand_tr(r: &mut Rng, m: i64) -> Tr {
    // keep |f * m + t| below 2^30
    let lim = 1i64 << 29;
    let fmax = (lim / m).max(1);
    let f = match r.below(5) {
        0 => 1,
        1 => r.range(1, 64.min(fmax)),
        2 => fmax,
        3 => r.range(1, fmax),
        _ => 1i64 << r.range(0, 63 - fmax.leading_zeros() as i64),
    };
    let rest = (1i64 << 30) - 1 - f * m;
    let t = match r.below(4) {
        0 => (0, 0),
        1 => (r.range(-50, 50), r.range(-50, 50)),
        2 => (r.range(-rest, rest), r.range(-rest, rest)),
        _ => (*r.pick(&[-rest, rest]), *r.pick(&[-rest, rest])),
    };
    Tr { d: r.below(8) as u8, f, t, ..Tr::ID }
}

/// The same, or a shear: acute angles and near misses as far as the coordinates go, and nothing about it is rounded.
pub fn rand_tr_shear(r: &mut Rng, m: i64) -> Tr {
    if !r.chance(1, 3) {
        return rand_tr(r, m);
    }
    let lim = (1i64 << 29) / m;
    let f = match r.below(3) {
        0 => 1,
        1 => 1024.min(lim).max(1),
        _ => r.range(1, 5000.min(lim).max(1)),
    };
    let most = (lim / f).max(1);
    let a = unimodular(r, most);
    let rest = (1i64 << 30) - 1 - f * m * grows(&a);
    let t = match r.below(3) {
        0 => (0, 0),
        1 => (r.range(-rest, rest), r.range(-rest, rest)),
        _ => (*r.pick(&[-rest, rest]), *r.pick(&[-rest, rest])),
    };
    Tr { d: r.below(8) as u8, m: a, f, t }
}

/// The factor by which coordinates can grow.
pub fn grows(m: &[i64; 4]) -> i64 {
    (m[0].abs() + m[1].abs()).max(m[2].abs() + m[3].abs())
}

/// A matrix of determinant one that makes nothing grow by more than this.
pub fn unimodular(r: &mut Rng, most: i64) -> [i64; 4] {
    if most >= 4 && r.chance(1, 2) {
        // both coordinates as large as they may be, so the products are too
        let (x, y) = (r.range(1, most / 2), r.range(1, most / 2));
        // u * x + v * y is the greatest common divisor
        let (mut g, mut u, mut v) = (x, 1, 0);
        let (mut h, mut p, mut q) = (y, 0, 1);
        while h != 0 {
            let k = g / h;
            (g, u, v, h, p, q) = (h, p, q, g - k * h, u - k * p, v - k * q);
        }
        let (x, y) = (x / g, y / g);
        let s = if r.chance(1, 2) { 1 } else { -1 };
        return match r.below(4) {
            0 => [x, -s * v, s * y, u],
            1 => [-s * v, -x, u, -s * y],
            2 => [s * y, u, -x, s * v],
            _ => [u, -s * y, s * v, x],
        };
    }
    let mut a = NO_SHEAR;
    for _ in 0..r.range(1, 4) {
        let q = match r.below(3) {
            0 => r.range(-4, 4),
            1 => r.range(-most, most),
            _ => {
                let l = (most as f64).sqrt() as i64;
                r.range(-l, l)
            }
        };
        let b = if r.chance(1, 2) { [a[0] + q * a[2], a[1] + q * a[3], a[2], a[3]] } else { [a[0], a[1], a[2] + q * a[0], a[3] + q * a[1]] };
        if grows(&b) <= most {
            a = b;
        }
    }
    a
}

#[test]
fn shears_keep_areas() {
    let mut r = Rng::mix(&[1]);
    for i in 0..100000 {
        let most = 1 + r.range(0, 1 << (i % 29));
        let m = unimodular(&mut r, most);
        assert_eq!(m[0] * m[3] - m[1] * m[2], 1, "{m:?}");
        assert!(grows(&m) <= most);
    }
}

/// What, done before this symmetry, is the matrix after it.
pub fn conjugate(m: &[i64; 4], d: u8) -> [i64; 4] {
    let s = Tr { d, ..Tr::ID };
    let back = (0..8).map(|d| Tr { d, ..Tr::ID }).find(|b| b.pt(s.pt((1, 2))) == (1, 2)).unwrap();
    let both = |p: P| back.pt(Tr { m: *m, ..Tr::ID }.pt(s.pt(p)));
    let (x, y) = (both((1, 0)), both((0, 1)));
    [x.0, y.0, x.1, y.1]
}

fn replay_boolean(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let pairs = load_pairs(o);
    let seed = num(o, "seed", 1);
    let per = num(o, "variants", 4);
    let what = text(o, "what").to_string();
    let only: Option<u64> = o.get("vseed").and_then(|s| s.parse().ok());
    let runs = std::sync::atomic::AtomicU64::new(0);
    let non = std::sync::atomic::AtomicU64::new(0);
    let done = run_pairs(&rep, &pairs, num(o, "budget", 600) as f64, |sc, ex| {
        for fr in 0..4 {
            for op in 0..(if what == "simplify" { 1 } else { 7 }) {
                let bd = ex.boundary(fr, op);
                for i in 0..per {
                    let mut r = Rng::mix(&[seed, sc.id as u64, fr as u64, op as u64, i]);
                    let vseed = r.next();
                    if only.is_some_and(|x| x != vseed) {
                        continue;
                    }
                    let v = if i == 0 { Variant::plain() } else { variant(&what, &mut r, sc) };
                    if only.is_some() {
                        println!("{}", json!({"scene": sc.json(), "variant": v.json(), "fill_rule": FILL_NAMES[fr], "overlay_rule": RULE_NAMES[op],
                            "realized": [cs_json(&realize(sc, &v).subj), cs_json(&realize(sc, &v).clip)]}));
                    }
                    runs.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if !bd.is_empty() {
                        non.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                    if let Some(e) = check_one(&rep, &what, sc, ex, &bd, &v, fr, op, vseed) {
                        rep.violation(json!({"case": sc.id, "vseed": vseed, "scene": sc.json(), "variant": v.json(),
                            "fill_rule": FILL_NAMES[fr], "overlay_rule": RULE_NAMES[op], "what": e}));
                    }
                }
            }
        }
    });
    rep.count("scenes", done as u64);
    rep.count("runs", runs.into_inner());
    rep.count("runs_nonempty", non.into_inner());
    for (s, _) in pairs.iter().take(3) {
        rep.sample(s.json());
    }
    rep.finish();
}

fn run_pairs(rep: &Report, pairs: &[(Scene, Expected)], budget: f64, f: impl Fn(&Scene, &Expected) + Sync) -> usize {
    crate::pool::run(rep, pairs.len(), budget, |i| f(&pairs[i].0, &pairs[i].1))
}

fn variant(what: &str, r: &mut Rng, sc: &Scene) -> Variant {
    let mut v = Variant::plain();
    v.tr = rand_tr_shear(r, max_coord(sc));
    // snapping looks a few units around a crossing: only coarse lattices leave it nothing to snap
    let precision = |r: &mut Rng, f: i64| if f >= 1024 { r.below(6) } else { 0 };
    match what {
        "region" => {
            v.solver = if r.chance(1, 2) { (3, precision(r, v.tr.f), 0) } else { (r.below(4), precision(r, v.tr.f), r.below(3)) };
            v.cw = r.chance(1, 4);
            v.simplify = !r.chance(1, 4);
            v.api = r.below(4);
        }
        "form" => {
            if r.chance(1, 2) {
                v.tr.d = 0;
            }
            v.solver = (r.below(4), precision(r, v.tr.f), r.below(3));
            v.cw = r.chance(1, 3);
            v.simplify = !r.chance(1, 3);
            v.api = *r.pick(&[0, 0, 3]);
        }
        "solver" => {
            if r.chance(1, 2) {
                v.tr.d = 0;
            }
            v.solver = (r.below(4), precision(r, v.tr.f), r.below(3));
            v.api = *r.pick(&[0, 3]);
        }
        "input" => {
            if r.chance(1, 2) {
                v.tr.d = 0;
            }
            v.solver = (r.below(4), precision(r, v.tr.f), 0);
            v.api = *r.pick(&[0, 3, 4, 5, 6, 7]);
            v.noise = r.next() | 1;
        }
        "options" => {
            if r.chance(1, 2) {
                v.tr.d = 0;
            }
            v.cw = r.chance(1, 2);
            v.simplify = r.chance(1, 2);
            v.api = *r.pick(&[0, 3, 4, 6]);
        }
        _ => {
            if r.chance(1, 2) {
                v.tr.d = 0;
            }
            v.solver = (r.below(4), precision(r, v.tr.f), r.below(3));
            v.cw = r.chance(1, 2);
            v.simplify = !r.chance(1, 4);
        }
    }
    if v.api == 1 || v.api == 2 {
        v.cw = false;
        v.simplify = true;
        v.solver = (3, 1, 0);
        if v.tr.f < 1024 {
            v.api = 0;
            v.solver = (3, 0, 0);
        }
    }
    v
}

#[allow(clippy::too_many_arguments)]
fn check_one(rep: &Report, what: &str, sc: &Scene, ex: &Expected, bd: &[Edge], v: &Variant, fr: usize, op: usize, vseed: u64) -> Option<Value> {
    if what == "vectors" {
        return crate::vectors::check(rep, sc, ex, v, fr, op, vseed);
    }
    if what == "simplify" {
        return check_simplify(rep, sc, ex, v, fr, vseed);
    }
    let mut v = v.clone();
    if what == "options" {
        v.min_area = pick_area(&mut Rng::mix(&[vseed, 77]), &ex.shapes[fr][op], v.tr.f);
    }
    let v = &v;
    let inp = realize(sc, v);
    let got = match guard(rep.t0, sc.id as u64, vseed, || call(&inp, v, fr, op)) {
        Ok(g) => g,
        Err(p) => return Some(json!(format!("panic: {p}"))),
    };
    if v.min_area == 0 {
        let want: Vec<Edge> = bd.iter().map(|&e| v.tr.edge(e)).collect();
        if let Some(d) = region_diff(&got, &want, v.cw) {
            return Some(json!({"region": d, "actual": shapes_json(&got)}));
        }
    }
    if what == "region" {
        return None;
    }
    if let Some(e) = form_error(&got, v.cw, v.simplify) {
        return Some(json!({"form": e, "actual": shapes_json(&got)}));
    }
    if let Some(exp) = ex.shapes[fr][op].expect(&v.tr, v.cw) {
        if let Some(d) = ways_diff(&got, exp, v.min_area) {
            return Some(d);
        }
    }
    None
}

/// An area limit around the areas that occur.
pub fn pick_area(r: &mut Rng, s: &ShapesOf, f: i64) -> usize {
    if r.chance(1, 4) {
        return 0;
    }
    let areas: Vec<i128> = s.ccw.iter().flatten().flatten().map(|c| area2(c).abs() * (f as i128) * (f as i128)).collect();
    if areas.is_empty() {
        return r.below(100);
    }
    let a = *r.pick(&areas);
    ((a >> 1) + r.range(-1, 2) as i128).max(0) as usize
}

/// Contours whose area is below the limit are left out, an outline with all its holes.
pub fn drop_small(shapes: Vec<Shape>, min_area: usize) -> Vec<Shape> {
    let keep = |c: &Contour| (area2(c).unsigned_abs() >> 1) as usize >= min_area;
    shapes
        .into_iter()
        .filter(|s| keep(&s[0]))
        .map(|s| s.into_iter().filter(keep).collect())
        .collect()
}

/// Simplify: the shapes of the subject alone, and nothing left to do the second time.
fn check_simplify(rep: &Report, sc: &Scene, ex: &Expected, v: &Variant, fr: usize, vseed: u64) -> Option<Value> {
    use i_overlay::core::overlay::ContourDirection;
    use i_overlay::core::simplify::Simplify;
    let mut r = Rng::mix(&[vseed, 5]);
    let mut v = v.clone();
    if v.tr.f < 1024 && v.tr.f != 1 {
        v.tr = Tr { d: v.tr.d, f: 1024, t: (v.tr.t.0 % 1000, v.tr.t.1 % 1000), ..Tr::ID };
    }
    let fine = sc.k == 1 || v.tr.f >= 1024;
    if !fine {
        return None;
    }
    let min_area = if r.chance(1, 2) { 0 } else { pick_area(&mut r, &ex.shapes[fr][0], v.tr.f) };
    let inp = realize(sc, &v);
    let subj: Vec<_> = inp.subj.iter().map(|c| to_int(c)).collect();
    let dir = if v.cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise };
    let api = r.below(3);
    let run = || {
        let a = match api {
            _ if subj.len() == 1 && api < 2 => subj[0].simplify(FILLS[fr], dir, v.simplify, min_area),
            0 => subj.as_slice().simplify(FILLS[fr], dir, v.simplify, min_area),
            1 => subj.simplify(FILLS[fr], dir, v.simplify, min_area),
            _ => {
                let s: Vec<_> = subj.iter().map(|c| vec![c.clone()]).collect();
                s.as_slice().simplify(FILLS[fr], dir, v.simplify, min_area)
            }
        };
        // the same region again: under any rule that fills what the directions enclose
        let again = if v.cw { [0, 1, 3] } else { [0, 1, 2] };
        let b = a.as_slice().simplify(FILLS[again[(vseed % 3) as usize]], dir, v.simplify, 0);
        (shapes_from(&a), shapes_from(&b))
    };
    let (a, b) = match guard(rep.t0, sc.id as u64, vseed, run) {
        Ok(g) => g,
        Err(p) => return Some(json!(format!("panic: {p}"))),
    };
    if let Some(e) = form_error(&a, v.cw, v.simplify) {
        return Some(json!({"form": e, "actual": shapes_json(&a)}));
    }
    if min_area == 0 {
        let want: Vec<Edge> = ex.boundary(fr, 0).iter().map(|&e| v.tr.edge(e)).collect();
        if let Some(d) = region_diff(&a, &want, v.cw) {
            return Some(json!({"region": d, "actual": shapes_json(&a)}));
        }
    }
    // where the boundary touches itself, vertices the clip leaves on it may move the place where a walk starts
    let exact = sc.clip.is_empty() || !ex.shapes[fr][0].pinched;
    if let Some(exp) = ex.shapes[fr][0].expect(&v.tr, v.cw).filter(|_| exact) {
        if let Some(d) = ways_diff(&a, exp, min_area) {
            return Some(json!({"min_area": min_area, "simplify": d}));
        }
    }
    if !ex.shapes[fr][0].pinched {
        if let Some(d) = shapes_diff(&b, &simp_shapes(&a)) {
            return Some(json!({"min_area": min_area, "twice": d}));
        }
    }
    None
}

fn simp_shapes(s: &[Shape]) -> Vec<Shape> {
    s.iter().map(|s| s.iter().map(|c| simp(c)).collect()).collect()
}

/// The result is one of the allowed ones.
pub fn ways_diff(got: &[Shape], ways: Vec<Vec<Shape>>, min_area: usize) -> Option<Value> {
    let mut first = None;
    for w in ways {
        let d = shapes_diff(got, &drop_small(w, min_area))?;
        first.get_or_insert(d);
    }
    first
}

pub fn shapes_diff(got: &[Shape], exp: &[Shape]) -> Option<Value> {
    let g: Vec<Shape> = got.iter().map(|s| s.iter().map(|c| simp(c)).collect()).collect();
    let (a, b) = (canon_shapes(&g), canon_shapes(exp));
    if a == b { None } else { Some(json!({"expected": shapes_json(&b), "actual": shapes_json(&a)})) }
}
