//! Contours whose crossings are not representable: the library has to round.
//! The specification gives winding numbers at probe points and how far these are
//! from every edge; beyond the reach of rounding the region must be right, and
//! the contours must be proper whatever happened.
use crate::boolean::*;
use crate::geo::*;
use crate::modes::*;
use crate::pool::*;
use crate::rng::Rng;
use crate::scene::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::ContourDirection;
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::float::filter::ContourFilter;
use i_overlay::float::overlay::FloatOverlay;
use i_overlay::i_float::float::compatible::FloatPointCompatible;
use i_overlay::i_float::float::number::FloatNumber;
use serde_json::{Value, json};
use std::sync::atomic::{AtomicU64, Ordering};

fn gen_rough(r: &mut Rng, fam: usize) -> Scene {
    let mut s = Scene { k: 1, ..Default::default() };
    let m = *r.pick(&[30, 200, 1500, 7000]);
    let any = |r: &mut Rng| (r.range(-m, m), r.range(-m, m));
    match fam {
        // free polygons
        0 => {
            for _ in 0..r.range(1, 4) {
                let c: Contour = (0..r.range(3, 8)).map(|_| any(r)).collect();
                if r.chance(1, 2) { s.clip.push(c) } else { s.subj.push(c) }
            }
        }
        // stars
        1 => {
            for _ in 0..r.range(1, 3) {
                let n = r.range(5, 12);
                let (cx, cy) = (r.range(-m / 4, m / 4), r.range(-m / 4, m / 4));
                let c: Contour = (0..n)
                    .map(|i| {
                        let a = (i * 2 % n) as f64 / n as f64 * std::f64::consts::TAU + r.range(0, 100) as f64 / 200.0;
                        let d = r.range(m / 3, m * 3 / 4) as f64;
                        (cx + (a.cos() * d) as i64, cy + (a.sin() * d) as i64)
                    })
                    .collect();
                if r.chance(1, 2) { s.clip.push(c) } else { s.subj.push(c) }
            }
        }
        // needles: nearly parallel long edges
        2 => {
            for _ in 0..r.range(2, 6) {
                let c = vec![(-m + r.range(0, 3), r.range(-4, 4)), (m - r.range(0, 3), r.range(-4, 4)), (r.range(-m, m), r.range(-6, 6))];
                let c = if r.chance(1, 3) { c.iter().map(|p| (p.1, p.0)).collect() } else { c };
                if r.chance(1, 2) { s.clip.push(c) } else { s.subj.push(c) }
            }
            s.subj.push(vec![any(r), any(r), any(r)]);
        }
        // many edges through nearly the same point
        3 => {
            let (cx, cy) = (r.range(-5, 5), r.range(-5, 5));
            for _ in 0..r.range(2, 6) {
                let (p, q) = (any(r), (r.range(-3, 3), r.range(-3, 3)));
                let c = vec![p, (2 * cx - p.0 + q.0, 2 * cy - p.1 + q.1), (cx + r.range(-2, 2), cy + r.range(-2, 2)), any(r)];
                let c: Contour = c.iter().map(|p| (p.0.clamp(-8000, 8000), p.1.clamp(-8000, 8000))).collect();
                if r.chance(1, 2) { s.clip.push(c) } else { s.subj.push(c) }
            }
        }
        // lattice figures with every point shaken
        4 => {
            let f = r.below(FAMILIES);
            let b = gen_scene(r, f);
            let k = r.range(3, 400);
            let shake = |c: &Contour, r: &mut Rng| -> Contour { c.iter().map(|p| (p.0 * k + r.range(-1, 1), p.1 * k + r.range(-1, 1))).collect() };
            s.subj = b.subj.iter().map(|c| shake(c, r)).collect();
            s.clip = b.clip.iter().map(|c| shake(c, r)).collect();
        }
        // a tilted grid of bars
        5 => {
            let (dx, dy) = (r.range(5, 40), r.range(-9, 9));
            for i in 0..r.range(2, 4) {
                let (x, y) = (i * r.range(20, 60), i * 13);
                let c = vec![(x - dy * 20, y - dx * 20), (x + dx - dy * 20, y + dy - dx * 20), (x + dx + dy * 20, y + dy + dx * 20), (x + dy * 20, y + dx * 20)];
                s.subj.push(c);
            }
            for i in 0..r.range(1, 4) {
                let (x, y) = (-i * 7, i * r.range(20, 60));
                let c = vec![(x - dx * 20, y + dy * 20), (x + dx * 20, y - dy * 20), (x + dx * 20, y - dy * 20 + dx), (x - dx * 20, y + dy * 20 + dx)];
                s.clip.push(c);
            }
        }
        // a haystack
        6 => {
            let thin = r.range(0, 30);
            for _ in 0..r.range(10, 34) {
                let (p, q) = (any(r), any(r));
                let c = vec![p, q, if r.chance(1, 2) { any(r) } else { (p.0 + r.range(-thin, thin), p.1 + r.range(-thin, thin)) }];
                let c: Contour = c.iter().map(|p| (p.0.clamp(-8000, 8000), p.1.clamp(-8000, 8000))).collect();
                if r.chance(1, 2) { s.clip.push(c) } else { s.subj.push(c) }
            }
        }
        // edges on top of each other but for a unit
        _ => {
            let (p, q) = (any(r), any(r));
            for _ in 0..r.range(2, 5) {
                let near = |p: P, r: &mut Rng| (p.0 + r.range(-2, 2), p.1 + r.range(-2, 2));
                let mut c = vec![near(p, r), near(q, r), any(r)];
                if r.chance(1, 2) {
                    // a vertex about on the edge
                    let t = r.range(1, 9);
                    c.insert(1, near((p.0 + (q.0 - p.0) * t / 10, p.1 + (q.1 - p.1) * t / 10), r));
                }
                if r.chance(1, 2) {
                    c.reverse();
                }
                if r.chance(1, 2) { s.clip.push(c) } else { s.subj.push(c) }
            }
        }
    }
    s
}

pub const ROUGH: usize = 8;

/// Drawn out into wires, these take so many passes that the snap radius outgrows the coordinates.
fn wires() -> Scene {
    let sq = |c: [P; 4]| c.to_vec();
    Scene {
        k: 1,
        subj: vec![sq([(1095, 220), (438, 875), (1096, 1532), (1751, 875)])],
        clip: vec![
            sq([(1, 1), (2627, 0), (2627, 2628), (0, 2628)]),
            sq([(220, 220), (2409, 219), (2410, 2409), (219, 2408)]),
            sq([(439, 2190), (2191, 2190), (2190, 438), (438, 439)]),
            sq([(437, 876), (877, 875), (877, 1313), (437, 1315)]),
        ],
        ..Default::default()
    }
}

pub fn gen_rough_scenes(seed: u64, n: usize) -> Vec<(Scene, Contour)> {
    let mut r = Rng::mix(&[seed, 0x70ff]);
    let mut res: Vec<(Scene, Contour)> = Vec::new();
    while res.len() < n {
        let fam = res.len() % ROUGH;
        let mut s = if res.is_empty() { wires() } else { gen_rough(&mut r, fam) };
        let segs = s.segments();
        if segs.is_empty() || segs.len() > 110 {
            continue;
        }
        let pts: Vec<P> = segs.iter().flat_map(|e| [e.0, e.1]).collect();
        if pts.iter().any(|p| p.0.abs() > 8000 || p.1.abs() > 8000) {
            continue;
        }
        let (lx, hx) = (pts.iter().map(|p| p.0).min().unwrap(), pts.iter().map(|p| p.0).max().unwrap());
        let (ly, hy) = (pts.iter().map(|p| p.1).min().unwrap(), pts.iter().map(|p| p.1).max().unwrap());
        let mut probes: Contour = (0..20).map(|_| (r.range(lx, hx), r.range(ly, hy))).collect();
        for _ in 0..30 {
            // beside an edge
            let (a, b) = *r.pick(&segs);
            let t = r.range(1, 15);
            let (x, y) = (a.0 + (b.0 - a.0) * t / 16, a.1 + (b.1 - a.1) * t / 16);
            let l = (((b.0 - a.0).pow(2) + (b.1 - a.1).pow(2)) as f64).sqrt();
            let d = *r.pick(&[1, 2, 3, 3, 4, 6, 9, 16, 40]) as f64 * if r.chance(1, 2) { 1.0 } else { -1.0 };
            probes.push((x - ((b.1 - a.1) as f64 / l * d) as i64, y + ((b.0 - a.0) as f64 / l * d) as i64));
        }
        for p in probes.iter_mut() {
            *p = (p.0.clamp(-8050, 8050), p.1.clamp(-8050, 8050));
        }
        s.id = res.len() + 1;
        res.push((s, probes));
    }
    res
}

pub fn generate(o: &Opt) {
    let s = gen_rough_scenes(num(o, "seed", 1), num(o, "n", 1000) as usize);
    write_lines(
        text(o, "out"),
        s.iter().map(|(s, p)| {
            let mut v = s.json();
            v["probes"] = c_json(p);
            v
        }),
    );
}

pub struct Probe {
    pub p: P,
    pub clear: i64,
    pub ws: i64,
    pub wc: i64,
}

pub fn load(o: &Opt) -> Vec<(Scene, Vec<Probe>)> {
    let scenes: std::collections::HashMap<usize, Scene> =
        read_lines(text(o, "scenes")).iter().map(|v| (v["id"].as_u64().unwrap() as usize, Scene::from(v))).collect();
    let mut res: Vec<(Scene, Vec<Probe>)> = read_lines(text(o, "expected"))
        .iter()
        .map(|v| {
            let ps = v["probes"]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| {
                    let g = |i: usize| p[i].as_i64().unwrap();
                    Probe { p: (g(0), g(1)), clear: g(2), ws: g(3), wc: g(4) }
                })
                .collect();
            (scenes[&(v["id"].as_u64().unwrap() as usize)].clone(), ps)
        })
        .collect();
    res.sort_by_key(|p| p.0.id);
    res
}

pub fn inside(f: FillRule, n: i64) -> bool {
    match f {
        FillRule::EvenOdd => n.rem_euclid(2) == 1,
        FillRule::NonZero => n != 0,
        FillRule::Positive => n > 0,
        FillRule::Negative => n < 0,
    }
}
pub fn rule(o: OverlayRule, s: bool, c: bool) -> bool {
    match o {
        OverlayRule::Subject => s,
        OverlayRule::Clip => c,
        OverlayRule::Intersect => s && c,
        OverlayRule::Union => s || c,
        OverlayRule::Difference => s && !c,
        OverlayRule::InverseDifference => c && !s,
        OverlayRule::Xor => s != c,
    }
}

/// Winding number of closed contours around a point that is on none of them.
pub fn wind(shapes: &[Shape], p: P) -> i64 {
    let mut w = 0;
    for c in shapes.iter().flatten() {
        for i in 0..c.len() {
            let (a, b) = (c[i], c[(i + 1) % c.len()]);
            if a.0 <= p.0 && p.0 < b.0 {
                if orient(a, b, p) > 0 {
                    w += 1;
                }
            } else if b.0 <= p.0 && p.0 < a.0 && orient(b, a, p) > 0 {
                w -= 1;
            }
        }
    }
    w
}

/// Two edges of the result with more in common than they may have.
pub fn tangled(shapes: &[Shape]) -> Option<(Edge, Edge)> {
    let mut es: Vec<Edge> = Vec::new();
    for c in shapes.iter().flatten() {
        for i in 0..c.len() {
            let (a, b) = (c[i], c[(i + 1) % c.len()]);
            es.push((a.min(b), a.max(b)));
        }
    }
    tangled_edges(es)
}

pub fn tangled_edges(mut es: Vec<Edge>) -> Option<(Edge, Edge)> {
    es.sort_unstable();
    for i in 0..es.len() {
        let (a, b) = es[i];
        for &(c, d) in &es[i + 1..] {
            if c.0 > b.0 {
                break;
            }
            if a.1.max(b.1) < c.1.min(d.1) || c.1.max(d.1) < a.1.min(b.1) {
                continue;
            }
            let (o1, o2) = (orient(a, b, c).signum(), orient(a, b, d).signum());
            let bad = if o1 == 0 && o2 == 0 {
                a.max(c) < b.min(d)
            } else {
                o1 * o2 < 0 && orient(c, d, a).signum() * orient(c, d, b).signum() < 0
            };
            if bad {
                return Some(((a, b), (c, d)));
            }
        }
    }
    None
}

/// How far rounding may move the boundary, in units of the lattice.
pub fn reach(precision: usize) -> i64 {
    [100, 4, 4, 5, 8, 10][precision]
}

pub fn replay(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let pairs = load(o);
    let (seed, per) = (num(o, "seed", 1), num(o, "variants", 4));
    let measure = text(o, "measure") == "1";
    let only: Option<u64> = o.get("vseed").and_then(|s| s.parse().ok());
    let (runs, probed) = (AtomicU64::new(0), AtomicU64::new(0));
    let worst: [AtomicU64; 8] = [const { AtomicU64::new(0) }; 8];
    let done = crate::pool::run(&rep, pairs.len(), num(o, "budget", 600) as f64, |i| {
        let (sc, ps) = &pairs[i];
        for fr in 0..4 {
            for op in 0..7 {
                for n in 0..if sc.id == 1 { 12 * per } else { per } {
                    let mut r = Rng::mix(&[seed, sc.id as u64, fr as u64, op as u64, n, 0x6057]);
                    let vseed = r.next();
                    if only.is_some_and(|x| x != vseed) {
                        continue;
                    }
                    let mut v = Variant::plain();
                    v.solver = (r.below(4), r.below(6), r.below(3));
                    v.cw = r.chance(1, 3);
                    v.simplify = !r.chance(1, 3);
                    v.api = r.below(8);
                    if v.api == 1 || v.api == 2 {
                        v.cw = false;
                        v.simplify = true;
                        v.solver = (3, 1, 0);
                    }
                    v.tr = rand_tr(&mut r, max_coord(sc));
                    if r.chance(1, 2) {
                        v.tr.f = 1;
                    }
                    if sc.id == 1 && v.solver.1 > 0 && v.api != 1 && v.api != 2 {
                        v.solver = ([2, 2, 1, 3][fr], 5, v.solver.2);
                        let q = match r.below(4) {
                            0 => *r.pick(&[78089, 170042, 195057]),
                            _ => r.range(60000, 200000),
                        };
                        v.tr = Tr { d: if r.chance(2, 3) { 1 } else { v.tr.d }, m: [1, -q, 0, 1], f: 1, t: (0, 0) };
                    } else if r.chance(1, 3) {
                        // what gets thinner than a unit falls into a piece for nearly every unit of its length
                        let (m, thin) = (max_coord(sc), r.chance(1, 2));
                        let f = if thin { 1 } else { r.range(1, ((1i64 << 31) as f64 / m as f64).sqrt() as i64) };
                        // the faster the radius grows the sooner these are joined
                        let q = if thin { (1 << [14, 17, 17, 17, 18, 20][v.solver.1]) / m } else { (f / 4).min((1i64 << 29) / (m * f)) };
                        let a = unimodular(&mut r, q.max(1));
                        let rest = (1i64 << 30) - 1 - f * m * grows(&a);
                        v.tr = Tr { d: v.tr.d, m: a, f, t: (r.range(-rest, rest), r.range(-rest, rest)) };
                    }
                    let squeeze = v.tr.squeeze();
                    if only.is_some() {
                        println!("{}", json!({"scene": sc.json(), "variant": v.json(), "fill_rule": FILL_NAMES[fr], "overlay_rule": RULE_NAMES[op],
                            "realized": [cs_json(&realize(sc, &v).subj), cs_json(&realize(sc, &v).clip)]}));
                    }
                    runs.fetch_add(1, Ordering::Relaxed);
                    let inp = realize(sc, &v);
                    let fail = |e: Value| {
                        rep.violation(json!({"case": sc.id, "vseed": vseed, "scene": sc.json(), "variant": v.json(),
                            "fill_rule": FILL_NAMES[fr], "overlay_rule": RULE_NAMES[op], "what": e}));
                    };
                    let mut got = match guard(rep.t0, sc.id as u64, vseed, || call(&inp, &v, fr, op)) {
                        Ok(g) => g,
                        Err(p) => {
                            fail(json!(format!("panic: {p}")));
                            continue;
                        }
                    };
                    if let Some(e) = form_error(&got, v.cw, v.simplify) {
                        fail(json!({"form": e, "actual": shapes_json(&got)}));
                        continue;
                    }
                    if let Some(e) = tangled(&got) {
                        fail(json!({"crossing edges": format!("{e:?}"), "actual": shapes_json(&got)}));
                        continue;
                    }
                    if v.cw {
                        got.iter_mut().flatten().for_each(|c| c.reverse());
                    }
                    let tol = if measure { 0 } else { reach(v.solver.1) };
                    for p in ps {
                        let clear = (p.clear * v.tr.f) / squeeze;
                        if clear <= tol {
                            continue;
                        }
                        probed.fetch_add(1, Ordering::Relaxed);
                        let want = rule(RULES[op], inside(FILLS[fr], p.ws), inside(FILLS[fr], p.wc)) as i64;
                        let w = wind(&got, v.tr.pt(p.p));
                        if w != want {
                            if measure {
                                worst[v.solver.1].fetch_max(clear as u64, Ordering::Relaxed);
                                if clear <= num(o, "above", 30) as i64 {
                                    continue;
                                }
                            }
                            fail(json!({"probe": [p.p.0, p.p.1], "at": v.tr.pt(p.p), "distance": clear, "winding": w, "expected": want, "actual": shapes_json(&got)}));
                            break;
                        }
                    }
                }
            }
        }
    });
    if measure {
        eprintln!("{:?}", worst.iter().map(|w| w.load(Ordering::Relaxed)).collect::<Vec<_>>());
    }
    rep.count("scenes", done as u64);
    rep.count("runs", runs.into_inner());
    rep.count("probes", probed.into_inner());
    for (s, _) in pairs.iter().take(3) {
        rep.sample(s.json());
    }
    rep.finish();
}

/// Many of them side by side in one call.
pub fn replay_tiles(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let pairs = load(o);
    let seed = num(o, "seed", 1);
    let only: Option<u64> = o.get("vseed").and_then(|s| s.parse().ok());
    let (probed, points, most) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let calls = num(o, "calls", 200) as usize;
    let largest = num(o, "largest", 400) as i64;
    let done = crate::pool::run(&rep, calls, num(o, "budget", 600) as f64, |i| {
        let mut r = Rng::mix(&[seed, 0x7f11e, i as u64]);
        let vseed = r.next();
        if only.is_some_and(|x| x != vseed) {
            return;
        }
        let n = if r.chance(1, 3) { r.range(2, 40) } else { r.range(30, largest) } as usize;
        let chosen: Vec<&(Scene, Vec<Probe>)> = (0..n).map(|_| r.pick(&pairs)).collect();
        let cols = match r.below(3) {
            0 => 1,
            1 => n,
            _ => (n as f64).sqrt() as usize + 1,
        };
        let m = chosen.iter().map(|c| max_coord(&c.0)).max().unwrap() + 200;
        let cell = 2 * m;
        let f = r.range(1, ((1i64 << 29) / (cell * (cols.max(n.div_ceil(cols)) as i64 + 1))).clamp(1, 3));
        let half = (cell * f * cols as i64 / 2, cell * f * n.div_ceil(cols) as i64 / 2);
        let trs: Vec<Tr> = (0..n)
            .map(|i| {
                let t = ((i % cols) as i64 * cell * f - half.0 + m * f, (i / cols) as i64 * cell * f - half.1 + m * f);
                Tr { d: r.below(8) as u8, f, t, ..Tr::ID }
            })
            .collect();
        let mut v = Variant::plain();
        let strategy = if n > 40 { *r.pick(&[1, 2, 3, 3]) } else { r.below(4) };
        v.solver = (strategy, r.below(4), *r.pick(&[0, 0, 1, 64, 1000]));
        v.cw = r.chance(1, 3);
        v.simplify = r.chance(1, 2);
        let (fr, op) = (r.below(4), r.below(7));
        let mut inp = Input { subj: vec![], clip: vec![] };
        for (c, t) in chosen.iter().zip(&trs) {
            inp.subj.extend(c.0.subj.iter().map(|c| t.contour(c)));
            inp.clip.extend(c.0.clip.iter().map(|c| t.contour(c)));
        }
        let ns = inp.subj.iter().chain(inp.clip.iter()).map(|c| c.len()).sum::<usize>() as u64;
        points.fetch_add(ns, Ordering::Relaxed);
        most.fetch_max(ns, Ordering::Relaxed);
        if only.is_some() {
            println!("{}", json!({"variant": v.json(), "fill": FILL_NAMES[fr], "rule": RULE_NAMES[op], "tiles": n, "points": ns, "factor": f}));
        }
        let e = match guard(rep.t0, i as u64, vseed, || call(&inp, &v, fr, op)) {
            Err(p) => Some(json!(format!("panic: {p}"))),
            Ok(mut got) => (|| {
                if let Some(e) = form_error(&got, v.cw, v.simplify) {
                    return Some(json!({"form": e}));
                }
                if v.cw {
                    got.iter_mut().flatten().for_each(|c| c.reverse());
                }
                let mut by: Vec<Vec<Contour>> = vec![vec![]; n];
                let at = |p: P| ((p.0 + half.0).div_euclid(cell * f), (p.1 + half.1).div_euclid(cell * f));
                for c in got.into_iter().flatten() {
                    let (x, y) = at(c[0]);
                    let k = x + y * cols as i64;
                    if c.iter().any(|&p| at(p) != (x, y)) || x < 0 || y < 0 || x >= cols as i64 || k >= n as i64 {
                        return Some(json!({"stray contour": c_json(&c)}));
                    }
                    by[k as usize].push(c);
                }
                for ((c, t), out) in chosen.iter().zip(&trs).zip(by) {
                    let out = [out];
                    if let Some(e) = tangled(&out) {
                        return Some(json!({"crossing edges": format!("{e:?}"), "scene": c.0.json()}));
                    }
                    for p in &c.1 {
                        if p.clear * f <= reach(v.solver.1) {
                            continue;
                        }
                        probed.fetch_add(1, Ordering::Relaxed);
                        let want = rule(RULES[op], inside(FILLS[fr], p.ws), inside(FILLS[fr], p.wc)) as i64;
                        let w = wind(&out, t.pt(p.p));
                        if w != want {
                            return Some(json!({"probe": [p.p.0, p.p.1], "distance": p.clear * f, "winding": w, "expected": want, "scene": c.0.json(),
                                "tile": [t.d as i64, t.f, t.t.0, t.t.1], "actual": shapes_json(&out)}));
                        }
                    }
                }
                None
            })(),
        };
        if let Some(e) = e {
            rep.violation(json!({"case": i, "vseed": vseed, "variant": v.json(), "tiles": n, "points": ns,
                "fill_rule": FILL_NAMES[fr], "overlay_rule": RULE_NAMES[op], "what": e}));
        }
    });
    rep.count("runs", done as u64);
    rep.count("probes", probed.into_inner());
    rep.count("points", points.into_inner());
    rep.count("points_in_largest_call", most.into_inner());
    rep.finish();
}

/// Results for the specification to judge.
pub fn record(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let scenes = gen_rough_scenes(num(o, "seed", 1), num(o, "n", 1000) as usize);
    let res = std::sync::Mutex::new(Vec::new());
    let done = crate::pool::run(&rep, scenes.len(), 200.0, |i| {
        let (sc, ps) = &scenes[i];
        let mut r = Rng::mix(&[num(o, "seed", 1), sc.id as u64, 0x7ace]);
        let mut v = Variant::plain();
        v.solver = (r.below(4), r.below(3), r.below(3));
        v.simplify = !r.chance(1, 3);
        v.api = *r.pick(&[0, 3, 4, 5, 6, 7]);
        let (fr, op) = (r.below(4), r.below(7));
        let inp = realize(sc, &v);
        match guard(rep.t0, sc.id as u64, 0, || call(&inp, &v, fr, op)) {
            Ok(g) => res.lock().unwrap().push(json!({"id": sc.id, "subj": cs_json(&sc.subj), "clip": cs_json(&sc.clip), "fr": fr + 1, "op": op + 1,
                "tol": reach(v.solver.1), "probes": c_json(ps), "out": shapes_json(&g)})),
            Err(p) => rep.violation(json!({"case": sc.id, "vseed": 0, "scene": sc.json(), "variant": v.json(), "what": format!("panic: {p}")})),
        }
    });
    let mut v = res.into_inner().unwrap();
    v.sort_by_key(|v| v["id"].as_u64());
    write_lines(text(o, "traces"), v.into_iter());
    rep.count("recorded", done as u64);
    rep.finish();
}

pub fn fwind<P: FloatPointCompatible<T>, T: FloatNumber>(shapes: &[Vec<Vec<P>>], x: f64, y: f64) -> i64 {
    let mut w = 0;
    for c in shapes.iter().flatten() {
        for i in 0..c.len() {
            let (a, b) = (&c[i], &c[(i + 1) % c.len()]);
            let (ax, ay, bx, by) = (a.x().to_f64(), a.y().to_f64(), b.x().to_f64(), b.y().to_f64());
            let o = (bx - ax) * (y - ay) - (by - ay) * (x - ax);
            if ax <= x && x < bx {
                if o > 0.0 {
                    w += 1;
                }
            } else if bx <= x && x < ax && o < 0.0 {
                w -= 1;
            }
        }
    }
    w
}

/// A similarity of the plane: turn, scale, shift.
#[derive(Clone, Copy)]
pub struct Sim {
    pub c: f64,
    pub s: f64,
    pub t: (f64, f64),
}

impl Sim {
    pub fn rand(r: &mut Rng, reach: f64) -> Self {
        let a = if r.chance(1, 4) { 0.0 } else { r.range(0, 62831) as f64 / 10000.0 };
        let k = *r.pick(&[1.0, 1e-3, 0.01, 0.37, 3.7, 1234.5, 1e6]);
        let far = *r.pick(&[0.0, 1.0, 30.0]) * reach * k;
        let u = |r: &mut Rng| r.range(-1000, 1000) as f64 / 1000.0;
        Sim { c: a.cos() * k, s: a.sin() * k, t: (u(r) * far, u(r) * far) }
    }
    pub fn at(&self, p: P) -> (f64, f64) {
        self.real((p.0 as f64, p.1 as f64))
    }
    pub fn real(&self, p: (f64, f64)) -> (f64, f64) {
        (self.c * p.0 - self.s * p.1 + self.t.0, self.s * p.0 + self.c * p.1 + self.t.1)
    }
    pub fn scale(&self) -> f64 {
        (self.c * self.c + self.s * self.s).sqrt()
    }
}

fn call_float<P: FloatPointCompatible<T>, T: FloatNumber>(sc: &Scene, sim: &Sim, v: &Variant, fr: usize, op: usize, probes: &[Probe], tol: f64) -> Option<String> {
    let fl = |cs: &Vec<Contour>| -> Vec<Vec<P>> {
        cs.iter().map(|c| c.iter().map(|&p| sim.at(p)).map(|p| P::from_xy(T::from_float(p.0), T::from_float(p.1))).collect()).collect()
    };
    let (subj, clip) = (fl(&sc.subj), fl(&sc.clip));
    let dir = if v.cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise };
    let filter = ContourFilter { min_area: T::from_float(0.0), simplify_contour: v.simplify, clean_result: v.noise % 2 == 0 };
    let o = FloatOverlay::with_subj_and_clip(&subj, &clip);
    let got = match v.api % 3 {
        0 => o.overlay_custom(RULES[op], FILLS[fr], dir, filter, solver_of(v.solver)),
        1 => o.into_graph_with_solver(FILLS[fr], solver_of(v.solver)).extract_shapes_custom(RULES[op], dir, filter),
        _ => o.overlay(RULES[op], FILLS[fr]),
    };
    let back = v.cw && v.api % 3 != 2;
    for p in probes {
        if p.clear as f64 <= tol {
            continue;
        }
        let want = rule(RULES[op], inside(FILLS[fr], p.ws), inside(FILLS[fr], p.wc)) as i64;
        let (x, y) = sim.at(p.p);
        let w = fwind(&got, x, y) * if back { -1 } else { 1 };
        if w != want {
            let show: Vec<Vec<Vec<(f64, f64)>>> = got.iter().map(|s| s.iter().map(|c| c.iter().map(|p| (p.x().to_f64(), p.y().to_f64())).collect()).collect()).collect();
            return Some(format!("at ({x}, {y}) winding {w}, expected {want}: {show:?}"));
        }
    }
    None
}

pub fn replay_float(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let pairs = load(o);
    let (seed, per) = (num(o, "seed", 1), num(o, "variants", 4));
    let only: Option<u64> = o.get("vseed").and_then(|s| s.parse().ok());
    let runs = AtomicU64::new(0);
    let done = crate::pool::run(&rep, pairs.len(), num(o, "budget", 600) as f64, |i| {
        let (sc, ps) = &pairs[i];
        for fr in 0..4 {
            for op in 0..7 {
                for n in 0..per {
                    let mut r = Rng::mix(&[seed, sc.id as u64, fr as u64, op as u64, n, 0xf6057]);
                    let vseed = r.next();
                    if only.is_some_and(|x| x != vseed) {
                        continue;
                    }
                    let mut v = Variant::plain();
                    // fragments are slow for few long segments
                    v.solver = (if r.chance(1, 24) { 2 } else { *r.pick(&[0, 1, 3]) }, r.below(3), r.below(3));
                    v.cw = r.chance(1, 3);
                    v.simplify = !r.chance(1, 3);
                    v.api = r.below(3);
                    v.noise = r.next();
                    let m = max_coord(sc) as f64;
                    let sim = Sim::rand(&mut r, m);
                    let single = r.chance(1, 2);
                    // single precision has 24 bits for the whole picture, shift included
                    let far = sim.t.0.abs().max(sim.t.1.abs()) / sim.scale() + m;
                    let tol = if single { 1.0 + far * 20.0 / (1 << 24) as f64 } else { 0.0 };
                    if only.is_some() {
                        println!("{}", json!({"scene": sc.json(), "variant": v.json(), "sim": [sim.c, sim.s, sim.t.0, sim.t.1], "single": single, "tol": tol}));
                    }
                    runs.fetch_add(1, Ordering::Relaxed);
                    let got = guard(rep.t0, sc.id as u64, vseed, || {
                        if single {
                            call_float::<[f32; 2], f32>(sc, &sim, &v, fr, op, ps, tol)
                        } else {
                            call_float::<[f64; 2], f64>(sc, &sim, &v, fr, op, ps, tol)
                        }
                    });
                    let e = match got {
                        Err(p) => Some(format!("panic: {p}")),
                        Ok(e) => e,
                    };
                    if let Some(e) = e {
                        rep.violation(json!({"case": sc.id, "vseed": vseed, "scene": sc.json(), "variant": v.json(), "sim": [sim.c, sim.s, sim.t.0, sim.t.1], "single": single,
                            "fill_rule": FILL_NAMES[fr], "overlay_rule": RULE_NAMES[op], "what": e}));
                    }
                }
            }
        }
    });
    rep.count("scenes", done as u64);
    rep.count("runs", runs.into_inner());
    rep.finish();
}
