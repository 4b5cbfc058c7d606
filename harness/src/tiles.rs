//! Many specified scenes side by side in one call: the sizes at which the
//! library changes its data structures and sorts on several threads.
use crate::boolean::*;
use crate::geo::*;
use crate::modes::*;
use crate::pool::*;
use crate::rng::Rng;
use crate::scene::*;
use i_overlay::core::overlay::{ContourDirection, Overlay};
use serde_json::{Value, json};
use std::collections::HashMap;

struct Tile<'a> {
    sc: &'a Scene,
    ex: &'a Expected,
    tr: Tr,
}

pub fn extent(sc: &Scene) -> i64 {
    sc.subj.iter().chain(sc.clip.iter()).flatten().flat_map(|p| [p.0.abs(), p.1.abs()]).max().unwrap_or(0) * sc.k + 2
}

/// Places apart from each other, one for each of some figures of these extents.
pub struct Ground {
    pub trs: Vec<Tr>,
    /// the factor of all of them
    pub f: i64,
    pub boxes: Vec<(P, P)>,
    /// around all places
    pub frame: Contour,
    /// one shear of everything
    pub m: [i64; 4],
    by_cell: HashMap<(i64, i64), Vec<usize>>,
    cell: i64,
}

impl Ground {
    /// fine: with room for snapping, where there is
    pub fn new(extents: &[i64], fine: bool, r: &mut Rng) -> Ground {
        let n = extents.len();
        // columns: everything above one another, side by side, or both
        let cols = match r.below(4) {
            _ if fine => (n as f64).sqrt() as usize + 1,
            0 => 1,
            1 => n,
            2 => 1 + n / 7,
            _ => (n as f64).sqrt() as usize + 1,
        };
        let rows = n.div_ceil(cols);
        let m = *extents.iter().max().unwrap();
        let mut room = (1i64 << 30) / (2 * m * cols.max(rows) as i64 + 4);
        let mut shear = NO_SHEAR;
        let least = if fine { 1024 } else { 1 };
        if r.chance(1, 3) && room > least {
            shear = unimodular(r, room / least);
            room /= grows(&shear);
        }
        let f = if room < 1 { 1 } else { r.range(if fine { room.min(1 << 10) } else { 1 }, room.min(1 << 12)) };
        let cell = 2 * m * f + 3;
        let half = (cell * cols as i64 / 2, cell * rows as i64 / 2);
        let turn = r.chance(1, 3);
        let jitter = r.chance(1, 2);
        let trs: Vec<Tr> = extents
            .iter()
            .enumerate()
            .map(|(i, e)| {
                let (x, y) = ((i % cols) as i64, (i / cols) as i64);
                let slack = m * f - e * f;
                let d = if turn { r.below(8) as u8 } else { 0 };
                let mut t = (x * cell - half.0 + cell / 2, y * cell - half.1 + cell / 2);
                if jitter {
                    t.0 += r.range(-slack, slack);
                    t.1 += r.range(-slack, slack);
                }
                Tr { d, f, t, ..Tr::ID }
            })
            .collect();
        let around: (P, P) = ((-half.0 - 1, -half.1 - 1), (cell * cols as i64 - half.0 + 1, cell * rows as i64 - half.1 + 1));
        let boxes: Vec<(P, P)> = trs
            .iter()
            .zip(extents)
            .map(|(t, e)| ((t.t.0 - e * f, t.t.1 - e * f), (t.t.0 + e * f, t.t.1 + e * f)))
            .collect();
        let mut by_cell: HashMap<(i64, i64), Vec<usize>> = HashMap::new();
        let cell = (1 + (around.1.0 - around.0.0) / 64).max(1);
        for (i, b) in boxes.iter().enumerate() {
            for x in b.0.0.div_euclid(cell)..=b.1.0.div_euclid(cell) {
                for y in b.0.1.div_euclid(cell)..=b.1.1.div_euclid(cell) {
                    by_cell.entry((x, y)).or_default().push(i);
                }
            }
        }
        let all = Tr { m: shear, ..Tr::ID };
        let trs = trs.iter().map(|t| Tr { m: conjugate(&shear, t.d), t: all.pt(t.t), ..*t }).collect();
        let ((x0, y0), (x1, y1)) = around;
        let frame = all.contour(&[(x0, y0), (x1, y0), (x1, y1), (x0, y1)]);
        Ground { trs, f, boxes, frame, m: shear, by_cell, cell }
    }

    /// The place that has all of these points.
    pub fn owner(&self, c: &[P]) -> Option<usize> {
        // the shear undone
        let back = Tr { m: [self.m[3], -self.m[1], -self.m[2], self.m[0]], ..Tr::ID };
        let c: Contour = c.iter().map(|&p| back.pt(p)).collect();
        let p = *c.first()?;
        let inside = |p: &P, b: &(P, P)| p.0 >= b.0.0 && p.0 <= b.1.0 && p.1 >= b.0.1 && p.1 <= b.1.1;
        let i = *self.by_cell.get(&(p.0.div_euclid(self.cell), p.1.div_euclid(self.cell)))?.iter().find(|&&i| inside(&p, &self.boxes[i]))?;
        c.iter().all(|p| inside(p, &self.boxes[i])).then_some(i)
    }
}

fn place<'a>(pairs: &'a [(Scene, Expected)], n: usize, r: &mut Rng) -> (Vec<Tile<'a>>, Ground) {
    let chosen: Vec<&(Scene, Expected)> = (0..n).map(|_| r.pick(pairs)).collect();
    let g = Ground::new(&chosen.iter().map(|p| extent(&p.0)).collect::<Vec<_>>(), false, r);
    let tiles = chosen.iter().zip(&g.trs).map(|(p, tr)| Tile { sc: &p.0, ex: &p.1, tr: *tr }).collect();
    (tiles, g)
}

pub fn replay(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let pairs = load_pairs(o);
    let seed = num(o, "seed", 1);
    let calls = num(o, "calls", 200) as usize;
    let largest = num(o, "largest", 1600);
    let only: Option<u64> = o.get("vseed").and_then(|s| s.parse().ok());
    // scenes whose clip is one frame around them can share a frame around all of them
    let framed: bool = text(o, "frame") == "1";
    let segments = std::sync::atomic::AtomicU64::new(0);
    let tiles_n = std::sync::atomic::AtomicU64::new(0);
    let most = std::sync::atomic::AtomicU64::new(0);
    let done = crate::pool::run(&rep, calls, num(o, "budget", 600) as f64, |i| {
        let mut r = Rng::mix(&[seed, 0x711e, i as u64]);
        let vseed = r.next();
        if only.is_some_and(|x| x != vseed) {
            return;
        }
        let n = match r.below(5) {
            0 => r.range(2, 30) as usize,
            1 => r.range(30, 200) as usize,
            2 => r.range(100, 400) as usize,
            3 => r.range(200, largest as i64 / 2) as usize,
            _ => r.range(largest as i64 / 2, largest as i64) as usize,
        };
        let (tiles, ground) = place(&pairs, n, &mut r);
        let f = ground.f;
        let mut v = Variant::plain();
        let precision = if f >= 1024 { r.below(6) } else { 0 };
        // the list strategy is quadratic
        let strategy = if n > 300 { *r.pick(&[1, 2, 3, 3]) } else { r.below(4) };
        v.solver = (strategy, precision, *r.pick(&[0, 0, 1, 64, 1000]));
        v.cw = r.chance(1, 3);
        v.simplify = r.chance(1, 2);
        let (fr, op) = (r.below(4), r.below(7));
        let mut inp = Input { subj: vec![], clip: vec![] };
        for t in &tiles {
            let put = |c: &Contour| -> Contour { t.tr.contour(&c.iter().map(|p| (p.0 * t.sc.k, p.1 * t.sc.k)).collect::<Contour>()) };
            inp.subj.extend(t.sc.subj.iter().map(put));
            if !framed {
                inp.clip.extend(t.sc.clip.iter().map(put));
            }
        }
        let fc = ground.frame.clone();
        if framed {
            inp.clip.push(fc.clone());
        }
        let ns = inp.subj.iter().chain(inp.clip.iter()).map(|c| c.len()).sum::<usize>() as u64;
        segments.fetch_add(ns, std::sync::atomic::Ordering::Relaxed);
        most.fetch_max(ns, std::sync::atomic::Ordering::Relaxed);
        tiles_n.fetch_add(n as u64, std::sync::atomic::Ordering::Relaxed);
        if only.is_some() {
            println!("{}", json!({"variant": v.json(), "fill": FILL_NAMES[fr], "rule": RULE_NAMES[op], "tiles": n, "points": ns, "frame": framed, "shear": ground.m}));
        }
        let api = r.below(2);
        let got = guard(rep.t0, i as u64, vseed, || {
            let dir = if v.cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise };
            let subj: Vec<_> = inp.subj.iter().map(|c| to_int(c)).collect();
            let clip: Vec<_> = inp.clip.iter().map(|c| to_int(c)).collect();
            let ov = Overlay::with_contours(&subj, &clip);
            let s = if api == 0 {
                ov.overlay_custom(RULES[op], FILLS[fr], dir, v.simplify, 0, solver_of(v.solver))
            } else {
                ov.into_graph_with_solver(FILLS[fr], solver_of(v.solver)).extract_shapes_custom(RULES[op], dir, v.simplify, 0)
            };
            shapes_from(&s)
        });
        let e = match got {
            Err(p) => Some(json!(format!("panic: {p}"))),
            Ok(g) => compare(&tiles, &g, &v, fr, op, framed.then_some(&fc), &ground),
        };
        if let Some(e) = e {
            rep.violation(json!({"case": i, "vseed": vseed, "variant": v.json(), "tiles": n, "points": ns, "framed": framed,
                "fill_rule": FILL_NAMES[fr], "overlay_rule": RULE_NAMES[op], "what": e}));
        }
    });
    rep.count("runs", done as u64);
    rep.count("scenes", tiles_n.into_inner());
    rep.count("points", segments.into_inner());
    rep.count("points_in_largest_call", most.into_inner());
    rep.sample(json!({"calls": done}));
    rep.finish();
}

fn compare(tiles: &[Tile], got: &[Shape], v: &Variant, fr: usize, op: usize, frame: Option<&Contour>, ground: &Ground) -> Option<Value> {
    if let Some(e) = form_error(got, v.cw, v.simplify) {
        return Some(json!({"form": e}));
    }
    let owner = |c: &Contour| ground.owner(c);
    let mut shapes: Vec<Vec<Shape>> = vec![vec![]; tiles.len()];
    let mut holes: Vec<Vec<Contour>> = vec![vec![]; tiles.len()];
    let mut frames = 0;
    for s in got {
        if frame.is_some_and(|f| s[0].contains(&f[0])) {
            frames += 1;
            let want = canon(&if v.cw { frame.unwrap().iter().rev().copied().collect() } else { frame.unwrap().clone() });
            if canon(&s[0]) != want {
                return Some(json!({"frame": c_json(&s[0])}));
            }
            for h in &s[1..] {
                match owner(h) {
                    Some(i) => holes[i].push(h.clone()),
                    None => return Some(json!({"stray hole": c_json(h)})),
                }
            }
        } else {
            let o: Vec<Option<usize>> = s.iter().map(owner).collect();
            if o[0].is_none() || o.iter().any(|x| *x != o[0]) {
                return Some(json!({"a shape over several places": cs_json(s)}));
            }
            shapes[o[0].unwrap()].push(s.clone());
        }
    }
    if frames > 1 {
        return Some(json!("the frame twice"));
    }
    for (i, t) in tiles.iter().enumerate() {
        let on_frame = |p: P| frame.is_some() && {
            let (c, k) = (&t.sc.clip[0], t.sc.k);
            p.0 == c[0].0 * k || p.1 == c[0].1 * k || p.0 == c[2].0 * k || p.1 == c[2].1 * k
        };
        let bd = t.ex.boundary(fr, op);
        if bd.iter().any(|e| on_frame(e.0)) != (frames == 1) && frame.is_some() {
            return Some(json!({"frame in the result": frames, "scene": t.sc.json()}));
        }
        let mut all = shapes[i].clone();
        if !holes[i].is_empty() {
            all.push(holes[i].clone());
        }
        let want: Vec<Edge> = bd.iter().filter(|e| !on_frame(e.0)).map(|&e| t.tr.edge(e)).collect();
        let fail = |d: Value| Some(json!({"tile": i, "scene": t.sc.json(), "at": t.tr.json(), "diff": d}));
        if let Some(d) = region_diff(&all, &want, v.cw) {
            return fail(json!({"region": d}));
        }
        if let Some(ways) = t.ex.shapes[fr][op].expect(&t.tr, v.cw) {
            // the frame's holes of this tile as one pseudo shape after the others
            let pack = |s: Vec<Shape>, h: Vec<Contour>| -> (Vec<Shape>, Vec<Contour>) {
                let mut h: Vec<Contour> = h.iter().map(|c| canon(&simp(c))).collect();
                h.sort();
                (canon_shapes(&s.iter().map(|s| s.iter().map(|c| simp(c)).collect()).collect::<Vec<Shape>>()), h)
            };
            let a = pack(shapes[i].clone(), holes[i].clone());
            let mut hit = false;
            let mut last = None;
            for w in ways {
                let (mut s, mut h) = (vec![], vec![]);
                for shape in w {
                    let back = |p: P| {
                        // is the outline the local frame
                        frame.is_some() && {
                            let (c, k) = (&t.sc.clip[0], t.sc.k);
                            c.iter().any(|q| t.tr.pt((q.0 * k, q.1 * k)) == p)
                        }
                    };
                    if back(shape[0][0]) { h.extend(shape[1..].iter().cloned()) } else { s.push(shape) }
                }
                let b = pack(s, h);
                if a == b {
                    hit = true;
                    break;
                }
                last = Some(b);
            }
            if !hit {
                return fail(json!({"actual": format!("{a:?}"), "expected": format!("{last:?}")}));
            }
        }
    }
    None
}
