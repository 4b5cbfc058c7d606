//! Scenes: the inputs handed both to the specification and to the library.
use crate::geo::*;
use crate::rng::Rng;
use serde_json::{Value, json};

#[derive(Clone, Debug, Default)]
pub struct Scene {
    pub id: usize,
    pub k: i64,
    pub subj: Vec<Contour>,
    pub clip: Vec<Contour>,
}

pub fn c_json(c: &[P]) -> Value {
    Value::Array(c.iter().map(|p| json!([p.0, p.1])).collect())
}
pub fn cs_json(c: &[Contour]) -> Value {
    Value::Array(c.iter().map(|c| c_json(c)).collect())
}
pub fn c_from(v: &Value) -> Contour {
    v.as_array().unwrap().iter().map(|p| (p[0].as_i64().unwrap(), p[1].as_i64().unwrap())).collect()
}
pub fn cs_from(v: &Value) -> Vec<Contour> {
    v.as_array().unwrap().iter().map(c_from).collect()
}

impl Scene {
    pub fn json(&self) -> Value {
        json!({"id": self.id, "k": self.k, "subj": cs_json(&self.subj), "clip": cs_json(&self.clip)})
    }
    pub fn from(v: &Value) -> Self {
        Scene {
            id: v["id"].as_u64().unwrap_or(0) as usize,
            k: v["k"].as_i64().unwrap(),
            subj: cs_from(&v["subj"]),
            clip: cs_from(&v["clip"]),
        }
    }
    pub fn segments(&self) -> Vec<Edge> {
        contour_edges(self.subj.iter().chain(self.clip.iter()))
    }
}

pub fn contour_edges<'a>(cs: impl Iterator<Item = &'a Contour>) -> Vec<Edge> {
    let mut r = Vec::new();
    for c in cs {
        for i in 0..c.len() {
            let (a, b) = (c[i], c[(i + 1) % c.len()]);
            if a != b {
                r.push((a, b));
            }
        }
    }
    r
}

/// Least scale at which every crossing of two of the segments is integral (None: above the limit).
pub fn scale_of(segs: &[Edge], limit: i64) -> Option<i64> {
    let mut k = 1i64;
    for i in 0..segs.len() {
        for j in 0..i {
            let (s, t) = (segs[i], segs[j]);
            let d1 = (s.1.0 - s.0.0, s.1.1 - s.0.1);
            let d2 = (t.1.0 - t.0.0, t.1.1 - t.0.1);
            let w = (t.0.0 - s.0.0, t.0.1 - s.0.1);
            let mut den = d1.0 * d2.1 - d1.1 * d2.0;
            if den == 0 {
                continue;
            }
            let mut u = w.0 * d2.1 - w.1 * d2.0;
            let mut v = w.0 * d1.1 - w.1 * d1.0;
            if den < 0 {
                den = -den;
                u = -u;
                v = -v;
            }
            if u < 0 || u > den || v < 0 || v > den {
                continue;
            }
            let g = gcd(den, gcd(d1.0 * u, d1.1 * u));
            let q = den / g;
            k = k / gcd(k, q) * q;
            if k > limit {
                return None;
            }
        }
    }
    Some(k)
}

fn rand_poly(r: &mut Rng, g: i64) -> Contour {
    let n = *r.pick(&[3, 3, 3, 4, 4, 4, 5, 6, 7]);
    (0..n).map(|_| (r.range(0, g), r.range(0, g))).collect()
}

/// A walk whose steps are horizontal, vertical or diagonal.
fn octi_poly(r: &mut Rng, g: i64) -> Contour {
    let mut c = vec![(r.range(0, g), r.range(0, g))];
    for _ in 0..r.range(2, 6) {
        let (x, y) = *c.last().unwrap();
        let d = *r.pick(&[(1, 0), (0, 1), (1, 1), (1, -1)]);
        let s = r.range(-g, g);
        let q = (x + d.0 * s, y + d.1 * s);
        if q.0 < 0 || q.1 < 0 || q.0 > g || q.1 > g {
            continue;
        }
        c.push(q);
    }
    c
}

fn rect(r: &mut Rng, g: i64) -> Contour {
    let (x0, x1) = (r.range(0, g), r.range(0, g));
    let (y0, y1) = (r.range(0, g), r.range(0, g));
    vec![(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
}

fn diamond(r: &mut Rng, g: i64) -> Contour {
    let (x, y, s) = (r.range(1, g - 1), r.range(1, g - 1), r.range(1, g / 2));
    let mut c = vec![(x + s, y), (x, y + s), (x - s, y), (x, y - s)];
    if r.chance(1, 2) {
        c.reverse();
    }
    c
}

fn ring(r: &mut Rng, x: i64, y: i64, s: i64) -> Contour {
    let mut c = match r.below(3) {
        0 => vec![(x + s, y), (x, y + s), (x - s, y), (x, y - s)],
        _ => vec![(x - s, y - s), (x + s, y - s), (x + s, y + s), (x - s, y + s)],
    };
    if r.chance(1, 2) {
        c.reverse();
    }
    c
}

pub const FAMILIES: usize = 10;

pub fn gen_scene(r: &mut Rng, fam: usize) -> Scene {
    let mut s = Scene::default();
    match fam {
        // free polygons on a small grid
        0 => {
            let g = *r.pick(&[2, 2, 3, 4, 6]);
            for _ in 0..*r.pick(&[1, 1, 2]) {
                s.subj.push(rand_poly(r, g));
            }
            for _ in 0..*r.pick(&[0, 1, 1, 2]) {
                s.clip.push(rand_poly(r, g));
            }
        }
        // octilinear walks
        1 => {
            let g = *r.pick(&[3, 4, 5, 7]);
            for _ in 0..r.range(1, 3) {
                s.subj.push(octi_poly(r, g));
            }
            for _ in 0..r.range(0, 3) {
                s.clip.push(octi_poly(r, g));
            }
        }
        // rectangles and diamonds with many shared edges
        2 => {
            let g = *r.pick(&[3, 4, 6]);
            for _ in 0..r.range(1, 5) {
                let c = if r.chance(1, 4) { diamond(r, g) } else { rect(r, g) };
                s.subj.push(c);
            }
            for _ in 0..r.range(0, 4) {
                let c = if r.chance(1, 4) { diamond(r, g) } else { rect(r, g) };
                s.clip.push(c);
            }
        }
        // nested rings, holes and islands
        3 => {
            let n = r.range(2, 5);
            for i in 0..n {
                let c = ring(r, 6, 6, 6 - i);
                if r.chance(1, 3) { s.clip.push(c) } else { s.subj.push(c) }
            }
            for _ in 0..r.range(0, 2) {
                let (x, y) = (r.range(3, 9), r.range(3, 9));
                let q = r.range(1, 3);
                let c = ring(r, x, y, q);
                if r.chance(1, 2) { s.clip.push(c) } else { s.subj.push(c) }
            }
        }
        // the same contour several times, both ways round
        4 => {
            let g = *r.pick(&[2, 3, 4]);
            let base = if r.chance(1, 2) { rand_poly(r, g) } else { rect(r, g) };
            for _ in 0..r.range(2, 5) {
                let mut c = base.clone();
                if r.chance(1, 2) {
                    c.reverse();
                }
                if r.chance(1, 4) { s.clip.push(c) } else { s.subj.push(c) }
            }
            let c = rand_poly(r, g);
            if r.chance(1, 2) { s.clip.push(c) } else { s.subj.push(c) }
        }
        // many small squares: checkerboards, touching corners, rings of holes
        5 => {
            let g = 4;
            let n = r.range(4, 9);
            for _ in 0..n {
                let (x, y) = (r.range(0, g - 1), r.range(0, g - 1));
                let w = *r.pick(&[1, 1, 1, 2]);
                let h = *r.pick(&[1, 1, 1, 2]);
                let mut c = vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)];
                if r.chance(1, 4) {
                    c.reverse();
                }
                if r.chance(1, 4) { s.clip.push(c) } else { s.subj.push(c) }
            }
            if r.chance(1, 2) {
                s.subj.push(vec![(0, 0), (g, 0), (g, g), (0, g)]);
            }
        }
        // a frame with diamond or triangle holes that touch each other or the frame
        6 => {
            s.subj.push(vec![(0, 0), (8, 0), (8, 8), (0, 8)]);
            for _ in 0..r.range(2, 5) {
                let (x, y) = (2 * r.range(0, 3) + 1, 2 * r.range(0, 3) + 1);
                let mut c = match r.below(3) {
                    0 => vec![(x + 1, y), (x, y + 1), (x - 1, y), (x, y - 1)],
                    1 => vec![(x - 1, y - 1), (x + 1, y), (x - 1, y + 1)],
                    _ => vec![(x - 1, y), (x + 1, y - 1), (x + 1, y + 1)],
                };
                if r.chance(1, 2) {
                    c.reverse();
                }
                if r.chance(1, 2) { s.clip.push(c) } else { s.subj.push(c) }
            }
        }
        // a wheel: spokes in every direction from one vertex
        8 => {
            let mut rim: Vec<P> = (0..5).flat_map(|i| [(i, 0), (4, i), (4 - i, 4), (0, 4 - i)]).map(|p| (2 * p.0, 2 * p.1)).collect();
            rim.extend([(7, 1), (1, 3), (3, 7), (7, 5), (5, 1), (1, 7)]);
            let o = (4, 4);
            let angle = |p: &P| ((p.1 - o.1) as f64).atan2((p.0 - o.0) as f64);
            rim.sort_by(|a, b| angle(a).partial_cmp(&angle(b)).unwrap());
            rim.dedup();
            let n = rim.len();
            let mut i = r.below(n);
            for _ in 0..r.range(6, 11) {
                let j = i + r.range(1, 3) as usize;
                let mut c = vec![o, rim[i % n], rim[j % n]];
                if r.chance(1, 3) {
                    c.reverse();
                }
                if r.chance(1, 3) { s.clip.push(c) } else { s.subj.push(c) }
                i = j + *r.pick(&[0, 0, 1]);
            }
        }
        // one within the other, deep
        9 => {
            let o = (10, 10);
            let upright = r.chance(1, 2);
            for i in 0..r.range(6, 10) {
                let q = 10 - i;
                let mut c: Contour = if upright { vec![(-q, -q), (q, -q), (q, q), (-q, q)] } else { vec![(q, 0), (0, q), (-q, 0), (0, -q)] };
                c.iter_mut().for_each(|p| *p = (p.0 + o.0, p.1 + o.1));
                if r.chance(1, 2) {
                    c.reverse();
                }
                if r.chance(1, 4) { s.clip.push(c) } else { s.subj.push(c) }
            }
        }
        // stars and fans: many edges through one vertex
        _ => {
            let (cx, cy) = (4, 4);
            for _ in 0..r.range(2, 4) {
                let mut c = vec![(cx, cy)];
                for _ in 0..r.range(2, 3) {
                    c.push((r.range(0, 8), r.range(0, 8)));
                    if r.chance(1, 3) {
                        c.push((cx, cy));
                        c.push((r.range(2, 6), r.range(2, 6)));
                    }
                }
                if r.chance(1, 3) { s.clip.push(c) } else { s.subj.push(c) }
            }
        }
    }
    s
}

/// n scenes whose coordinates stay small enough for the specification's 32-bit integers.
pub fn gen_scenes(seed: u64, n: usize, fams: &[usize], frame: bool) -> Vec<Scene> {
    let mut r = Rng::mix(&[seed, 0x5ce0]);
    let mut res = Vec::new();
    while res.len() < n {
        let fam = fams[res.len() % fams.len()];
        let mut s = gen_scene(&mut r, fam);
        if frame {
            // all in the subject, and a frame around it as the clip
            s.subj.append(&mut s.clip);
            let m = s.subj.iter().flatten().flat_map(|p| [p.0, p.1]).max().unwrap_or(0) + 1;
            let l = s.subj.iter().flatten().flat_map(|p| [p.0, p.1]).min().unwrap_or(0) - 1;
            s.clip = vec![vec![(l, l), (m, l), (m, m), (l, m)]];
        }
        let segs = s.segments();
        if segs.len() > 44 {
            continue;
        }
        let Some(k) = scale_of(&segs, 4000) else { continue };
        let m = segs.iter().flat_map(|e| [e.0.0, e.0.1, e.1.0, e.1.1]).max().unwrap_or(1);
        if k * m.max(1) > 8000 {
            continue;
        }
        s.k = k;
        s.id = res.len() + 1;
        res.push(s);
    }
    res
}

/// The symmetries of the square on coordinates 0..=g.
fn mirror(c: &[P], d: usize, g: i64) -> Contour {
    c.iter()
        .map(|&(x, y)| {
            let (x, y) = if d & 1 != 0 { (g - x, y) } else { (x, y) };
            let (x, y) = if d & 2 != 0 { (x, g - y) } else { (x, y) };
            if d & 4 != 0 { (y, x) } else { (x, y) }
        })
        .collect()
}

fn least_start(c: &[P]) -> Contour {
    let i = (0..c.len()).min_by_key(|&i| c[i]).unwrap();
    [&c[i..], &c[..i]].concat()
}

/// All contours of n different points on a lattice of g + 1 by g + 1 points, starts aside.
fn all_contours(n: usize, g: i64) -> Vec<Contour> {
    let pts: Vec<P> = (0..=g).flat_map(|x| (0..=g).map(move |y| (x, y))).collect();
    let mut res: Vec<Contour> = pts.iter().map(|&p| vec![p]).collect();
    for _ in 1..n {
        res = res.iter().flat_map(|c| pts.iter().filter(|&&p| p > c[0] && !c.contains(&p)).map(|&p| [c.as_slice(), &[p]].concat())).collect();
    }
    res
}

/// Every scene of a kind up to the symmetries of the square:
/// kind 0: a triangle in the subject, one in the clip; 1: two in the subject; 2: one quadrangle; 3: a quadrangle and a triangle.
pub fn all_small(kind: usize, g: i64) -> Vec<Scene> {
    let tri = all_contours(3, g);
    let quad = if kind > 1 { all_contours(4, g) } else { vec![] };
    let least = |s: &Scene| -> bool {
        // the least of its mirror images
        let img = |d: usize| {
            let mut a: Vec<Contour> = s.subj.iter().map(|c| least_start(&mirror(c, d, g))).collect();
            a.sort();
            let b: Vec<Contour> = s.clip.iter().map(|c| least_start(&mirror(c, d, g))).collect();
            (a, b)
        };
        let me = img(0);
        (1..8).all(|d| me <= img(d))
    };
    let mut res = vec![];
    let mut push = |subj: Vec<Contour>, clip: Vec<Contour>| {
        let s = Scene { id: 0, k: 1, subj, clip };
        if least(&s) {
            res.push(s);
        }
    };
    match kind {
        0 => tri.iter().for_each(|a| tri.iter().for_each(|b| push(vec![a.clone()], vec![b.clone()]))),
        1 => (0..tri.len()).for_each(|i| (0..=i).for_each(|j| push(vec![tri[j].clone(), tri[i].clone()], vec![]))),
        2 => quad.iter().for_each(|a| push(vec![a.clone()], vec![])),
        _ => quad.iter().for_each(|a| tri.iter().for_each(|b| push(vec![a.clone()], vec![b.clone()]))),
    }
    res
}

/// Scenes from the complete list of small ones: all (n = 0), or n by chance; probe points for the machine.
pub fn gen_small(seed: u64, n: usize, kinds: &[usize], g: i64, probes: usize) -> Vec<Value> {
    let mut r = Rng::mix(&[seed, 0x5a11]);
    let mut all: Vec<Scene> = kinds.iter().flat_map(|&k| all_small(k, g)).collect();
    if n > 0 {
        r.shuffle(&mut all);
    }
    let mut res = vec![];
    for s in all {
        let Some(k) = scale_of(&s.segments(), 840) else { continue };
        // room between the points for probes
        let k = if probes == 0 { k } else { k * ((40 + k - 1) / k) };
        if probes > 0 && k * g > 840 {
            continue;
        }
        let s = Scene { id: res.len() + 1, k, ..s };
        let mut v = s.json();
        if probes > 0 {
            let p: Vec<P> = (0..probes).map(|_| (r.range(0, k * g), r.range(0, k * g))).collect();
            v["probes"] = c_json(&p);
        }
        res.push(v);
        if n > 0 && res.len() == n {
            break;
        }
    }
    res
}
