//! Replays specified overlay behaviours in the library: every scene under
//! many configurations, each compared with what the specification computed.
use crate::geo::*;
use crate::rng::Rng;
use crate::scene::*;
use i_overlay::core::fill_rule::FillRule;
use i_overlay::core::overlay::{ContourDirection, Overlay, ShapeType};
use i_overlay::core::overlay_rule::OverlayRule;
use i_overlay::core::solver::{MultithreadOptions, Precision, Solver, Strategy};
use i_overlay::i_shape::int::shape::IntShapes;
use serde_json::{Value, json};

pub const FILLS: [FillRule; 4] = [FillRule::EvenOdd, FillRule::NonZero, FillRule::Positive, FillRule::Negative];
pub const FILL_NAMES: [&str; 4] = ["EvenOdd", "NonZero", "Positive", "Negative"];
pub const RULES: [OverlayRule; 7] = [
    OverlayRule::Subject,
    OverlayRule::Clip,
    OverlayRule::Intersect,
    OverlayRule::Union,
    OverlayRule::Difference,
    OverlayRule::InverseDifference,
    OverlayRule::Xor,
];
pub const RULE_NAMES: [&str; 7] = ["Subject", "Clip", "Intersect", "Union", "Difference", "InverseDifference", "Xor"];

pub fn shapes_from(s: &IntShapes) -> Vec<Shape> {
    s.iter().map(|s| s.iter().map(|c| from_int(c)).collect()).collect()
}

/// What the specification says about one scene.
pub struct Expected {
    /// elementary pieces with, per fill rule, the masks of overlay rules that keep them a->b / b->a
    /// and the fill bits of both sides (subject above 1, below 2, clip above 4, below 8)
    pub edges: Vec<(Edge, [(u32, u32, u8); 4])>,
    /// per fill rule and overlay rule
    pub shapes: Vec<Vec<ShapesOf>>,
}

#[derive(Clone, Debug)]
pub struct ShapesOf {
    /// a point of the boundary is passed twice
    pub pinched: bool,
    /// outlines counterclockwise: the ways the boundary may come apart
    pub ccw: Vec<Vec<Shape>>,
    /// outlines clockwise, where the walk is not just the reversed one
    pub cw: Vec<Vec<Shape>>,
}

impl ShapesOf {
    /// What a call under this symmetry may return, if the specification says it to the last point.
    pub fn expect(&self, tr: &Tr, cw: bool) -> Option<Vec<Vec<Shape>>> {
        if self.pinched && !tr.upright() {
            return None;
        }
        let map = |ways: &[Vec<Shape>], rev: bool| -> Vec<Vec<Shape>> {
            let contour = |c: &Contour| {
                let mut c = tr.contour(c);
                if rev {
                    c.reverse();
                }
                c
            };
            ways.iter().map(|w| w.iter().map(|s| s.iter().map(contour).collect()).collect()).collect()
        };
        Some(if self.pinched && cw { map(&self.cw, false) } else { map(&self.ccw, cw) })
    }
}

impl Expected {
    pub fn from(v: &Value) -> Self {
        let edges = v["edges"]
            .as_array()
            .unwrap()
            .iter()
            .map(|e| {
                let g = |i: usize| e[i].as_i64().unwrap();
                let mut m = [(0, 0, 0); 4];
                for f in 0..4 {
                    let h = |i: usize| e[4][f][i].as_u64().unwrap();
                    m[f] = (h(0) as u32, h(1) as u32, h(2) as u8);
                }
                (((g(0), g(1)), (g(2), g(3))), m)
            })
            .collect();
        let shapes = v["shapes"]
            .as_array()
            .unwrap()
            .iter()
            .map(|f| {
                f.as_array()
                    .unwrap()
                    .iter()
                    .map(|o| {
                        let shape = |v: &Value| v.as_array().unwrap().iter().map(cs_from).collect();
                        let shapes = |i: usize| o[i].as_array().unwrap().iter().map(shape).collect();
                        ShapesOf { pinched: o[0].as_bool().unwrap(), ccw: shapes(1), cw: shapes(2) }
                    })
                    .collect()
            })
            .collect();
        Expected { edges, shapes }
    }
    /// directed boundary pieces, the result on their left
    pub fn boundary(&self, fr: usize, op: usize) -> Vec<Edge> {
        let mut r = Vec::new();
        for (e, m) in &self.edges {
            if m[fr].0 >> op & 1 == 1 {
                r.push(*e);
            }
            if m[fr].1 >> op & 1 == 1 {
                r.push((e.1, e.0));
            }
        }
        r
    }
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub tr: Tr,
    pub solver: (usize, usize, usize), // strategy, precision, threads
    pub cw: bool,
    pub simplify: bool,
    pub min_area: usize,
    pub api: usize,
    pub noise: u64, // 0: contours as they are, else seed of harmless edits
}

impl Variant {
    pub fn plain() -> Self {
        Variant { tr: Tr::ID, solver: (3, 1, 0), cw: false, simplify: true, min_area: 0, api: 0, noise: 0 }
    }
    pub fn json(&self) -> Value {
        json!({"symmetry": self.tr.d, "shear": self.tr.m, "factor": self.tr.f, "shift": [self.tr.t.0, self.tr.t.1],
               "solver": [self.solver.0, self.solver.1, self.solver.2], "clockwise": self.cw,
               "simplify": self.simplify, "min_area": self.min_area, "api": API_NAMES[self.api], "noise": self.noise})
    }
}

pub const API_NAMES: [&str; 8] = [
    "overlay_custom", "overlay", "graph.extract_shapes", "graph.extract_shapes_custom", "with_contours",
    "with_shapes", "path_iter", "add_shape",
];

pub const STRATEGIES: [Strategy; 4] = [Strategy::List, Strategy::Tree, Strategy::Frag, Strategy::Auto];
pub const PRECISIONS: [Precision; 6] = [
    Precision::ABSOLUTE,
    Precision::HIGH,
    Precision::MEDIUM_HIGH,
    Precision::MEDIUM,
    Precision::MEDIUM_LOW,
    Precision::LOW,
];

pub fn solver_of(s: (usize, usize, usize)) -> Solver {
    // the same through each constant and constructor
    match s {
        (0, 1, 0) => return Solver::LIST,
        (1, 1, 0) => return Solver::TREE,
        (2, 1, 0) => return Solver::FRAG,
        (3, 1, 0) => return Solver::AUTO,
        (3, _, 0) => return Solver::with_precision(PRECISIONS[s.1]),
        (_, _, 0) if s.1 % 2 == 0 => return Solver::with_strategy_and_precision(STRATEGIES[s.0], PRECISIONS[s.1]),
        _ => {}
    }
    Solver {
        strategy: STRATEGIES[s.0],
        precision: PRECISIONS[s.1],
        multithreading: match s.2 {
            0 => Some(MultithreadOptions::default()),
            1 => None,
            n => Some(MultithreadOptions { par_sort_min_size: n }),
        },
    }
}

/// Harmless edits of a closed contour: another start, repeated points, points on edges, spikes.
pub fn noisy(c: &[P], r: &mut Rng) -> Contour {
    let n = c.len();
    if n == 0 {
        return vec![];
    }
    let k = r.below(n);
    let mut res = Vec::new();
    for i in 0..n {
        let (a, b) = (c[(k + i) % n], c[(k + i + 1) % n]);
        res.push(a);
        for _ in 0..2 {
            match r.below(8) {
                0 => res.push(a),
                1 | 2 => {
                    // a point inside the edge, if the lattice has one
                    let g = gcd(b.0 - a.0, b.1 - a.1);
                    if g > 1 {
                        let t = r.range(1, g - 1);
                        let p = (a.0 + (b.0 - a.0) / g * t, a.1 + (b.1 - a.1) / g * t);
                        res.push(p);
                        // and possibly back and forth
                        if r.chance(1, 4) {
                            res.push(a);
                            res.push(p);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    if r.chance(1, 3) {
        res.push(res[0]);
    }
    res
}

pub struct Input {
    pub subj: Vec<Contour>,
    pub clip: Vec<Contour>,
}

pub fn realize(sc: &Scene, v: &Variant) -> Input {
    let place = |c: &Contour| -> Contour {
        let s: Contour = c.iter().map(|p| (p.0 * sc.k, p.1 * sc.k)).collect();
        v.tr.contour(&s)
    };
    let mut subj: Vec<Contour> = sc.subj.iter().map(place).collect();
    let mut clip: Vec<Contour> = sc.clip.iter().map(place).collect();
    if v.noise != 0 {
        let mut r = Rng::new(v.noise);
        r.shuffle(&mut subj);
        r.shuffle(&mut clip);
        for c in subj.iter_mut().chain(clip.iter_mut()) {
            *c = noisy(c, &mut r);
        }
        // contours that enclose nothing
        for _ in 0..r.below(3) {
            let base = sc.subj.iter().chain(sc.clip.iter()).flatten().next().copied().unwrap_or((0, 0));
            let at = |x: i64, y: i64| v.tr.pt((base.0 * sc.k + x, base.1 * sc.k + y));
            let d = match r.below(4) {
                0 => vec![],
                1 => vec![at(0, 0)],
                2 => vec![at(0, 0), at(1, 2)],
                _ => vec![at(0, 0), at(1, 0), at(3, 0)],
            };
            if r.chance(1, 2) { subj.push(d) } else { clip.push(d) }
        }
        // every contour so often: an odd number leaves all fill rules as they are
        if v.noise % 16 == 5 {
            let few = subj.iter().chain(clip.iter()).flatten().count() < 30;
            for cs in [&mut subj, &mut clip] {
                let m = match r.below(600) {
                    0 if few => 32769,
                    0..=99 => *r.pick(&[129, 257]),
                    _ => *r.pick(&[1, 3, 7]),
                };
                let one = std::mem::take(cs);
                for _ in 0..m {
                    cs.extend(one.iter().cloned());
                }
            }
        }
    }
    Input { subj, clip }
}

pub fn call(inp: &Input, v: &Variant, fr: usize, op: usize) -> Vec<Shape> {
    let dir = if v.cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise };
    let (fill, rule) = (FILLS[fr], RULES[op]);
    let solver = solver_of(v.solver);
    let subj: Vec<_> = inp.subj.iter().map(|c| to_int(c)).collect();
    let clip: Vec<_> = inp.clip.iter().map(|c| to_int(c)).collect();
    let n: usize = subj.iter().chain(clip.iter()).map(|c| c.len()).sum();
    let mut o = Overlay::new(n);
    let res = match v.api {
        4 => Overlay::with_contours(&subj, &clip).overlay_custom(rule, fill, dir, v.simplify, v.min_area, solver),
        5 => {
            let s: Vec<_> = subj.iter().map(|c| vec![c.clone()]).collect();
            let c = vec![clip.clone()];
            Overlay::with_shapes(&s, &c).overlay_custom(rule, fill, dir, v.simplify, v.min_area, solver)
        }
        6 => {
            for c in &subj {
                o.add_path_iter(c.iter().copied(), ShapeType::Subject);
            }
            for c in &clip {
                o.add_path_iter(c.iter().copied(), ShapeType::Clip);
            }
            o.overlay_custom(rule, fill, dir, v.simplify, v.min_area, solver)
        }
        7 => {
            o.add_shape(&clip, ShapeType::Clip);
            o.add_shapes(&[subj.clone()], ShapeType::Subject);
            o.overlay_custom(rule, fill, dir, v.simplify, v.min_area, solver)
        }
        _ => {
            if subj.len() == 1 && clip.len() == 1 {
                o = Overlay::with_contour(&subj[0], &clip[0]);
            } else {
                o.add_contours(&subj, ShapeType::Subject);
                for c in &clip {
                    o.add_contour(c, ShapeType::Clip);
                }
            }
            match v.api {
                0 => o.overlay_custom(rule, fill, dir, v.simplify, v.min_area, solver),
                1 => o.overlay(rule, fill),
                2 => o.into_graph(fill).extract_shapes(rule),
                _ => {
                    let g = o.into_graph_with_solver(fill, solver);
                    g.extract_shapes_custom(rule, dir, v.simplify, v.min_area)
                }
            }
        }
    };
    shapes_from(&res)
}

/// The region is right: the boundary pieces of the output are exactly the specified ones.
pub fn region_diff(actual: &[Shape], expected: &[Edge], cw: bool) -> Option<Value> {
    let mut verts = verts_of(expected);
    verts.extend(actual.iter().flatten().flatten());
    verts.sort_unstable();
    verts.dedup();
    let got = elementary(actual, &verts, cw);
    let mut want = Vec::with_capacity(expected.len());
    for e in expected {
        cut_edge(e.0, e.1, &verts, false, &mut want);
    }
    want.sort_unstable();
    if got == want {
        return None;
    }
    let missing: Vec<_> = want.iter().filter(|e| !got.contains(e)).take(4).collect();
    let extra: Vec<_> = got.iter().filter(|e| !want.contains(e)).take(4).collect();
    Some(json!({"missing": format!("{missing:?}"), "extra": format!("{extra:?}"),
                "pieces_expected": want.len(), "pieces_actual": got.len()}))
}

/// What every result must look like, whatever the input.
pub fn form_error(actual: &[Shape], cw: bool, simplified: bool) -> Option<String> {
    for s in actual {
        if s.is_empty() {
            return Some("a shape without contours".into());
        }
        for (i, c) in s.iter().enumerate() {
            let n = c.len();
            if n < 3 {
                return Some(format!("a contour of {n} points"));
            }
            for j in 0..n {
                if c[j] == c[(j + 1) % n] {
                    return Some("equal neighbour points".into());
                }
                if simplified && orient(c[(j + n - 1) % n], c[j], c[(j + 1) % n]) == 0 {
                    return Some("a point in the middle of a straight run".into());
                }
            }
            let a = area2(c);
            if a == 0 || (a > 0) != ((i == 0) != cw) {
                return Some(format!("contour {i} has the wrong direction (doubled area {a})"));
            }
        }
    }
    None
}

pub fn shapes_json(s: &[Shape]) -> Value {
    Value::Array(s.iter().map(|s| cs_json(s)).collect())
}
