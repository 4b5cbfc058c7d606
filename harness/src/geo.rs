//! Plain geometry for building inputs and for comparing outputs with what the
//! specification says. No overlay semantics live here.
use i_overlay::i_float::int::point::IntPoint;

pub type P = (i64, i64);
pub type Contour = Vec<P>;
pub type Shape = Vec<Contour>;
pub type Edge = (P, P);

pub fn ip(p: P) -> IntPoint {
    IntPoint::new(p.0 as i32, p.1 as i32)
}
pub fn to_int(c: &[P]) -> Vec<IntPoint> {
    c.iter().map(|&p| ip(p)).collect()
}
pub fn from_int(c: &[IntPoint]) -> Contour {
    c.iter().map(|p| (p.x as i64, p.y as i64)).collect()
}
pub fn orient(a: P, b: P, c: P) -> i128 {
    (b.0 - a.0) as i128 * (c.1 - a.1) as i128 - (b.1 - a.1) as i128 * (c.0 - a.0) as i128
}
pub fn area2(c: &[P]) -> i128 {
    let n = c.len();
    (0..n)
        .map(|i| {
            let (p, q) = (c[i], c[(i + 1) % n]);
            p.0 as i128 * q.1 as i128 - p.1 as i128 * q.0 as i128
        })
        .sum()
}

/// p -> f * D(M(p)) + t; D is one of the eight symmetries of the square, M a shear that keeps areas.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tr {
    pub d: u8,
    pub m: [i64; 4],
    pub f: i64,
    pub t: P,
}

pub const NO_SHEAR: [i64; 4] = [1, 0, 0, 1];

impl Tr {
    pub const ID: Tr = Tr { d: 0, m: NO_SHEAR, f: 1, t: (0, 0) };
    pub fn pt(&self, p: P) -> P {
        let (x, y) = (self.m[0] * p.0 + self.m[1] * p.1, self.m[2] * p.0 + self.m[3] * p.1);
        let (x, y) = match self.d {
            0 => (x, y),
            1 => (-y, x),
            2 => (-x, -y),
            3 => (y, -x),
            4 => (-x, y),
            5 => (x, -y),
            6 => (y, x),
            _ => (-y, -x),
        };
        (self.f * x + self.t.0, self.f * y + self.t.1)
    }
    pub fn json(&self) -> serde_json::Value {
        serde_json::json!({"symmetry": self.d, "shear": self.m, "factor": self.f, "shift": [self.t.0, self.t.1]})
    }
    /// Neither turned nor sheared: what is left of what stays left of it.
    pub fn upright(&self) -> bool {
        self.d == 0 && self.m == NO_SHEAR
    }
    /// Distances, but for the factor, shrink to no less than a part of this many.
    pub fn squeeze(&self) -> i64 {
        // the determinant is one: the least singular value is the inverse of the greatest
        if self.m == NO_SHEAR { 1 } else { self.m.iter().map(|x| (x * x) as f64).sum::<f64>().sqrt().ceil() as i64 }
    }
    pub fn mirrors(&self) -> bool {
        self.d >= 4
    }
    /// A closed contour; its winding sign is kept by reversing it in a mirror.
    pub fn contour(&self, c: &[P]) -> Contour {
        let mut r: Contour = c.iter().map(|&p| self.pt(p)).collect();
        if self.mirrors() {
            r.reverse();
        }
        r
    }
    /// A directed boundary piece (result on its left).
    pub fn edge(&self, e: Edge) -> Edge {
        let (a, b) = (self.pt(e.0), self.pt(e.1));
        if self.mirrors() { (b, a) } else { (a, b) }
    }
}

pub fn on_segment(a: P, b: P, p: P) -> bool {
    orient(a, b, p) == 0
        && p.0 >= a.0.min(b.0)
        && p.0 <= a.0.max(b.0)
        && p.1 >= a.1.min(b.1)
        && p.1 <= a.1.max(b.1)
}

/// Directed edges of the contours, cut at every given vertex that lies on them.
pub fn elementary(shapes: &[Shape], verts: &[P], reverse: bool) -> Vec<Edge> {
    let mut res = Vec::new();
    for c in shapes.iter().flatten() {
        for i in 0..c.len() {
            let (a, b) = (c[i], c[(i + 1) % c.len()]);
            cut_edge(a, b, verts, reverse, &mut res);
        }
    }
    res.sort_unstable();
    res
}

pub fn cut_edge(a: P, b: P, verts: &[P], reverse: bool, res: &mut Vec<Edge>) {
    let mut on: Vec<P> = verts.iter().copied().filter(|&v| v != a && v != b && on_segment(a, b, v)).collect();
    on.sort_unstable();
    on.dedup();
    if a > b {
        on.reverse();
    }
    let mut p = a;
    for q in on.into_iter().chain(std::iter::once(b)) {
        res.push(if reverse { (q, p) } else { (p, q) });
        p = q;
    }
}

pub fn verts_of(edges: &[Edge]) -> Vec<P> {
    let mut v: Vec<P> = edges.iter().flat_map(|e| [e.0, e.1]).collect();
    v.sort_unstable();
    v.dedup();
    v
}

/// Least rotation.
pub fn canon(c: &[P]) -> Contour {
    let n = c.len();
    if n == 0 {
        return vec![];
    }
    let m = *c.iter().min().unwrap();
    let mut best: Option<Contour> = None;
    for k in 0..n {
        if c[k] != m {
            continue;
        }
        let r: Contour = (0..n).map(|i| c[(k + i) % n]).collect();
        if best.as_ref().map_or(true, |b| r < *b) {
            best = Some(r);
        }
    }
    best.unwrap()
}

/// Canonical form of a set of shapes: rotations and the order of holes and shapes do not count.
pub fn canon_shapes(shapes: &[Shape]) -> Vec<Shape> {
    let mut res: Vec<Shape> = shapes
        .iter()
        .map(|s| {
            let mut holes: Vec<Contour> = s.iter().skip(1).map(|c| canon(c)).collect();
            holes.sort();
            let mut r = vec![s.first().map(|c| canon(c)).unwrap_or_default()];
            r.append(&mut holes);
            r
        })
        .collect();
    res.sort();
    res
}

/// Drop points in the middle of a straight run until none is left.
pub fn simp(c: &[P]) -> Contour {
    let mut c = c.to_vec();
    loop {
        let n = c.len();
        if n < 3 {
            return vec![];
        }
        match (0..n).find(|&i| orient(c[(i + n - 1) % n], c[i], c[(i + 1) % n]) == 0) {
            Some(i) => {
                c.remove(i);
            }
            None => return c,
        }
    }
}

pub fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
