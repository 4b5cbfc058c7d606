//! The vector output: the same result, edge by edge, with what lies on both sides.
use crate::boolean::*;
use crate::geo::*;
use crate::modes::ways_diff;
use crate::pool::*;
use crate::rng::Rng;
use crate::scene::*;
use i_overlay::core::overlay::Overlay;
use i_overlay::vector::edge::{VectorEdge, VectorShape};
use serde_json::{Value, json};
use std::collections::HashMap;

pub fn flip(f: u8) -> u8 {
    (f & 1) << 1 | (f & 2) >> 1 | (f & 4) << 1 | (f & 8) >> 1
}

pub fn ve(e: &VectorEdge) -> (Edge, u8) {
    (((e.a.x as i64, e.a.y as i64), (e.b.x as i64, e.b.y as i64)), e.fill)
}

pub fn overlay_of(inp: &Input) -> Overlay {
    let subj: Vec<_> = inp.subj.iter().map(|c| to_int(c)).collect();
    let clip: Vec<_> = inp.clip.iter().map(|c| to_int(c)).collect();
    Overlay::with_contours(&subj, &clip)
}

pub fn check(rep: &Report, sc: &Scene, ex: &Expected, v: &Variant, fr: usize, op: usize, vseed: u64) -> Option<Value> {
    let inp = realize(sc, v);
    let solver = solver_of(v.solver);
    let graph = Rng::new(vseed).chance(1, 2);
    let call = || -> (Vec<VectorEdge>, Vec<VectorShape>) {
        let o = overlay_of(&inp);
        if graph {
            let g = o.into_graph_with_solver(FILLS[fr], solver);
            (g.extract_separate_vectors(), g.extract_shape_vectors(RULES[op]))
        } else {
            (o.clone().into_separate_vectors(FILLS[fr], solver), o.into_shape_vectors(FILLS[fr], RULES[op], solver))
        }
    };
    let (sep, shapes) = match guard(rep.t0, sc.id as u64, vseed, call) {
        Ok(r) => r,
        Err(p) => return Some(json!(format!("panic: {p}"))),
    };
    let sep: Vec<(Edge, u8)> = sep.iter().map(ve).collect();
    let shapes: Vec<Vec<Vec<(Edge, u8)>>> = shapes.iter().map(|s| s.iter().map(|c| c.iter().map(ve).collect()).collect()).collect();
    diff(ex, &v.tr, &sep, &shapes, fr, op, graph)
}

/// Is this what the specification says of the scene under the symmetry?
#[allow(clippy::too_many_arguments)]
pub fn diff(ex: &Expected, tr: &Tr, sep: &[(Edge, u8)], shapes: &[Vec<Vec<(Edge, u8)>>], fr: usize, op: usize, graph: bool) -> Option<Value> {
    // pieces of both sides of the comparison are cut at the vertices of both
    let mut verts: Vec<P> = ex.edges.iter().map(|(e, _)| tr.edge(*e)).flat_map(|e| [e.0, e.1]).collect();
    verts.extend(sep.iter().flat_map(|(e, _)| [e.0, e.1]));
    verts.extend(shapes.iter().flatten().flatten().flat_map(|(e, _)| [e.0, e.1]));
    verts.sort_unstable();
    verts.dedup();
    // an edge stands for the pieces along it
    let cut = |e: Edge| {
        let mut r = Vec::new();
        cut_edge(e.0, e.1, &verts, false, &mut r);
        r
    };
    // what lies on the left and on the right of every piece, in both directions
    let mut sides: HashMap<Edge, u8> = HashMap::new();
    for (e, m) in &ex.edges {
        for d in cut(tr.edge(*e)) {
            sides.insert(d, m[fr].2);
            sides.insert((d.1, d.0), flip(m[fr].2));
        }
    }
    // a graph keeps the pieces where some layer changes
    let keep = |f: u8| !graph || ((f & 1 != 0) != (f & 2 != 0)) || ((f & 4 != 0) != (f & 8 != 0));
    let mut want: Vec<(Edge, u8)> = sides.iter().filter(|(e, f)| e.0 < e.1 && keep(**f)).map(|(e, f)| (*e, *f)).collect();
    want.sort_unstable();
    let mut got: Vec<(Edge, u8)> = Vec::new();
    for (e, f) in sep {
        got.extend(cut(*e).into_iter().map(|e| if e.0 < e.1 { (e, *f) } else { ((e.1, e.0), flip(*f)) }));
    }
    got.sort_unstable();
    if graph {
        got.retain(|(_, f)| keep(*f));
    }
    if got != want {
        let missing: Vec<_> = want.iter().filter(|e| !got.contains(e)).take(4).collect();
        let extra: Vec<_> = got.iter().filter(|e| !want.contains(e)).take(4).collect();
        return Some(json!({"separate": {"missing": format!("{missing:?}"), "extra": format!("{extra:?}")}}));
    }
    let mut pieces: Vec<Edge> = Vec::new();
    for c in shapes.iter().flatten() {
        for (i, (d, f)) in c.iter().enumerate() {
            if d.1 != c[(i + 1) % c.len()].0.0 {
                return Some(json!({"vectors": "the path is not closed", "at": format!("{d:?}")}));
            }
            for d in cut(*d) {
                match sides.get(&d) {
                    None => return Some(json!({"vectors": "an edge that is not in the arrangement", "at": format!("{d:?}")})),
                    Some(x) if x != f => return Some(json!({"vectors": "wrong side fill", "at": format!("{d:?}"), "actual": f, "expected": x})),
                    _ => {}
                }
                // outlines run clockwise: the result is on the right
                pieces.push((d.1, d.0));
            }
        }
    }
    pieces.sort_unstable();
    let mut bd: Vec<Edge> = ex.boundary(fr, op).iter().flat_map(|&e| cut(tr.edge(e))).collect();
    bd.sort_unstable();
    if pieces != bd {
        return Some(json!({"vectors": "the edges are not the boundary", "actual": format!("{pieces:?}"), "expected": format!("{bd:?}")}));
    }
    let flat: Vec<Shape> = shapes.iter().map(|s| s.iter().map(|c| c.iter().map(|(e, _)| e.0).collect()).collect()).collect();
    if let Some(e) = form_error(&flat, true, false) {
        return Some(json!({"form": e, "actual": shapes_json(&flat)}));
    }
    let ways = ex.shapes[fr][op].expect(tr, true)?;
    ways_diff(&flat, ways, 0).map(|d| json!({"vectors": d}))
}
