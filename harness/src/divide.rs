//! Divisions of contours at the points they pass more than once, recorded for
//! the specification to judge.
use crate::geo::*;
use crate::modes::*;
use crate::pool::*;
use crate::rng::Rng;
use crate::scene::*;
use i_overlay::core::divide::ContourDecomposition;
use i_overlay::i_float::int::point::IntPoint;
use serde_json::{Value, json};
use std::sync::Mutex;

fn word(r: &mut Rng, id: usize) -> Contour {
    let m = r.range(1, 4);
    let n = r.range(1, 16) as usize;
    let mut c: Contour = Vec::new();
    match id % 4 {
        // any walk
        0 => {
            while c.len() < n {
                let p = (r.range(0, m), r.range(0, m));
                if c.last() != Some(&p) {
                    c.push(p);
                }
            }
        }
        // loops put into loops, the way faces touch themselves
        1 => {
            let mut next = 0;
            let mut fresh = |k: i64| -> Contour {
                (0..k)
                    .map(|_| {
                        next += 1;
                        (next * 7 % 23 - 11, next * 5 % 19 - 9)
                    })
                    .collect()
            };
            let k = r.range(2, 5);
            c = fresh(k);
            for _ in 0..r.range(0, 4) {
                let k = r.range(1, 4);
                let l = fresh(k);
                let i = r.below(c.len());
                let p = c[i];
                let tail = c.split_off(i + 1);
                c.extend(l);
                c.push(p);
                c.extend(tail);
            }
            let i = r.below(c.len());
            c.rotate_left(i);
        }
        // points that follow themselves
        2 => {
            for _ in 0..n {
                c.push(if r.chance(1, 3) && !c.is_empty() { c[c.len() - 1] } else { (r.range(0, m), r.range(0, m)) });
            }
            return c;
        }
        // no point twice
        _ => {
            for i in 0..n as i64 {
                c.push((r.range(-9, 9), i));
            }
            let i = r.below(c.len());
            c.rotate_left(i);
        }
    }
    while c.len() > 1 && c[0] == c[c.len() - 1] {
        c.pop();
    }
    c
}

pub fn record(o: &Opt) {
    let rep = Report::new(text(o, "out"));
    let (seed, n) = (num(o, "seed", 1), num(o, "n", 1000) as usize);
    let rows: Mutex<Vec<(usize, Value)>> = Mutex::new(Vec::new());
    let done = crate::pool::run(&rep, n, num(o, "budget", 600) as f64, |i| {
        let mut r = Rng::mix(&[seed, i as u64, 0xd171de]);
        let c = word(&mut r, i);
        let k = *r.pick(&[1, 1, 7, 100_000_000]);
        let ic: Vec<IntPoint> = c.iter().map(|p| IntPoint::new((p.0 * k) as i32, (p.1 * k) as i32)).collect();
        match guard(rep.t0, i as u64, r.next(), || ic.decompose_contours()) {
            Err(p) => rep.violation(json!({"case": i, "contour": c_json(&c), "what": format!("panic: {p}")})),
            Ok(got) => {
                let out: Vec<Value> = got.iter().flatten().map(|c| json!(c.iter().map(|p| [p.x as i64 / k, p.y as i64 / k]).collect::<Vec<_>>())).collect();
                rows.lock().unwrap().push((i, json!({"id": i + 1, "c": c_json(&c), "none": got.is_none(), "out": out})));
            }
        }
    });
    let mut rows = rows.into_inner().unwrap();
    rows.sort_by_key(|r| r.0);
    for r in rows.iter().take(3) {
        rep.sample(r.1.clone());
    }
    write_lines(text(o, "traces"), rows.into_iter().map(|r| r.1));
    rep.count("contours", done as u64);
    rep.finish();
}
