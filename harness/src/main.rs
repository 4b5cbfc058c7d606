mod boolean;
mod crowd;
mod divide;
mod float;
mod geo;
mod pool;
mod rng;
mod mesh;
mod rlines;
mod rough;
mod rvectors;
mod scene;
mod session;
mod strings;
mod tiles;
mod modes;
mod vectors;

use std::collections::HashMap;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args.get(1).cloned().unwrap_or_default();
    let mut opt: HashMap<String, String> = HashMap::new();
    for a in &args[2..] {
        if let Some((k, v)) = a.trim_start_matches("--").split_once('=') {
            opt.insert(k.to_string(), v.to_string());
        }
    }
    modes::run(&mode, &opt);
}
