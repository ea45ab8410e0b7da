//! What a search returns leads from the start to a target.
use crate::{harnesses, toy::*, vf::*};
use barbarosa::generic::search::{ida::IDASearcher, Searcher, Solver};
use barbarosa::generic::{Cube, Movable};

/// An estimate: any of some whole and broken numbers
fn estimate() -> f32 {
    match below(6) {
        0 => 0.0,
        1 => 1.0,
        2 => 2.0,
        3 => 0.5,
        4 => 1.25,
        _ => f32::INFINITY,
    }
}
fn search(n: usize, depth: i32) {
    any_table(n);
    let mut h = [0.0; STATES];
    let mut target = [false; STATES];
    for s in 0..n {
        h[s] = estimate();
        target[s] = any_bool();
    }
    let searcher = IDASearcher::new(|t: &Toy| h[t.0 as usize], successors, depth);
    let start = Toy(below(n as u32) as u8);
    match searcher.search(&start, |t| target[t.0 as usize]) {
        Some((alg, end)) => {
            check(target[end.0 as usize], 1);
            check(start.clone().moved(&alg) == end, 2);
            cover(1);
        }
        None => cover(2),
    }
    if let Some(alg) = searcher.solve(&start) {
        check(start.moved(&alg).is_solved(), 3);
        cover(3);
    }
}

harnesses! {
    h_c16_two { search(2, 3) }
    h_c16_three { search(3, 2) }
    h_c16_four { search(4, 3) }
}
