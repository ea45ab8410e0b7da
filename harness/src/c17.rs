//! With an estimate that never overestimates, a search finds a shortest solution.
use crate::{harnesses, toy::*, vf::*};
use barbarosa::generic::search::{ida::IDASearcher, Searcher};
use barbarosa::generic::Movable;

/// Estimates in whole moves, or in halves
fn search(n: usize, depth: i32, halves: bool) {
    any_table(n);
    let mut target = [false; STATES];
    for s in 0..n {
        target[s] = any_bool();
    }
    let d = distances(n, &target);
    let mut h = [0.0; STATES];
    for s in 0..n {
        let k = below(2 * n as u32) as u8;
        assume(halves || k % 2 == 0);
        assume(k <= 2 * d[s]);
        h[s] = match k {
            0 => 0.0,
            1 => 0.5,
            2 => 1.0,
            3 => 1.5,
            4 => 2.0,
            5 => 2.5,
            6 => 3.0,
            _ => 3.5,
        };
    }
    let searcher = IDASearcher::new(|t: &Toy| h[t.0 as usize], successors, depth);
    let start = Toy(below(n as u32) as u8);
    let best = d[start.0 as usize];
    match searcher.search(&start, |t| target[t.0 as usize]) {
        Some((alg, end)) => {
            check(best != FAR, 1);
            check(alg.moves.len() as u8 == best, 2);
            check(target[end.0 as usize] && start.moved(&alg) == end, 3);
            cover(1);
        }
        None => {
            check(best as i32 > depth || (halves && best != 0), 4);
            cover(2);
        }
    }
}

harnesses! {
    h_c17_two { search(2, 2, false) }
    h_c17_three { search(3, 2, false) }
    h_c17_three_limited { search(3, 1, false) }
    h_c17_three_halves { search(3, 4, true) }
    h_c17_four { search(4, 3, false) }
}
