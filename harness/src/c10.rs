//! A random cube is always solvable.
use crate::{geo, harnesses, vf::*};
use barbarosa::cube_n::invariants::fix_swap_parity;
use barbarosa::cube_n::pieces::{corner::CornerSet, edge::EdgeSet, Corner, Edge};
use barbarosa::cube_n::{Cube2, Cube3};
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::Cube;
use rand::{Error, Rng, RngCore};

/// A random source: some draws return any number, some one of two (that every range accepts), the others 0.
/// It gives out `left` numbers: more are only needed when numbers are rejected.
struct Dice {
    given: u32,
    left: u32,
    any: (u32, u32),
    half: (u32, u32),
}
impl Dice {
    fn zero() -> Self {
        Dice { given: 0, left: 10000, any: (0, 0), half: (0, 0) }
    }
}
impl RngCore for Dice {
    fn next_u32(&mut self) -> u32 {
        assume(self.left > 0);
        self.left -= 1;
        let i = self.given;
        self.given += 1;
        if self.any.0 <= i && i < self.any.1 {
            any(32) as u32
        } else if self.half.0 <= i && i < self.half.1 {
            below(2) << 31
        } else {
            0
        }
    }
    fn next_u64(&mut self) -> u64 {
        (self.next_u32() as u64) << 32 | self.next_u32() as u64
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u32() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

fn twist(c: &Corner) -> u32 {
    let s = geo::corner(3, c);
    let odd = s.p[0] * s.p[1] * s.p[2] < 0;
    match (s.s, odd) {
        (1, _) => 0,
        (2, false) | (0, true) => 1,
        _ => 2,
    }
}
fn corner_places(s: &CornerSet) -> [i32; 8] {
    let mut o = [0; 8];
    for (c, o) in s.iter().zip(o.iter_mut()) {
        let p = geo::corner(3, c).p;
        *o = (p[0] > 0) as i32 + 2 * (p[1] > 0) as i32 + 4 * (p[2] > 0) as i32;
    }
    o
}
fn edge_places(s: &EdgeSet) -> [i32; 12] {
    let mut o = [0; 12];
    for (e, o) in s.iter().zip(o.iter_mut()) {
        let p = geo::edge(3, e).p;
        *o = p[0] as i32 + 3 * p[1] as i32 + 9 * p[2] as i32;
    }
    o
}
/// All different?
fn distinct(a: &[i32]) -> bool {
    let mut ok = true;
    for i in 0..a.len() {
        for j in 0..i {
            ok &= a[i] != a[j];
        }
    }
    ok
}
/// Parity of the permutation from the places in `a` to those in `b`
fn odd(a: &[i32], b: &[i32]) -> bool {
    let mut o = false;
    for i in 0..a.len() {
        for j in 0..i {
            o ^= (a[j] < a[i]) != (b[j] < b[i]);
        }
    }
    o
}
fn check_corners(c: &CornerSet) {
    check(c.iter().map(twist).sum::<u32>() % 3 == 0, 1);
    check(distinct(&corner_places(c)), 2);
}
fn check_cube(c: &Cube3) {
    check_corners(&c.corners);
    check(c.edges.iter().map(|e| !e.oriented as u32).sum::<u32>() % 2 == 0, 3);
    check(distinct(&edge_places(&c.edges)), 4);
    check(odd(&corner_places(&CornerSet::SOLVED), &corner_places(&c.corners)) == odd(&edge_places(&EdgeSet::SOLVED), &edge_places(&c.edges)), 5);
}
fn needed(f: impl Fn(&mut Dice)) -> u32 {
    let mut d = Dice::zero();
    f(&mut d);
    d.given
}
fn swap_edges(c: &mut Cube3, a: u32, b: u32) {
    c.edges.swap(&Edge::REFERENCE_POSITIONS[a as usize], &Edge::REFERENCE_POSITIONS[b as usize]);
}
fn swap_corners(c: &mut Cube3, a: u32, b: u32) {
    c.corners.swap(&Corner::REFERENCE_POSITIONS[a as usize], &Corner::REFERENCE_POSITIONS[b as usize]);
}
fn sample3(d: &mut Dice) -> Cube3 {
    d.gen()
}

/// `k` draws from the `s`th on are any number, those for the turns one of two
fn sample(k: u32, s: u32) {
    let n = needed(|d| { sample3(d); });
    let mut d = Dice { given: 0, left: n, any: (s, s + k), half: (18, 10000) };
    let c = sample3(&mut d);
    cover(1);
    check_cube(&c);
}
fn edge_swaps(n: u32) {
    let mut c = Cube3::SOLVED;
    for i in 0..n {
        swap_edges(&mut c, i, i + below(12 - i));
    }
    swap_corners(&mut c, 0, below(8));
    fix_swap_parity(&mut c);
    cover(1);
    check_cube(&c);
}

harnesses! {
    /// Corners in any of their 8! arrangements
    h_c10_swaps {
        let mut c = Cube3::SOLVED;
        for i in 0..7 {
            swap_corners(&mut c, i, i + below(8 - i));
        }
        swap_edges(&mut c, 0, below(12));
        fix_swap_parity(&mut c);
        cover(1);
        check_cube(&c);
    }
    h_c10_edge_swaps { edge_swaps(4) }
    h_c10_edge_swaps_six { edge_swaps(6) }
    h_c10_turns {
        let n = needed(|d| { sample3(d); });
        let mut d = Dice { given: 0, left: n, any: (18, 10000), half: (0, 0) };
        let c = sample3(&mut d);
        cover(1);
        check_cube(&c);
    }
    h_c10_sample { sample(2, below(17)) }
    h_c10_sample_three { sample(3, below(16)) }
    h_c10_cube2 {
        let n = needed(|d| { let _: Cube2 = d.gen(); });
        let s = below(5);
        let mut d = Dice { given: 0, left: n, any: (s, s + 3), half: (0, 10000) };
        let c: Cube2 = d.gen();
        cover(1);
        check_corners(&c.corners);
    }
}
