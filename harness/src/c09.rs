//! Random algs have the asked length and no redundant moves.
use crate::{harnesses, vf::*};
use barbarosa::cube_n::{AxisMove, WideAxisMove};
use barbarosa::generic::Alg;
use rand::{Error, Rng, RngCore};

/// A random source for choosing one of 45 moves, then ones of 30, where every move is kept with probability 1/n after n - 1 others.
/// The solver picks the one that is kept: it draws 0 there, and a number that means 1 elsewhere.
/// (Chosen in some other way, the moves are not all covered.)
struct Dice {
    among: u32,
    given: u32,
    zero: u32,
}
const DICE: Dice = Dice { among: 45, given: 0, zero: 0 };
impl RngCore for Dice {
    fn next_u32(&mut self) -> u32 {
        if self.given == self.among {
            self.given = 0;
            self.among = 30;
        }
        if self.given == 0 {
            self.zero = below(self.among / 5) * 5 + below(5);
        }
        self.given += 1;
        if self.given == 1 || self.zero + 1 == self.given {
            0
        } else {
            u32::MAX / self.given + 1
        }
    }
    fn next_u64(&mut self) -> u64 {
        (self.next_u32() as u64) << 32 | self.next_u32() as u64
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u32() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
/// Gives out any number, or 0
struct Free {
    left: u32,
    any: bool,
}
impl RngCore for Free {
    fn next_u32(&mut self) -> u32 {
        assume(self.left > 0);
        self.left -= 1;
        if self.any { any(32) as u32 } else { 0 }
    }
    fn next_u64(&mut self) -> u64 {
        (self.next_u32() as u64) << 32 | self.next_u32() as u64
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u32() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
fn wide_move<const N: u32>() {
    let mut d = Free { left: 10000, any: false };
    let _: WideAxisMove<N> = d.gen();
    d = Free { left: 10000 - d.left, any: true };
    let m: WideAxisMove<N> = d.gen();
    cover(1);
    check(m.depth() <= N, 1);
}
fn random(n: usize) {
    let alg = Alg::<AxisMove>::random_with_rng(n, &mut { DICE });
    cover(1);
    let m = &alg.moves;
    check(m.len() == n, 1);
    for i in 1..m.len() {
        let (a, b) = (&m[i - 1], &m[i]);
        check(a.face != b.face, 2);
        if i >= 2 {
            let c = &m[i - 2];
            check(!(c.face.axis == a.face.axis && a.face.axis == b.face.axis), 3);
        }
    }
}

harnesses! {
    h_c09_one { random(1) }
    h_c09_two { random(2) }
    h_c09_three { random(3) }
    h_c09_zero { random(0) }
    h_c09_four { random(4) }
    h_c09_five { random(5) }
    h_c09_eight { random(8) }
    h_c09_twelve { random(12) }
    h_c09_fifteen { random(15) }
    h_c09_unnormalized {
        let n = below(4) as usize;
        let mut d = Free { left: 10000, any: false };
        let _ = Alg::<AxisMove>::random_unnormalized_with_rng(n, &mut d);
        d = Free { left: 10000 - d.left, any: true };
        let alg = Alg::<AxisMove>::random_unnormalized_with_rng(n, &mut d);
        cover(1);
        check(alg.moves.len() == n, 1);
    }
    h_c09_wide { wide_move::<2>(); wide_move::<3>(); wide_move::<6>(); }
}
