//! A puzzle with a handful of states whose moves lead anywhere.
use crate::vf::*;
use barbarosa::generic::moves::AsMove;
use barbarosa::generic::{Cube, Movable, Move};

pub const STATES: usize = 4;
/// Where a move leads from a state
pub static mut TABLE: [[u8; 2]; STATES] = [[0; 2]; STATES];

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Toy(pub u8);
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Turn(pub u8);

impl Move for Turn {
    fn inverse(&self) -> Self {
        self.clone()
    }
}
impl AsMove for Toy {
    type Move = Turn;
}
pub fn step(s: u8, m: u8) -> u8 {
    unsafe { TABLE[s as usize][m as usize] }
}
impl Movable<Turn> for Toy {
    fn apply(&mut self, m: &Turn) {
        self.0 = step(self.0, m.0);
    }
}
impl Cube for Toy {
    const SOLVED: Self = Toy(0);
}
pub fn successors(t: &Toy) -> [(Toy, Turn); 2] {
    [(Toy(step(t.0, 0)), Turn(0)), (Toy(step(t.0, 1)), Turn(1))]
}
/// Any moves on `n` states
pub fn any_table(n: usize) {
    for s in 0..n {
        for m in 0..2 {
            unsafe { TABLE[s][m] = below(n as u32) as u8 };
        }
    }
}
pub const FAR: u8 = 100;
/// Least number of moves to a target
pub fn distances(n: usize, target: &[bool; STATES]) -> [u8; STATES] {
    let mut d = [FAR; STATES];
    for s in 0..n {
        if target[s] {
            d[s] = 0;
        }
    }
    for _ in 1..n {
        let old = d;
        for s in 0..n {
            for m in 0..2 {
                let t = old[step(s as u8, m) as usize] + 1;
                if t < d[s] {
                    d[s] = t;
                }
            }
        }
    }
    d
}
