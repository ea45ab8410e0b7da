//! A kind of configuration with few values, two of the moves of which lead anywhere.
use crate::{fs, vf::*};
use barbarosa::cube_n::cube3::mus::cache::verif::DiskCacheable;
use barbarosa::cube_n::cube3::mus::deindex::Deindexable;
use barbarosa::cube_n::cube3::mus::index::{OrientationIndexable, PositionIndexable};
use barbarosa::cube_n::{moves::Amount, space::{Axis, Direction, Face}, AxisMove};
use barbarosa::generic::Movable;

pub const MOST: usize = 5;
/// The moves that do something, and where they lead
pub static mut MOVES: [Option<AxisMove>; 2] = [None, None];
pub static mut NEXT: [[u8; MOST]; 2] = [[0; MOST]; 2];

/// `P` places with `O` orientations each
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Small<const P: usize, const O: usize>(pub u8);

impl<const P: usize, const O: usize> PositionIndexable for Small<P, O> {
    fn position_index(&self) -> usize {
        self.0 as usize / O
    }
    const POSITION_SET_SIZE: usize = P;
}
impl<const P: usize, const O: usize> OrientationIndexable for Small<P, O> {
    fn orientation_index(&self) -> usize {
        self.0 as usize % O
    }
    const ORIENTATION_SET_SIZE: usize = O;
}
impl<const P: usize, const O: usize> Deindexable for Small<P, O> {
    fn from_index(index: usize) -> Self {
        Self(index as u8)
    }
}
impl<const P: usize, const O: usize> DiskCacheable for Small<P, O> {
    const PATH: &'static str = match std::str::from_utf8(fs::PATH) {
        Ok(s) => s,
        Err(_) => panic!(),
    };
}
impl<const P: usize, const O: usize> Movable<AxisMove> for Small<P, O> {
    fn apply(&mut self, m: &AxisMove) {
        for k in 0..2 {
            if unsafe { MOVES[k].as_ref() } == Some(m) {
                self.0 = unsafe { NEXT[k][self.0 as usize] };
                return;
            }
        }
    }
}
/// Any two moves (or two certain ones) that lead anywhere, but from which everything can be reached; and the distances from 0
pub fn any_moves(n: usize, which: bool) -> [u8; MOST] {
    unsafe {
        for k in 0..2 {
            for s in 0..n {
                NEXT[k][s] = below(n as u32) as u8;
            }
            MOVES[k] = Some(if which {
                axis_move()
            } else {
                AxisMove::new(Face::new(Axis::Y, Direction::Negative), [Amount::Double, Amount::Inverse][k].clone())
            });
        }
        assume(MOVES[0] != MOVES[1]);
        let mut d = [100; MOST];
        d[0] = 0;
        for _ in 1..n {
            for s in 0..n {
                for k in 0..2 {
                    let t = NEXT[k][s] as usize;
                    if d[s] + 1 < d[t] {
                        d[t] = d[s] + 1;
                    }
                }
            }
        }
        for s in 0..n {
            assume(d[s] < n as u8);
        }
        d
    }
}
