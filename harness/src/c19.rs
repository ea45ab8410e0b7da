//! Moves that are found from states connect them, and are found if there are any.
use crate::{harnesses, vf::*};
use barbarosa::cube_n::pieces::{Corner, Edge};
use barbarosa::cube_n::{AxisMove, Cube2};
use barbarosa::generic::moves::connect;
use barbarosa::generic::{Alg, Cube, Movable};

/// A corner and two edges: a small thing that can be moved
#[derive(Clone, PartialEq, Eq, Debug)]
struct Few(Corner, Edge, Edge);
impl Movable<AxisMove> for Few {
    fn apply(&mut self, m: &AxisMove) {
        self.0.apply(m);
        self.1.apply(m);
        self.2.apply(m);
    }
}
fn few() -> Few {
    Few(corner(), edge(), edge())
}
fn connected(a: &Few, b: &Few) -> bool {
    AxisMove::all().iter().any(|m| a.clone().moved(m) == *b)
}

harnesses! {
    h_c19_connect {
        let (a, b, m) = (few(), few(), axis_move());
        match connect::<AxisMove, _>(&a, &b) {
            Some(found) => {
                check(a.clone().moved(&found) == b, 1);
                cover(1);
            }
            None => {
                check(a.moved(&m) != b, 2);
                cover(2);
            }
        }
    }
    h_c19_connect_solved {
        let a = Cube2::SOLVED;
        let m = axis_move();
        let b = a.clone().moved(&m);
        check(connect::<AxisMove, _>(&a, &b) == Some(m), 1);
        cover(1);
    }
    h_c19_states {
        let s = [few(), few(), few()];
        match Alg::<AxisMove>::try_from_states(&s[..]) {
            Ok(alg) => {
                check(alg.moves.len() == 2, 1);
                check(s[0].clone().moved(&alg.moves[0]) == s[1], 2);
                check(s[1].clone().moved(&alg.moves[1]) == s[2], 3);
                cover(1);
            }
            Err(_) => {
                check(!(connected(&s[0], &s[1]) && connected(&s[1], &s[2])), 4);
                cover(2);
            }
        }
    }
    h_c19_short {
        let s = [few()];
        check(Alg::<AxisMove>::try_from_states(&s[..]).unwrap().moves.is_empty(), 1);
        check(Alg::<AxisMove>::try_from_states(&s[..0]).unwrap().moves.is_empty(), 2);
        cover(1);
    }
    /// An alg is found again from the states it goes through (up to moves that do the same)
    h_c19_alg {
        let m = [axis_move(), axis_move()];
        let a = few();
        let b = a.clone().moved(&m[0]);
        let c = b.clone().moved(&m[1]);
        let alg = Alg::<AxisMove>::try_from(&[a.clone(), b, c.clone()][..]).unwrap();
        check(a.moved(&alg) == c, 1);
        cover(1);
    }
}
