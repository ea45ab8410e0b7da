//! A face move of a 2x2 or 3x3 is the physical turn of that face.
use crate::{geo, harnesses, vf::*};
use barbarosa::cube_n::{Cube2, Cube3};
use barbarosa::generic::{Alg, Cube, Movable};
use barbarosa::cube_n::AxisMove;

/// Every slot of the cube holds an arbitrary piece
fn any_cube3() -> Cube3 {
    let mut c = Cube3::SOLVED;
    c.corners.iter_mut_unchecked().for_each(|p| *p = corner());
    c.edges.iter_mut_unchecked().for_each(|p| *p = edge());
    c
}

harnesses! {
    h_c01_cube3 {
        let before = any_cube3();
        let m = axis_move();
        let after = before.clone().moved(&m);
        cover(1);
        for (b, a) in before.corners.iter().zip(after.corners.iter()) {
            check(geo::corner(3, a) == geo::corner(3, b).face_turned(3, &m.face, 0, m.amount), 1);
        }
        for (b, a) in before.edges.iter().zip(after.edges.iter()) {
            check(geo::edge(3, a) == geo::edge(3, b).face_turned(3, &m.face, 0, m.amount), 2);
        }
    }
    h_c01_cube2 {
        let mut before = Cube2::SOLVED;
        before.corners.iter_mut_unchecked().for_each(|p| *p = corner());
        let m = axis_move();
        let after = before.clone().moved(&m);
        cover(1);
        for (b, a) in before.corners.iter().zip(after.corners.iter()) {
            check(geo::corner(2, a) == geo::corner(2, b).face_turned(2, &m.face, 0, m.amount), 1);
        }
    }
    /// A sequence of moves is the moves one after another, first to last
    h_c01_sequence {
        let mut before = Cube3::SOLVED;
        before.corners.iter_mut_unchecked().take(1).for_each(|p| *p = corner());
        before.edges.iter_mut_unchecked().take(1).for_each(|p| *p = edge());
        let moves = [axis_move(), axis_move(), axis_move()];
        let by_alg = before.clone().moved(&Alg::<AxisMove>::new(moves.to_vec()));
        let by_slice = before.clone().moved(&moves[..]);
        cover(1);
        let (mut c, mut e) = (geo::corner(3, &before.corners.pieces()[0]), geo::edge(3, &before.edges.pieces()[0]));
        for m in &moves {
            c = c.face_turned(3, &m.face, 0, m.amount);
            e = e.face_turned(3, &m.face, 0, m.amount);
        }
        check(geo::corner(3, &by_alg.corners.pieces()[0]) == c, 1);
        check(geo::edge(3, &by_alg.edges.pieces()[0]) == e, 2);
        check(geo::corner(3, &by_slice.corners.pieces()[0]) == c, 3);
        check(geo::edge(3, &by_slice.edges.pieces()[0]) == e, 4);
    }
}
