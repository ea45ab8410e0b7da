//! Doing a move and then its inverse, or an alg and then its reverse, restores every state.
use crate::{big::*, geo, harnesses, vf::*};
use barbarosa::cube_n::moves::{ExtendedAxisMove, NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::{AxisMove, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, CubeN, Orientable, WideAxisMove};
use barbarosa::generic::{Alg, Cube, Movable, Move};

fn undo<C: Big + Movable<M>, M: Move>(m: M) {
    let mut before = C::arbitrary();
    let mut after = before.clone();
    Movable::<M>::apply(&mut after, &m);
    Movable::<M>::apply(&mut after, &m.inverse());
    before.compare(&mut after, &Still);
}
struct Oriented(geo::Frame, geo::Frame);
impl Turn for Oriented {
    fn turn(&self, _: i8, s: geo::Seen) -> geo::Seen {
        self.0.see(s)
    }
    fn see(&self, s: geo::Seen) -> geo::Seen {
        self.1.see(s)
    }
}
fn undo_extended<C: Big + CubeN>(w: Which)
where
    Orientable<C>: Movable<ExtendedAxisMove>,
{
    let m = extended();
    let mut cube = Orientable::<C>::new(C::arbitrary_some(w));
    cube.orientation = orientation();
    let mut after = cube.clone();
    Movable::<ExtendedAxisMove>::apply(&mut after, &m);
    Movable::<ExtendedAxisMove>::apply(&mut after, &m.inverse());
    let t = Oriented(geo::Frame::of(&cube.orientation), geo::Frame::of(&after.orientation));
    cube.base_cube.compare_some(&mut after.base_cube, &t, w);
    if C::SIZE % 2 == 1 {
        check(cube.orientation == after.orientation, 20);
    }
}

harnesses! {
    h_c03_cube2 { undo::<Cube2, AxisMove>(axis_move()); cover(1); }
    h_c03_cube3 { undo::<Cube3, AxisMove>(axis_move()); cover(1); }
    h_c03_quarter { undo::<Cube3, QuarterAxisMove>(quarter()); cover(1); }
    h_c03_non_redundant { undo::<Cube3, NonRedundantAxisMove>(non_redundant()); cover(1); }
    h_c03_cube4_axis { undo::<Cube4, AxisMove>(axis_move()); cover(1); }
    h_c03_cube4 { undo::<Cube4, WideAxisMove<1>>(wide()); cover(1); }
    h_c03_cube5 { undo::<Cube5, WideAxisMove<1>>(wide()); cover(1); }
    h_c03_cube6 { undo::<Cube6, WideAxisMove<2>>(wide()); cover(1); }
    h_c03_cube7 { undo::<Cube7, WideAxisMove<2>>(wide()); cover(1); }
    h_c03_extended2 { undo_extended::<Cube2>(Which::All); cover(1); }
    h_c03_extended3 { undo_extended::<Cube3>(Which::All); cover(1); }
    h_c03_extended4 { undo_extended::<Cube4>(Which::Ends); cover(1); }
    h_c03_extended4_all { undo_extended::<Cube4>(Which::All); cover(1); }
    h_c03_extended5 { undo_extended::<Cube5>(Which::Ends); cover(1); }
    h_c03_extended5_all { undo_extended::<Cube5>(Which::All); cover(1); }
    h_c03_extended6 { undo_extended::<Cube6>(Which::Ends); cover(1); }
    h_c03_extended6_all { undo_extended::<Cube6>(Which::All); cover(1); }
    h_c03_extended7 { undo_extended::<Cube7>(Which::Ends); cover(1); }
    h_c03_extended7_all { undo_extended::<Cube7>(Which::All); cover(1); }
    h_c03_alg {
        let mut before = Cube3::SOLVED;
        before.corners.iter_mut_unchecked().take(2).for_each(|p| *p = corner());
        before.edges.iter_mut_unchecked().take(2).for_each(|p| *p = edge());
        let alg = Alg::<AxisMove>::new(vec![axis_move(), axis_move(), axis_move()]);
        let after = before.clone().moved(&alg).moved(&alg.reversed());
        cover(1);
        for i in 0..2 {
            check(after.corners.pieces()[i] == before.corners.pieces()[i], 1);
            check(after.edges.pieces()[i] == before.edges.pieces()[i], 2);
        }
        let back = alg.reversed();
        check(back.moves.len() == 3, 3);
        for i in 0..3 {
            check(back.moves[i] == alg.moves[2 - i].inverse(), 4);
        }
        check(back.reversed() == alg, 5);
    }
    /// The inverse of the inverse is the move itself
    h_c03_involution {
        let m = axis_move();
        check(m.inverse().inverse() == m, 1);
        let m = quarter();
        check(m.inverse().inverse() == m, 2);
        let m = non_redundant();
        check(m.inverse().inverse() == m, 3);
        let m = wide::<2>();
        check(m.inverse().inverse() == m, 4);
        let m = extended();
        check(m.inverse().inverse() == m, 5);
        let m = rotation();
        check(m.inverse().inverse() == m, 6);
        cover(1);
    }
}
