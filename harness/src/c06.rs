//! On an oriented cube every move does what the notation says in the orientation it is held in.
use crate::{big::*, geo, harnesses, vf::*};
use barbarosa::cube_n::moves::ExtendedAxisMove;
use barbarosa::cube_n::{Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, CubeN, Orientable};
use barbarosa::generic::Movable;

/// The physical effect of an extended move
fn physical(n: i8, m: &ExtendedAxisMove, s: geo::Seen) -> geo::Seen {
    match m {
        ExtendedAxisMove::Regular(m) => s.face_turned(n, &m.face, 0, m.amount),
        ExtendedAxisMove::Rotation(r) => s.turned(geo::ax(r.axis), geo::quarters(r.amount)),
        ExtendedAxisMove::Wide(m) => {
            let depth = if m.depth() > 7 { 7 } else { m.depth() as i8 };
            s.face_turned(n, m.face(), depth, m.amount())
        }
        ExtendedAxisMove::Slice { rot, wide } => {
            let outer = if *wide { n / 2 - 1 } else { 0 };
            let c = geo::at(s.p, geo::ax(rot.axis));
            let c = if c < 0 { -c } else { c };
            if c < n - 1 - 2 * outer {
                s.turned(geo::ax(rot.axis), geo::quarters(rot.amount))
            } else {
                s
            }
        }
    }
}
struct Held<'a> {
    before: geo::Frame,
    after: geo::Frame,
    m: &'a ExtendedAxisMove,
}
impl Turn for Held<'_> {
    fn turn(&self, n: i8, s: geo::Seen) -> geo::Seen {
        physical(n, self.m, self.before.see(s))
    }
    fn see(&self, s: geo::Seen) -> geo::Seen {
        self.after.see(s)
    }
}
fn held<C: Big + CubeN>(w: Which)
where
    Orientable<C>: Movable<ExtendedAxisMove>,
{
    let m = extended();
    let mut cube = Orientable::<C>::new(C::arbitrary_some(w));
    cube.orientation = orientation();
    let mut after = cube.clone();
    Movable::<ExtendedAxisMove>::apply(&mut after, &m);
    let t = Held { before: geo::Frame::of(&cube.orientation), after: geo::Frame::of(&after.orientation), m: &m };
    cube.base_cube.compare_some(&mut after.base_cube, &t, w);
    // the centers of an odd cube do not move on the base cube
    if C::SIZE % 2 == 1 {
        for a in 0..3 {
            let s = geo::Seen { p: geo::unit(a, C::SIZE - 1), s: 3 };
            check(t.see(s) == t.turn(C::SIZE, s), 20);
        }
    }
}

harnesses! {
    h_c06_cube2 { held::<Cube2>(Which::All); cover(1); }
    h_c06_cube3 { held::<Cube3>(Which::All); cover(1); }
    h_c06_cube4 { held::<Cube4>(Which::Ends); cover(1); }
    h_c06_cube4_all { held::<Cube4>(Which::All); cover(1); }
    h_c06_cube5 { held::<Cube5>(Which::Ends); cover(1); }
    h_c06_cube5_all { held::<Cube5>(Which::All); cover(1); }
    h_c06_cube6 { held::<Cube6>(Which::Ends); cover(1); }
    h_c06_cube6_all { held::<Cube6>(Which::All); cover(1); }
    h_c06_cube7 { held::<Cube7>(Which::Ends); cover(1); }
    h_c06_cube7_all { held::<Cube7>(Which::All); cover(1); }
}
