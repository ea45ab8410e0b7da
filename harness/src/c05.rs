//! Rotating a cube moves its whole frame rigidly, and the frame is always reported truthfully.
use crate::geo::{ax, fvec, quarters, rot, P};
use crate::{harnesses, vf::*};
use barbarosa::cube_n::moves::rotation::Rotatable;
use barbarosa::cube_n::{Cube3, Orientable, Orientation};
use barbarosa::generic::{Cube, Movable};
use barbarosa::cube_n::moves::ExtendedAxisMove;

fn turned(p: P, r: &barbarosa::cube_n::moves::rotation::AxisRotation) -> P {
    rot(ax(r.axis), quarters(r.amount), p)
}

harnesses! {
    /// A rotation turns the R and U faces of any orientation the way it turns space
    h_c05_rotate {
        let o = orientation();
        let r = rotation();
        let after = o.clone().rotated(&r);
        cover(1);
        check(fvec(after.r_face()) == turned(fvec(o.r_face()), &r), 1);
        check(fvec(&after.u_face()) == turned(fvec(&o.u_face()), &r), 2);
        // and going back is going back
        check(after.rotated(&r.inverse()) == o, 3);
    }
    /// The rotations of an orientation lead to it from the default one, and there are at most two
    h_c05_rotations {
        let o = orientation();
        let (mut r, mut u, mut n) = ([1, 0, 0], [0, 1, 0], 0);
        let mut reached = Orientation::default();
        for x in o.rotations() {
            r = turned(r, &x);
            u = turned(u, &x);
            reached.rotate(&x);
            n += 1;
        }
        cover_if(n == 0, 1);
        cover_if(n == 1, 2);
        cover_if(n == 2, 3);
        check(r == fvec(o.r_face()), 1);
        check(u == fvec(&o.u_face()), 2);
        check(reached == o, 3);
        check(n <= 2, 4);
    }
    /// Any two perpendicular faces make an orientation, parallel ones do not
    h_c05_from_faces {
        let (r, u) = (face(), face());
        match Orientation::try_from([r.clone(), u.clone()]) {
            Ok(o) => {
                cover(1);
                check(r.axis != u.axis, 1);
                check(*o.r_face() == r && o.u_face() == u, 2);
            }
            Err(_) => {
                cover(2);
                check(r.axis == u.axis, 3);
            }
        }
    }
    h_c05_default {
        let o = Orientation::default();
        check(fvec(o.r_face()) == [1, 0, 0] && fvec(&o.u_face()) == [0, 1, 0], 1);
        let c = Orientable::new(Cube3::SOLVED);
        check(c.orientation == o, 2);
        check(Orientable::<Cube3>::SOLVED.orientation == o, 3);
        check(o.rotations().next().is_none(), 4);
    }
    /// Rotating a held cube turns the frame and leaves its pieces alone
    h_c05_held {
        let mut c = Orientable::new(Cube3::SOLVED);
        c.orientation = orientation();
        let before = c.clone();
        let r = rotation();
        Movable::<ExtendedAxisMove>::apply(&mut c, &ExtendedAxisMove::Rotation(r.clone()));
        cover(1);
        check(c.base_cube == before.base_cube, 1);
        check(fvec(c.orientation.r_face()) == turned(fvec(before.orientation.r_face()), &r), 2);
        check(fvec(&c.orientation.u_face()) == turned(fvec(&before.orientation.u_face()), &r), 3);
    }
    /// Two orientations are equal only if both faces are
    h_c05_equal {
        let (a, b) = (orientation(), orientation());
        cover_if(a == b, 1);
        cover_if(a != b, 2);
        check((a == b) == (a.r_face() == b.r_face() && a.u_face() == b.u_face()), 1);
    }
}
