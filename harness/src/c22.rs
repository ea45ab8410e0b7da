//! Faces, axes, directions, amounts and rotations behave like right-handed space.
use crate::geo::{self, at, ax, face_quarters, fvec, quarters, rot, rot_axis, sg, unit, v3, P};
use crate::{harnesses, vf::*};
use barbarosa::cube_n::moves::rotation::{rotate_vec2, AxisRotation, Rotatable};
use barbarosa::cube_n::moves::Amount;
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::generic::Move;
use nalgebra::Vector3;

fn dot(a: P, b: P) -> i8 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: P, b: P) -> P {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn neg(a: P) -> P {
    [-a[0], -a[1], -a[2]]
}
fn arr(v: Vector3<i8>) -> P {
    [v[0], v[1], v[2]]
}

harnesses! {
    h_c22_faces {
        let f = face();
        let g = face();
        check(fvec(&f.opposite()) == neg(fvec(&f)), 1);
        check(f.opposite().opposite() == f, 2);
        check(arr(f.coords()) == fvec(&f), 3);
        check(arr(Vector3::from(&f)) == fvec(&f), 4);
        check((f == g) == (fvec(&f) == fvec(&g)), 5);
        check(f.index() < 6, 6);
        check((f.index() == g.index()) == (f == g), 7);
        check(Face::iter().nth(f.index()) == Some(f.clone()), 8);
        check(Face::iter().count() == 6, 9);
        match f.cross(&g) {
            Some(c) => {
                cover(1);
                check(fvec(&c) == cross(fvec(&f), fvec(&g)), 10);
            }
            None => {
                cover(2);
                check(f.axis == g.axis, 11);
            }
        }
        check(fvec(&Face::R) == [1, 0, 0] && fvec(&Face::L) == [-1, 0, 0], 12);
        check(fvec(&Face::U) == [0, 1, 0] && fvec(&Face::D) == [0, -1, 0], 13);
        check(fvec(&Face::F) == [0, 0, 1] && fvec(&Face::B) == [0, 0, -1], 14);
    }
    h_c22_rotations {
        let f = face();
        let a = axis();
        check(fvec(&f.clone().next_around(&a)) == rot(ax(a), 1, fvec(&f)), 1);
        check(fvec(&f.clone().prev_around(&a)) == rot(ax(a), 3, fvec(&f)), 2);
        let r = rotation();
        let q = quarters(r.amount);
        check(fvec(&f.clone().rotated(&r)) == rot(ax(r.axis), q, fvec(&f)), 3);
        check(f.clone().rotated(&r).rotated(&r.inverse()) == f, 4);
        let v = vec3();
        check(v3(v.rotated(&r)) == rot(ax(r.axis), q, v3(v)), 5);
        check(ax(a.rotated(&r)) == rot_axis(ax(r.axis), q, ax(a)), 6);
        // rotating an edge, a corner
        let e = edge();
        check(geo::edge(3, &e.clone().rotated(&r)) == geo::edge(3, &e).turned(ax(r.axis), q), 7);
        let c = corner();
        check(geo::corner(3, &c.clone().rotated(&r)) == geo::corner(3, &c).turned(ax(r.axis), q), 8);
        let w = wing();
        check(geo::wing(4, 1, &w.clone().rotated(&r)) == geo::wing(4, 1, &w).turned(ax(r.axis), q), 9);
        let ce = center_edge();
        check(geo::center_edge(5, 1, &ce.clone().rotated(&r)) == geo::center_edge(5, 1, &ce).turned(ax(r.axis), q), 10);
        let cw = center_wing();
        check(geo::center_wing(7, 1, 2, &cw.clone().rotated(&r)) == geo::center_wing(7, 1, 2, &cw).turned(ax(r.axis), q), 11);
        cover(1);
    }
    /// The rotation of a move is the one that turns its face clockwise as seen from outside
    h_c22_moves {
        let m = axis_move();
        let r = AxisRotation::from(&m);
        check(r.axis == m.face.axis, 1);
        check(quarters(r.amount) == face_quarters(sg(m.face.direction), quarters(m.amount)), 2);
        // turning a move with the cube turns its face, and keeps which way it goes
        let t = rotation();
        let n = m.clone().rotated(&t);
        check(fvec(&n.face) == rot(ax(t.axis), quarters(t.amount), fvec(&m.face)), 3);
        check(n.amount == m.amount, 4);
        let i = AxisRotation::from(&m.inverse());
        check(i == r.inverse(), 5);
        cover(1);
    }
    h_c22_amounts {
        let (a, b) = (amount(), amount());
        let sum = (quarters(a) + quarters(b)) % 4;
        match a + b {
            Some(c) => {
                cover(1);
                check(quarters(c) == sum, 1);
            }
            None => {
                cover(2);
                check(sum == 0, 2);
            }
        }
        let d = dir();
        check(quarters(a * d) == face_quarters(sg(d), quarters(a)), 3);
        check(quarters(Amount::from(d)) == face_quarters(sg(d), 1), 4);
        check(sg(-d) == -sg(d), 5);
        check(d.scalar() == sg(d), 6);
        let v = vec2();
        let p = rot(2, quarters(a), [sg(v.x), sg(v.y), 0]);
        let w = rotate_vec2(&a, &v);
        check([sg(w.x), sg(w.y), 0] == p, 7);
    }
    h_c22_axes {
        let (a, b) = (axis(), axis());
        check(ax(a.next()) == (ax(a) + 1) % 3, 1);
        check(ax(a.prev()) == (ax(a) + 2) % 3, 2);
        check((ax(a) as i32 + a.offset(&b)) % 3 == ax(b) as i32, 3);
        check(a.offset(&b) >= 0 && a.offset(&b) < 3, 4);
        let [x, y] = Axis::basis(&a);
        check(cross(unit(ax(x), 1), unit(ax(y), 1)) == unit(ax(a), 1), 5);
        check(arr(Vector3::from(&a)) == unit(ax(a), 1), 6);
        let d = dir();
        check(a.next_with_handedness(d) == if d == Direction::Positive { a.next() } else { a.prev() }, 7);
        match a.get_handedness(&b) {
            Ok(h) => {
                cover(1);
                check(a.next_with_handedness(h) == b, 8);
            }
            Err(_) => {
                cover(2);
                check(a == b, 9);
            }
        }
        match Axis::other(&a, &b) {
            Some(c) => {
                cover(3);
                check(c != a && c != b && a != b, 10);
            }
            None => check(a == b, 11),
        }
        // looking at the slice of an axis
        let (p, q, r) = (any(8) as i8, any(8) as i8, any(8) as i8);
        let (s, t) = (any(8) as i8, any(8) as i8);
        let mut seen = [0; 2];
        let out = a.map_on_slice(Vector3::new(p, q, r), |[i, j]| {
            seen = [*i, *j];
            nalgebra::Vector2::new(s, t)
        });
        let v = [p, q, r];
        check(seen[0] == at(v, ax(x)) && seen[1] == at(v, ax(y)), 12);
        check(at(arr(out), ax(a)) == at(v, ax(a)) && at(arr(out), ax(x)) == s && at(arr(out), ax(y)) == t, 13);
        // a projection leaves the other coordinates, in their order
        let flat = barbarosa::generic::utils::slice_coords(Vector3::new(p, q, r), a);
        let (first, second) = match a {
            Axis::X => (q, r),
            Axis::Y => (p, r),
            Axis::Z => (p, q),
        };
        check(flat.x == first && flat.y == second, 14);
    }
    h_c22_contains {
        let f = face();
        let v = vec3();
        check(f.contains_vector(&v) == (dot(fvec(&f), v3(v)) == 1), 1);
        let e = edge();
        let p = geo::edge(3, &e).p;
        check(f.contains_edge(&e) == (dot(fvec(&f), p) == 2), 2);
        let [a, b] = e.faces();
        let (va, vb) = (fvec(&a), fvec(&b));
        check(p == [2 * (va[0] + vb[0]), 2 * (va[1] + vb[1]), 2 * (va[2] + vb[2])], 3);
        let c = corner();
        let [x, y, z] = c.faces();
        check(fvec(&x)[0] == v3(c.position)[0] && fvec(&y)[1] == v3(c.position)[1] && fvec(&z)[2] == v3(c.position)[2], 4);
        check(x.axis == Axis::X && y.axis == Axis::Y && z.axis == Axis::Z, 5);
        // an edge between two faces
        let (g, h) = (face(), face());
        match barbarosa::cube_n::Edge::try_from([g.clone(), h.clone()]) {
            Ok(e) => {
                cover(1);
                let p = geo::edge(3, &e).p;
                let (vg, vh) = (fvec(&g), fvec(&h));
                check(p == [2 * (vg[0] + vh[0]), 2 * (vg[1] + vh[1]), 2 * (vg[2] + vh[2])] && e.oriented, 6);
            }
            Err(_) => {
                cover(2);
                check(g.axis == h.axis, 7);
            }
        }
    }
}
