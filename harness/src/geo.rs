//! The oracle: a Rubik's cube as stickers in space, written from the notation alone.
//!
//! Axes are right-handed: R = +X, U = +Y, F = +Z. The small cubes of an N-cube are centred at
//! `-(N-1), -(N-3), .., N-1`. A clockwise turn of a face, as seen from outside, is a rotation by
//! -90 degrees about its outward normal.

use barbarosa::cube_n::moves::Amount;
use barbarosa::cube_n::space::{Axis, Direction, Face};

pub type P = [i8; 3];

pub fn ax(a: Axis) -> usize {
    match a {
        Axis::X => 0,
        Axis::Y => 1,
        Axis::Z => 2,
    }
}
pub fn sg(d: Direction) -> i8 {
    match d {
        Direction::Positive => 1,
        Direction::Negative => -1,
    }
}
/// Clockwise quarter turns
pub fn quarters(a: Amount) -> u8 {
    match a {
        Amount::Single => 1,
        Amount::Double => 2,
        Amount::Inverse => 3,
    }
}
/// `a` with `v` at `i`, without indexing by a symbolic number
fn with(mut p: P, i: usize, v: i8) -> P {
    for k in 0..3 {
        if k == i {
            p[k] = v;
        }
    }
    p
}
pub fn at(p: P, i: usize) -> i8 {
    match i {
        0 => p[0],
        1 => p[1],
        _ => p[2],
    }
}
/// Quarter turns of `p` by -90 degrees about the positive direction of `axis`
pub fn rot(axis: usize, q: u8, p: P) -> P {
    let (u, v) = match axis {
        0 => (p[1], p[2]),
        1 => (p[2], p[0]),
        _ => (p[0], p[1]),
    };
    let (u, v) = match q & 3 {
        0 => (u, v),
        1 => (v, -u),
        2 => (-u, -v),
        _ => (-v, u),
    };
    match axis {
        0 => [p[0], u, v],
        1 => [v, p[1], u],
        _ => [u, v, p[2]],
    }
}
/// The axis along which a sticker lies, after turning
pub fn rot_axis(axis: usize, q: u8, a: usize) -> usize {
    if q & 1 == 0 || a == axis {
        a
    } else {
        3 - axis - a
    }
}
/// Quarter turns about the positive direction of the face's axis that turning the face makes
pub fn face_quarters(d: i8, q: u8) -> u8 {
    if d > 0 {
        q & 3
    } else {
        (4 - (q & 3)) & 3
    }
}
/// Whether the small cube at `p` is one of the `depth + 1` layers of the face
pub fn in_layers(n: i8, axis: usize, d: i8, depth: i8, p: P) -> bool {
    at(p, axis) * d >= n - 1 - 2 * depth
}

/// A piece in space: where it is, and along which axis its marked sticker lies (3 if it needs no mark)
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Seen {
    pub p: P,
    pub s: usize,
}
impl Seen {
    pub fn turned(self, axis: usize, q: u8) -> Seen {
        Seen { p: rot(axis, q, self.p), s: if self.s == 3 { 3 } else { rot_axis(axis, q, self.s) } }
    }
    /// Turns the `depth + 1` outermost layers of a face, `q` quarter turns clockwise
    pub fn layers_turned(self, n: i8, axis: usize, d: i8, depth: i8, q: u8) -> Seen {
        if in_layers(n, axis, d, depth, self.p) {
            self.turned(axis, face_quarters(d, q))
        } else {
            self
        }
    }
    pub fn face_turned(self, n: i8, face: &Face, depth: i8, a: Amount) -> Seen {
        self.layers_turned(n, ax(face.axis), sg(face.direction), depth, quarters(a))
    }
}

pub fn fvec(f: &Face) -> P {
    with([0, 0, 0], ax(f.axis), sg(f.direction))
}

use barbarosa::cube_n::pieces::{center, Corner, Edge, Wing};
use nalgebra::{Vector2, Vector3};

pub fn v3(v: Vector3<Direction>) -> P {
    [sg(v[0]), sg(v[1]), sg(v[2])]
}
fn scale(p: P, k: i8) -> P {
    [p[0] * k, p[1] * k, p[2] * k]
}
/// The vector with `w` along `normal` and `v` on the two axes that follow it in X, Y, Z, X, ..
fn on_slice(normal: usize, w: i8, v: [i8; 2]) -> P {
    match normal {
        0 => [w, v[0], v[1]],
        1 => [v[1], w, v[0]],
        _ => [v[0], v[1], w],
    }
}
fn v2(v: Vector2<Direction>) -> [i8; 2] {
    [sg(v[0]), sg(v[1])]
}

pub fn corner(n: i8, c: &Corner) -> Seen {
    Seen { p: scale(v3(c.position), n - 1), s: ax(c.orientation_axis) }
}

/// The marked sticker of an edge: the one on U or D, or else the one on F or B
pub fn edge_mark(normal: usize) -> usize {
    match normal {
        0 => 1,
        1 => 2,
        _ => 1,
    }
}
pub fn edge(n: i8, e: &Edge) -> Seen {
    let normal = ax(e.normal_axis);
    let mark = edge_mark(normal);
    let [a, b] = v2(e.slice_position);
    Seen {
        p: on_slice(normal, 0, [a * (n - 1), b * (n - 1)]),
        s: if e.oriented { mark } else { 3 - normal - mark },
    }
}
/// A wing whose layer is the `depth`-th (0 would be a corner) from its side
pub fn wing(n: i8, depth: i8, w: &Wing) -> Seen {
    let [a, b] = v2(w.slice_position());
    let along = sg(w.normal_direction()) * (n - 1 - 2 * depth);
    Seen { p: on_slice(ax(w.normal_axis()), along, [a * (n - 1), b * (n - 1)]), s: 3 }
}
pub fn center_corner(n: i8, depth: i8, position: Vector3<Direction>, axis: Axis) -> Seen {
    let p = v3(position);
    let q = scale(p, n - 1 - 2 * depth);
    let a = ax(axis);
    Seen { p: with(q, a, at(p, a) * (n - 1)), s: 3 }
}
fn faces_pos(main: &Face, side: &Face, m: i8, s: i8) -> P {
    let p = with([0, 0, 0], ax(main.axis), sg(main.direction) * m);
    with(p, ax(side.axis), sg(side.direction) * s)
}
pub fn center_edge(n: i8, depth: i8, c: &center::edge::CenterEdge) -> Seen {
    Seen { p: faces_pos(&c.main_face, &c.side_face(), n - 1, n - 1 - 2 * depth), s: 3 }
}
pub fn center_wing(n: i8, nd: i8, td: i8, c: &center::wing::CenterWing) -> Seen {
    let (m, s) = (c.main_face(), c.side_face());
    let p = faces_pos(m, &s, n - 1, n - 1 - 2 * nd);
    let normal = 3 - ax(m.axis) - ax(s.axis);
    Seen { p: with(p, normal, sg(c.normal_direction()) * (n - 1 - 2 * td)), s: 3 }
}

use barbarosa::cube_n::Orientation;

/// The rotation of the whole cube that an orientation stands for
#[derive(Clone, Copy)]
pub struct Frame {
    pub r: P,
    pub u: P,
}
impl Frame {
    pub fn of(o: &Orientation) -> Frame {
        Frame { r: fvec(o.r_face()), u: fvec(&o.u_face()) }
    }
    /// What used to be in front is where R x U is
    pub fn f(&self) -> P {
        let (a, b) = (self.r, self.u);
        [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    }
    pub fn map(&self, p: P) -> P {
        let f = self.f();
        let mut o = [0; 3];
        for i in 0..3 {
            o[i] = p[0] * self.r[i] + p[1] * self.u[i] + p[2] * f[i];
        }
        o
    }
    pub fn axis(&self, a: usize) -> usize {
        let v = match a {
            0 => self.r,
            1 => self.u,
            _ => self.f(),
        };
        if v[0] != 0 {
            0
        } else if v[1] != 0 {
            1
        } else {
            2
        }
    }
    pub fn see(&self, s: Seen) -> Seen {
        Seen { p: self.map(s.p), s: if s.s == 3 { 3 } else { self.axis(s.s) } }
    }
}
/// The vector along `axis`
pub fn unit(axis: usize, v: i8) -> P {
    with([0, 0, 0], axis, v)
}

/// Thirds of a turn that a corner is twisted by
pub fn twist(c: &barbarosa::cube_n::pieces::Corner) -> u32 {
    let s = corner(3, c);
    let odd = s.p[0] * s.p[1] * s.p[2] < 0;
    match (s.s, odd) {
        (1, _) => 0,
        (2, false) | (0, true) => 1,
        _ => 2,
    }
}
