//! The interface to the symbolic engine (and to native replay), and generators of arbitrary values.

use barbarosa::cube_n::moves::{rotation::AxisRotation, Amount, NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::pieces::{center, Corner, Edge, Wing};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::moves::ExtendedAxisMove;
use barbarosa::cube_n::{AxisMove, Orientation, WideAxisMove};
use nalgebra::{Vector2, Vector3};

extern "C" {
    fn vf_below(n: u32) -> u32;
    fn vf_any(bits: u32) -> u64;
    fn vf_assume(c: bool);
    fn vf_check(c: bool, id: u32);
    fn vf_cover(id: u32);
}

/// An arbitrary number below `n`.
pub fn below(n: u32) -> u32 {
    unsafe { vf_below(n) }
}
pub fn any(bits: u32) -> u64 {
    unsafe { vf_any(bits) }
}
pub fn any_bool() -> bool {
    below(2) == 1
}
pub fn assume(c: bool) {
    unsafe { vf_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { vf_check(c, id) }
}
/// Marks a point that has to be reachable: guards against vacuous harnesses.
pub fn cover(id: u32) {
    unsafe { vf_cover(id) }
}
pub fn cover_if(c: bool, id: u32) {
    if c {
        unsafe { vf_cover(id) }
    }
}

pub fn dir() -> Direction {
    match below(2) {
        0 => Direction::Positive,
        _ => Direction::Negative,
    }
}
pub fn axis() -> Axis {
    match below(3) {
        0 => Axis::X,
        1 => Axis::Y,
        _ => Axis::Z,
    }
}
pub fn amount() -> Amount {
    match below(3) {
        0 => Amount::Single,
        1 => Amount::Double,
        _ => Amount::Inverse,
    }
}
pub fn face() -> Face {
    Face::new(axis(), dir())
}
pub fn axis_move() -> AxisMove {
    AxisMove::new(face(), amount())
}
pub fn quarter() -> QuarterAxisMove {
    QuarterAxisMove::new(face(), dir())
}
pub fn rotation() -> AxisRotation {
    AxisRotation::new(axis(), amount())
}
pub fn wide<const N: u32>() -> WideAxisMove<N> {
    WideAxisMove::new(face(), amount(), below(N + 1)).unwrap()
}
pub fn non_redundant() -> NonRedundantAxisMove {
    if any_bool() {
        NonRedundantAxisMove::Single(axis_move())
    } else {
        NonRedundantAxisMove::Double { axis: axis(), amount_positive: amount(), amount_negative: amount() }
    }
}
pub fn vec2() -> Vector2<Direction> {
    Vector2::new(dir(), dir())
}
pub fn vec3() -> Vector3<Direction> {
    Vector3::new(dir(), dir(), dir())
}
pub fn corner() -> Corner {
    Corner::new(vec3(), axis())
}
pub fn edge() -> Edge {
    Edge::new(axis(), vec2(), any_bool())
}
pub fn wing() -> Wing {
    Wing::new(axis(), vec2(), dir())
}
pub fn center_edge() -> center::edge::CenterEdge {
    center::edge::CenterEdge::new(face(), dir(), dir())
}
pub fn center_wing() -> center::wing::CenterWing {
    center::wing::CenterWing::new(face(), dir(), dir(), dir())
}
#[cfg(barbarosa_verif)]
pub fn center_corner() -> center::corner::CenterCorner {
    center::corner::CenterCorner::verif_new(vec3(), axis())
}
/// One of the 24 orientations
pub fn orientation() -> Orientation {
    let r = face();
    let u = Face::new(r.axis.next_with_handedness(dir()), dir());
    Orientation::try_from([r, u]).unwrap()
}
pub fn extended() -> ExtendedAxisMove {
    match below(4) {
        0 => ExtendedAxisMove::Regular(axis_move()),
        1 => ExtendedAxisMove::Rotation(rotation()),
        2 => ExtendedAxisMove::Wide(WideAxisMove::new(face(), amount(), any(32) as u32).unwrap()),
        _ => ExtendedAxisMove::Slice { rot: rotation(), wide: any_bool() },
    }
}
