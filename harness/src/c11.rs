//! Moves never leave the set of solvable states.
use crate::{geo, harnesses, vf::*};
use barbarosa::cube_n::invariants::{fix_corner_multiplicity, fix_edge_flip_parity, fix_swap_parity};
use barbarosa::cube_n::pieces::{corner::CornerSet, edge::EdgeSet, Corner, Edge};
use barbarosa::cube_n::{Cube2, Cube3};
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::{Cube, Movable};

/// The pieces in their places, twisted and flipped in any way
fn any_corners() -> CornerSet {
    let mut s = CornerSet::SOLVED;
    s.iter_mut_unchecked().for_each(|p| p.orientation_axis = axis());
    s
}
fn any_edges() -> EdgeSet {
    let mut s = EdgeSet::SOLVED;
    s.iter_mut_unchecked().for_each(|p| p.oriented = any_bool());
    s
}
/// Counterclockwise thirds of a turn that a corner is twisted by, from geometry
fn twist(c: &Corner) -> u32 {
    let s = geo::corner(3, c);
    let odd = s.p[0] * s.p[1] * s.p[2] < 0;
    match (s.s, odd) {
        (1, _) => 0,
        (2, false) | (0, true) => 1,
        _ => 2,
    }
}
fn twists(s: &CornerSet) -> u32 {
    s.iter().map(twist).sum()
}
fn flips(s: &EdgeSet) -> u32 {
    s.iter().map(|e| !e.oriented as u32).sum()
}
/// A number for each place of a corner, and of an edge
fn corner_place(c: &Corner) -> u32 {
    let p = geo::corner(3, c).p;
    (p[0] > 0) as u32 + 2 * (p[1] > 0) as u32 + 4 * (p[2] > 0) as u32
}
fn edge_place(e: &Edge) -> u32 {
    let p = geo::edge(3, e).p;
    ((p[0] + 2) / 2 + 3 * ((p[1] + 2) / 2) + 9 * ((p[2] + 2) / 2)) as u32
}
/// Parity of the inversions relative to the order of the places before
fn odd(before: &[u32], after: &[u32]) -> bool {
    let mut o = false;
    for i in 0..before.len() {
        for j in 0..i {
            o ^= (before[j] < before[i]) != (after[j] < after[i]);
        }
    }
    o
}

harnesses! {
    h_c11_distinct {
        let m = axis_move();
        let (a, b) = (corner(), corner());
        assume(corner_place(&a) != corner_place(&b));
        check(corner_place(&a.moved(&m)) != corner_place(&b.moved(&m)), 1);
        let (a, b) = (edge(), edge());
        assume(edge_place(&a) != edge_place(&b));
        check(edge_place(&a.moved(&m)) != edge_place(&b.moved(&m)), 2);
        cover(1);
    }
    h_c11_corners {
        let before = any_corners();
        let m = axis_move();
        let after = before.clone().moved(&m);
        let mut two = Cube2::SOLVED;
        two.corners.iter_mut_unchecked().zip(before.iter()).for_each(|(x, y)| *x = y.clone());
        two.apply(&m);
        cover(1);
        check(twists(&after) % 3 == twists(&before) % 3, 1);
        check(twists(&two.corners) % 3 == twists(&before) % 3, 2);
        let places = |s: &CornerSet| { let mut o = [0; 8]; s.iter().zip(o.iter_mut()).for_each(|(c, o)| *o = corner_place(c)); o };
        check(odd(&places(&before), &places(&after)) == (geo::quarters(m.amount) % 2 == 1), 6);
    }
    h_c11_edges {
        let before = any_edges();
        let m = axis_move();
        let after = before.clone().moved(&m);
        cover(1);
        check(flips(&after) % 2 == flips(&before) % 2, 1);
        let places = |s: &EdgeSet| { let mut o = [0; 12]; s.iter().zip(o.iter_mut()).for_each(|(c, o)| *o = edge_place(c)); o };
        check(odd(&places(&before), &places(&after)) == (geo::quarters(m.amount) % 2 == 1), 2);
    }
    /// What the library counts are the twists
    h_c11_twist {
        let c = corner();
        cover(1);
        check(c.orientation_index() as u32 == twist(&c), 1);
        check(c.is_oriented() == (twist(&c) == 0), 2);
        let mut t = c.clone();
        t.twist();
        check(twist(&t) == (twist(&c) + 1) % 3 && t.position == c.position, 3);
        check(Corner::next_axis(&c.position, &c.orientation_axis) == t.orientation_axis, 4);
    }
    /// The repairs leave solvable twists and flips alone, and repair the others
    h_c11_fix_orientation {
        let count = |c: &CornerSet| c.iter().map(|c| c.orientation_index()).sum::<usize>();
        let mut c = any_corners();
        c.iter_mut_unchecked().for_each(|p| p.position = vec3());
        let before = c.clone();
        fix_corner_multiplicity(&mut c);
        cover(1);
        check(count(&c) % 3 == 0, 1);
        check(count(&before) % 3 != 0 || c == before, 2);
        for (x, y) in c.iter().zip(before.iter()) {
            check(x.position == y.position, 3);
        }
        let mut e = any_edges();
        e.iter_mut_unchecked().for_each(|p| { p.normal_axis = axis(); p.slice_position = vec2(); });
        let before = e.clone();
        fix_edge_flip_parity(&mut e);
        check(flips(&e) % 2 == 0, 4);
        check(flips(&before) % 2 != 0 || e == before, 5);
        for (x, y) in e.iter().zip(before.iter()) {
            check(x.normal_axis == y.normal_axis && x.slice_position == y.slice_position, 6);
        }
    }
    /// A cube that was reached by moves has nothing to repair
    h_c11_fix_swaps {
        let mut c = Cube3::SOLVED;
        c.apply(&axis_move());
        let before = c.clone();
        fix_swap_parity(&mut c);
        cover(1);
        check(c == before, 1);
        // the same with one swap too many
        c.corners.swap(&Corner::REFERENCE_POSITIONS[0], &Corner::REFERENCE_POSITIONS[1]);
        let before = c.clone();
        fix_swap_parity(&mut c);
        check(c.corners == before.corners && c.edges != before.edges, 2);
    }
}
