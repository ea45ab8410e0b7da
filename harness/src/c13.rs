//! The estimate from the tables.
use crate::{geo, harnesses, vf::*};
use barbarosa::cube_n::cube3::heuristics::{mus, mus_with_fallback};
use barbarosa::cube_n::cube3::mus::cache::verif;
use barbarosa::cube_n::cube3::mus::deindex::Deindexable;
use barbarosa::cube_n::cube3::mus::index::Indexable;
use barbarosa::cube_n::moves::rotation::{AxisRotation, Rotatable};
use barbarosa::cube_n::moves::Amount;
use barbarosa::cube_n::pieces::{Corner, Edge};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::{AxisMove, Cube3};
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::{Cube, Movable};

type Corners = [Corner; 8];
type Half = [Edge; 6];

/// A family of arrangements that are far apart in the tables
fn cube(a: usize) -> Cube3 {
    let mut c = Cube3::SOLVED;
    c.edges.swap(&Edge::REFERENCE_POSITIONS[a], &Edge::REFERENCE_POSITIONS[(5 * a + 7) % 12]);
    c.edges.swap(&Edge::REFERENCE_POSITIONS[(a + 5) % 12], &Edge::REFERENCE_POSITIONS[(7 * a + 2) % 12]);
    c.corners.swap(&Corner::REFERENCE_POSITIONS[a % 8], &Corner::REFERENCE_POSITIONS[(a + 3) % 8]);
    c.edges.iter_mut_unchecked().for_each(|p| p.oriented = any_bool());
    let (mut i, mut sum) = (0, 0);
    c.corners.iter_mut_unchecked().for_each(|p| {
        if i % 3 == 0 || i == 7 {
            p.orientation_axis = axis();
        }
        i += 1;
        sum += geo::twist(p)
    });
    assume(sum % 3 == 0);
    c
}
/// The half turn of the whole cube that brings the second half of the edges onto the first
fn half_turn() -> AxisRotation {
    AxisRotation::new(Axis::X, Amount::Double)
}
fn turned(e: &[Edge]) -> Half {
    let mut h: Half = e.to_vec().try_into().unwrap();
    h.iter_mut().for_each(|p| p.rotate(&half_turn()));
    h
}
/// The tables, with arbitrary entries for this cube and zeros elsewhere; and what the estimate has to be
fn tables(c: &Cube3) -> (Vec<u8>, Vec<u8>, u8) {
    let mut corners = vec![0u8; Corners::TOTAL_SET_SIZE];
    let mut edges = vec![0u8; Half::TOTAL_SET_SIZE];
    let first: Half = c.edges.pieces()[..6].to_vec().try_into().unwrap();
    let (i, j, k) = (c.corners.pieces().index(), first.index(), turned(&c.edges.pieces()[6..]).index());
    corners[i] = any(8) as u8;
    edges[j] = any(8) as u8;
    edges[k] = any(8) as u8;
    let most = corners[i].max(edges[j]).max(edges[k]);
    (edges, corners, most)
}
/// What the half turn makes of a move
fn conjugate(m: &AxisMove) -> AxisMove {
    let d = if m.face.axis == Axis::X {
        m.face.direction
    } else if m.face.direction == Direction::Positive {
        Direction::Negative
    } else {
        Direction::Positive
    };
    AxisMove::new(Face::new(m.face.axis, d), m.amount)
}

harnesses! {
    h_c13_lookup {
        let c = cube(below(12) as usize);
        let (edges, corners, most) = tables(&c);
        let cache = verif::new(edges, corners);
        cover(1);
        check(cache.get(&c) == most, 1);
    }
    /// The estimates of the library: nothing, then the tables, behind the shared cache
    h_c13_estimate {
        let c = cube(below(12) as usize);
        let guess = any(10) as u32 as f32 / 4.0;
        check(mus_with_fallback(|_| guess)(&c) == guess, 1);
        let (edges, corners, most) = tables(&c);
        check(verif::install(verif::new(edges, corners)), 2);
        check(mus_with_fallback(|_| guess)(&c) == most as f32, 3);
        check(mus(&c) == most as f32, 4);
        cover(1);
    }
    /// Why the second half may be looked up in the table of the first
    h_c13_symmetry {
        let e = edge();
        let m = axis_move();
        let mut t = e.clone();
        t.rotate(&half_turn());
        let mut a = t.clone();
        a.apply(&conjugate(&m));
        let mut b = e.clone();
        b.apply(&m);
        b.rotate(&half_turn());
        check(a == b, 1);
        let mut back = t.clone();
        back.rotate(&half_turn());
        check(back == e, 2);
        let solved = turned(&Cube3::SOLVED.edges.pieces()[6..]);
        let i = below(6) as usize;
        check(solved[i] == Cube3::SOLVED.edges.pieces()[i], 3);
        check(solved.index() == 0, 4);
        check(Half::from_index(0)[i] == Cube3::SOLVED.edges.pieces()[i], 5);
        let z = Cube3::SOLVED.indices();
        check(z.corners == 0 && z.edges == [0, 0], 6);
        cover(1);
    }
    /// The numbers of any cube lie in the tables
    h_c13_inside {
        let mut c = Cube3::SOLVED;
        let s = (below(12) as usize, below(12) as usize);
        c.edges.swap(&Edge::REFERENCE_POSITIONS[s.0], &Edge::REFERENCE_POSITIONS[s.1]);
        c.corners.swap(&Corner::REFERENCE_POSITIONS[s.0 % 8], &Corner::REFERENCE_POSITIONS[s.1 % 8]);
        c.edges.iter_mut_unchecked().for_each(|p| p.oriented = any_bool());
        c.corners.iter_mut_unchecked().for_each(|p| p.orientation_axis = axis());
        let i = c.indices();
        check(i.corners < Corners::TOTAL_SET_SIZE, 1);
        check(i.edges[0] < Half::TOTAL_SET_SIZE && i.edges[1] < Half::TOTAL_SET_SIZE, 2);
        cover(1);
    }
}
