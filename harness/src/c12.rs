//! The numbering of corner and edge configurations is perfect.
use crate::{geo, harnesses, vf::*};
use barbarosa::cube_n::cube3::mus::deindex::Deindexable;
use barbarosa::cube_n::cube3::mus::index::{Indexable, OrientationIndexable, PositionIndexable};
use barbarosa::cube_n::pieces::{Corner, Edge};
use barbarosa::cube_n::Cube3;
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::Cube;

type Corners = [Corner; 8];
type Half = [Edge; 6];

/// A number below `n (n-1) .. (n-k+1)`, made of its digits
fn place_number(n: u32, k: u32, split: u32) -> usize {
    let mut digits = [0; 12];
    for i in 0..split {
        digits[i as usize] = below(n - i);
    }
    for i in split..k {
        digits[i as usize] = below(n - i);
    }
    let mut x = 0usize;
    for i in 0..k {
        x = x * (n - i) as usize + digits[i as usize] as usize;
    }
    x
}
/// A number below `base^k`, made of its digits
fn turn_number(base: u32, k: u32) -> usize {
    let mut x = 0usize;
    for _ in 0..k {
        x = x * base as usize + below(base) as usize;
    }
    x
}
fn corners(n: usize) {
    let c = Corners::from_index(n);
    cover(1);
    check(c.index() == n, 1);
    for i in 0..8 {
        for j in 0..i {
            check(c[i].position != c[j].position, 2);
        }
    }
    check(c.iter().map(geo::twist).sum::<u32>() % 3 == 0, 3);
}
fn half(n: usize) {
    let e = Half::from_index(n);
    cover(1);
    check(e.index() == n, 1);
    for i in 0..6 {
        for j in 0..i {
            check(geo::edge(3, &e[i]).p != geo::edge(3, &e[j]).p, 2);
        }
    }
}

harnesses! {
    h_c12_sizes {
        check(Corners::TOTAL_SET_SIZE == 88179840, 1);
        check(Half::TOTAL_SET_SIZE == 42577920, 2);
        let (c, e) = (corner(), edge());
        check(PositionIndexable::position_index(&c) < 8 && Corner::REFERENCE_POSITIONS[PositionIndexable::position_index(&c)] == c.position, 3);
        check(OrientationIndexable::orientation_index(&c) as u32 == geo::twist(&c), 4);
        let i = e.position_index();
        check(i < 12 && Edge::REFERENCE_POSITIONS[i] == (e.normal_axis, e.slice_position), 5);
        check(e.orientation_index() == !e.oriented as usize, 6);
        cover(1);
    }
    h_c12_corner_places { corners(place_number(8, 8, 3) * 2187) }
    h_c12_corner_twists {
        let p = below(6) as usize * 7919;
        corners(p * 2187 + turn_number(3, 7))
    }
    h_c12_corners { corners(place_number(8, 8, 4) * 2187 + turn_number(3, 7)) }
    h_c12_edge_places { half(place_number(12, 6, 3) * 64) }
    h_c12_edge_flips { half(below(7) as usize * 99991 * 64 + turn_number(2, 6)) }
    h_c12_edges { half(place_number(12, 6, 3) * 64 + turn_number(2, 6)) }
    /// A cube is its three numbers
    h_c12_cube {
        let mut c = Cube3::SOLVED;
        let a = below(12) as usize;
        c.edges.swap(&Edge::REFERENCE_POSITIONS[a], &Edge::REFERENCE_POSITIONS[(5 * a + 7) % 12]);
        c.corners.swap(&Corner::REFERENCE_POSITIONS[a % 8], &Corner::REFERENCE_POSITIONS[(a + 3) % 8]);
        c.edges.iter_mut_unchecked().skip(4).take(4).for_each(|p| p.oriented = any_bool());
        let mut sum = 0;
        c.corners.iter_mut_unchecked().enumerate().for_each(|(i, p)| {
            if i % 3 == 1 {
                p.orientation_axis = axis();
            }
            sum += geo::twist(p)
        });
        assume(sum % 3 == 0);
        let again = Cube3::from_indices(c.indices());
        cover(1);
        check(again == c, 1);
    }
}
