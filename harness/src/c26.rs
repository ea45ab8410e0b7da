//! Coordinates are where pieces are, and the Manhattan distances are sums of distances.
use crate::{geo, harnesses, vf::*};
use barbarosa::cube_n::cube3::heuristics::manhattan::*;
use barbarosa::cube_n::pieces::{Corner, Edge};
use barbarosa::cube_n::Cube3;
use barbarosa::generic::piece::{Coordinates, PieceSetDescriptor};
use barbarosa::generic::{Cube, Piece};
use nalgebra::Vector3;

fn homes() -> ([geo::P; 8], [geo::P; 12]) {
    (
        std::array::from_fn(|i| geo::corner(3, &<Corner as PieceSetDescriptor<8>>::SOLVED[i]).p),
        std::array::from_fn(|i| geo::edge(3, &<Edge as PieceSetDescriptor<12>>::SOLVED[i]).p),
    )
}
/// In sides of small cubes (places are counted in halves)
fn apart(a: geo::P, b: geo::P) -> i32 {
    (0..3).map(|i| ((a[i] - b[i]) as i32).abs() / 2).sum()
}
fn is(v: Vector3<f32>, p: geo::P) -> bool {
    v == Vector3::new(p[0] as f32, p[1] as f32, p[2] as f32) / 2.0
}

harnesses! {
    h_c26_coordinates {
        let c = corner();
        check(is(c.coordinates(), geo::corner(3, &c).p), 1);
        check(is(Corner::coordinates_pos(c.position()), geo::corner(3, &c).p), 2);
        let e = edge();
        check(is(e.coordinates(), geo::edge(3, &e).p), 3);
        check(is(Edge::coordinates_pos(e.position()), geo::edge(3, &e).p), 4);
        cover(1);
    }
    h_c26_pieces {
        let (c, d) = (corner(), corner());
        let n = apart(geo::corner(3, &c).p, geo::corner(3, &d).p);
        check(piece_manhattan(d.position, &c) == n as f32, 1);
        check(n <= 6, 2);
        let (e, g) = (edge(), edge());
        let n = apart(geo::edge(3, &e).p, geo::edge(3, &g).p);
        check(piece_manhattan(g.position(), &e) == n as f32, 3);
        cover(1);
    }
    /// Any two vectors of whole numbers from -2 to 1
    h_c26_vectors {
        let mut a = Vector3::zeros();
        let mut b = Vector3::zeros();
        let mut n = 0;
        for i in 0..3 {
            let (x, y) = (any(2) as i32 - 2, any(2) as i32 - 2);
            a[i] = x as f32;
            b[i] = y as f32;
            n += (x - y).abs();
        }
        cover(1);
        check(vec_manhattan(&a, &b) == n as f32, 1);
    }
    /// Vectors that differ along one axis by any number
    h_c26_along_axis {
        let mut a = Vector3::zeros();
        let mut b = Vector3::zeros();
        let (x, y) = (f32::from_bits(any(32) as u32), f32::from_bits(any(32) as u32));
        let k = below(3) as usize;
        for i in 0..3 {
            if i == k {
                a[i] = x;
                b[i] = y;
            }
        }
        assume(x - y == x - y);
        cover(1);
        check(vec_manhattan(&a, &b) == (x - y).abs(), 1);
    }
    /// Two corners and two edges are anywhere
    h_c26_cube {
        let mut c = Cube3::SOLVED;
        let j = below(12) as usize;
        let i = j % 8;
        let (hc, he) = homes();
        let mut n = 0;
        for k in [i, (i + 3) % 8] {
            let p = corner();
            n += apart(geo::corner(3, &p).p, hc[k]);
            *c.corners.iter_mut_unchecked().nth(k).unwrap() = p;
        }
        for k in [j, (j + 7) % 12] {
            let p = edge();
            n += apart(geo::edge(3, &p).p, he[k]);
            *c.edges.iter_mut_unchecked().nth(k).unwrap() = p;
        }
        cover_if(n > 12, 1);
        check(manhattan(&c) == n as f32 / 16.0, 1);
    }
    h_c26_filtered {
        let mut c = Cube3::SOLVED;
        let i = below(12) as usize;
        let (hc, he) = homes();
        let wanted = edge();
        let p = edge();
        *c.edges.iter_mut_unchecked().nth(i).unwrap() = p.clone();
        // chosen by where they belong, then by what they are
        let at_home = wanted.position() == Edge::REFERENCE_POSITIONS[i];
        let n = apart(geo::edge(3, &p).p, he[i]);
        check(manhattan_filtered(&c.edges, |pos, _| *pos == wanted.position()) == if at_home { n as f32 } else { 0.0 }, 1);
        check(manhattan_filtered(&c.edges, |_, q| *q == p) == n as f32, 2);
        let i = i % 8;
        let q = corner();
        *c.corners.iter_mut_unchecked().nth(i).unwrap() = q.clone();
        let n = apart(geo::corner(3, &q).p, hc[i]);
        check(manhattan_filtered(&c.corners, |pos, _| *pos == Corner::REFERENCE_POSITIONS[i]) == n as f32, 3);
        check(manhattan_filtered(&c.corners, |_, _| true) == n as f32, 4);
        cover(1);
    }
    /// Every piece is anywhere: the distance is zero exactly when they are all at home
    h_c26_zero {
        let mut c = Cube3::SOLVED;
        c.corners.iter_mut_unchecked().for_each(|p| *p = corner());
        c.edges.iter_mut_unchecked().for_each(|p| *p = edge());
        let (hc, he) = homes();
        let home = c.corners.iter().enumerate().all(|(i, p)| geo::corner(3, p).p == hc[i])
            && c.edges.iter().enumerate().all(|(i, p)| geo::edge(3, p).p == he[i]);
        cover_if(home, 1);
        check((manhattan(&c) == 0.0) == home, 1);
    }
}
