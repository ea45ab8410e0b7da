//! A set of pieces holds every piece once: invalid arrays are refused, and pieces are found where they are.
use crate::{geo, harnesses, vf::*};
use barbarosa::cube_n::pieces::{corner::CornerSet, edge::EdgeSet, wing::WingSet};
use barbarosa::cube_n::pieces::center::{corner::CenterCornerSet, edge::CenterEdgeSet, wing::CenterWingSet};
use barbarosa::cube_n::{Corner, Edge};
use barbarosa::generic::{piece::PieceSetDescriptor, Piece};
use std::array::from_fn;

fn distinct<T: PartialEq>(a: &[T]) -> bool {
    let mut ok = true;
    for i in 0..a.len() {
        for j in 0..i {
            ok &= a[i] != a[j];
        }
    }
    ok
}

harnesses! {
    h_c23_new_corners {
        let c: [Corner; 8] = from_fn(|_| corner());
        let p = c.clone().map(|c| geo::corner(3, &c).p);
        let ok = distinct(&p);
        let r = CornerSet::new(c.clone());
        cover_if(ok, 1);
        cover_if(!ok, 2);
        check(r.is_ok() == ok, 1);
        if let Ok(s) = r {
            for i in 0..8 {
                check(s.pieces()[i] == c[i], 2);
            }
        }
    }
    h_c23_new_edges {
        let c: [Edge; 12] = from_fn(|_| edge());
        let p = c.clone().map(|c| geo::edge(3, &c).p);
        let ok = distinct(&p);
        let r = EdgeSet::new(c.clone());
        cover_if(ok, 1);
        cover_if(!ok, 2);
        check(r.is_ok() == ok, 1);
        if let Ok(s) = r {
            for i in 0..12 {
                check(s.pieces()[i] == c[i], 2);
            }
        }
    }
    /// Swapping exchanges the two pieces and nothing else
    h_c23_swap {
        let mut s = EdgeSet::SOLVED;
        s.iter_mut_unchecked().for_each(|e| *e = edge());
        let before = s.clone();
        let (i, j) = (below(12) as usize, below(12) as usize);
        s.swap(&Edge::REFERENCE_POSITIONS[i], &Edge::REFERENCE_POSITIONS[j]);
        cover_if(i == j, 1);
        cover_if(i != j, 2);
        for k in 0..12 {
            let from = if k == i { j } else if k == j { i } else { k };
            check(s.pieces()[k] == before.pieces()[from], 1);
        }
    }
    h_c23_swap_corners {
        let mut s = CornerSet::SOLVED;
        s.iter_mut_unchecked().for_each(|e| *e = corner());
        let before = s.clone();
        let (i, j) = (below(8) as usize, below(8) as usize);
        s.swap(&Corner::REFERENCE_POSITIONS[i], &Corner::REFERENCE_POSITIONS[j]);
        cover(1);
        for k in 0..8 {
            let from = if k == i { j } else if k == j { i } else { k };
            check(s.pieces()[k] == before.pieces()[from], 1);
        }
    }
    /// Looking a piece up by where it was, and by where it is
    h_c23_lookup {
        let c: [Corner; 8] = from_fn(|_| corner());
        let Ok(s) = CornerSet::new(c) else { return };
        cover(1);
        let i = below(8) as usize;
        let p = &Corner::REFERENCE_POSITIONS[i];
        check(s.piece_originally_at(p) == &s.pieces()[i], 1);
        check(s.at_index(i) == Some(&s.pieces()[i]), 2);
        let here = s.pieces()[i].position();
        check(s.original_position_of_piece_at(&here) == *p, 3);
        check(s.at_index(8).is_none(), 4);
    }
    h_c23_lookup_edges {
        let c: [Edge; 12] = from_fn(|_| edge());
        let Ok(s) = EdgeSet::new(c) else { return };
        cover(1);
        let i = below(12) as usize;
        let p = &Edge::REFERENCE_POSITIONS[i];
        check(s.piece_originally_at(p) == &s.pieces()[i], 1);
        let here = s.pieces()[i].position();
        check(s.original_position_of_piece_at(&here) == *p, 3);
    }
    /// The solved sets hold each place of the cube once, in the order of the reference positions
    h_c23_solved {
        let i = below(8) as usize;
        let j = below(8) as usize;
        let c = CornerSet::SOLVED;
        check((c.pieces()[i] == c.pieces()[j]) == (i == j), 1);
        check(c.pieces()[i].position() == Corner::REFERENCE_POSITIONS[i], 2);
        let (i, j) = (below(12) as usize, below(12) as usize);
        let e = EdgeSet::SOLVED;
        check((e.pieces()[i] == e.pieces()[j]) == (i == j), 3);
        check(e.pieces()[i].position() == Edge::REFERENCE_POSITIONS[i], 4);
        let (i, j) = (below(24) as usize, below(24) as usize);
        let w = WingSet::<1>::SOLVED;
        check((geo::wing(4, 1, &w.pieces()[i]) == geo::wing(4, 1, &w.pieces()[j])) == (i == j), 5);
        let x = CenterEdgeSet::<1>::SOLVED;
        check((geo::center_edge(5, 1, &x.pieces()[i]) == geo::center_edge(5, 1, &x.pieces()[j])) == (i == j), 6);
        let y = CenterCornerSet::<1>::SOLVED;
        check((y.pieces()[i] == y.pieces()[j]) == (i == j), 7);
        let (i, j) = (below(48) as usize, below(48) as usize);
        let z = CenterWingSet::<1, 2>::SOLVED;
        check((geo::center_wing(7, 1, 2, &z.pieces()[i]) == geo::center_wing(7, 1, 2, &z.pieces()[j])) == (i == j), 8);
        check(c.validate().is_none() && e.validate().is_none() && w.validate().is_none(), 9);
        check(x.validate().is_none() && y.validate().is_none() && z.validate().is_none(), 10);
        cover(1);
    }
}
