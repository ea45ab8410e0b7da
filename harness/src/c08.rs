//! Non-redundant moves: absorbing a move is doing it, and the enumerations hold every move exactly once.
use crate::{geo, harnesses, vf::*};
use barbarosa::cube_n::moves::non_redundant::{absorve, AbsorveResult};
use barbarosa::cube_n::moves::NonRedundantAxisMove;
use barbarosa::cube_n::{AxisMove, Corner, Cube3, Edge};
use barbarosa::generic::{Cube, Movable};
use strum::IntoEnumIterator;

fn done(m: &Option<NonRedundantAxisMove>, c: &mut Corner, e: &mut Edge) -> usize {
    let mut n = 0;
    if let Some(m) = m {
        for x in m.moves() {
            c.apply(&x);
            e.apply(&x);
            n += 1;
        }
    }
    n
}

harnesses! {
    h_c08_absorve {
        let before = if any_bool() { Some(non_redundant()) } else { None };
        let m = axis_move();
        let mut after = before.clone();
        let result = absorve(&mut after, &m);
        let (c, e) = (corner(), edge());
        let (mut c1, mut e1) = (c.clone(), e.clone());
        let n1 = done(&before, &mut c1, &mut e1);
        let (mut c2, mut e2) = (c, e);
        let n2 = done(&after, &mut c2, &mut e2);
        if result == AbsorveResult::NotAdded {
            cover(1);
            check(after == before, 1);
            check(before.as_ref().map(|b| b.axis() != m.face.axis) == Some(true), 2);
        } else {
            c1.apply(&m);
            e1.apply(&m);
            check(geo::corner(3, &c1) == geo::corner(3, &c2), 3);
            check(geo::edge(3, &e1) == geo::edge(3, &e2), 4);
            match result {
                AbsorveResult::Added => {
                    cover(2);
                    check(n1 == 1 && n2 == 2, 5);
                }
                AbsorveResult::Collapsed => {
                    cover(3);
                    check(n2 + 1 == n1, 6);
                }
                _ => {
                    cover(4);
                    check(n2 == n1 || n1 == 0 && n2 == 1, 7);
                }
            }
        }
        if let Some(NonRedundantAxisMove::Double { axis, .. }) = &after {
            cover(5);
            check(*axis == m.face.axis || result == AbsorveResult::NotAdded, 8);
        }
    }
    h_c08_of_axis {
        let a = axis();
        let m = non_redundant();
        let (mut n, mut hits) = (0, 0);
        for x in NonRedundantAxisMove::of_axis(a) {
            check(x.axis() == a, 1);
            n += 1;
            hits += (x == m) as u32;
        }
        check(n == 15, 2);
        check(hits == (m.axis() == a) as u32, 3);
        cover(1);
    }
    h_c08_given_last_axis {
        let a = axis();
        let m = non_redundant();
        let (mut n, mut hits) = (0, 0);
        for x in NonRedundantAxisMove::given_last_axis(&a) {
            check(x.axis() != a, 1);
            n += 1;
            hits += (x == m) as u32;
        }
        check(n == 30, 2);
        check(hits == (m.axis() != a) as u32, 3);
        cover(1);
    }
    h_c08_all {
        let m = non_redundant();
        let (mut n, mut hits) = (0, 0);
        for x in NonRedundantAxisMove::all() {
            n += 1;
            hits += (x == m) as u32;
        }
        check(n == 45, 1);
        check(hits == 1, 2);
        cover(1);
    }
    h_c08_axis_moves {
        let m = axis_move();
        let all = AxisMove::all();
        check(all.iter().filter(|x| **x == m).count() == 1, 1);
        check(all.len() == 18, 2);
        check(AxisMove::iter().filter(|x| *x == m).count() == 1, 3);
        check(AxisMove::iter().count() == 18, 4);
        cover(1);
    }
    /// The successors of a cube are what the 18 moves make of it
    h_c08_successors {
        let mut c = Cube3::SOLVED;
        c.corners.iter_mut_unchecked().take(1).for_each(|p| *p = corner());
        c.edges.iter_mut_unchecked().take(1).for_each(|p| *p = edge());
        let m = axis_move();
        let (mut n, mut hits) = (0, 0);
        for (next, x) in c.successors() {
            n += 1;
            hits += (x == m) as u32;
            let after = c.clone().moved(&x);
            for i in 0..8 {
                check(next.corners.pieces()[i] == after.corners.pieces()[i], 1);
            }
            for i in 0..12 {
                check(next.edges.pieces()[i] == after.edges.pieces()[i], 2);
            }
        }
        check(n == 18, 3);
        check(hits == 1, 4);
        cover(1);
    }
}
