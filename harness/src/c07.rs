//! Normalizing an alg keeps what it does, never makes it longer, and leaves no redundant moves.
use crate::{geo, harnesses, vf::*};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::AxisMove;
use barbarosa::generic::{Alg, Movable};
use std::array::from_fn;

/// Arbitrary moves; the axes come first, so that a run can be about given axes
fn moves<const L: usize>() -> [AxisMove; L] {
    let axes: [_; L] = from_fn(|_| axis());
    let dirs: [_; L] = from_fn(|_| dir());
    from_fn(|i| AxisMove::new(Face::new(axes[i], dirs[i]), amount()))
}
/// Whether two of the moves could have been one: the same face, with only moves of the same axis in between
fn redundant(a: &[AxisMove]) -> bool {
    let mut bad = false;
    for i in 0..a.len() {
        for j in i + 1..a.len() {
            if a[j].face.axis != a[i].face.axis {
                break;
            }
            bad |= a[j].face == a[i].face;
        }
    }
    bad
}
fn normal<const L: usize>(effect: bool) {
    normal_of(moves::<L>(), effect)
}
/// Runs of moves inside each other, such that the outer ones meet when the inner ones cancel
fn nested<const L: usize>(axes: [Axis; L]) {
    let dirs: [_; L] = from_fn(|i| if i == 0 || axes[i] == axes[0] { dir() } else { Direction::Positive });
    normal_of(from_fn::<_, L, _>(|i| AxisMove::new(Face::new(axes[i], dirs[i]), amount())), true)
}
fn normal_of<const L: usize>(moves: [AxisMove; L], effect: bool) {
    let alg = Alg::<AxisMove>::new(moves.to_vec());
    let out = alg.clone().normalized();
    let n = out.moves.len();
    check(n <= L, 1);
    check(!redundant(&out.moves), 2);
    if effect {
        let (c, e) = (corner(), edge());
        let (mut c1, mut e1, mut c2, mut e2) = (c.clone(), e.clone(), c, e);
        for m in &alg.moves {
            c1.apply(m);
            e1.apply(m);
        }
        for m in &out.moves {
            c2.apply(m);
            e2.apply(m);
        }
        check(geo::corner(3, &c1) == geo::corner(3, &c2), 3);
        check(geo::edge(3, &e1) == geo::edge(3, &e2), 4);
    }
    // what is not redundant is left as long as it is
    check(redundant(&alg.moves) || n == L, 5);
    cover_if(n == L, 1);
    cover_if(n == 0, 2);
}

harnesses! {
    h_c07_empty {
        check(Alg::<AxisMove>::empty().normalized().moves.is_empty(), 1);
    }
    h_c07_one { normal::<1>(true); cover(1); }
    h_c07_two { normal::<2>(true); cover(1); cover(2); }
    h_c07_three { normal::<3>(true); cover(1); }
    h_c07_four { normal::<4>(true); cover(1); cover(2); }
    h_c07_five { normal::<5>(true); cover(1); }
    h_c07_nested_five { nested([Axis::X, Axis::X, Axis::Y, Axis::Y, Axis::X]); cover(1); }
    h_c07_nested_five2 { nested([Axis::X, Axis::Y, Axis::Y, Axis::X, Axis::X]); cover(1); }
    h_c07_nested_six { nested([Axis::Z, Axis::Z, Axis::X, Axis::X, Axis::Z, Axis::Z]); cover(1); cover(2); }
    h_c07_nested_deep { nested([Axis::Y, Axis::X, Axis::Z, Axis::Z, Axis::X, Axis::Y]); cover(1); cover(2); }
}
