//! Converting moves and algs between metrics keeps what they do.
use crate::{geo, harnesses, vf::*};
use barbarosa::cube_n::moves::{NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::{AxisMove, Cube3};
use barbarosa::generic::{Alg, Cube, Movable};

/// A cube with one arbitrary corner and one arbitrary edge
fn sample() -> Cube3 {
    let mut c = Cube3::SOLVED;
    c.corners.iter_mut_unchecked().take(1).for_each(|p| *p = corner());
    c.edges.iter_mut_unchecked().take(1).for_each(|p| *p = edge());
    c
}
fn same(a: &Cube3, b: &Cube3, id: u32) {
    check(a.corners.pieces()[0] == b.corners.pieces()[0], id);
    check(a.edges.pieces()[0] == b.edges.pieces()[0], id);
}

harnesses! {
    h_c24_quarter {
        let q = quarter();
        let m = AxisMove::from(&q);
        check(m.face == q.face && geo::quarters(m.amount) == geo::face_quarters(geo::sg(q.direction), 1), 1);
        let c = sample();
        same(&c.clone().moved(&q), &c.moved(&m), 2);
        cover(1);
    }
    h_c24_quarter_alg {
        let (a, b) = (axis_move(), axis_move());
        let c = sample();
        let alg = Alg::<AxisMove>::new(vec![a.clone(), b.clone()]);
        let quarters = Alg::<QuarterAxisMove>::from(alg.clone());
        let n = |m: &AxisMove| if geo::quarters(m.amount) == 2 { 2 } else { 1 };
        check(quarters.moves.len() == n(&a) + n(&b), 1);
        let mut d = c.clone();
        for q in &quarters.moves {
            d = d.moved(&AxisMove::from(q));
        }
        same(&d, &c.moved(&alg), 2);
        cover(1);
    }
    h_c24_non_redundant {
        let m = non_redundant();
        let c = sample();
        let by_move = c.clone().moved(&m);
        let alg = Alg::<AxisMove>::from(m.clone());
        same(&by_move, &c.clone().moved(&alg), 1);
        let mut d = c.clone();
        let mut n = 0;
        for x in m.moves() {
            check(x.face.axis == m.axis(), 2);
            d = d.moved(&x);
            n += 1;
        }
        same(&by_move, &d, 3);
        check(alg.moves.len() == n && (n == 1 || n == 2), 4);
        cover_if(n == 1, 1);
        cover_if(n == 2, 2);
    }
    h_c24_non_redundant_alg {
        let (a, b) = (non_redundant(), non_redundant());
        let c = sample();
        let expected = c.clone().moved(&a).moved(&b);
        let alg = Alg::<AxisMove>::from(Alg::<NonRedundantAxisMove>::new(vec![a, b]));
        same(&expected, &c.moved(&alg), 1);
        let m = axis_move();
        check(NonRedundantAxisMove::from(m.clone()) == NonRedundantAxisMove::Single(m), 2);
        cover(1);
    }
}
