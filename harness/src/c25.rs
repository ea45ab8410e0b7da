//! A wide move never turns more layers than its type allows.
use crate::{harnesses, vf::*};
use barbarosa::cube_n::moves::ExtendedAxisMove;
use barbarosa::cube_n::{AxisMove, WideAxisMove};
use barbarosa::generic::{Alg, Move};

fn new<const N: u32>() {
    let (f, a, d) = (face(), amount(), any(32) as u32);
    match WideAxisMove::<N>::new(f.clone(), a, d) {
        Ok(m) => {
            cover(1);
            check(d <= N, 1);
            check(*m.face() == f && m.amount() == a && m.depth() == d, 2);
            let i = m.inverse();
            check(i.depth() == d && i.face() == &f, 3);
        }
        Err(_) => check(d > N, 4),
    }
    match AxisMove::new(f.clone(), a).widen::<N>(d) {
        Ok(m) => {
            check(d <= N, 5);
            check(*m.face() == f && m.amount() == a && m.depth() == d, 6);
        }
        Err(_) => check(d > N, 7),
    }
}
/// Changing the depth
fn set<const N: u32>() {
    let mut m = wide::<N>();
    let old = m.clone();
    let d = any(32) as u32;
    match m.set_depth(d) {
        Ok(()) => {
            cover(1);
            check(d <= N && m.depth() == d, 10);
        }
        Err(_) => {
            cover(2);
            check(d > N && m == old, 11);
        }
    }
    check(m.face() == old.face() && m.amount() == old.amount(), 12);
}
/// Changing the greatest depth that the type allows
fn retype<const N: u32, const M: u32>() {
    let m = if N == u32::MAX {
        WideAxisMove::<N>::new(face(), amount(), any(32) as u32).unwrap()
    } else {
        wide::<N>()
    };
    let old = m.clone();
    match m.set_max_depth::<M>() {
        Ok(w) => {
            cover(1);
            check(old.depth() <= M, 20);
            check(w.depth() == old.depth() && w.face() == old.face() && w.amount() == old.amount(), 21);
        }
        Err(_) => check(old.depth() > M, 22),
    }
}

harnesses! {
    h_c25_new0 { new::<0>(); cover(2); }
    h_c25_new1 { new::<1>(); cover(2); }
    h_c25_new2 { new::<2>(); cover(2); }
    h_c25_new_max { new::<{ u32::MAX }>(); cover(2); }
    h_c25_set0 { set::<0>(); cover(1); cover(2); }
    h_c25_set1 { set::<1>(); cover(1); cover(2); }
    h_c25_set2 { set::<2>(); cover(1); cover(2); }
    h_c25_retype_narrow { retype::<2, 1>(); cover(1); }
    h_c25_retype_widen { retype::<1, 2>(); cover(1); }
    h_c25_retype_max { retype::<{ u32::MAX }, 2>(); cover(1); }
    h_c25_retype_0 { retype::<2, 0>(); cover(1); }
    h_c25_extended {
        let m = wide::<2>();
        let ExtendedAxisMove::Wide(w) = ExtendedAxisMove::from(m.clone()) else {
            check(false, 1);
            return;
        };
        check(w.depth() == m.depth() && w.face() == m.face() && w.amount() == m.amount(), 2);
        cover(1);
    }
    h_c25_alg {
        let (a, b, d) = (axis_move(), axis_move(), any(32) as u32);
        match Alg::<AxisMove>::new(vec![a.clone(), b.clone()]).widen::<1>(d) {
            Ok(w) => {
                cover(1);
                check(d <= 1 && w.moves.len() == 2, 1);
                check(w.moves[0].axis_move == a && w.moves[0].depth() == d, 2);
                check(w.moves[1].axis_move == b && w.moves[1].depth() == d, 3);
            }
            Err(_) => check(d > 1, 4),
        }
    }
}
