//! The cross functions count and estimate exactly.
use crate::{geo, harnesses, vf::*};
use barbarosa::cube_n::cube3::cfop::cross::*;
use barbarosa::cube_n::pieces::{edge::min_moves_to_solve, Edge};
use barbarosa::cube_n::space::Face;
use barbarosa::cube_n::{AxisMove, Cube3};
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::{Cube, Movable, Piece};

fn home(i: usize) -> geo::Seen {
    let (a, v) = Edge::REFERENCE_POSITIONS[i];
    geo::edge(3, &Edge::oriented(a, v))
}
fn on(f: &Face, s: &geo::Seen) -> bool {
    geo::at(s.p, geo::ax(f.axis)) * geo::sg(f.direction) == 2
}
fn any_cube() -> Cube3 {
    let mut c = Cube3::SOLVED;
    c.edges.iter_mut_unchecked().for_each(|p| *p = edge());
    c
}
fn any_home() -> <Edge as Piece>::Position {
    (axis(), vec2())
}

harnesses! {
    h_c18_count {
        let c = any_cube();
        let f = face();
        let n = c.edges.pieces().iter().enumerate().filter(|(i, e)| on(&f, &home(*i)) && geo::edge(3, e) == home(*i)).count();
        cover(1);
        check(count_cross_pieces(&c, &f) == n as i32, 1);
    }
    h_c18_pieces {
        let f = face();
        let p = any_home();
        let yes = on(&f, &geo::edge(3, &Edge::oriented(p.0, p.1)));
        cover(1);
        check(is_cross_edge(&p, &f) == yes, 1);
        let named = get_cross_pieces(&f);
        check(named.contains(&p) == yes, 2);
        for i in 0..4 {
            for j in 0..i {
                check(named[i] != named[j], 3);
            }
        }
    }
    /// 0 exactly when solved; no move gains more than one; some move gains one
    h_c18_min_moves {
        let p = any_home();
        let e = edge();
        let n = min_moves_to_solve(&p, &e);
        let solved = geo::edge(3, &e) == geo::edge(3, &Edge::oriented(p.0, p.1));
        check((n == 0) == solved && n >= 0 && n <= 3, 1);
        let m = axis_move();
        let k = min_moves_to_solve(&p, &e.clone().moved(&m));
        check(n <= k + 1, 2);
        let gains = AxisMove::all().iter().any(|m| min_moves_to_solve(&p, &e.clone().moved(m)) == n - 1);
        check(n == 0 || gains, 3);
        cover(1);
        cover_if(n == 3, 2);
    }
    /// The estimates are the largest and the halved sum over the four pieces
    h_c18_estimates {
        let c = any_cube();
        let f = face();
        let (mut max, mut sum) = (0, 0);
        for (i, e) in c.edges.pieces().iter().enumerate() {
            if on(&f, &home(i)) {
                let n = min_moves_to_solve(&Edge::REFERENCE_POSITIONS[i], e);
                sum += n;
                if n > max {
                    max = n;
                }
            }
        }
        cover(1);
        check(worse_but_admissable_cross_heuristic(&c, &f) == max as f32, 1);
        check(good_cross_heuristic(&c, &f) * 2.0 == sum as f32, 2);
    }
    /// The admissible estimate is 0 for a finished cross, and no move lowers it by more than one
    h_c18_admissible {
        let c = any_cube();
        let f = face();
        let n = worse_but_admissable_cross_heuristic(&c, &f);
        check((n == 0.0) == (count_cross_pieces(&c, &f) == 4), 1);
        let m = axis_move();
        let k = worse_but_admissable_cross_heuristic(&c.moved(&m), &f);
        check(n <= k + 1.0, 2);
        cover(1);
    }
}
