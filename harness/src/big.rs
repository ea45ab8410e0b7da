//! Arbitrary states of the big cubes, and their comparison with the oracle.
use crate::{geo, vf::*};
use barbarosa::cube_n::moves::Amount;
use barbarosa::cube_n::pieces::{center, corner::CornerSet, edge::EdgeSet, wing::WingSet};
use barbarosa::cube_n::space::Face;
use barbarosa::cube_n::{Cube2, Cube3, Cube4, Cube5, Cube6, Cube7};
use barbarosa::generic::Cube;
use center::{corner::CenterCornerSet, edge::CenterEdgeSet, wing::CenterWingSet};

pub fn fill_corners(s: &mut CornerSet, sel: Which) {
    let n = s.pieces().len();
    s.iter_mut_unchecked().enumerate().filter(|(i, _)| sel.has(*i, n)).for_each(|(_, p)| *p = corner());
}
pub fn fill_edges(s: &mut EdgeSet, sel: Which) {
    let n = s.pieces().len();
    s.iter_mut_unchecked().enumerate().filter(|(i, _)| sel.has(*i, n)).for_each(|(_, p)| *p = edge());
}
pub fn fill_wings<const D: u32>(s: &mut WingSet<D>, sel: Which) {
    let n = s.set.pieces().len();
    s.set.iter_mut_unchecked().enumerate().filter(|(i, _)| sel.has(*i, n)).for_each(|(_, p)| *p = wing());
}
pub fn fill_cc<const D: u32>(s: &mut CenterCornerSet<D>, sel: Which) {
    let n = s.set.pieces().len();
    s.set.iter_mut_unchecked().enumerate().filter(|(i, _)| sel.has(*i, n)).for_each(|(_, p)| *p = center_corner());
}
pub fn fill_ce<const D: u32>(s: &mut CenterEdgeSet<D>, sel: Which) {
    let n = s.set.pieces().len();
    s.set.iter_mut_unchecked().enumerate().filter(|(i, _)| sel.has(*i, n)).for_each(|(_, p)| *p = center_edge());
}
pub fn fill_cw<const D: u32, const E: u32>(s: &mut CenterWingSet<D, E>, sel: Which) {
    let n = s.set.pieces().len();
    s.set.iter_mut_unchecked().enumerate().filter(|(i, _)| sel.has(*i, n)).for_each(|(_, p)| *p = center_wing());
}

/// Which slots hold arbitrary pieces, and are compared
#[derive(Clone, Copy, PartialEq)]
pub enum Which {
    All,
    /// The first and the last of each kind
    Ends,
}
impl Which {
    fn has(self, i: usize, n: usize) -> bool {
        self == Which::All || i == 0 || i + 1 == n
    }
}

/// What happens to a piece, as seen from outside
pub trait Turn {
    /// Where the piece `s` of the cube before has to be afterwards
    fn turn(&self, n: i8, s: geo::Seen) -> geo::Seen;
    /// Where the piece `s` of the cube afterwards is
    fn see(&self, s: geo::Seen) -> geo::Seen {
        s
    }
}
/// Nothing happens
pub struct Still;
impl Turn for Still {
    fn turn(&self, _: i8, s: geo::Seen) -> geo::Seen {
        s
    }
}
pub struct Layers<'a>(pub &'a Face, pub i8, pub Amount);
impl Turn for Layers<'_> {
    fn turn(&self, n: i8, s: geo::Seen) -> geo::Seen {
        s.face_turned(n, self.0, self.1, self.2)
    }
}

pub fn cmp_corners(n: i8, b: &CornerSet, a: &CornerSet, t: &impl Turn, sel: Which, id: u32) {
    for (_, (b, a)) in b.iter().zip(a.iter()).enumerate().filter(|(i, _)| sel.has(*i, b.pieces().len())) {
        check(t.see(geo::corner(n, a)) == t.turn(n, geo::corner(n, b)), id);
    }
}
pub fn cmp_edges(n: i8, b: &EdgeSet, a: &EdgeSet, t: &impl Turn, sel: Which, id: u32) {
    for (_, (b, a)) in b.iter().zip(a.iter()).enumerate().filter(|(i, _)| sel.has(*i, b.pieces().len())) {
        check(t.see(geo::edge(n, a)) == t.turn(n, geo::edge(n, b)), id);
    }
}
pub fn cmp_wings<const D: u32>(n: i8, b: &WingSet<D>, a: &WingSet<D>, t: &impl Turn, sel: Which, id: u32) {
    for (_, (b, a)) in b.iter().zip(a.iter()).enumerate().filter(|(i, _)| sel.has(*i, b.pieces().len())) {
        check(t.see(geo::wing(n, D as i8, a)) == t.turn(n, geo::wing(n, D as i8, b)), id);
    }
}
pub fn cmp_cc<const D: u32>(n: i8, b: &CenterCornerSet<D>, a: &CenterCornerSet<D>, t: &impl Turn, sel: Which, id: u32) {
    let see = |p: &center::corner::CenterCorner| {
        let (v, axis) = p.verif_parts();
        geo::center_corner(n, D as i8, v, axis)
    };
    for (_, (b, a)) in b.iter().zip(a.iter()).enumerate().filter(|(i, _)| sel.has(*i, b.pieces().len())) {
        check(t.see(see(a)) == t.turn(n, see(b)), id);
    }
}
pub fn cmp_ce<const D: u32>(n: i8, b: &CenterEdgeSet<D>, a: &CenterEdgeSet<D>, t: &impl Turn, sel: Which, id: u32) {
    for (_, (b, a)) in b.iter().zip(a.iter()).enumerate().filter(|(i, _)| sel.has(*i, b.pieces().len())) {
        check(t.see(geo::center_edge(n, D as i8, a)) == t.turn(n, geo::center_edge(n, D as i8, b)), id);
    }
}
pub fn cmp_cw<const D: u32, const E: u32>(n: i8, b: &CenterWingSet<D, E>, a: &CenterWingSet<D, E>, t: &impl Turn, sel: Which, id: u32) {
    for (_, (b, a)) in b.iter().zip(a.iter()).enumerate().filter(|(i, _)| sel.has(*i, b.pieces().len())) {
        check(t.see(geo::center_wing(n, D as i8, E as i8, a)) == t.turn(n, geo::center_wing(n, D as i8, E as i8, b)), id);
    }
}

/// A big cube whose every slot holds an arbitrary piece, and its comparison with the oracle
pub trait Big: Cube + 'static {
    const SIZE: i8;
    fn fill(&mut self, sel: Which);
    fn compare_some(&mut self, after: &mut Self, t: &impl Turn, sel: Which);
    fn arbitrary_some(sel: Which) -> Self {
        let mut c = Self::SOLVED;
        c.fill(sel);
        c
    }
    fn arbitrary() -> Self {
        Self::arbitrary_some(Which::All)
    }
    fn compare(&mut self, after: &mut Self, t: &impl Turn) {
        self.compare_some(after, t, Which::All)
    }
}
impl Big for Cube2 {
    const SIZE: i8 = 2;
    fn fill(&mut self, sel: Which) {
        fill_corners(&mut self.corners, sel);
    }
    fn compare_some(&mut self, after: &mut Self, t: &impl Turn, sel: Which) {
        cmp_corners(2, &self.corners, &after.corners, t, sel, 1);
    }
}
impl Big for Cube3 {
    const SIZE: i8 = 3;
    fn fill(&mut self, sel: Which) {
        fill_corners(&mut self.corners, sel);
        fill_edges(&mut self.edges, sel);
    }
    fn compare_some(&mut self, after: &mut Self, t: &impl Turn, sel: Which) {
        cmp_corners(3, &self.corners, &after.corners, t, sel, 1);
        cmp_edges(3, &self.edges, &after.edges, t, sel, 4);
    }
}
impl Big for Cube4 {
    const SIZE: i8 = 4;
    fn fill(&mut self, sel: Which) {
        let (c, w, cc) = self.verif_sets();
        fill_corners(c, sel);
        fill_wings(w, sel);
        fill_cc(cc, sel);
    }
    fn compare_some(&mut self, after: &mut Self, t: &impl Turn, sel: Which) {
        let (c, w, cc) = self.verif_sets();
        let (c2, w2, cc2) = after.verif_sets();
        cmp_corners(4, c, c2, t, sel, 1);
        cmp_wings(4, w, w2, t, sel, 2);
        cmp_cc(4, cc, cc2, t, sel, 3);
    }
}
impl Big for Cube5 {
    const SIZE: i8 = 5;
    fn fill(&mut self, sel: Which) {
        let (c, e, cc, ce) = self.verif_sets();
        fill_corners(c, sel);
        fill_edges(e, sel);
        fill_cc(cc, sel);
        fill_ce(ce, sel);
    }
    fn compare_some(&mut self, after: &mut Self, t: &impl Turn, sel: Which) {
        let (c, e, cc, ce) = self.verif_sets();
        let (c2, e2, cc2, ce2) = after.verif_sets();
        cmp_corners(5, c, c2, t, sel, 1);
        cmp_edges(5, e, e2, t, sel, 4);
        cmp_cc(5, cc, cc2, t, sel, 3);
        cmp_ce(5, ce, ce2, t, sel, 5);
    }
}
impl Big for Cube6 {
    const SIZE: i8 = 6;
    fn fill(&mut self, sel: Which) {
        let (c, w1, w2, c1, c2, cw) = self.verif_sets();
        fill_corners(c, sel);
        fill_wings(w1, sel);
        fill_wings(w2, sel);
        fill_cc(c1, sel);
        fill_cc(c2, sel);
        fill_cw(cw, sel);
    }
    fn compare_some(&mut self, after: &mut Self, t: &impl Turn, sel: Which) {
        let (c, w1, w2, c1, c2, cw) = self.verif_sets();
        let (xc, xw1, xw2, xc1, xc2, xcw) = after.verif_sets();
        cmp_corners(6, c, xc, t, sel, 1);
        cmp_wings(6, w1, xw1, t, sel, 2);
        cmp_wings(6, w2, xw2, t, sel, 6);
        cmp_cc(6, c1, xc1, t, sel, 3);
        cmp_cc(6, c2, xc2, t, sel, 7);
        cmp_cw(6, cw, xcw, t, sel, 8);
    }
}
impl Big for Cube7 {
    const SIZE: i8 = 7;
    fn fill(&mut self, sel: Which) {
        let (c, e, w1, w2, c1, c2, cw, e1, e2) = self.verif_sets();
        fill_corners(c, sel);
        fill_edges(e, sel);
        fill_wings(w1, sel);
        fill_wings(w2, sel);
        fill_cc(c1, sel);
        fill_cc(c2, sel);
        fill_cw(cw, sel);
        fill_ce(e1, sel);
        fill_ce(e2, sel);
    }
    fn compare_some(&mut self, after: &mut Self, t: &impl Turn, sel: Which) {
        let (c, e, w1, w2, c1, c2, cw, e1, e2) = self.verif_sets();
        let (xc, xe, xw1, xw2, xc1, xc2, xcw, xe1, xe2) = after.verif_sets();
        cmp_corners(7, c, xc, t, sel, 1);
        cmp_edges(7, e, xe, t, sel, 4);
        cmp_wings(7, w1, xw1, t, sel, 2);
        cmp_wings(7, w2, xw2, t, sel, 6);
        cmp_cc(7, c1, xc1, t, sel, 3);
        cmp_cc(7, c2, xc2, t, sel, 7);
        cmp_cw(7, cw, xcw, t, sel, 8);
        cmp_ce(7, e1, xe1, t, sel, 5);
        cmp_ce(7, e2, xe2, t, sel, 9);
    }
}
