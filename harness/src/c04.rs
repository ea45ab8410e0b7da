//! A cube counts as solved exactly when every sticker shows the color of the face it is on.
use crate::{big::*, geo, harnesses, vf::*};
use barbarosa::cube_n::{center, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7};
use barbarosa::cube_n::pieces::{corner::CornerSet, edge::EdgeSet, wing::WingSet};
use barbarosa::generic::Cube;
use center::{corner::CenterCornerSet, edge::CenterEdgeSet, wing::CenterWingSet};

/// Whether every sticker of every piece is on the face where it was on the solved cube
struct Verdict {
    /// what the cube itself says
    says: bool,
    all: bool,
}
impl Verdict {
    /// `ok`: whether the stickers of one piece are right
    fn piece(&mut self, ok: bool, id: u32) {
        check(!self.says || ok, id);
        self.all &= ok;
    }
    fn done(self) {
        cover_if(self.all, 1);
        cover_if(!self.all, 2);
        check(self.says || !self.all, 50);
    }
}
/// The face a center sticker is on: the only one at full distance
fn face_of(n: i8, s: geo::Seen) -> geo::P {
    s.p.map(|c| if c == n - 1 { 1 } else if c == 1 - n { -1 } else { 0 })
}
fn corners(n: i8, v: &mut Verdict, s: &CornerSet) {
    for (a, b) in s.iter().zip(CornerSet::SOLVED.iter()) {
        v.piece(geo::corner(n, a) == geo::corner(n, b), 1);
    }
}
fn edges(n: i8, v: &mut Verdict, s: &EdgeSet) {
    for (a, b) in s.iter().zip(EdgeSet::SOLVED.iter()) {
        v.piece(geo::edge(n, a) == geo::edge(n, b), 4);
    }
}
fn wings<const D: u32>(n: i8, v: &mut Verdict, s: &WingSet<D>) {
    for (a, b) in s.iter().zip(WingSet::<D>::SOLVED.iter()) {
        v.piece(geo::wing(n, D as i8, a) == geo::wing(n, D as i8, b), 2);
    }
}
fn cc<const D: u32>(n: i8, v: &mut Verdict, s: &CenterCornerSet<D>) {
    let see = |c: &center::corner::CenterCorner| {
        let (p, axis) = c.verif_parts();
        face_of(n, geo::center_corner(n, D as i8, p, axis))
    };
    for (a, b) in s.iter().zip(CenterCornerSet::<D>::SOLVED.iter()) {
        v.piece(see(a) == see(b), 3);
    }
}
fn ce<const D: u32>(n: i8, v: &mut Verdict, s: &CenterEdgeSet<D>) {
    for (a, b) in s.iter().zip(CenterEdgeSet::<D>::SOLVED.iter()) {
        v.piece(face_of(n, geo::center_edge(n, D as i8, a)) == face_of(n, geo::center_edge(n, D as i8, b)), 5);
    }
}
fn cw<const D: u32, const E: u32>(n: i8, v: &mut Verdict, s: &CenterWingSet<D, E>) {
    for (a, b) in s.iter().zip(CenterWingSet::<D, E>::SOLVED.iter()) {
        let see = |c| face_of(n, geo::center_wing(n, D as i8, E as i8, c));
        v.piece(see(a) == see(b), 8);
    }
}
fn start<C: Big>() -> (C, Verdict) {
    let c = C::arbitrary();
    let says = c.is_solved();
    check(C::SOLVED.is_solved(), 60);
    (c, Verdict { says, all: true })
}

harnesses! {
    h_c04_cube2 {
        let (c, mut v) = start::<Cube2>();
        corners(2, &mut v, &c.corners);
        v.done();
        cover_if(c.is_solved(), 1);
        cover_if(!c.is_solved(), 2);
    }
    h_c04_cube3 {
        let (c, mut v) = start::<Cube3>();
        corners(3, &mut v, &c.corners);
        edges(3, &mut v, &c.edges);
        v.done();
        cover_if(c.is_solved(), 1);
        cover_if(!c.is_solved(), 2);
    }
    h_c04_cube4 {
        let (mut cube, mut v) = start::<Cube4>();
        let (c, w, x) = cube.verif_sets();
        corners(4, &mut v, c);
        wings(4, &mut v, w);
        cc(4, &mut v, x);
        v.done();
    }
    h_c04_cube5 {
        let (mut cube, mut v) = start::<Cube5>();
        let (c, e, x, y) = cube.verif_sets();
        corners(5, &mut v, c);
        edges(5, &mut v, e);
        cc(5, &mut v, x);
        ce(5, &mut v, y);
        v.done();
    }
    h_c04_cube6 {
        let (mut cube, mut v) = start::<Cube6>();
        let (c, w1, w2, c1, c2, z) = cube.verif_sets();
        corners(6, &mut v, c);
        wings(6, &mut v, w1);
        wings(6, &mut v, w2);
        cc(6, &mut v, c1);
        cc(6, &mut v, c2);
        cw(6, &mut v, z);
        v.done();
    }
    h_c04_cube7 {
        let (mut cube, mut v) = start::<Cube7>();
        let (c, e, w1, w2, c1, c2, z, e1, e2) = cube.verif_sets();
        corners(7, &mut v, c);
        edges(7, &mut v, e);
        wings(7, &mut v, w1);
        wings(7, &mut v, w2);
        cc(7, &mut v, c1);
        cc(7, &mut v, c2);
        cw(7, &mut v, z);
        ce(7, &mut v, e1);
        ce(7, &mut v, e2);
        v.done();
    }
}
