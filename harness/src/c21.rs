//! The unfolded view of a 3x3 shows every sticker where it is.
use crate::{geo, harnesses, vf::*};
use barbarosa::cube_n::pieces::{Corner, Edge};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::visualization::unfolded::{Square, Unfolded};
use barbarosa::cube_n::visualization::{Color, Colorscheme};
use barbarosa::cube_n::Cube3;
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::Cube;
use palette::Srgb;
use std::fmt::Write;

/// No variables in the environment
#[cfg(verif_ir)]
#[no_mangle]
#[inline(never)]
pub extern "C" fn getenv(_: *const std::ffi::c_char) -> *const std::ffi::c_char {
    std::ptr::null()
}

fn face_of(axis: usize, d: i8) -> Face {
    let a = match axis {
        0 => Axis::X,
        1 => Axis::Y,
        _ => Axis::Z,
    };
    Face::new(a, if d > 0 { Direction::Positive } else { Direction::Negative })
}
/// Row and column on a face, from -2 to 2
fn place(p: geo::P, axis: usize, positive: bool) -> (i8, i8) {
    match (axis, positive) {
        (1, true) => (p[2], p[0]),
        (2, true) => (-p[1], p[0]),
        (1, false) => (-p[2], p[0]),
        (2, false) => (p[1], p[0]),
        (0, false) => (-p[1], p[2]),
        _ => (-p[1], -p[2]),
    }
}
/// What the net shows at the sticker of the small cube at `p` on a face. The net is U above F,
/// L F R side by side, then D and B below F.
fn shown(net: &Unfolded<3>, p: geo::P, axis: usize) -> Face {
    let d = geo::at(p, axis);
    let (row, col) = place(p, axis, d > 0);
    let square = &net[&face_of(axis, d)];
    let mut out = Face::R;
    for i in 0..3 {
        for j in 0..3 {
            if row == 2 * i - 2 && col == 2 * j - 2 {
                out = square.data[i as usize][j as usize].face.clone();
            }
        }
    }
    out
}
/// The axis along which a corner's sticker lies that lay along `a` at home
fn corner_axis(home: geo::P, now: geo::Seen, a: usize) -> usize {
    let same = home[0] * home[1] * home[2] * now.p[0] * now.p[1] * now.p[2] > 0;
    if same {
        (now.s + a + 2) % 3
    } else {
        (now.s + 4 - a) % 3
    }
}

/// A terminal: where which background color is shown (0: none, else red << 16 | green << 8 | blue)
struct Screen {
    row: usize,
    col: usize,
    color: u32,
    cells: [[u32; 40]; 24],
    // the numbers of the escape sequence being read, or nothing
    escape: u8,
    numbers: [u32; 5],
    count: usize,
    bad: bool,
}
impl Screen {
    fn new() -> Self {
        Self { row: 0, col: 0, color: 0, cells: [[0; 40]; 24], escape: 0, numbers: [0; 5], count: 0, bad: false }
    }
    fn byte(&mut self, b: u8) {
        match (self.escape, b) {
            (0, 27) => self.escape = 1,
            (0, b' ') => {
                self.cells[self.row][self.col] = self.color;
                self.col += 1;
            }
            (0, b'\n') => {
                self.row += 1;
                self.col = 0;
            }
            (1, b'[') => {
                self.escape = 2;
                self.numbers = [0; 5];
                self.count = 0;
            }
            (2, b';') => self.count += 1,
            (2, b'm') => {
                self.escape = 0;
                let [a, b, red, green, blue] = self.numbers;
                match (self.count, a, b) {
                    (0, 0, _) => self.color = 0,
                    (4, 48, 2) => self.color = red << 16 | green << 8 | blue,
                    _ => self.bad = true,
                }
            }
            (2, _) => {
                let n = &mut self.numbers[self.count];
                *n = *n * 10 + (b.wrapping_sub(b'0')) as u32;
            }
            _ => self.bad = true,
        }
    }
}
impl std::fmt::Write for Screen {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        s.bytes().for_each(|b| self.byte(b));
        Ok(())
    }
}
struct Print<'a, const N: usize>(&'a Unfolded<N>, &'a Colorscheme<Srgb>);
impl<const N: usize> std::fmt::Display for Print<'_, N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.write(self.1, f)
    }
}
/// Where the upper left corners of the faces R U F L D B are printed
const PLACES: [(usize, usize); 6] = [(1, 2), (0, 1), (1, 1), (1, 0), (2, 1), (3, 1)];
fn channel(f: &Face, k: usize) -> u8 {
    // three digits each, different for all
    let i = geo::ax(f.axis) * 2 + (geo::sg(f.direction) < 0) as usize;
    [[101, 222, 143], [212, 113, 255], [133, 244, 105], [200, 150, 100], [166, 177, 188], [129, 231, 199]][i][k]
}
fn rgb(f: &Face) -> u32 {
    (channel(f, 0) as u32) << 16 | (channel(f, 1) as u32) << 8 | channel(f, 2) as u32
}
/// Every sticker of a net of N rows shows an arbitrary face's color
fn printed<const N: usize>() {
    let mut net = Unfolded::<N>::default();
    for f in Face::iter() {
        for row in &mut net[&f].data {
            for c in row {
                *c = Color::new(face());
            }
        }
    }
    let all: [Face; 6] = std::array::from_fn(|i| Face::iter().nth(i).unwrap());
    let scheme = Colorscheme::new(std::array::from_fn(|i| {
        let c = |k| (channel(&all[i], k) as f32 + 0.5) / 255.0;
        Srgb::new(c(0), c(1), c(2))
    }));
    let mut s = Screen::new();
    let _ = write!(s, "{}", Print(&net, &scheme));
    cover(1);
    check(!s.bad && s.escape == 0 && s.color == 0, 1);
    let mut colored = 0;
    for (i, f) in all.iter().enumerate() {
        let (r, c) = (PLACES[i].0 * (N + 1), PLACES[i].1 * (N + 1) * 2);
        for y in 0..N {
            for x in 0..2 * N {
                check(s.cells[r + y][c + x] == rgb(&net[f].data[y][x / 2].face), 2);
            }
        }
    }
    for row in &s.cells {
        for c in row {
            colored += (*c != 0) as usize;
        }
    }
    // and nothing else
    check(colored == 6 * N * 2 * N, 3);
}

harnesses! {
    /// The color at a point near the middle of a small cube is the one the point is projected to
    h_c21_at {
        let f = face();
        let mut square = Square::<3>::new(Color::RED);
        for row in &mut square.data {
            for c in row {
                *c = Color::new(face());
            }
        }
        let p: geo::P = std::array::from_fn(|_| below(3) as i8 * 2 - 2);
        let off: [f32; 3] = std::array::from_fn(|_| (below(9) as f32 - 4.0) / 10.0);
        let at = |i: usize| p[i] as f32 / 2.0 + off[i];
        let v = nalgebra::Vector3::new(at(0), at(1), at(2));
        let (row, col) = place(p, geo::ax(f.axis), geo::sg(f.direction) > 0);
        let mut want = Face::R;
        for i in 0..3 {
            for j in 0..3 {
                if row == 2 * i - 2 && col == 2 * j - 2 {
                    want = square.data[i as usize][j as usize].face.clone();
                }
            }
        }
        cover(1);
        check(square.at(&v, &f).is_some_and(|c| c.face == want), 1);
        check(square.at_mut(&v, &f).is_some_and(|c| c.face == want), 2);
        let far = v * 8.0;
        let out = [0, 1, 2].iter().any(|i| *i != geo::ax(f.axis) && p[*i] != 0);
        check(!out || square.at(&far, &f).is_none(), 3);
    }
    h_c21_printed { printed::<3>(); }
    h_c21_printed_two { printed::<2>(); }
    /// The colors of the faces differ, and a 3x3 is printed as its net
    h_c21_colors {
        let scheme = Colorscheme::<Srgb>::default();
        let (f, g) = (face(), face());
        check(f == g || scheme.get(&f) != scheme.get(&g), 1);
        let c = Cube3::SOLVED;
        let mut s = Screen::new();
        let _ = write!(s, "{c}");
        let mut t = Screen::new();
        let _ = write!(t, "{}", Unfolded::<3>::from(c));
        check(!s.bad && s.cells == t.cells, 2);
        let at = |f: &Face| {
            let p = PLACES[f.index()];
            t.cells[p.0 * 4 + 1][p.1 * 8 + 3]
        };
        for f in Face::iter() {
            for g in Face::iter() {
                check((f == g) == (at(&f) == at(&g)), 3);
            }
            check(at(&f) != 0, 4);
        }
        cover(1);
    }
    h_c21_corners {
        let i = below(8) as usize;
        let mut c = Cube3::SOLVED;
        c.corners.iter_mut_unchecked().for_each(|p| *p = corner());
        c.edges.iter_mut_unchecked().for_each(|p| *p = edge());
        let now = geo::corner(3, &c.corners.pieces()[i]);
        for (j, other) in c.corners.iter().enumerate() {
            assume(i == j || geo::corner(3, other).p != now.p);
        }
        let home = geo::corner(3, &<Corner as PieceSetDescriptor<8>>::SOLVED[i]).p;
        let net = Unfolded::<3>::from(c);
        cover(1);
        for a in 0..3 {
            check(shown(&net, now.p, corner_axis(home, now, a)) == face_of(a, geo::at(home, a)), 1 + a as u32);
        }
    }
    h_c21_edges {
        let i = below(12) as usize;
        let mut c = Cube3::SOLVED;
        c.corners.iter_mut_unchecked().for_each(|p| *p = corner());
        c.edges.iter_mut_unchecked().for_each(|p| *p = edge());
        let now = geo::edge(3, &c.edges.pieces()[i]);
        for (j, other) in c.edges.iter().enumerate() {
            assume(i == j || geo::edge(3, other).p != now.p);
        }
        let home = geo::edge(3, &<Edge as PieceSetDescriptor<12>>::SOLVED[i]);
        let net = Unfolded::<3>::from(c);
        cover(1);
        // the marked sticker, and the other one
        check(shown(&net, now.p, now.s) == face_of(home.s, geo::at(home.p, home.s)), 1);
        let normal = |p: geo::P| if p[0] == 0 { 0 } else if p[1] == 0 { 1 } else { 2 };
        let (h, n) = (3 - normal(home.p) - home.s, 3 - normal(now.p) - now.s);
        check(shown(&net, now.p, n) == face_of(h, geo::at(home.p, h)), 2);
    }
    h_c21_centers {
        let mut c = Cube3::SOLVED;
        c.corners.iter_mut_unchecked().for_each(|p| *p = corner());
        c.edges.iter_mut_unchecked().for_each(|p| *p = edge());
        let net = Unfolded::<3>::from(c);
        let f = face();
        check(net[&f].data[1][1] == Color::new(f.clone()), 1);
        for (g, square) in net.iter() {
            check(square.data[1][1].face == g, 2);
        }
        cover(1);
    }
}
