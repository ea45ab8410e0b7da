//! Notation is read exactly.
use crate::{harnesses, vf::*};
use barbarosa::cube_n::moves::{rotation::AxisRotation, Amount, ExtendedAxisMove};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::{AxisMove, WideAxisMove};
use barbarosa::generic::{Alg, Parsable};

/// `n` ASCII characters
fn text<const N: usize>() -> [u8; N] {
    let mut b = [0; N];
    for x in b.iter_mut() {
        *x = below(128) as u8;
    }
    b
}
fn str(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
fn face_of(c: u8) -> Option<Face> {
    Some(match c {
        b'R' => Face::new(Axis::X, Direction::Positive),
        b'L' => Face::new(Axis::X, Direction::Negative),
        b'U' => Face::new(Axis::Y, Direction::Positive),
        b'D' => Face::new(Axis::Y, Direction::Negative),
        b'F' => Face::new(Axis::Z, Direction::Positive),
        b'B' => Face::new(Axis::Z, Direction::Negative),
        _ => return None,
    })
}
fn small(c: u8) -> Option<Face> {
    match c {
        b'a'..=b'z' => face_of(c - 32),
        _ => None,
    }
}
/// Nothing, a 2 or an apostrophe, and nothing else
fn amount_of(b: &[u8]) -> Option<Amount> {
    match b {
        [] => Some(Amount::Single),
        [b'2'] => Some(Amount::Double),
        [b'\''] => Some(Amount::Inverse),
        _ => None,
    }
}
fn axis_move_of(b: &[u8]) -> Option<AxisMove> {
    let (c, rest) = b.split_first()?;
    Some(AxisMove::new(face_of(*c)?, amount_of(rest)?))
}
fn rotation_of(b: &[u8]) -> Option<AxisRotation> {
    let (c, rest) = b.split_first()?;
    let axis = match c {
        b'x' => Axis::X,
        b'y' => Axis::Y,
        b'z' => Axis::Z,
        _ => return None,
    };
    Some(AxisRotation::new(axis, amount_of(rest)?))
}
/// Face, amount and depth
fn wide_of(b: &[u8]) -> Option<(Face, Amount, u32)> {
    if let Some(m) = axis_move_of(b) {
        return Some((m.face, m.amount, 0));
    }
    let (c, rest) = b.split_first()?;
    let (depth, b) = match c {
        b'0'..=b'9' => (((c - b'0') as u32).max(1), rest),
        _ => (1, b),
    };
    let (c, rest) = b.split_first()?;
    if let Some(f) = small(*c) {
        return Some((f, amount_of(rest)?, depth));
    }
    match rest.split_first()? {
        (b'w', rest) => Some((face_of(*c)?, amount_of(rest)?, depth)),
        _ => None,
    }
}
fn extended_of(b: &[u8]) -> Option<ExtendedAxisMove> {
    if let Some((f, a, d)) = wide_of(b) {
        return Some(match d {
            0 => ExtendedAxisMove::Regular(AxisMove::new(f, a)),
            _ => ExtendedAxisMove::Wide(WideAxisMove::new(f, a, d).unwrap()),
        });
    }
    if let Some(r) = rotation_of(b) {
        return Some(ExtendedAxisMove::Rotation(r));
    }
    let (c, rest) = b.split_first()?;
    let (axis, wide) = match c {
        b'M' => (Axis::X, false),
        b'E' => (Axis::Y, false),
        b'S' => (Axis::Z, false),
        b'm' => (Axis::X, true),
        b'e' => (Axis::Y, true),
        b's' => (Axis::Z, true),
        _ => return None,
    };
    let amount = amount_of(rest)?;
    // M follows L and E follows D; S follows F
    let amount = match (axis, amount) {
        (Axis::Z, a) => a,
        (_, Amount::Single) => Amount::Inverse,
        (_, Amount::Inverse) => Amount::Single,
        (_, Amount::Double) => Amount::Double,
    };
    Some(ExtendedAxisMove::Slice { rot: AxisRotation::new(axis, amount), wide })
}
fn space(c: u8) -> bool {
    c == b' ' || (9 <= c && c <= 13)
}
/// The words, read one by one
fn alg_of(b: &[u8]) -> Option<Vec<AxisMove>> {
    let mut moves = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if space(b[i]) {
            i += 1;
            continue;
        }
        let start = i;
        while i < b.len() && !space(b[i]) {
            i += 1;
        }
        moves.push(axis_move_of(&b[start..i])?);
    }
    Some(moves)
}
fn axis_moves<const N: usize>() {
    let b = text::<N>();
    check(AxisMove::parse(str(&b)).ok() == axis_move_of(&b), 1);
    cover(1);
}
fn rotations<const N: usize>() {
    let b = text::<N>();
    check(AxisRotation::parse(str(&b)).ok() == rotation_of(&b), 1);
    cover(1);
}
fn extended<const N: usize>() {
    let b = text::<N>();
    check(ExtendedAxisMove::parse(str(&b)).ok() == extended_of(&b), 1);
    cover(1);
}
fn wides<const MAX: u32, const N: usize>() {
    let b = text::<N>();
    match (WideAxisMove::<MAX>::parse(str(&b)), wide_of(&b)) {
        (Ok(m), Some((f, a, d))) => check(d <= MAX && m.axis_move == AxisMove::new(f, a) && m.depth() == d, 1),
        (Err(_), Some((_, _, d))) => check(d > MAX, 2),
        (Ok(_), None) => check(false, 3),
        (Err(_), None) => (),
    }
    cover(1);
}
fn algs<const N: usize>() {
    let b = text::<N>();
    check(Alg::<AxisMove>::parse(str(&b)).ok().map(|a| a.moves) == alg_of(&b), 1);
    cover(1);
}
fn parts<const N: usize>() {
    let b = text::<N>();
    let s = str(&b);
    let one = |f: fn(u8) -> Option<Face>| match b[..] {
        [c] => f(c),
        _ => None,
    };
    check(Face::parse(s).ok() == one(face_of), 1);
    check(Amount::parse(s).ok() == amount_of(&b), 2);
    check(Axis::parse(s).ok() == rotation_of(&b).filter(|_| N == 1).map(|r| r.axis), 3);
    cover(1);
}
/// A character of two (or three) bytes among ASCII ones: nothing of the notation, and no reason to panic
fn foreign<const N: usize>(at: usize, bytes: usize) {
    let mut b = text::<N>();
    let tail = |b: &mut u8| *b = 0x80 | below(64) as u8;
    match bytes {
        2 => b[at] = 0xc2 + below(0xe0 - 0xc2) as u8,
        _ => b[at] = 0xe1 + below(12) as u8,
    }
    for i in 1..bytes {
        tail(&mut b[at + i]);
    }
    check(AxisMove::parse(str(&b)).is_err(), 1);
    check(ExtendedAxisMove::parse(str(&b)).is_err(), 2);
    cover(1);
}

harnesses! {
    h_c20_parts_0 { parts::<0>() }
    h_c20_parts_1 { parts::<1>() }
    h_c20_parts_2 { parts::<2>() }
    h_c20_axis_move_0 { axis_moves::<0>() }
    h_c20_axis_move_1 { axis_moves::<1>() }
    h_c20_axis_move_2 { axis_moves::<2>() }
    h_c20_axis_move_3 { axis_moves::<3>() }
    h_c20_axis_move_4 { axis_moves::<4>() }
    h_c20_rotation_0 { rotations::<0>() }
    h_c20_rotation_1 { rotations::<1>() }
    h_c20_rotation_2 { rotations::<2>() }
    h_c20_rotation_3 { rotations::<3>() }
    h_c20_extended_0 { extended::<0>() }
    h_c20_extended_1 { extended::<1>() }
    h_c20_extended_2 { extended::<2>() }
    h_c20_extended_3 { extended::<3>() }
    h_c20_extended_4 { extended::<4>() }
    h_c20_extended_5 { extended::<5>() }
    h_c20_extended_6 { extended::<6>() }
    h_c20_wide_2 { wides::<2, 2>() }
    h_c20_wide_3 { wides::<2, 3>() }
    h_c20_wide_4 { wides::<3, 4>() }
    h_c20_wide_free_4 { wides::<{ u32::MAX }, 4>() }
    h_c20_alg_0 { algs::<0>() }
    h_c20_alg_1 { algs::<1>() }
    h_c20_alg_2 { algs::<2>() }
    h_c20_alg_3 { algs::<3>() }
    h_c20_alg_4 { algs::<4>() }
    h_c20_alg_5 { algs::<5>() }
    h_c20_alg_6 { algs::<6>() }
    h_c20_foreign_two { foreign::<3>(0, 2) }
    h_c20_foreign_two_after { foreign::<3>(1, 2) }
    h_c20_foreign_three { foreign::<4>(0, 3) }
    h_c20_print_axis_move {
        let m = axis_move();
        let s = m.to_string();
        check(axis_move_of(s.as_bytes()) == Some(m.clone()), 1);
        check(AxisMove::parse(&s).ok() == Some(m), 2);
        cover(1);
    }
    h_c20_print_alg {
        let alg = Alg::<AxisMove>::new(vec![axis_move(), axis_move()]);
        let s = alg.to_string();
        check(alg_of(s.as_bytes()).as_ref() == Some(&alg.moves), 1);
        check(Alg::parse(&s).ok() == Some(alg), 2);
        cover(1);
    }
    h_c20_print_non_redundant {
        let m = non_redundant();
        let s = m.to_string();
        check(alg_of(s.as_bytes()) == Some(m.moves().collect()), 1);
        cover(1);
    }
    h_c20_print_wide {
        let m = wide::<1>();
        let back = WideAxisMove::<1>::parse(&m.to_string()).ok();
        check(back == Some(m), 1);
        cover(1);
    }
    /// Printed with the number of layers, read with the depth: see known_findings.json
    h_c20_print_deep {
        let m = wide::<9>();
        assume(m.depth() >= 2);
        let s = m.to_string();
        let back = WideAxisMove::<10>::parse(&s).ok();
        let same = |d: u32| Some(WideAxisMove::<10>::new(m.axis_move.face.clone(), m.axis_move.amount, d).unwrap()) == back;
        check(same(m.depth()), 1);
        check(same(m.depth()) || same(m.depth() + 1) || (m.depth() + 1 > 9 && back.is_none()), 2);
        cover(1);
    }
    h_c20_print_deepest {
        let m = WideAxisMove::<{ u32::MAX }>::new(face(), amount(), u32::MAX - below(2)).unwrap();
        check(m.to_string().len() <= 13, 1);
        cover(1);
    }
}
