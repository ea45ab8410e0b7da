//! A wide move of depth `d` on a 4x4 to 7x7 turns exactly the `d + 1` outermost layers; a plain face move
//! turns the outermost one.
use crate::{big::*, harnesses, vf::*};
use barbarosa::cube_n::{AxisMove, Cube4, Cube5, Cube6, Cube7, WideAxisMove};
use barbarosa::generic::Movable;

fn wide_on<C: Big + Movable<WideAxisMove<N>>, const N: u32>() {
    let mut before = C::arbitrary();
    let m = wide::<N>();
    let mut after = before.clone();
    Movable::<WideAxisMove<N>>::apply(&mut after, &m);
    before.compare(&mut after, &Layers(m.face(), m.depth() as i8, m.amount()));
}
fn axis_on<C: Big + Movable<AxisMove>>() {
    let mut before = C::arbitrary();
    let m = axis_move();
    let mut after = before.clone();
    Movable::<AxisMove>::apply(&mut after, &m);
    before.compare(&mut after, &Layers(&m.face, 0, m.amount));
}

harnesses! {
    h_c02_cube4_wide { wide_on::<Cube4, 1>(); cover(1); }
    h_c02_cube5_wide { wide_on::<Cube5, 1>(); cover(1); }
    h_c02_cube6_wide { wide_on::<Cube6, 2>(); cover(1); }
    h_c02_cube7_wide { wide_on::<Cube7, 2>(); cover(1); }
    h_c02_cube4_axis { axis_on::<Cube4>(); cover(1); }
    h_c02_cube5_axis { axis_on::<Cube5>(); cover(1); }
    h_c02_cube6_axis { axis_on::<Cube6>(); cover(1); }
    h_c02_cube7_axis { axis_on::<Cube7>(); cover(1); }
    h_c02_cube4_wide0 { wide_on::<Cube4, 0>(); cover(1); }
    h_c02_cube5_wide0 { wide_on::<Cube5, 0>(); cover(1); }
    h_c02_cube6_wide1 { wide_on::<Cube6, 1>(); cover(1); }
    h_c02_cube7_wide1 { wide_on::<Cube7, 1>(); cover(1); }
}
