//! The tables hold exact distances.
use crate::{fs, harnesses, table::*, vf::*};
use barbarosa::cube_n::cube3::mus::cache::verif;

fn exact<const P: usize, const O: usize>() {
    let n = P * O;
    let d = any_moves(n, n < 5);
    unsafe { fs::FOLDER = any_bool() };
    let t = verif::build_partial::<Small<P, O>>().unwrap();
    cover(1);
    check(t.len() == n, 1);
    for i in 0..n {
        check(t[i] == d[i], 2);
    }
    unsafe {
        check(fs::EXISTS && fs::LEN == n, 3);
        for i in 0..n {
            check(fs::DATA[i] == d[i], 4);
        }
    }
}

harnesses! {
    h_c14_one {
        cover(1);
        exact::<1, 1>();
        check(unsafe { fs::LEN } == 1, 5)
    }
    h_c14_two {
        cover(1);
        exact::<2, 1>();
        check(unsafe { fs::LEN } == 2, 5)
    }
    h_c14_three {
        cover(1);
        exact::<1, 3>();
        check(unsafe { fs::LEN } == 3, 5)
    }
    h_c14_four {
        cover(1);
        exact::<2, 2>();
        check(unsafe { fs::LEN } == 4, 5)
    }
    h_c14_five {
        cover(1);
        exact::<5, 1>();
        check(unsafe { fs::LEN } == 5, 5)
    }
}
