//! Stored tables: only whole ones are used, and errors come through.
use crate::{fs, harnesses, table::*, vf::*};
use barbarosa::cube_n::cube3::mus::cache::verif;
use std::io::ErrorKind;

type S = Small<3, 1>;
const SIZE: usize = 3;

/// No error, or one of a few
fn any_error() -> i32 {
    [0, 13, 20, 5, 2][below(5) as usize]
}
fn kind(e: i32) -> ErrorKind {
    std::io::Error::from_raw_os_error(e).kind()
}
/// A file of any length below `n`, if any, that can be opened and read or not, in pieces of any length
fn any_file(n: u32) {
    unsafe {
        fs::FOLDER = true;
        fs::EXISTS = any_bool();
        fs::LEN = below(n) as usize;
        for i in 0..fs::MAX {
            fs::DATA[i] = any(8) as u8;
        }
        fs::OPEN_READ = any_error();
        fs::CHUNK = 1 + below(3) as usize;
    }
}
fn readable() -> bool {
    unsafe { fs::EXISTS && fs::OPEN_READ == 0 && fs::READABLE >= fs::LEN }
}
/// The moves that make the distances 0, 1, 2
fn some_moves() {
    unsafe {
        MOVES = [Some(axis_move()), None];
        NEXT[0][..3].copy_from_slice(&[1, 2, 0]);
    }
}
/// The error that reading has to end with
fn read_error() -> ErrorKind {
    unsafe {
        match (fs::OPEN_READ, fs::EXISTS) {
            (0, false) => kind(fs::NOT_THERE),
            (0, true) => kind(5),
            (e, _) => kind(e),
        }
    }
}
fn same(t: &[u8], d: [u8; fs::MAX]) {
    check(t.len() == SIZE, 11);
    for i in 0..SIZE {
        check(t[i] == d[i], 12);
    }
}

harnesses! {
    /// Every file that is not of the right length is refused, by a panic or an error: it never becomes a table
    h_c15_wrong_length {
        any_file(7);
        assume(readable() && unsafe { fs::LEN } != SIZE);
        cover(1);
        check(verif::load_partial::<S>().is_err(), 1);
    }
    h_c15_wrong_length_build {
        any_file(7);
        some_moves();
        assume(readable() && unsafe { fs::LEN } != SIZE);
        cover(1);
        if let Ok(t) = verif::verif_load_or_build_partial::<S>() {
            same(&t, [0, 1, 2, 0, 0, 0, 0, 0]);
        }
    }
    h_c15_load {
        any_file(7);
        unsafe { fs::READABLE = below(8) as usize };
        assume(!readable() || unsafe { fs::LEN } == SIZE);
        let before = unsafe { (fs::DATA, fs::EXISTS) };
        match verif::load_partial::<S>() {
            Ok(t) => {
                cover(1);
                check(readable(), 1);
                same(&t, before.0);
            }
            Err(e) => {
                cover(2);
                check(!readable() && e.kind() == read_error(), 2);
            }
        }
        check(unsafe { fs::WRITES == 0 && fs::EXISTS == before.1 && fs::DATA == before.0 }, 3);
    }
    /// A missing table is built and stored; the errors on the way come through
    h_c15_build {
        any_file(4);
        some_moves();
        assume(!readable() || unsafe { fs::LEN } == SIZE);
        unsafe {
            fs::FOLDER = any_bool() || fs::EXISTS;
            fs::MKDIR = any_error();
            fs::OPEN_WRITE = any_error();
            fs::SPACE = below(4) as usize;
            // only a missing folder makes a file for writing missing
            assume(fs::OPEN_WRITE != fs::NOT_THERE);
        }
        let (f, d, had) = unsafe { (fs::FOLDER, fs::DATA, readable()) };
        let missing = !had && read_error() == kind(fs::NOT_THERE);
        let r = verif::verif_load_or_build_partial::<S>();
        let wrote = unsafe { fs::WRITES };
        if had {
            cover(1);
            same(&r.unwrap(), d);
            check(wrote == 0, 1);
        } else if !missing {
            cover(2);
            check(r.unwrap_err().kind() == read_error() && wrote == 0, 2);
        } else if !f && unsafe { fs::MKDIR } != 0 {
            cover(3);
            check(r.unwrap_err().kind() == kind(unsafe { fs::MKDIR }) && wrote == 0, 3);
        } else if unsafe { fs::OPEN_WRITE } != 0 {
            cover(4);
            check(r.unwrap_err().kind() == kind(unsafe { fs::OPEN_WRITE }), 4);
        } else if unsafe { fs::SPACE } < SIZE {
            cover(5);
            check(r.unwrap_err().kind() == kind(28), 5);
        } else {
            cover(6);
            same(&r.unwrap(), [0, 1, 2, 0, 0, 0, 0, 0]);
            check(unsafe { fs::EXISTS && fs::LEN == SIZE }, 6);
            same(unsafe { &fs::DATA[..SIZE] }, [0, 1, 2, 0, 0, 0, 0, 0]);
        }
    }
    /// A table that could not be stored as a whole is not used by the next run
    h_c15_interrupted {
        some_moves();
        unsafe {
            fs::FOLDER = any_bool();
            fs::SPACE = below(SIZE as u32) as usize;
            fs::CHUNK = 1 + below(3) as usize;
        }
        check(verif::verif_load_or_build_partial::<S>().is_err(), 1);
        cover(1);
        check(verif::load_partial::<S>().is_err(), 2);
    }
    /// What is stored is what is loaded
    h_c15_again {
        let t = [any(8) as u8, any(8) as u8, any(8) as u8];
        unsafe {
            fs::FOLDER = any_bool();
            fs::CHUNK = 1 + below(3) as usize;
        }
        check(verif::write_partial::<S>(&t).is_ok(), 1);
        let back = verif::load_partial::<S>().unwrap();
        cover(1);
        same(&back, [t[0], t[1], t[2], 0, 0, 0, 0, 0]);
        check(unsafe { fs::WRITES } == 1, 2);
    }
    /// Nothing but a whole table is stored
    h_c15_store_wrong_length {
        let t = [1u8; 6];
        let n = below(7) as usize;
        assume(n != SIZE);
        unsafe { fs::FOLDER = true };
        cover(1);
        check(verif::write_partial::<S>(&t[..n]).is_err(), 1);
    }
}
