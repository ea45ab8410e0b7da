//! A file system with one table in it, and with faults, in place of the C library's calls: nothing
//! here or in the code under test touches the real one.
use std::ffi::{c_char, c_int, c_long, c_void};

pub const DIR: &[u8] = b"verif-tables";
pub const PATH: &[u8] = b"verif-tables/toy";
pub const MAX: usize = 8;

pub static mut ERRNO: c_int = 0;
/// The folder is there
pub static mut FOLDER: bool = false;
/// The file is there, with these bytes
pub static mut EXISTS: bool = false;
pub static mut DATA: [u8; MAX] = [0; MAX];
pub static mut LEN: usize = 0;
/// Faults: errors of opening (reading, writing) and of making the folder (0: none), and how many bytes can be read and written
pub static mut OPEN_READ: c_int = 0;
pub static mut OPEN_WRITE: c_int = 0;
pub static mut MKDIR: c_int = 0;
pub static mut READABLE: usize = MAX;
pub static mut SPACE: usize = MAX;
/// At most this many bytes at a time
pub static mut CHUNK: usize = MAX;
/// How often a file was opened for writing
pub static mut WRITES: u32 = 0;
static mut POS: usize = 0;

pub const NOT_THERE: c_int = 2;
const FD: c_int = 1000;

fn fail(e: c_int) -> c_int {
    unsafe { ERRNO = e };
    -1
}
fn is(p: *const c_char, name: &[u8]) -> bool {
    for i in 0..name.len() {
        if unsafe { *p.add(i) } as u8 != name[i] {
            return false;
        }
    }
    unsafe { *p.add(name.len()) == 0 }
}

#[cfg(not(verif_ir))]
extern "C" {
    fn syscall(n: c_long, a: c_int, b: *const c_void, c: usize) -> isize;
}
#[no_mangle]
pub extern "C" fn __errno_location() -> *mut c_int {
    unsafe { &mut ERRNO }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn open64(path: *const c_char, flags: c_int, _mode: c_int) -> c_int {
    unsafe {
        if !is(path, PATH) {
            return fail(NOT_THERE);
        }
        POS = 0;
        if flags & 3 == 0 {
            if OPEN_READ != 0 {
                return fail(OPEN_READ);
            }
            if !EXISTS {
                return fail(NOT_THERE);
            }
            return FD;
        }
        if !FOLDER {
            return fail(NOT_THERE);
        }
        if OPEN_WRITE != 0 {
            return fail(OPEN_WRITE);
        }
        if !EXISTS && flags & 0o100 == 0 {
            return fail(NOT_THERE);
        }
        EXISTS = true;
        if flags & 0o1000 != 0 {
            LEN = 0;
        }
        WRITES += 1;
        FD
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn read(fd: c_int, buf: *mut u8, n: usize) -> isize {
    unsafe {
        #[cfg(not(verif_ir))]
        if fd != FD {
            return syscall(0, fd, buf as *const c_void, n);
        }
        let _ = fd;
        let mut k = 0;
        while k < n && k < CHUNK && POS < LEN && POS < READABLE {
            *buf.add(k) = DATA[POS];
            POS += 1;
            k += 1;
        }
        if k == 0 && n > 0 && POS < LEN {
            return fail(5) as isize;
        }
        k as isize
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn write(fd: c_int, buf: *const u8, n: usize) -> isize {
    unsafe {
        #[cfg(not(verif_ir))]
        if fd != FD {
            return syscall(1, fd, buf as *const c_void, n);
        }
        let _ = fd;
        let mut k = 0;
        while k < n && k < CHUNK && POS < SPACE && POS < MAX {
            DATA[POS] = *buf.add(k);
            POS += 1;
            k += 1;
            if POS > LEN {
                LEN = POS;
            }
        }
        if k == 0 && n > 0 {
            return fail(28) as isize;
        }
        k as isize
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn close(_fd: c_int) -> c_int {
    0
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn mkdir(path: *const c_char, _mode: c_int) -> c_int {
    unsafe {
        if !is(path, DIR) {
            return fail(13);
        }
        if MKDIR != 0 {
            return fail(MKDIR);
        }
        if FOLDER {
            return fail(17);
        }
        FOLDER = true;
        0
    }
}
/// What is known about the file and the folder
#[no_mangle]
#[inline(never)]
pub extern "C" fn statx(fd: c_int, path: *const c_char, _: c_int, _: u32, out: *mut u8) -> c_int {
    unsafe {
        if path.is_null() || out.is_null() {
            return fail(14);
        }
        let (mode, size) = if fd == FD || is(path, PATH) {
            if !EXISTS {
                return fail(NOT_THERE);
            }
            (0o100644u16, LEN)
        } else if is(path, DIR) {
            if !FOLDER {
                return fail(NOT_THERE);
            }
            (0o40755, 0)
        } else {
            return fail(NOT_THERE);
        };
        std::ptr::write_bytes(out, 0, 256);
        *(out as *mut u32) = 0x7ff;
        *(out.add(28) as *mut u16) = mode;
        *(out.add(40) as *mut u64) = size as u64;
        0
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn fstat64(_: c_int, _: *mut c_void) -> c_int {
    fail(9)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn stat64(_: *const c_char, _: *mut c_void) -> c_int {
    fail(NOT_THERE)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn lseek64(fd: c_int, by: i64, whence: c_int) -> i64 {
    unsafe {
        if fd != FD {
            return fail(9) as i64;
        }
        POS = match whence {
            0 => by,
            1 => POS as i64 + by,
            _ => LEN as i64 + by,
        } as usize;
        POS as i64
    }
}
/// The clock of the symbolic run: a second passes with every look at it
#[cfg(verif_ir)]
#[no_mangle]
#[inline(never)]
pub extern "C" fn clock_gettime(_: c_int, t: *mut [i64; 2]) -> c_int {
    static mut NOW: i64 = 1_700_000_000;
    unsafe {
        NOW += 1;
        *t = [NOW, 0];
    }
    0
}
/// No variables in the environment
#[cfg(verif_ir)]
#[no_mangle]
#[inline(never)]
pub extern "C" fn getenv(_: *const c_char) -> *const c_char {
    std::ptr::null()
}
/// No links and no folders to look into
#[cfg(verif_ir)]
#[no_mangle]
#[inline(never)]
pub extern "C" fn lstat64(_: *const c_char, _: *mut c_void) -> c_int {
    fail(NOT_THERE)
}
#[cfg(verif_ir)]
#[no_mangle]
#[inline(never)]
pub extern "C" fn readlink(_: *const c_char, _: *mut c_char, _: usize) -> isize {
    fail(NOT_THERE) as isize
}
