//! Runs one harness natively on given values: `replay HARNESS v0 v1 ..`.
//! Exit 0: every check passed; 1: a check failed; 101/134: a panic; 77: the values break an assumption.
#![allow(unexpected_cfgs)]
use std::sync::Mutex;

static VALUES: Mutex<(Vec<u64>, usize)> = Mutex::new((Vec::new(), 0));

fn next(max: u64) -> u64 {
    let mut v = VALUES.lock().unwrap();
    let i = v.1;
    v.1 += 1;
    let x = v.0.get(i).copied().unwrap_or(0);
    if x > max {
        println!("value {i} out of range");
        std::process::exit(77)
    }
    x
}
#[no_mangle]
pub extern "C" fn vf_below(n: u32) -> u32 {
    next(n as u64 - 1) as u32
}
#[no_mangle]
pub extern "C" fn vf_any(bits: u32) -> u64 {
    next(if bits >= 64 { u64::MAX } else { (1 << bits) - 1 })
}
#[no_mangle]
pub extern "C" fn vf_assume(c: bool) {
    if !c {
        println!("assumption broken");
        std::process::exit(77)
    }
}
#[no_mangle]
pub extern "C" fn vf_check(c: bool, id: u32) {
    if !c {
        println!("check {id} failed");
        std::process::exit(1)
    }
}
#[no_mangle]
pub extern "C" fn vf_cover(id: u32) {
    println!("cover {id}");
}
#[no_mangle]
pub extern "C" fn vf_is_concrete() -> bool {
    true
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    VALUES.lock().unwrap().0 = args[2..].iter().map(|a| a.parse().unwrap()).collect();
    match harness::run(&args[1]) {
        true => println!("all checks passed"),
        false => {
            println!("no such harness");
            std::process::exit(2)
        }
    }
}
