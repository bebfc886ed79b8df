//! Native replay of inputs found (or sampled) by the symbolic executor: the same harness code, linked against the
//! real crate, with every symbolic input answered from a recorded list.
//! Exit codes: 0 all assertions held; 1 an assertion failed; 101 panic; 3 input list does not fit; 4 assumption false.
#[path = "../../harness/lib.rs"]
mod harness;

use std::cell::RefCell;
thread_local! {
    static IN: RefCell<(Vec<(String, u64)>, usize)> = RefCell::new((Vec::new(), 0));
    static PANIC_OK: RefCell<u32> = RefCell::new(0);
    static TIER: RefCell<u32> = RefCell::new(0);
}
fn next(kind: &str) -> u64 {
    IN.with(|c| {
        let mut c = c.borrow_mut();
        let i = c.1;
        c.1 += 1;
        if i >= c.0.len() { println!("END-OF-INPUT at {}", i); std::process::exit(3); }
        if c.0[i].0 != kind { println!("DIVERGED at {}: want {} have {}", i, kind, c.0[i].0); std::process::exit(3); }
        c.0[i].1
    })
}
#[no_mangle] pub extern "C" fn vp_any_f32() -> f32 { f32::from_bits(next("f32") as u32) }
#[no_mangle] pub extern "C" fn vp_f32_in(lo: f32, hi: f32) -> f32 { let x = f32::from_bits(next("f32") as u32); if !(x >= lo && x <= hi) { std::process::exit(3); } x }
#[no_mangle] pub extern "C" fn vp_any_u32() -> u32 { next("u32") as u32 }
#[no_mangle] pub extern "C" fn vp_any_u64() -> u64 { next("u64") }
#[no_mangle] pub extern "C" fn vp_any_u8() -> u8 { next("u8") as u8 }
#[no_mangle] pub extern "C" fn vp_int(lo: i32, hi: i32) -> i32 {
    let v = next("i32") as u32 as i32;
    if v < lo || v > hi { println!("RANGE"); std::process::exit(3); }
    v
}
#[no_mangle] pub extern "C" fn vp_choose(n: u32) -> u32 { let v = next("u32") as u32; if v >= n { std::process::exit(3); } v }
#[no_mangle] pub extern "C" fn vp_assume(b: bool) { if !b { println!("ASSUME-FALSE"); std::process::exit(4); } }
#[no_mangle] pub extern "C" fn vp_assert(b: bool, id: u32) { if !b { println!("ASSERT-FAILED {}", id); std::process::exit(1); } }
#[no_mangle] pub extern "C" fn vp_cover(_id: u32) {}
#[no_mangle] pub extern "C" fn vp_obs(v: u32) { println!("OBS {}", v); }
#[no_mangle] pub extern "C" fn vp_panic_ok(m: u32) { PANIC_OK.with(|c| *c.borrow_mut() = m) }
#[no_mangle] pub extern "C" fn vp_concretize(v: u32) -> u32 { v }
#[no_mangle] pub extern "C" fn vp_tier() -> u32 { TIER.with(|c| *c.borrow()) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // vpreplay <harness> <tier> <file>     file: one "kind value" per line
    let name = &a[1];
    TIER.with(|c| *c.borrow_mut() = a[2].parse().unwrap());
    let txt = std::fs::read_to_string(&a[3]).unwrap();
    let v: Vec<(String, u64)> = txt.lines().filter(|l| !l.is_empty()).map(|l| {
        let mut p = l.split(' ');
        (p.next().unwrap().to_string(), p.next().unwrap().parse::<u64>().unwrap())
    }).collect();
    IN.with(|c| c.borrow_mut().0 = v);
    std::panic::set_hook(Box::new(|i| {
        let ok = PANIC_OK.with(|c| *c.borrow());
        println!("PANIC {}", i);
        std::process::exit(if ok == 1 { 0 } else { 101 });
    }));
    for (n, f) in harness::table() {
        if n == name {
            f();
            println!("DONE");
            std::process::exit(0);
        }
    }
    println!("no such harness");
    std::process::exit(5);
}
