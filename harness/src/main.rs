//! Native replay of recorded inputs: `replay ENTRY PARAMS HEX [HEX...]`; prints one line of observed values per input.
//! An assertion failure or a panic of the library aborts the process; an input outside the assumptions exits with 77.
#![allow(dead_code)]
include!("mods.rs");
use std::cell::RefCell;
struct Ctx { input: Vec<u8>, pos: usize, params: Vec<u64>, obs: Vec<u64> }
thread_local! { static C: RefCell<Ctx> = RefCell::new(Ctx { input: vec![], pos: 0, params: vec![], obs: vec![] }); }
fn next() -> u8 { C.with(|c| { let mut c = c.borrow_mut(); let p = c.pos; c.pos += 1; c.input.get(p).copied().unwrap_or(0) }) }
#[no_mangle] pub extern "C" fn sym_bytes(p: *mut u8, n: usize) { for i in 0..n { unsafe { *p.add(i) = next() } } }
#[no_mangle] pub extern "C" fn sym_assume(c: bool) { if !c { eprintln!("input outside the assumptions"); std::process::exit(77); } }
#[no_mangle] pub extern "C" fn sym_assert(c: bool, id: u32) { if !c { eprintln!("ASSERTION {} FAILED", id); std::process::exit(101); } }
#[no_mangle] pub extern "C" fn sym_cover(_: u32) {}
#[no_mangle] pub extern "C" fn sym_observe(v: u64) { C.with(|c| c.borrow_mut().obs.push(v)); }
#[no_mangle] pub extern "C" fn sym_param(i: usize) -> u64 { C.with(|c| c.borrow().params.get(i).copied().unwrap_or(0)) }
#[no_mangle] pub extern "C" fn sym_conc(v: u64) -> u64 { v }
#[no_mangle] pub extern "C" fn sym_choose(n: u64) -> u64 { let v = next() as u64; sym_assume(v < n); v }
#[no_mangle] pub extern "C" fn sym_ite(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = entries().into_iter().find(|e| e.0 == a[1]).expect("unknown entry").1;
    let params: Vec<u64> = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    for h in &a[3..] {
        let input: Vec<u8> = if h == "-" { vec![] } else { (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect() };
        C.with(|c| *c.borrow_mut() = Ctx { input, pos: 0, params: params.clone(), obs: vec![] });
        f();
        C.with(|c| println!("{:?}", c.borrow().obs));
    }
}
