//! Runs a harness natively on the values of a model file.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::sync::Mutex;

/// As the allocator contract allows: reallocation always moves, and freed
/// memory does not keep its contents.
struct Moving;
unsafe impl GlobalAlloc for Moving {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if l.size() < 1 << 20 { std::ptr::write_bytes(p, 0xdd, l.size()) } else { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l); }
        q
    }
}
#[global_allocator]
static A: Moving = Moving;

static MODEL: Mutex<Option<HashMap<u32, u64>>> = Mutex::new(None);
static PARAMS: Mutex<Vec<u64>> = Mutex::new(vec![]);
static OBS: Mutex<Vec<u64>> = Mutex::new(vec![]);
#[no_mangle] pub extern "C" fn sym_bits(id: u32, n: u32) -> u64 { let v = *MODEL.lock().unwrap().as_ref().unwrap().get(&id).unwrap_or(&0); if n >= 64 { v } else { v & ((1 << n) - 1) } }
#[no_mangle] pub extern "C" fn sym_assume(c: bool) { if !c { eprintln!("assumption does not hold on this input"); std::process::exit(77) } }
#[no_mangle] pub extern "C" fn sym_check(c: bool, id: u32) { if !c { eprintln!("CHECK {} FAILED", id); std::process::exit(1) } }
#[no_mangle] pub extern "C" fn sym_reach(_id: u32) {}
#[no_mangle] pub extern "C" fn sym_obs(v: u64) { OBS.lock().unwrap().push(v) }
#[no_mangle] pub extern "C" fn cfg_param(i: u32) -> u64 { *PARAMS.lock().unwrap().get(i as usize).unwrap_or(&0) }
#[no_mangle] pub extern "C" fn sym_concretize(v: u64) -> u64 { v }
#[no_mangle] pub extern "C" fn sym_ite(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
#[no_mangle] pub extern "C" fn sym_cant(c: bool) -> bool { !c }
#[no_mangle] pub extern "C" fn sym_fork(c: bool) -> bool { c }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let txt = std::fs::read_to_string(&a[1]).unwrap();
    let mut m = HashMap::new(); let mut entry = String::new();
    for l in txt.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        match f.first() { Some(&"entry") => entry = f[1].into(), Some(&"param") => PARAMS.lock().unwrap().push(f[1].parse().unwrap()), Some(&"v") => { m.insert(f[1].parse().unwrap(), f[2].parse().unwrap()); } _ => {} }
    }
    *MODEL.lock().unwrap() = Some(m);
    let f = TABLE.iter().find(|x| x.0 == entry).unwrap_or_else(|| { eprintln!("no harness {}", entry); std::process::exit(2) }).1;
    f();
    println!("obs {}", OBS.lock().unwrap().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
}
include!(env!("HARNESS_TABLE"));
