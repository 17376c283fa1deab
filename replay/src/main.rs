//! Runs one harness natively against the real presale build with the inputs of
//! a solver model, and prints what happened.
#[path = "../../harness/src/disc.rs"]
mod disc;
#[path = "../../harness/src/entries.rs"]
mod entries;
#[path = "../../harness/src/h_sale.rs"]
mod h_sale;
#[path = "../../harness/src/h_after.rs"]
mod h_after;
#[path = "../../harness/src/h_setup.rs"]
mod h_setup;
#[path = "../../harness/src/h_settle.rs"]
mod h_settle;
#[path = "../../harness/src/h_init.rs"]
mod h_init;
#[path = "../../harness/src/h_tree.rs"]
mod h_tree;
#[path = "../../harness/src/h_hook.rs"]
mod h_hook;
#[path = "../../harness/src/h_life.rs"]
mod h_life;
#[path = "../../harness/src/svm.rs"]
mod svm;
#[path = "../../harness/src/sym.rs"]
mod sym;
#[path = "../../harness/src/world.rs"]
mod world;

use std::collections::HashMap;
struct St {
    inputs: HashMap<String, u128>,
    params: HashMap<String, u64>,
    seen: HashMap<String, u32>,
    prop: String,
    nopanic: String,
}
static mut ST: Option<St> = None;
#[allow(static_mut_refs)]
fn st() -> &'static mut St {
    unsafe { ST.as_mut().unwrap() }
}
fn s(p: *const u8, l: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, l) }).into_owned()
}
fn next(name: &str) -> u128 {
    let c = st().seen.entry(name.to_string()).or_insert(0);
    *c += 1;
    let n = if *c == 1 { name.to_string() } else { format!("{}#{}", name, c) };
    match st().inputs.get(&n) {
        Some(v) => *v,
        None => {
            // an input the counterexample path never drew
            println!("MISSING-INPUT {}", n);
            0
        }
    }
}
fn active(m: &str) -> bool {
    let p = &st().prop;
    let ids = m.split(' ').next().unwrap_or("");
    p.is_empty() || ids.split(',').any(|i| i == "*" || i == p)
}
#[no_mangle]
extern "C" fn __sym_int(n: *const u8, l: usize, lo: u64, hi: u64) -> u64 {
    let n = s(n, l);
    let v = next(&n) as u64;
    if v < lo || v > hi {
        println!("RANGE-FAIL {} {}", n, v);
        std::process::exit(3);
    }
    v
}
#[no_mangle]
extern "C" fn __sym_u128(n: *const u8, l: usize, out: *mut u128, a: u64, b: u64, c: u64, d: u64) {
    let n = s(n, l);
    let v = next(&n);
    if v < (a as u128 | (b as u128) << 64) || v > (c as u128 | (d as u128) << 64) {
        println!("RANGE-FAIL {} {}", n, v);
        std::process::exit(3);
    }
    unsafe { *out = v }
}
#[no_mangle]
extern "C" fn __sym_key(n: *const u8, l: usize, out: *mut u8) {
    let n = s(n, l);
    for i in 0..4 {
        let v = next(&format!("{}.{}", n, i)) as u64;
        unsafe { std::ptr::copy_nonoverlapping(v.to_be_bytes().as_ptr(), out.add(8 * i), 8) };
    }
}
#[no_mangle]
extern "C" fn __sym_assume(c: u8) {
    if c == 0 {
        println!("ASSUME-FAIL");
        std::process::exit(3);
    }
}
#[no_mangle]
extern "C" fn __sym_assert(c: u8, m: *const u8, l: usize) {
    let m = s(m, l);
    if c == 0 && active(&m) {
        println!("ASSERT-FAIL {}", m);
    }
}
#[no_mangle]
extern "C" fn __sym_cover(m: *const u8, l: usize) {
    println!("COVER {}", s(m, l));
}
#[no_mangle]
extern "C" fn __sym_observe(m: *const u8, l: usize, v: u64) {
    println!("OBS {}={}", s(m, l), v);
}
#[no_mangle]
extern "C" fn __sym_nopanic(m: *const u8, l: usize) {
    let m = s(m, l);
    st().nopanic = if m.is_empty() || active(&m) { m } else { String::new() };
}
#[no_mangle]
extern "C" fn __sym_param(n: *const u8, l: usize, d: u64) -> u64 {
    *st().params.get(&s(n, l)).unwrap_or(&d)
}
#[no_mangle]
extern "C" fn __sym_pick(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn __sym_ite(c: u8, a: u64, b: u64) -> u64 {
    if c != 0 {
        a
    } else {
        b
    }
}
#[no_mangle]
extern "C" fn __sym_active(m: *const u8, l: usize) -> u8 {
    active(&s(m, l)) as u8
}
#[no_mangle]
extern "C" fn __sym_end() -> ! {
    println!("END");
    std::process::exit(0)
}
#[no_mangle]
extern "C" fn __sym_abort(m: *const u8, l: usize) -> ! {
    println!("ABORT {}", s(m, l));
    std::process::exit(4)
}

/// Model file: lines "input NAME VALUE", "param NAME VALUE", "prop ID".
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).expect("model file");
    let mut x = St { inputs: HashMap::new(), params: HashMap::new(), seen: HashMap::new(), prop: String::new(), nopanic: String::new() };
    for line in text.lines() {
        let mut it = line.splitn(2, ' ');
        let k = it.next().unwrap_or("");
        let rest = it.next().unwrap_or("");
        match k {
            "prop" => x.prop = rest.to_string(),
            "param" | "input" => {
                let (n, v) = rest.rsplit_once(' ').unwrap();
                let v: u128 = v.parse().unwrap();
                if k == "param" {
                    x.params.insert(n.to_string(), v as u64);
                } else {
                    x.inputs.insert(n.to_string(), v);
                }
            }
            _ => {}
        }
    }
    unsafe { ST = Some(x) };
    std::panic::set_hook(Box::new(|i| {
        let np = st().nopanic.clone();
        if np.is_empty() {
            println!("PANIC-EXPECTED {}", i);
            std::process::exit(0);
        }
        println!("PANIC [{}] {}", np, i);
        std::process::exit(0);
    }));
    for (n, f) in entries::ENTRIES {
        if *n == a[1] {
            f();
            println!("END");
            return;
        }
    }
    println!("no harness {}", a[1]);
    std::process::exit(5);
}
