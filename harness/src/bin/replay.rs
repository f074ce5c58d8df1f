//! Runs one harness natively on a recorded input vector.
//!
//! `replay ENTRY PARAMS INPUTS` with comma separated numbers. Prints one line
//! per observation and ends with `DONE`, `ASSUME`, `ASSERT id` or `PANIC text`.
use std::cell::{Cell, RefCell};

include!(env!("HARNESS_TABLE"));

#[derive(Default)]
struct Run {
    params: Vec<u64>,
    inputs: Vec<u64>,
    next: Cell<usize>,
    panic_ok: Cell<bool>,
}

thread_local! {
    static RUN: RefCell<Run> = RefCell::new(Run::default());
}

fn finish(line: &str) -> ! {
    println!("{line}");
    std::process::exit(0)
}

fn next() -> u64 {
    RUN.with(|r| {
        let r = r.borrow();
        let i = r.next.get();
        r.next.set(i + 1);
        // Variables created after the point the vector was recorded at are free.
        r.inputs.get(i).copied().unwrap_or(0)
    })
}

#[no_mangle]
extern "C" fn sym_new(width: u32) -> u64 {
    let v = next();
    if width >= 64 {
        v
    } else {
        v & ((1 << width) - 1)
    }
}
#[no_mangle]
extern "C" fn sym_pick(n: u32) -> u32 {
    let v = next() as u32;
    if v >= n {
        finish("ASSUME");
    }
    v
}
#[no_mangle]
extern "C" fn sym_concrete(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn sym_assume(c: bool) {
    if !c {
        finish("ASSUME");
    }
}
#[no_mangle]
extern "C" fn sym_assert(c: bool, id: u32) {
    if !c {
        finish(&format!("ASSERT {id}"));
    }
}
#[no_mangle]
extern "C" fn sym_note(v: u64) {
    println!("NOTE {v}");
}
#[no_mangle]
extern "C" fn sym_reach(_id: u32) {}
#[no_mangle]
extern "C" fn sym_param(i: u32) -> u64 {
    RUN.with(|r| r.borrow().params[i as usize])
}
#[no_mangle]
extern "C" fn sym_panic_ok(on: u32) {
    RUN.with(|r| r.borrow().panic_ok.set(on != 0));
}
#[no_mangle]
extern "C" fn sym_hash_mode(_real: u32) {}
#[no_mangle]
extern "C" fn sym_hash_seed(_s: u64) {}
#[no_mangle]
extern "C" fn sym_live() -> u64 {
    0
}
#[no_mangle]
extern "C" fn sym_show(p: *const u8, n: usize) {
    // SAFETY: called with the parts of a string slice.
    let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    println!("SHOW {s:?}");
}

fn numbers(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("number")).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let entry = TABLE.iter().find(|(n, _)| *n == a[1]).expect("entry").1;
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        r.params = numbers(&a[2]);
        r.inputs = numbers(&a[3]);
    });
    std::panic::set_hook(Box::new(|info| {
        let ok = RUN.with(|r| r.borrow().panic_ok.get());
        let text = format!("{info}").replace('\n', " ");
        finish(&if ok { "EXPECTED-PANIC".to_string() } else { format!("PANIC {text}") });
    }));
    entry();
    finish("DONE");
}
