//! Runs harness functions natively on concrete inputs.
//!
//! stdin: cases, one per line: `name | p0 p1 ... | id=value id=value ...`
//! fd 3 is not used; results go to the file named by the first argument, one
//! line per case.  Standard output belongs to the code under check.

use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic;

#[derive(Default)]
struct Ctx {
    params: Vec<i64>,
    inputs: HashMap<u32, i128>,
    outs: Vec<(u32, i64)>,
    fails: Vec<u32>,
    panic_ok: u32,
    msg: String,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

struct Stop(&'static str);

fn leave(why: &'static str) -> ! {
    panic::resume_unwind(Box::new(Stop(why)))
}

fn input(id: u32, lo: i128, hi: i128) -> i128 {
    let v = CTX.with(|c| c.borrow().inputs.get(&id).copied());
    let v = v.unwrap_or(if lo <= 0 && 0 <= hi { 0 } else { lo });
    if v < lo || v > hi {
        leave("ASSUME");
    }
    v
}

#[no_mangle]
pub extern "C-unwind" fn vp_sym_i64(id: u32, lo: i64, hi: i64) -> i64 {
    input(id, lo as i128, hi as i128) as i64
}

#[no_mangle]
pub extern "C-unwind" fn vp_sym_u64(id: u32, lo: u64, hi: u64) -> u64 {
    input(id, lo as i128, hi as i128) as u64
}

#[no_mangle]
pub extern "C-unwind" fn vp_param(i: u32) -> i64 {
    CTX.with(|c| c.borrow().params[i as usize])
}

#[no_mangle]
pub extern "C-unwind" fn vp_assume(c: bool) {
    if !c {
        leave("ASSUME");
    }
}

#[no_mangle]
pub extern "C-unwind" fn vp_check(c: bool, code: u32) {
    if !c {
        CTX.with(|x| x.borrow_mut().fails.push(code));
        leave("FAIL");
    }
}

#[no_mangle]
pub extern "C-unwind" fn vp_out(tag: u32, v: i64) {
    CTX.with(|c| c.borrow_mut().outs.push((tag, v)));
}

#[no_mangle]
pub extern "C-unwind" fn vp_cover(_id: u32) {}

#[no_mangle]
pub extern "C-unwind" fn vp_panic_ok(v: u32) {
    CTX.with(|c| c.borrow_mut().panic_ok = v);
}

#[no_mangle]
pub extern "C-unwind" fn vp_stop() {
    leave("DONE");
}

#[no_mangle]
pub extern "C-unwind" fn vp_split(c: bool) -> bool {
    c
}

fn main() {
    panic::set_hook(Box::new(|i| {
        let s = i.to_string().replace('\n', " ");
        CTX.with(|c| {
            if let Ok(mut c) = c.try_borrow_mut() {
                c.msg = s;
            }
        });
    }));
    let path = std::env::args().nth(1).expect("result file");
    let mut res = std::fs::File::create(path).expect("result file");
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut part = line.split('|').map(|s| s.trim());
        let name = part.next().unwrap().to_string();
        let mut ctx = Ctx::default();
        for p in part.next().unwrap_or("").split_whitespace() {
            ctx.params.push(p.parse().unwrap());
        }
        for p in part.next().unwrap_or("").split_whitespace() {
            let (k, v) = p.split_once('=').unwrap();
            ctx.inputs.insert(k.parse().unwrap(), v.parse().unwrap());
        }
        CTX.with(|c| *c.borrow_mut() = ctx);
        let f = vharness::find(&name).expect("harness name");
        let end = match panic::catch_unwind(|| f()) {
            Ok(()) => "DONE",
            Err(e) => match e.downcast_ref::<Stop>() {
                Some(s) => s.0,
                None => "PANIC",
            },
        };
        CTX.with(|c| {
            let c = c.borrow();
            let outs: Vec<String> = c.outs.iter().map(|(t, v)| format!("{}:{}", t, v)).collect();
            let fail = c.fails.first().copied().unwrap_or(0);
            writeln!(
                res,
                "{}\t{}\t{}\t{}\t{}",
                end,
                fail,
                c.panic_ok,
                outs.join(" "),
                c.msg
            )
            .unwrap();
        });
        res.flush().unwrap();
    }
}
