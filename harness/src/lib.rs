//! Harness functions run by the symbolic executor and by the native replay
//! binary.  They use the public interface of the crate under check only.

pub mod expr;
pub mod oracle;
pub mod vp;

use crate::expr::*;
use crate::vp::*;
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};
use std::cmp::Ordering;

/// An undefined expression must be refused: panic instead of returning.
fn refuse(x: Number) {
    check(false, 100);
    drop(x);
}

/// The value of an expression, symbol by symbol.
/// params: [symbols, panic allowed, declarations, expression]
#[no_mangle]
pub extern "C-unwind" fn h_exact() {
    let mut env = Env::new(2);
    let at = env.cur;
    let v = value(&mut env);
    env.cur = at;
    match v {
        None => {
            cover(1);
            panic_ok(1);
            refuse(build(&mut env));
        }
        Some((p, q)) => {
            let (p, q) = norm(p, q);
            panic_ok(param(1));
            let x = build(&mut env);
            if oracle::number(x, p, q, param(0), 110) {
                cover(2);
            }
            cover(0);
        }
    }
}

/// The end of an expansion, once reached, is final.
/// params: [further reads, panic allowed, declarations, expression]
#[no_mangle]
pub extern "C-unwind" fn h_end() {
    let mut env = Env::new(2);
    let at = env.cur;
    let v = value(&mut env);
    env.cur = at;
    if let Some((p, q)) = v {
        let (p, q) = norm(p, q);
        panic_ok(param(1));
        if let Number::Other(pr, mut c) = build(&mut env) {
            let (p, q) = oracle::primer(&pr, p, q, 110);
            if oracle::stream(&mut c, p, q, 200, 110) {
                // nothing is computed any more
                panic_ok(0);
                let mut i = 0;
                while i < param(0) {
                    check(c.egest().is_none(), 130);
                    i += 1;
                }
                cover(2);
            }
        }
        cover(0);
    }
}

/// Two expressions compared, against the order of their exact values.
/// params: [unused, panic allowed, declarations, expression, expression]
#[no_mangle]
pub extern "C-unwind" fn h_compare() {
    let mut env = Env::new(2);
    let at = env.cur;
    let a = value(&mut env);
    let b = value(&mut env);
    env.cur = at;
    if let (Some((p, q)), Some((r, s))) = (a, b) {
        let (p, q) = norm(p, q);
        let (r, s) = norm(r, s);
        panic_ok(param(1));
        let x = build(&mut env);
        let y = build(&mut env);
        match Number::compare(x, y) {
            Ordering::Less => {
                out(4, -1);
                check(p * s < r * q, 200);
                cover(1);
            }
            Ordering::Equal => {
                out(4, 0);
                check(p * s == r * q, 201);
                cover(2);
            }
            Ordering::Greater => {
                out(4, 1);
                check(p * s > r * q, 202);
                cover(3);
            }
        }
        cover(0);
    }
}

fn code_special(s: &Special) -> isize {
    match s {
        Special::NegOne => -1,
        Special::Zero => 0,
        Special::PosOne => 1,
    }
}

fn code_primer(p: &Option<Primer>) -> isize {
    match p {
        None => 0,
        Some(Primer::Turn) => 1,
        Some(Primer::Reflect) => 2,
        Some(Primer::Ground) => 3,
    }
}

fn code_reduction(r: &Option<Reduction>) -> isize {
    match r {
        None => 2,
        Some(Reduction::Amplify) => 0,
        Some(Reduction::Uncover) => 1,
    }
}

/// Two constructions of the same value must show the same symbols.
/// params: [symbols, panic allowed, declarations, expression, expression]
#[no_mangle]
pub extern "C-unwind" fn h_same() {
    let mut env = Env::new(2);
    let at = env.cur;
    let a = value(&mut env);
    let b = value(&mut env);
    env.cur = at;
    if let (Some((p, q)), Some((r, s))) = (a, b) {
        assume(p * s == r * q);
        panic_ok(param(1));
        let x = build(&mut env);
        let y = build(&mut env);
        match (x, y) {
            (Number::Special(s1), Number::Special(s2)) => {
                check(code_special(&s1) == code_special(&s2), 210);
                cover(1);
            }
            (Number::Other(p1, mut c1), Number::Other(p2, mut c2)) => {
                check(code_primer(&p1) == code_primer(&p2), 211);
                let mut i = 0;
                while i < param(0) {
                    let r1 = code_reduction(&c1.egest());
                    let r2 = code_reduction(&c2.egest());
                    out(3, r1);
                    check(r1 == r2, 212);
                    if r1 == 2 {
                        break;
                    }
                    i += 1;
                }
                cover(2);
            }
            _ => check(false, 213),
        }
        cover(0);
    }
}

/// Information transfer out of an expression, and what is left of it.
/// params: [symbols, panic allowed, declarations, expression]
#[no_mangle]
pub extern "C-unwind" fn h_consume() {
    let mut env = Env::new(2);
    let at = env.cur;
    let v = value(&mut env);
    env.cur = at;
    if let Some((p, q)) = v {
        let (p, q) = norm(p, q);
        panic_ok(param(1));
        let x = build(&mut env);
        let (left, ny, n, dy, d) = Number::consume(x);
        let (ny, n, dy, d) = (ny as i128, n as i128, dy as i128, d as i128);
        match left {
            None => {
                // the missing number stands for one half
                let num = ny + 2 * n;
                let den = dy + 2 * d;
                check(den != 0, 220);
                check(num * q == den * p, 221);
                cover(1);
            }
            Some(y) => {
                // y = (n - d x) / (dy x - ny)
                let num = n * q - d * p;
                let den = dy * p - ny * q;
                check(den != 0, 222);
                let (num, den) = norm(num, den);
                oracle::number(y, num, den, param(0), 230);
                cover(2);
            }
        }
        cover(0);
    }
}

fn step(c: &mut Clog, v: (i128, i128), code: u32) -> (i128, i128) {
    let (p, q) = v;
    match c.egest() {
        Some(Reduction::Amplify) => {
            out(3, 0);
            check(p + p < q, code);
            (p + p, q)
        }
        Some(Reduction::Uncover) => {
            out(3, 1);
            check(p + p > q, code + 1);
            (q - p, p)
        }
        None => {
            out(3, 2);
            check(p + p == q, code + 2);
            (p, q)
        }
    }
}

/// Two live numbers read in every interleaving: neither disturbs the other.
/// params: [steps + 10 x what the third does, panic allowed, declarations, expression, expression]
#[no_mangle]
pub extern "C-unwind" fn h_history() {
    let mut env = Env::new(2);
    let at = env.cur;
    let a = value(&mut env);
    let b = value(&mut env);
    env.cur = at;
    if let (Some((p, q)), Some((r, s))) = (a, b) {
        let (p, q) = norm(p, q);
        let (r, s) = norm(r, s);
        panic_ok(param(1));
        let x = build(&mut env);
        let y = build(&mut env);
        if let (Number::Other(pa, mut ca), Number::Other(pb, mut cb)) = (x, y) {
            let mut va = oracle::primer(&pa, p, q, 300);
            let mut vb = oracle::primer(&pb, r, s, 310);
            let mut i = 0;
            let what = param(0) / 10;
            while i < param(0) % 10 {
                let turn = sym(30 + i as u32, 0, 2);
                if turn == 0 {
                    va = step(&mut ca, va, 320);
                } else if turn == 1 {
                    vb = step(&mut cb, vb, 330);
                } else {
                    // a third number comes and goes
                    env.cur = at;
                    let z = build(&mut env);
                    if what == 1 {
                        if let Number::Other(_, mut c) = z {
                            c.egest();
                            c.egest();
                        }
                    } else if what == 2 {
                        let w = build(&mut env);
                        Number::compare(z, w);
                    } else if what == 3 {
                        Number::consume(z);
                    }
                }
                i += 1;
            }
            cover(0);
        }
    }
}

/// Unwrapping gives back the content of a number, or panics.
/// params: [symbols, which, declarations, expression]
#[no_mangle]
pub extern "C-unwind" fn h_unwrap() {
    let mut env = Env::new(2);
    let at = env.cur;
    let v = value(&mut env);
    env.cur = at;
    if let Some((p, q)) = v {
        let (p, q) = norm(p, q);
        let x = build(&mut env);
        let is_special = p == 0 || p == q || p == -q;
        if param(1) == 0 {
            panic_ok(!is_special as isize);
            let s = x.unwrap_special();
            check(is_special, 400);
            oracle::special(s, p, q, 410);
            cover(1);
        } else {
            panic_ok(is_special as isize);
            let (pr, mut c) = x.unwrap_other();
            check(!is_special, 401);
            let (p, q) = oracle::primer(&pr, p, q, 410);
            oracle::stream(&mut c, p, q, param(0), 410);
            cover(2);
        }
        cover(0);
    }
}

pub fn find(name: &str) -> Option<extern "C-unwind" fn()> {
    Some(match name {
        "h_exact" => h_exact,
        "h_end" => h_end,
        "h_compare" => h_compare,
        "h_same" => h_same,
        "h_consume" => h_consume,
        "h_history" => h_history,
        "h_unwrap" => h_unwrap,
        _ => return None,
    })
}
