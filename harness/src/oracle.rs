//! Exact reference values: a rational p/q in 128-bit integers, and the meaning
//! of every symbol a number may emit.

use crate::vp::*;
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

/// Check a special value against p/q, q > 0.
pub fn special(s: Special, p: i128, q: i128, code: u32) {
    match s {
        Special::Zero => {
            out(1, 0);
            check(p == 0, code)
        }
        Special::PosOne => {
            out(1, 1);
            check(p == q, code + 1)
        }
        Special::NegOne => {
            out(1, -1);
            check(p == -q, code + 2)
        }
    }
}

/// Check a primer against p/q, q > 0; returns the value left for the stream.
pub fn primer(pr: &Option<Primer>, p: i128, q: i128, code: u32) -> (i128, i128) {
    match pr {
        None => {
            out(2, 0);
            check(0 < p && p < q, code + 3);
            (p, q)
        }
        Some(Primer::Turn) => {
            out(2, 1);
            check(p > q, code + 4);
            (q, p)
        }
        Some(Primer::Reflect) => {
            out(2, 2);
            check(-q < p && p < 0, code + 5);
            (-p, q)
        }
        Some(Primer::Ground) => {
            out(2, 3);
            check(p < -q, code + 6);
            (q, -p)
        }
    }
}

/// Check up to k symbols of a stream against p/q in (0,1).
/// Returns true when the stream ended.
pub fn stream(c: &mut Clog, mut p: i128, mut q: i128, k: isize, code: u32) -> bool {
    let mut i = 0;
    while i < k {
        match c.egest() {
            Some(Reduction::Amplify) => {
                out(3, 0);
                check(p + p < q, code + 7);
                p = p + p;
            }
            Some(Reduction::Uncover) => {
                out(3, 1);
                check(p + p > q, code + 8);
                let r = q - p;
                q = p;
                p = r;
            }
            None => {
                out(3, 2);
                check(p + p == q, code + 9);
                // the end of a stream is final
                let mut n = 0;
                while n < 6 {
                    check(c.egest().is_none(), code + 10);
                    n += 1;
                }
                return true;
            }
        }
        i += 1;
    }
    false
}

/// Check a number against p/q (q > 0): class, primer and the first k symbols.
pub fn number(x: Number, p: i128, q: i128, k: isize, code: u32) -> bool {
    match x {
        Number::Special(s) => {
            special(s, p, q, code);
            true
        }
        Number::Other(pr, mut c) => {
            let (p, q) = primer(&pr, p, q, code);
            stream(&mut c, p, q, k, code)
        }
    }
}
