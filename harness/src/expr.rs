//! Expressions over the public interface, described by the parameters of a
//! job.  Every number is built twice: exactly, as a fraction of 128-bit
//! integers, and as a `Number`.
//!
//! declarations: count, then for each symbolic input: kind, low, high
//!   kind 0: a signed word in low..=high; kind 1: any unsigned word
//! integer: constant, count of terms, then for each term: input, factor
//! expression:
//!   0, integer, integer                      ratio of signed words
//!   1, positive, integer, integer            ratio of unsigned words
//!   2, expression, 4 integers                homographic
//!   3, expression, expression, 8 integers    combine
//!   4, symbols, primer, expression           what is left after reading symbols,
//!                                            as a number with the given primer

use crate::vp::*;
use clarith::protocol::Primer;
use clarith::Number;

pub struct Env {
    pub cur: u32,
    vals: [i128; 12],
}

impl Env {
    pub fn new(at: u32) -> Env {
        let mut env = Env {
            cur: at,
            vals: [0; 12],
        };
        let n = env.next();
        let mut i = 0;
        while i < n {
            let kind = env.next();
            let lo = env.next();
            let hi = env.next();
            env.vals[i as usize] = if kind == 0 {
                sym(i as u32, lo, hi) as i128
            } else {
                sym_u(i as u32, 0, usize::MAX) as i128
            };
            i += 1;
        }
        env
    }

    fn next(&mut self) -> isize {
        let v = param(self.cur);
        self.cur += 1;
        v
    }

    fn integer(&mut self) -> i128 {
        let mut v = self.next() as i128;
        let n = self.next();
        let mut i = 0;
        while i < n {
            let which = self.next();
            let factor = self.next();
            v += self.vals[which as usize] * factor as i128;
            i += 1;
        }
        v
    }

    fn word(&mut self) -> isize {
        self.integer() as isize
    }
}

/// Sign-normalise a denominator; the caller excludes zero.
pub fn norm(p: i128, q: i128) -> (i128, i128) {
    if q < 0 {
        (-p, -q)
    } else {
        (p, q)
    }
}

/// The exact value of the expression at the cursor, or None when undefined.
pub fn value(e: &mut Env) -> Option<(i128, i128)> {
    match e.next() {
        0 => {
            let p = e.integer();
            let q = e.integer();
            if q == 0 {
                return None;
            }
            Some((p, q))
        }
        1 => {
            let pos = e.next();
            let p = e.integer();
            let q = e.integer();
            if q == 0 {
                return None;
            }
            Some((if pos != 0 { p } else { -p }, q))
        }
        2 => {
            let x = value(e);
            let nx = e.integer();
            let n = e.integer();
            let dx = e.integer();
            let d = e.integer();
            let (xp, xq) = x?;
            let p = nx * xp + n * xq;
            let q = dx * xp + d * xq;
            if q == 0 {
                return None;
            }
            Some((p, q))
        }
        4 => {
            let k = e.next();
            let pr = e.next();
            let (p, q) = value(e)?;
            let (p, q) = norm(p, q);
            if p == 0 || p == q || p == -q {
                return None;
            }
            let (mut p, mut q) = if p < -q {
                (q, -p)
            } else if p < 0 {
                (-p, q)
            } else if p < q {
                (p, q)
            } else {
                (q, p)
            };
            let mut i = 0;
            while i < k && p + p != q {
                if p + p < q {
                    p = p + p;
                } else {
                    let r = q - p;
                    q = p;
                    p = r;
                }
                i += 1;
            }
            Some(match pr {
                0 => (p, q),
                1 => (q, p),
                2 => (-p, q),
                _ => (-q, p),
            })
        }
        _ => {
            let x = value(e);
            let y = value(e);
            let a = e.integer();
            let b = e.integer();
            let c = e.integer();
            let d = e.integer();
            let ee = e.integer();
            let f = e.integer();
            let g = e.integer();
            let h = e.integer();
            let (xp, xq) = x?;
            let (yp, yq) = y?;
            let p = a * (xp * yp) + b * (xp * yq) + c * (xq * yp) + d * (xq * yq);
            let q = ee * (xp * yp) + f * (xp * yq) + g * (xq * yp) + h * (xq * yq);
            if q == 0 {
                return None;
            }
            Some((p, q))
        }
    }
}

/// The expression at the cursor as a number of the crate under check.
pub fn build(e: &mut Env) -> Number {
    match e.next() {
        0 => {
            let p = e.word();
            let q = e.word();
            Number::ratio(p, q)
        }
        1 => {
            let pos = e.next();
            let p = e.integer() as usize;
            let q = e.integer() as usize;
            Number::ratio_u(pos != 0, p, q)
        }
        2 => {
            let x = build(e);
            let nx = e.word();
            let n = e.word();
            let dx = e.word();
            let d = e.word();
            Number::homographic(x, nx, n, dx, d)
        }
        4 => {
            let k = e.next();
            let pr = e.next();
            let (_, mut c) = build(e).unwrap_other();
            let mut i = 0;
            while i < k {
                c.egest();
                i += 1;
            }
            let primer = match pr {
                0 => None,
                1 => Some(Primer::Turn),
                2 => Some(Primer::Reflect),
                _ => Some(Primer::Ground),
            };
            Number::Other(primer, c)
        }
        _ => {
            let x = build(e);
            let y = build(e);
            let a = e.word();
            let b = e.word();
            let c = e.word();
            let d = e.word();
            let ee = e.word();
            let f = e.word();
            let g = e.word();
            let h = e.word();
            Number::combine(x, y, a, b, c, d, ee, f, g, h)
        }
    }
}
