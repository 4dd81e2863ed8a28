//! C20: scalar helpers agree with the platform's arithmetic.
use householder::tools::RandScalar;
use householder::types::{c32, c64, HScalar};
use mc::*;
use rand::{Rng, RngCore};
use rand_distr::{Distribution, StandardNormal, Uniform};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Every exponent with several mantissas and both signs, and special values.
fn f32s(exp_step: usize, mant: &[u32]) -> Vec<f32> {
    let mut v = vec![];
    for e in (0..256u32).filter(|e| *e as usize % exp_step == 0 || *e >= 253 || *e <= 1 || (126..=128).contains(e)) {
        for &m in mant {
            for s in [0u32, 1] {
                v.push(f32::from_bits(s << 31 | e << 23 | m & 0x7f_ffff));
            }
        }
    }
    v
}
fn f64s(exp_step: usize, mant: &[u64]) -> Vec<f64> {
    let mut v = vec![];
    for e in (0..2048u64).filter(|e| *e as usize % exp_step == 0 || *e >= 2045 || *e <= 1 || (1022..=1024).contains(e)) {
        for &m in mant {
            for s in [0u64, 1] {
                v.push(f64::from_bits(s << 63 | e << 52 | m & ((1 << 52) - 1)));
            }
        }
    }
    v
}
/// Ordinary arguments, including those that differ only beyond single precision.
fn plain64() -> Vec<f64> {
    let mut v = vec![0.0, 1.0, 2.0, 3.0, 0.5, 0.1, 1.0 / 3.0, 1e-3, 7.25, 1e10, 16777217.0, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NAN, std::f64::consts::PI, std::f64::consts::FRAC_PI_2];
    let w: Vec<f64> = v.iter().map(|x| -x).collect();
    v.extend(w);
    v
}

fn arctangents(cx: &mut Cx) {
    let m32: &[u32] = cx.pick(&[0, 1, 0x2a_aaab, 0x7f_ffff], &[0, 1, 2, 0x15_5555, 0x2a_aaab, 0x40_0000, 0x6b_1c53, 0x7f_fffe, 0x7f_ffff]);
    let mut a: Vec<f32> = f32s(cx.pick(1, 1), m32);
    a.extend(plain64().iter().map(|x| *x as f32));
    for (q, c) in a.chunks(64).enumerate() {
        cx.case("atan2 f32", || format!("arguments {}.. of {}", q * 64, a.len()), |run| {
            for &y in c {
                for &x in &a {
                    let r = HScalar::atan2(y, x);
                    let e = f32::atan2(y, x);
                    ensure!(r.same(e), "atan2({:?}, {:?}) = {:?} ({:#x}), expected {:?} ({:#x})", y, x, r, r.to_bits(), e, e.to_bits());
                }
                run.state(y.to_bits() as u64);
                run.eval(a.len() as u64);
            }
            run.trace();
        });
    }
    let m64: &[u64] = cx.pick(&[0, 1, 0xf_ffff_ffff_ffff], &[0, 1, 0x5_5555_5555_5555, 0xf_ffff_ffff_ffff]);
    let mut a = f64s(cx.pick(2, 1), m64);
    a.extend(plain64());
    for (q, c) in a.chunks(64).enumerate() {
        cx.case("atan2 f64", || format!("arguments {}.. of {}", q * 64, a.len()), |run| {
            for &y in c {
                for &x in &a {
                    let r = HScalar::atan2(y, x);
                    let e = f64::atan2(y, x);
                    ensure!(r.same(e), "atan2({:?}, {:?}) = {:?} ({:#x}), expected {:?} ({:#x})", y, x, r, r.to_bits(), e, e.to_bits());
                }
                run.state(y.to_bits());
                run.eval(a.len() as u64);
            }
            run.trace();
        });
    }
    // generic use, and complex numbers
    fn generic<T: Sc>(y: T, x: T) -> T {
        HScalar::atan2(y, x)
    }
    let p = plain64();
    for &a in &p {
        cx.case("atan2 of complex numbers", || format!("{:?}", a), |run| {
            for &b in &p {
                for &c in &p[..8] {
                    must_refuse("atan2 of single precision complex numbers", || generic::<c32>(c32::of(a, b), c32::of(c, 0.0)));
                    must_refuse("atan2 of double precision complex numbers", || generic::<c64>(c64::of(a, b), c64::of(c, a)));
                    must_refuse("atan2 of real complex numbers", || HScalar::atan2(c64::of(a, 0.0), c64::of(b, 0.0)));
                    run.eval(3);
                }
                ensure!(generic::<f64>(a, b).same(a.atan2(b)), "generic atan2({:?}, {:?}) = {:?}", a, b, generic::<f64>(a, b));
                ensure!(generic::<f32>(a as f32, b as f32).same((a as f32).atan2(b as f32)), "generic atan2({:?}, {:?})", a as f32, b as f32);
                run.eval(2);
                run.state(b.to_bits());
            }
            run.trace();
        });
    }
}

struct Stop;
/// A generator that plays a tape of answers and logs its calls.
#[derive(Clone)]
struct Tape {
    answers: Vec<u64>,
    log: Vec<u8>,
}
impl Tape {
    fn next(&mut self, m: u8) -> u64 {
        let k = self.log.len();
        self.log.push(m);
        if k < self.answers.len() {
            return self.answers[k].wrapping_add((k as u64) << 33);
        }
        let mut z = (k as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        self.next(32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.next(64)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.next(8) as u8
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// A distribution with a script: how many answers each sample draws, which value it returns, and after
/// how many samples it fails.
struct Dist {
    draws: Vec<usize>,
    values: Vec<f64>,
    stop: usize,
    calls: RefCell<usize>,
}
macro_rules! dist {
    ($t:ty) => {
        impl Distribution<$t> for Dist {
            fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> $t {
                let k = *self.calls.borrow();
                if k == self.stop {
                    std::panic::panic_any(Stop)
                }
                *self.calls.borrow_mut() += 1;
                for d in 0..self.draws[k % self.draws.len()] {
                    if d % 2 == 0 {
                        rng.next_u64();
                    } else {
                        rng.next_u32();
                    }
                }
                self.values[k % self.values.len()] as $t
            }
        }
    };
}
dist!(f32);
dist!(f64);

trait Rs: Sc + RandScalar {
    type F: Sc;
    fn expect(f: &mut dyn FnMut() -> Self::F) -> Self;
}
macro_rules! rs_real {
    ($t:ty) => {
        impl Rs for $t {
            type F = $t;
            fn expect(f: &mut dyn FnMut() -> $t) -> $t {
                f()
            }
        }
    };
}
macro_rules! rs_cplx {
    ($t:ty, $r:ty) => {
        impl Rs for $t {
            type F = $r;
            fn expect(f: &mut dyn FnMut() -> $r) -> $t {
                let re = f();
                let im = f();
                <$t>::new(re, im)
            }
        }
    };
}
rs_real!(f32);
rs_real!(f64);
rs_cplx!(c32, f32);
rs_cplx!(c64, f64);

macro_rules! scalars {
    ($cx:ident, $T:ident, $F:ident) => {{
        let vals = [0.0, -0.0, 1.5, -2.25, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-40, 3.4e38, 5e-324, 0.1];
        let parts = if $T::COMPLEX { 2usize } else { 1 };
        // scripted distributions: all pairs of values and draw counts, a few consecutive scalars
        for &v0 in &vals {
            $cx.case("scripted distributions", || format!("{} {:?}", $T::NAME, v0), |run| {
                for &v1 in &vals {
                    for d0 in 0..4usize {
                        for d1 in 0..4usize {
                            for calls in 1..=3usize {
                                let d = Dist { draws: vec![d0, d1], values: vec![v0, v1, 7.0, 8.0, 9.0], stop: usize::MAX, calls: RefCell::new(0) };
                                let mut rng = Tape { answers: vec![1, 2, 3], log: vec![] };
                                let mut s = 0;
                                for _ in 0..calls {
                                    let r = <$T as RandScalar>::random_scalar(&mut rng, &d);
                                    let w = <$T as Rs>::expect(&mut || { let x = d.values[s % 5] as $F; s += 1; x });
                                    ensure!(r.same(w), "drew {:?}, expected {:?} from samples {:?}", r, w, d.values);
                                    ensure!(*d.calls.borrow() == s, "{} samples taken for {} parts", d.calls.borrow(), s);
                                }
                                let mut log = vec![];
                                for k in 0..s {
                                    for q in 0..[d0, d1][k % 2] {
                                        log.push(if q % 2 == 0 { 64u8 } else { 32 });
                                    }
                                }
                                ensure!(rng.log == log, "the generator was asked {:?}, expected {:?}", rng.log, log);
                                run.eval(2 * calls as u64 + 1);
                                run.state(hash_of(&(v1.to_bits(), d0, d1, calls)));
                                run.trace();
                            }
                        }
                    }
                }
                // a failing sample is not swallowed and ends the drawing
                for stop in 0..parts {
                    let d = Dist { draws: vec![1], values: vec![v0], stop, calls: RefCell::new(0) };
                    let mut rng = Tape { answers: vec![1], log: vec![] };
                    match catch_unwind(AssertUnwindSafe(|| <$T as RandScalar>::random_scalar(&mut rng, &d))) {
                        Ok(r) => fail!("a failing sample was swallowed, giving {:?}", r),
                        Err(e) => ensure!(e.is::<Stop>(), "another panic than that of the distribution: {}", last_panic()),
                    }
                    ensure!(*d.calls.borrow() == stop && rng.log.len() == stop, "drawing went on after a failing sample");
                    run.eval(2);
                }
            });
        }
        // the library's distributions on all tapes of answers
        let syms = [0xB000_0000_0000_0064u64, 0x3000_0000_0000_0064, 0xFFF0_0000_0000_0000, 0xFFF0_0000_0000_0005, 0, u64::MAX];
        let len = $cx.pick(6, 7);
        for first in 0..syms.len() {
            $cx.case("standard distributions", || format!("{} answers starting with {:#x}", $T::NAME, syms[first]), |run| {
                for code in 0..syms.len().pow(len as u32 - 1) {
                    let mut answers = vec![syms[first]];
                    let mut c = code;
                    for _ in 1..len {
                        answers.push(syms[c % syms.len()]);
                        c /= syms.len();
                    }
                    answers.push(0x7123_4567_89ab_cdef);
                    macro_rules! with { ($d:expr, $what:expr) => {{
                        let d = $d;
                        let mut a = Tape { answers: answers.clone(), log: vec![] };
                        let mut b = a.clone();
                        for _ in 0..2 {
                            let r = <$T as RandScalar>::random_scalar(&mut a, &d);
                            let w = <$T as Rs>::expect(&mut || Distribution::<$F>::sample(&d, &mut b));
                            ensure!(r.same(w), "{}: drew {:?}, expected {:?}", $what, r, w);
                            ensure!(a.log == b.log, "{}: asked {:?}, expected {:?}", $what, a.log, b.log);
                        }
                        run.eval(4);
                    }}; }
                    with!(StandardNormal, "standard normal");
                    with!(Uniform::<$F>::new(-1.0, 2.0), "uniform");
                    with!(rand::distributions::Standard, "unit interval");
                    run.state(code as u64);
                    run.trace();
                }
            });
        }
    }};
}
/// All sequences of scalar types drawn from one generator.
fn mixed(cx: &mut Cx) {
    let depth = cx.pick(5, 8);
    for first in 0..4usize {
        cx.case("mixed scalar types from one generator", || format!("first {}", first), |run| {
            for code in 0..4usize.pow(depth as u32 - 1) {
                let mut a = Tape { answers: vec![0x3000_0000_0000_0064, 0xFFF0_0000_0000_0005, 0x9123_4567_89ab_cdef], log: vec![] };
                let mut b = a.clone();
                let mut c = code * 4 + first;
                for _ in 0..depth {
                    macro_rules! one { ($T:ty, $F:ty) => {{
                        let r = <$T as RandScalar>::random_scalar(&mut a, &StandardNormal);
                        let w = <$T as Rs>::expect(&mut || Distribution::<$F>::sample(&StandardNormal, &mut b));
                        ensure!(r.same(w) && a.log == b.log, "drew {:?}, expected {:?}; answers {:?}, expected {:?}", r, w, a.log, b.log);
                    }}; }
                    match c % 4 {
                        0 => one!(f32, f32),
                        1 => one!(f64, f64),
                        2 => one!(c32, f32),
                        _ => one!(c64, f64),
                    }
                    c /= 4;
                    run.eval(2);
                    run.transition();
                }
                run.state(code as u64);
                run.trace();
            }
        });
    }
}
fn main() {
    let mut cx = Cx::from_args();
    arctangents(&mut cx);
    scalars!(cx, f64, f64);
    scalars!(cx, f32, f32);
    scalars!(cx, c32, f32);
    scalars!(cx, c64, f64);
    mixed(&mut cx);
    cx.finish();
}
