//! C18: random filling is a deterministic function of the generator's answers.
//!
//! The generator is the environment: every sequence of its answers over a small alphabet is played, and
//! the object is compared with samples taken directly from the distribution on an equal generator.
use householder::types::{c32, c64};
use householder::*;
use mc::*;
use rand::RngCore;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Stop;
/// Scripted generator: `tape` first, then answers computed from the position.
#[derive(Clone)]
struct Script {
    tape: Vec<u8>,
    salt: u64,
    stop: Option<usize>,
    /// one entry per call: which method, and how many bytes
    log: Vec<(u8, usize)>,
}
/// Kinds of answers: accepted at once (positive, negative), rejected or in need of more answers (tail of
/// the distribution, wedge between two layers).
const SYMBOLS: u8 = 4;
/// In addition: a sample of exactly zero, an answer far in the tail, an accepted answer that repeats itself.
const ALL_SYMBOLS: u8 = 7;
fn answer(sym: u8, at: usize) -> u64 {
    // distinct low mantissa bits by position, so that all samples are distinct
    let pos = ((at as u64) * 2654435761 % (1 << 20)) << 20;
    match sym {
        0 => 0xB000_0000_0000_0064 | pos,
        1 => 0x3000_0000_0000_0064 | pos,
        2 => 0xFFF0_0000_0000_0000 | pos,
        4 => 0x8000_0000_0000_0064,
        5 => 1 << 26,
        6 => 0xB000_0000_1234_5064,
        _ => 0xFFF0_0000_0000_0005 | pos,
    }
}
impl Script {
    fn new(tape: &[u8], salt: u64) -> Self {
        Script { tape: tape.to_vec(), salt, stop: None, log: vec![] }
    }
    fn next(&mut self, method: u8, bytes: usize) -> u64 {
        let at = self.log.len();
        if self.stop == Some(at) {
            std::panic::panic_any(Stop)
        }
        self.log.push((method, bytes));
        if at < self.tape.len() {
            return answer(self.tape[at], at);
        }
        // splitmix of the position
        let mut z = (at as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(self.salt);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        (self.next(32, 4) >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.next(64, 8)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let n = dest.len();
        let x = self.next(8, n).to_le_bytes();
        for (i, d) in dest.iter_mut().enumerate() {
            *d = x[i % 8].wrapping_add(i as u8 / 8)
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
/// One filling against the distribution itself, leaving both generators in the same state.
fn fill_once<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, m: &mut Model<T>, rng: &mut Script, what: &str) {
    let mut re = rng.clone();
    let log = LAST_LOG.with(|l| l.borrow().clone());
    o.fill_(rng);
    for k in 0..m.lay.len() {
        let v = T::sample(&mut re);
        m.set(k, v);
    }
    ensure!(
        rng.log == re.log,
        "{}: {} answers were drawn ({:?}), expected {} ({:?})",
        what, rng.log.len(), tail(&rng.log), re.log.len(), tail(&re.log)
    );
    let e = check_obj(o, m, what);
    run.eval(e + 1);
    run.transition();
    run.outcome(hash_of(&m.values().iter().map(|v| v.bits()).collect::<Vec<_>>()));
}
fn tail(l: &[(u8, usize)]) -> &[(u8, usize)] {
    &l[l.len().saturating_sub(6)..]
}
/// All tapes of answers up to a length.
fn tapes<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, m: &mut Model<T>, symbols: u8, len: usize) {
    let symbols = symbols as usize;
    if !o.caps() {
        return;
    }
    for code in 0..symbols.pow(len as u32) {
        let tape: Vec<u8> = (0..len).map(|k| (code / symbols.pow(k as u32) % symbols) as u8).collect();
        run.step(|| format!("answers {:?}", tape));
        let mut rng = Script::new(&tape, 0);
        fill_once(run, o, m, &mut rng, "filled");
        run.state(code as u64);
        run.trace();
    }
}
/// Filling, changing elements and filling again: the result depends on the answers only.
fn histories<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, m: &mut Model<T>) {
    if !o.caps() {
        return;
    }
    let n = m.lay.len();
    let mut rng = Script::new(&[0, 2, 1, 3], 7);
    fill_once(run, o, m, &mut rng, "first filling");
    let first = m.values();
    fill_once(run, o, m, &mut rng, "second filling from the same generator");
    for k in 0..n {
        *o.get1_mut_(k) = T::tag(k + 3);
        m.set(k, T::tag(k + 3));
    }
    check_obj(o, m, "after writes");
    let mut rng = Script::new(&[0, 2, 1, 3], 7);
    fill_once(run, o, m, &mut rng, "filling from equal answers");
    let again = m.values();
    ensure!(first.iter().zip(&again).all(|(a, b)| a.same(*b)), "equal answers gave {:?} and {:?}", first, again);
    let mut rng = Script::new(&[], 99);
    fill_once(run, o, m, &mut rng, "filling from other answers");
    // values that could disturb arithmetic on the old contents
    for (q, v) in [f64::NAN, f64::INFINITY, -0.0, 1e300].into_iter().enumerate() {
        for k in 0..n {
            *o.get1_mut_(k) = T::of(v, v);
            m.set(k, T::of(v, v));
        }
        let mut rng = Script::new(&[1, 3], q as u64);
        fill_once(run, o, m, &mut rng, "filling over special values");
        run.state(q as u64);
    }
    run.state(hash_of(&n));
    run.trace();
}
/// The generator fails at its p-th answer: every element keeps its old value or has its sample.
fn failing<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, m: &mut Model<T>, max: usize) {
    if !o.caps() {
        return;
    }
    let n = m.lay.len();
    let mut full = Script::new(&[0, 2, 1, 3], 5);
    let mut want = vec![];
    for _ in 0..n {
        want.push(T::sample(&mut full));
    }
    for p in 0..full.log.len().min(max) {
        run.step(|| format!("the generator fails at answer {}", p));
        let mut rng = Script::new(&[0, 2, 1, 3], 5);
        rng.stop = Some(p);
        let r = catch_unwind(AssertUnwindSafe(|| o.fill_(&mut rng)));
        match r {
            Ok(()) => fail!("the generator failed at answer {} but filling reported success", p),
            Err(e) => {
                if !e.is::<Stop>() {
                    std::panic::resume_unwind(e)
                }
            }
        }
        ensure!(rng.log.len() == p, "{} answers drawn around a failure at {}", rng.log.len(), p);
        for k in 0..n {
            let (i, j) = m.lay.pos(k);
            let v = o.view().v_get(i, j);
            ensure!(v.same(m.at(k)) || v.same(want[k]), "after a failing generator, element {} is {:?}, neither its old value {:?} nor its sample {:?}", k, v, m.at(k), want[k]);
            m.set(k, v);
        }
        let e = check_obj(o, m, "after a failing generator");
        for k in 0..n {
            *o.get1_mut_(k) = T::tag(k + p);
            m.set(k, T::tag(k + p));
        }
        run.eval(e + n as u64);
        run.transition();
        run.state(p as u64);
    }
    run.trace();
}
fn in_blocks<T: Sc>(run: &mut Run, o: &mut dyn BlkMut<T>, m: &mut Model<T>) {
    for (tl, d) in all_blocks(m.lay.dim) {
        let mut m1 = block_of(m, tl, d);
        run.step(|| format!("mutable block {:?} {:?}", tl, d));
        let mut rng = Script::new(&[1, 2], hash_of(&(tl, d)));
        o.blk_mut(tl, d, &mut |b| {
            fill_once(run, b.as_obj(), &mut m1, &mut rng, "filled block");
            for (tl2, d2) in all_blocks(d) {
                let mut m2 = block_of(&m1, tl2, d2);
                b.blk_mut(tl2, d2, &mut |c| fill_once(run, c.as_obj(), &mut m2, &mut rng, "filled block of a block"));
                m1.store = m2.store;
            }
        });
        m.store = m1.store;
        let e = check_obj(o.as_obj_ref(), m, "parent after its block was filled");
        run.eval(e);
        run.state(hash_of(&(tl, d)));
    }
    run.trace();
}
/// The macros: requested shape, and no element left at zero (an exact zero has probability below 2^-50).
macro_rules! macros {
    ($cx:ident, $T:ident) => {
        let k = $cx.pick(5, 9);
        for m in 0..=k {
            for n in 0..=k {
                $cx.case("macros", || format!("{} rand_mat {}x{}", $T::NAME, m, n), |run| {
                    let dim = (m, n);
                    fn look<T: Sc>(run: &mut Run, v: &dyn View<T>, dim: (usize, usize)) {
                        ensure!(v.v_dim() == dim, "dimension {:?}", v.v_dim());
                        ensure!(v.v_n() == dim.0 * dim.1, "{} elements", v.v_n());
                        for q in 0..v.v_n() {
                            let x = v.v_get1(q);
                            let (re, im) = x.parts();
                            ensure!(re != 0.0 && re.is_finite() && (!T::COMPLEX || (im != 0.0 && im.is_finite())), "element {} is {:?}", q, x);
                        }
                        run.eval(v.v_n() as u64 + 2);
                        run.state(hash_of(&dim));
                    }
                    look::<$T>(run, &rand_mat![$T, dim], dim);
                    look::<$T>(run, &rand_mat![$T, dim, RowMajor], dim);
                    look::<$T>(run, &rand_mat![$T, dim, ColumnMajor], dim);
                    if m == 0 {
                        look::<$T>(run, &rand_vector![$T, n], (n, 1));
                        look::<$T>(run, &rand_vector![$T, n, ColumnVector], (n, 1));
                        look::<$T>(run, &rand_vector![$T, n, RowVector], (1, n));
                    }
                });
            }
        }
    };
}
fn explore<T: Sc>(cx: &mut Cx, primary: bool) {
    let k = if primary { cx.pick(5, 8) } else { cx.pick(4, 6) };
    let mut dims: Vec<(usize, usize)> = (0..=k).flat_map(|m| (0..=k).map(move |n| (m, n))).collect();
    dims.extend([(1, 40), (40, 1), (17, 9), (12, 12), (33, 31)]);
    for &d in &dims {
        let strides = stride_classes(d);
        let tape = match d {
            (1, 1) | (1, 2) | (2, 1) | (2, 2) | (1, 3) | (3, 1) => cx.pick(6, 8),
            (m, n) if m * n <= 6 => cx.pick(4, 6),
            (m, n) if m <= 8 && n <= 8 => cx.pick(2, 4),
            _ => 1,
        };
        let wide = match d {
            (1, 1) | (1, 2) | (2, 1) | (2, 2) | (1, 3) | (3, 1) => cx.pick(4, 5),
            (m, n) if m * n <= 6 => cx.pick(3, 4),
            (m, n) if m <= 8 && n <= 8 => cx.pick(2, 3),
            _ => 1,
        };
        for kind in kinds_for(d, &strides, &[1, 2, 3]) {
            if matches!(kind.st, St::Wrap(_)) {
                continue;
            }
            let max = cx.pick(24, 100);
            cx.case("histories of fillings", || format!("{} {:?}", T::NAME, kind), |run| with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| histories(run, o, m)));
            cx.case("all answer sequences", || format!("{} {:?} length {}", T::NAME, kind, tape), |run| with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| tapes(run, o, m, SYMBOLS, tape)));
            cx.case("all answer sequences with extreme answers", || format!("{} {:?} length {}", T::NAME, kind, wide), |run| with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| tapes(run, o, m, ALL_SYMBOLS, wide)));
            cx.case("failing generator", || format!("{} {:?}", T::NAME, kind), |run| with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| failing(run, o, m, max)));
        }
        if d.0 <= 4 && d.1 <= 4 && (primary || d.0 + d.1 <= 5) {
            for kind in block_parents(d, &strides) {
                cx.case("mutable blocks", || format!("{} {:?}", T::NAME, kind), |run| with_parent::<T>(&kind, &|q| T::tag(q), &mut |o, m| in_blocks(run, o, m)));
            }
        }
    }
}
fn beyond<T: Sc>(cx: &mut Cx, primary: bool, full: bool) {
    for d in huge_for(primary, full) {
        let (m, n) = d;
        for kind in kinds_for(d, &[(2 * n + 1, 2), (3, 3 * m + 1), (1, m + 2), (2 * n, 2), (2, 2 * m)], &[1, 3]) {
            if matches!(kind.st, St::Wrap(_)) {
                continue;
            }
            cx.case("beyond size thresholds", || format!("{} {:?}", T::NAME, kind), |run| with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| long(run, o, m)));
        }
        for kind in block_parents(d, &[(n + 1, 1), (2, 2 * m + 1)]) {
            cx.case("blocks beyond size thresholds", || format!("{} {:?}", T::NAME, kind), |run| {
                with_parent::<T>(&kind, &|q| T::tag(q), &mut |o, mo| {
                    let (tl, b) = ((m.min(2) - 1, n.min(2) - 1), (m + 1 - m.min(2), n + 1 - n.min(2)));
                    let mut m1 = block_of(mo, tl, b);
                    o.blk_mut(tl, b, &mut |x| long(run, x.as_obj(), &mut m1));
                    mo.store = m1.store;
                    run.eval(check_obj(o.as_obj_ref(), mo, "parent after its block was filled"));
                })
            });
        }
    }
    for kind in kinds_for((363, 363), &[], &[]) {
        if kind.lay.reference((363, 363)).order == Order::Upper && !matches!(kind.st, St::Wrap(_)) {
            cx.case("beyond size thresholds", || format!("{} {:?}", T::NAME, kind), |run| with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| long(run, o, m)));
        }
    }
}
/// Two fillings from one generator, one from an equal generator.
fn long<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, m: &mut Model<T>) {
    if !o.caps() {
        return;
    }
    let mut rng = Script::new(&[0, 2, 1, 3], 7);
    fill_once(run, o, m, &mut rng, "first filling");
    let first = hash_of(&m.values().iter().map(|v| v.bits()).collect::<Vec<_>>());
    fill_once(run, o, m, &mut rng, "second filling from the same generator");
    let mut rng = Script::new(&[0, 2, 1, 3], 7);
    fill_once(run, o, m, &mut rng, "filling from equal answers");
    ensure!(first == hash_of(&m.values().iter().map(|v| v.bits()).collect::<Vec<_>>()), "equal answers gave different matrices");
    run.state(hash_of(&m.lay));
    run.trace();
}
/// The same answers give the same sequence in every numbering.
fn across<T: Sc>(cx: &mut Cx) {
    for n in 1..=cx.pick(6, 12) {
        cx.case("one sequence for all layouts", || format!("{} {}", T::NAME, n), |run| {
            let mut rows: Vec<(Order, usize, Vec<(u64, u64)>)> = vec![];
            for d in [(n, n), (1, n), (n, 1)] {
                for kind in kinds_for(d, &[(2 * d.1 + 1, 2), (3, 3 * d.0 + 1)], &[1, 2]) {
                    if matches!(kind.st, St::Wrap(_)) {
                        continue;
                    }
                    with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| {
                        let mut rng = Script::new(&[0, 3, 2], 11);
                        fill_once(run, o, m, &mut rng, "filled");
                        rows.push((m.lay.order, m.lay.len(), m.values().iter().map(|v| v.bits()).collect()));
                    });
                }
            }
            for a in &rows {
                for b in &rows {
                    let l = a.1.min(b.1);
                    ensure!(a.2[..l] == b.2[..l], "equal answers gave different sequences in {:?} and {:?} order", a.0, b.0);
                    run.eval(1);
                }
            }
            run.state(n as u64);
        });
    }
}
fn main() {
    let mut cx = Cx::from_args();
    explore::<f64>(&mut cx, true);
    let full = cx.thorough();
    beyond::<f64>(&mut cx, true, full);
    beyond::<c32>(&mut cx, full, full);
    beyond::<c64>(&mut cx, false, full);
    beyond::<f32>(&mut cx, false, full);
    explore::<c32>(&mut cx, false);
    explore::<f32>(&mut cx, false);
    explore::<c64>(&mut cx, false);
    each_scalar!(T, { across::<T>(&mut cx) });
    macros!(cx, f64);
    macros!(cx, f32);
    macros!(cx, c32);
    macros!(cx, c64);
    cx.finish();
}
