//! C17: apply-to-all visits every element exactly once, in logical order.
use householder::types::{c32, c64};
use mc::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Stop;
/// One pass; entry k of `plan`: what the callable does with the element of call k.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Act {
    Keep,
    Write,
    WriteTwice,
    Panic,
    WriteThenPanic,
    /// writes one value for all elements
    Level,
    /// writes a value of `SPECIAL`
    Put(u8),
}
use Act::*;
const SPECIAL: [f64; 9] = [f64::NAN, 0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, 1.0, 5e-324, f64::MAX, -1e-40];
fn special<T: Sc>(v: u8) -> T {
    T::of(SPECIAL[v as usize % 9], SPECIAL[(v as usize / 3 + 2 * v as usize) % 9])
}
/// How the callable is passed: a closure with state, a function item without, a function pointer.
const VIAS: u8 = 3;
fn pass<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, m: &mut Model<T>, plan: &dyn Fn(usize) -> Act, tag: usize) {
    pass_via(run, o, m, plan, tag, 0)
}
fn pass_via<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, m: &mut Model<T>, plan: &dyn Fn(usize) -> Act, tag: usize, via: u8) {
    let n = m.lay.len();
    let stop = (0..n).find(|&k| matches!(plan(k), Panic | WriteThenPanic));
    let mut seen: Vec<(*const T, T)> = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| {
        let f: &mut dyn FnMut(&mut T) = &mut |x| {
            let k = seen.len();
            seen.push((x as *const T, *x));
            if k >= n {
                return;
            }
            match plan(k) {
                Keep => {}
                Write => *x = T::tag(tag + k),
                WriteTwice => {
                    *x = T::sentinel();
                    *x = x.add_(T::of(1.0, 1.0));
                    *x = T::tag(tag + k)
                }
                Panic => std::panic::panic_any(Stop),
                WriteThenPanic => {
                    *x = T::tag(tag + k);
                    std::panic::panic_any(Stop)
                }
                Level => *x = T::tag(9),
                Put(v) => *x = special(v),
            }
        };
        match via {
            0 => o.each_(f),
            v => o.each_plain_(v == 2, f),
        }
    }));
    match r {
        Ok(()) => ensure!(stop.is_none(), "a panic of the callable at call {:?} was swallowed", stop),
        Err(e) => {
            if !e.is::<Stop>() {
                std::panic::resume_unwind(e)
            }
        }
    }
    let calls = stop.map_or(n, |k| k + 1);
    ensure!(seen.len() == calls, "{} calls, expected {}", seen.len(), calls);
    for (k, (p, v)) in seen.iter().enumerate() {
        ensure!(v.same(m.at(k)), "call {} saw {:?}, expected {:?}", k, v, m.at(k));
        if m.window > 0 {
            ensure!(*p == unsafe { o.ptr_().add(m.lay.raw1(k)) }, "call {} was not given the element itself", k);
        }
    }
    for k in 0..calls {
        if matches!(plan(k), Write | WriteTwice | WriteThenPanic) {
            m.set(k, T::tag(tag + k));
        } else if plan(k) == Level {
            m.set(k, T::tag(9));
        } else if let Put(v) = plan(k) {
            m.set(k, special(v));
        }
    }
    let e = check_obj(o, m, "after applying the callable");
    run.eval(e + 2 * calls as u64);
    run.transition();
}
/// Writing any subset of the elements, in one pass each.
fn subsets<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, m: &mut Model<T>) {
    if !o.caps() {
        return;
    }
    let n = m.lay.len();
    for s in 0..1usize << n {
        run.step(|| format!("write elements {:b}", s));
        pass(run, o, m, &|k| if s >> k & 1 == 1 { if k % 2 == 0 { Write } else { WriteTwice } } else { Keep }, 100 + s % 97);
        run.state(s as u64);
    }
    run.trace();
}
/// A panic at every call, after writing or not, and a full pass afterwards.
fn panics<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, m: &mut Model<T>) {
    if !o.caps() {
        return;
    }
    let n = m.lay.len();
    for p in 0..n {
        for before in [Write, Keep, WriteTwice] {
            for at in [Panic, WriteThenPanic] {
                run.step(|| format!("{:?} until {:?} at call {}", before, at, p));
                pass(run, o, m, &|k| if k == p { at } else { before }, 3 * p + 7);
                pass(run, o, m, &|_| Write, 5 * p + 300);
                run.state(hash_of(&(p, before, at)));
            }
        }
    }
    pass(run, o, m, &|_| Keep, 0);
    pass(run, o, m, &|_| Write, 2000);
    run.trace();
}
/// Equal elements, callables with and without state: still one call per element, each with its own effect.
fn stateless<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, m: &mut Model<T>) {
    if !o.caps() {
        return;
    }
    let n = m.lay.len();
    for via in 0..VIAS {
        run.step(|| format!("callable passed as {}", ["closure", "function", "function pointer"][via as usize]));
        for p in 0..4 {
            pass_via(run, o, m, &|_| Level, 0, via);
            match p {
                0 => pass_via(run, o, m, &|_| Write, 40, via),
                1 => pass_via(run, o, m, &|k| if k % 2 == 0 { Write } else { Keep }, 50, via),
                2 => pass_via(run, o, m, &|k| if k + 1 == n { WriteThenPanic } else { WriteTwice }, 60, via),
                _ => {
                    // runs of equal elements of every length
                    for a in 0..n.min(8) {
                        pass_via(run, o, m, &|k| if k <= a { Level } else { Write }, 70, via);
                        pass_via(run, o, m, &|k| if k > a { Level } else { Keep }, 80, via);
                        pass_via(run, o, m, &|_| Write, 90, via);
                    }
                }
            }
            run.state(hash_of(&(via, p)));
        }
        if n <= 5 {
            for s in 0..1usize << n {
                pass_via(run, o, m, &|k| if s >> k & 1 == 1 { Level } else { Keep }, 0, via);
                pass_via(run, o, m, &|k| if s >> k & 1 == 1 { Write } else { Level }, 100 + s, via);
                run.state(hash_of(&(via, s, 1)));
            }
        }
        pass_via(run, o, m, &|_| Write, 400, via);
    }
    run.trace();
}
/// Special values stored by the callable and found by the next pass, at every place.
fn specials<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, m: &mut Model<T>) {
    if !o.caps() {
        return;
    }
    let n = m.lay.len();
    for v in 0..9u8 {
        for p in 0..n {
            run.step(|| format!("stores {:?} at call {}", special::<T>(v), p));
            for rest in [Keep, Write, Put((v + p as u8) % 9)] {
                pass(run, o, m, &|k| if k == p { Put(v) } else { rest }, 100);
            }
            pass(run, o, m, &|k| if k == p { Put((2 * v + 1) % 9) } else { Keep }, 0);
            run.state(hash_of(&(v, p)));
        }
        run.step(|| format!("stores {:?} everywhere", special::<T>(v)));
        pass(run, o, m, &|_| Put(v), 0);
        pass(run, o, m, &|k| Put((k % 9) as u8), 0);
        pass(run, o, m, &|k| Put(((k + v as usize) % 9) as u8), 0);
        for w in 0..9u8 {
            pass(run, o, m, &|_| Put(v), 0);
            pass(run, o, m, &|_| Put(w), 0);
            if n > 1 {
                pass(run, o, m, &|k| if k == n / 2 { WriteThenPanic } else { Put(v) }, 9);
            }
        }
        pass(run, o, m, &|_| Write, 60);
    }
    run.trace();
}
/// All sequences of actions for up to `depth` passes.
fn sequences<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, m: &mut Model<T>) {
    if !o.caps() {
        return;
    }
    let n = m.lay.len() as u32;
    let acts = [Keep, Write, Panic, WriteThenPanic];
    let total = 4usize.pow(n);
    for a in 0..total {
        for b in 0..total {
            run.step(|| format!("plans {:b} {:b}", a, b));
            for (c, code) in [a, b].into_iter().enumerate() {
                pass(run, o, m, &|k| acts[code >> (2 * k) & 3], 50 + 100 * c + a % 13 + b % 7);
            }
            run.state(hash_of(&(a, b)));
            run.trace();
        }
    }
}
fn in_blocks<T: Sc>(run: &mut Run, o: &mut dyn BlkMut<T>, m: &mut Model<T>) {
    for (tl, d) in all_blocks(m.lay.dim) {
        let mut m1 = block_of(m, tl, d);
        run.step(|| format!("mutable block {:?} {:?}", tl, d));
        o.blk_mut(tl, d, &mut |b| {
            panics(run, b.as_obj(), &mut m1);
            for (tl2, d2) in all_blocks(d) {
                let mut m2 = block_of(&m1, tl2, d2);
                b.blk_mut(tl2, d2, &mut |c| {
                    pass(run, c.as_obj(), &mut m2, &|_| Write, 31);
                    pass(run, c.as_obj(), &mut m2, &|k| if k % 2 == 0 { Keep } else { Write }, 77);
                });
                m1.store = m2.store;
            }
        });
        m.store = m1.store;
        let e = check_obj(o.as_obj_ref(), m, "parent after its block was released");
        run.eval(e);
    }
}
fn explore<T: Sc>(cx: &mut Cx, full: bool, primary: bool) {
    let k = if primary { cx.pick(5, 8) } else { cx.pick(3, 5) };
    let mut dims: Vec<(usize, usize)> = (0..=k).flat_map(|m| (0..=k).map(move |n| (m, n))).collect();
    dims.extend(if full { vec![(1, 40), (40, 1), (17, 9), (12, 12)] } else { vec![(1, 17), (17, 1), (9, 7)] });
    for &d in &dims {
        let strides = stride_classes(d);
        for kind in kinds_for(d, &strides, &[1, 2, 3]) {
            let n = kind.lay.reference(d).len();
            cx.case("panics and passes", || format!("{} {:?}", T::NAME, kind), |run| with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| panics(run, o, m)));
            cx.case("equal elements and callables without state", || format!("{} {:?}", T::NAME, kind), |run| with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| stateless(run, o, m)));
            cx.case("special values", || format!("{} {:?}", T::NAME, kind), |run| with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| specials(run, o, m)));
            if n <= cx.pick(6, 10) {
                cx.case("subsets of written elements", || format!("{} {:?}", T::NAME, kind), |run| with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| subsets(run, o, m)));
            }
            if n <= cx.pick(3, 4) && primary {
                cx.case("sequences of passes", || format!("{} {:?}", T::NAME, kind), |run| with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| sequences(run, o, m)));
            }
        }
        if d.0 <= 4 && d.1 <= 4 && (primary || d.0 + d.1 <= 4) {
            for kind in block_parents(d, &strides) {
                cx.case("mutable blocks", || format!("{} {:?}", T::NAME, kind), |run| with_parent::<T>(&kind, &|q| T::tag(q), &mut |o, m| in_blocks(run, o, m)));
            }
        }
    }
}
/// Passes over huge objects, complete and interrupted around machine-width thresholds.
fn long_passes<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, m: &mut Model<T>) {
    if !o.caps() {
        return;
    }
    let n = m.lay.len();
    pass(run, o, m, &|_| Write, 100_000);
    for p in [0, 1, 255, 256, 65_535, 65_536, n / 2, n - 1] {
        if p < n {
            run.step(|| format!("writes until a panic at call {}", p));
            pass(run, o, m, &|k| if k == p { Panic } else { Write }, 200_000 + p);
            run.state(p as u64);
        }
    }
    pass(run, o, m, &|k| if k % 3 == 0 { Keep } else { WriteTwice }, 7);
    for via in 1..VIAS {
        pass_via(run, o, m, &|_| Level, 0, via);
        pass_via(run, o, m, &|_| Write, 11, via);
    }
    run.trace();
}
fn beyond<T: Sc>(cx: &mut Cx, primary: bool, full: bool) {
    for d in huge_for(primary, full) {
        let (m, n) = d;
        for kind in kinds_for(d, &[(2 * n + 1, 2), (3, 3 * m + 1), (1, m + 2), (2 * n, 2), (2, 2 * m)], &[1, 3]) {
            cx.case("beyond size thresholds", || format!("{} {:?}", T::NAME, kind), |run| with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| long_passes(run, o, m)));
        }
        for kind in block_parents(d, &[(n + 1, 1), (2, 2 * m + 1)]) {
            cx.case("blocks beyond size thresholds", || format!("{} {:?}", T::NAME, kind), |run| {
                with_parent::<T>(&kind, &|q| T::tag(q), &mut |o, mo| {
                    for (tl, b) in [((0, 0), (m, n)), ((m.min(2) - 1, n.min(2) - 1), (m + 1 - m.min(2), n + 1 - n.min(2)))] {
                        let mut m1 = block_of(mo, tl, b);
                        o.blk_mut(tl, b, &mut |x| long_passes(run, x.as_obj(), &mut m1));
                        mo.store = m1.store;
                        run.eval(check_obj(o.as_obj_ref(), mo, "parent after its block was released"));
                    }
                })
            });
        }
    }
    // a triangle with more elements than 16 bits can number
    for kind in kinds_for((363, 363), &[], &[]) {
        if kind.lay.reference((363, 363)).order == Order::Upper {
            cx.case("beyond size thresholds", || format!("{} {:?}", T::NAME, kind), |run| with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| long_passes(run, o, m)));
        }
    }
}
fn main() {
    let mut cx = Cx::from_args();
    let full = cx.thorough();
    explore::<f64>(&mut cx, full, true);
    beyond::<f64>(&mut cx, true, full);
    explore::<c32>(&mut cx, full, false);
    explore::<f32>(&mut cx, full, false);
    explore::<c64>(&mut cx, full, false);
    beyond::<c32>(&mut cx, false, full);
    beyond::<c64>(&mut cx, false, full);
    beyond::<f32>(&mut cx, false, full);
    cx.finish();
}
