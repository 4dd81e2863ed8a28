//! C16: raw windows are exact and confined to the object's storage.
use householder::types::{c32, c64};
use householder::*;
use mc::*;

/// Window bounds that could wrap around or be truncated.
fn far(len: usize) -> Vec<usize> {
    let mut v = vec![0, 1, len, len + 1, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 60, 1 << 61, 1 << 62, isize::MAX as usize, 1 << 63, (1 << 63) + 1, usize::MAX - len, usize::MAX - 1, usize::MAX];
    if len > 0 {
        v.push(len - 1);
        v.push((1usize << 32) + len - 1);
        v.push((1usize << 61) + len);
    }
    v.sort();
    v.dedup();
    v
}
fn windows(len: usize) -> Vec<(usize, usize)> {
    (0..=len + 2).flat_map(|a| (0..=len + 2).map(move |b| (a, b))).collect()
}
/// Windows of a huge object: around its ends and around machine-width thresholds.
fn threshold_windows(len: usize) -> Vec<(usize, usize)> {
    let mut at = vec![0, 1, 255, 256, 65_535, 65_536, 65_537, len - 1, len, len + 1, len + 256, len + 65_536];
    at.retain(|&x| x <= len + 65_536);
    at.sort();
    at.dedup();
    let mut v: Vec<_> = at.iter().flat_map(|&a| at.iter().map(move |&b| (a, b))).collect();
    // granted windows are long: those that matter only
    v.retain(|&(a, b)| !granted(len, (a, b)) || b - a <= 2 || (a <= 1 && b >= len - 1) || (a == 0 && b == 65_536) || (a == 65_536 && b == len));
    v
}
fn granted(len: usize, w: (usize, usize)) -> bool {
    w.0 < w.1 && w.1 <= len
}
/// Every window, read and write, against the storage.
fn all_windows<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, m: &mut Model<T>, n_far: bool) {
    if !o.caps() {
        return;
    }
    let len = m.window;
    let log = LAST_LOG.with(|l| l.borrow().clone());
    let mut ws = if len <= 120 { windows(len) } else { threshold_windows(len) };
    if n_far {
        let f = far(len);
        ws.extend(f.iter().flat_map(|&a| f.iter().map(move |&b| (a, b))));
    }
    let mut tag = 1000;
    for w in ws {
        run.step(|| format!("window {:?} of {} locations", w, len));
        if !granted(len, w) {
            if let Some(l) = &log {
                l.clear();
            }
            must_refuse(&format!("the window {:?} of {} locations", w, len), || o.slice_(w.0, w.1).len());
            must_refuse(&format!("the mutable window {:?} of {} locations", w, len), || o.slice_mut_(w.0, w.1).len());
            if let Some(l) = &log {
                ensure!(l.untouched(), "the refused window {:?} accessed elements", w);
            }
            run.eval(2);
            run.transition();
            continue;
        }
        let base = m.base;
        let check = |s: &[T], what: &str| {
            ensure!(s.len() == w.1 - w.0, "{} {:?} has {} elements", what, w, s.len());
            for k in 0..s.len() {
                ensure!(s[k].same(m.store[base + w.0 + k]), "{} {:?}: entry {} is {:?}, expected {:?}", what, w, k, s[k], m.store[base + w.0 + k]);
            }
        };
        check(o.slice_(w.0, w.1), "window");
        check(o.slice_mut_(w.0, w.1), "mutable window");
        unsafe {
            ensure!(o.slice_(w.0, w.1).as_ptr() == o.ptr_().add(w.0), "window {:?} does not start at the storage location", w);
            let p = o.ptr_mut_();
            ensure!(p as *const T == o.ptr_(), "the pointers for reading and writing differ");
            ensure!(o.slice_mut_(w.0, w.1).as_mut_ptr() == p.add(w.0), "mutable window {:?} does not start at the storage location", w);
        }
        // write every entry
        for k in 0..w.1 - w.0 {
            tag += 1;
            o.slice_mut_(w.0, w.1)[k] = T::tag(tag);
            m.store[base + w.0 + k] = T::tag(tag);
        }
        let e = check_obj(o, m, "after writing through a window");
        run.eval(e + 2 * (w.1 - w.0) as u64);
        run.transition();
        run.state(hash_of(&w));
    }
    run.trace();
}
/// All pairs of writing windows, single entries, through windows and the pointer, read by every route.
fn pairs<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, m: &mut Model<T>) {
    if !o.caps() {
        return;
    }
    let ws: Vec<_> = windows(m.window).into_iter().filter(|&w| granted(m.window, w)).collect();
    let mut tag = 5000;
    for &w1 in &ws {
        for &w2 in &ws {
            run.step(|| format!("write through {:?} then {:?}", w1, w2));
            for (w, by_ptr) in [(w1, false), (w2, true)] {
                for k in 0..w.1 - w.0 {
                    tag += 1;
                    if by_ptr {
                        unsafe { *o.ptr_mut_().add(w.0 + k) = T::tag(tag) }
                    } else {
                        o.slice_mut_(w.0, w.1)[k] = T::tag(tag);
                    }
                    m.store[m.base + w.0 + k] = T::tag(tag);
                }
            }
            let e = check_obj(o, m, "after two window writes");
            // element writes show in the windows
            for k in 0..m.lay.len() {
                tag += 1;
                *o.get1_mut_(k) = T::tag(tag);
                m.set(k, T::tag(tag));
            }
            for w in [w1, w2] {
                let s = o.slice_(w.0, w.1);
                for k in 0..s.len() {
                    ensure!(s[k].same(m.store[m.base + w.0 + k]), "window {:?}: entry {} is {:?} after element writes", w, k, s[k]);
                }
            }
            run.eval(e + 2);
            run.transition();
            run.state(hash_of(&(w1, w2)));
        }
    }
    run.trace();
}
/// Windows of read-only blocks.
fn blocks<T: Sc>(run: &mut Run, b: &dyn Blk<T>, m: &Model<T>, depth: usize) {
    let mut f = |run: &mut Run, b: &dyn Blk<T>, m: &Model<T>| {
        let len = m.window;
        for w in windows(len).into_iter().chain([(usize::MAX, 0), (usize::MAX, usize::MAX), (0, usize::MAX), (1, 1 << 63)]) {
            if granted(len, w) {
                let s = b.bslice(w.0, w.1);
                ensure!(s.len() == w.1 - w.0, "window {:?} of a block has {} elements", w, s.len());
                for k in 0..s.len() {
                    ensure!(s[k].same(m.store[m.base + w.0 + k]), "window {:?} of a block: entry {} is {:?}", w, k, s[k]);
                }
                ensure!(s.as_ptr() == unsafe { b.bptr().add(w.0) }, "window {:?} of a block does not start at the location", w);
            } else {
                must_refuse(&format!("the window {:?} of a block spanning {} locations", w, len), || b.bslice(w.0, w.1).len());
            }
            run.eval(2);
        }
        run.transition();
    };
    for (tl, d) in all_blocks(m.lay.dim) {
        run.step(|| format!("block {:?} {:?}", tl, d));
        b.blk(tl, d, &mut |b1| {
            let m1 = block_of(m, tl, d);
            f(run, b1, &m1);
            run.state(hash_of(&(tl, d)));
            if depth > 1 {
                for (tl2, d2) in all_blocks(d) {
                    b1.blk(tl2, d2, &mut |b2| f(run, b2, &block_of(&m1, tl2, d2)));
                }
            }
        });
    }
    run.trace();
}
fn blocks_mut<T: Sc>(run: &mut Run, o: &mut dyn BlkMut<T>, m: &mut Model<T>) {
    for (tl, d) in all_blocks(m.lay.dim) {
        run.step(|| format!("mutable block {:?} {:?}", tl, d));
        let mut m1 = block_of(m, tl, d);
        o.blk_mut(tl, d, &mut |b| all_windows(run, b.as_obj(), &mut m1, false));
        m.store = m1.store;
    }
}
/// A matrix built on a raw pointer presents the memory at that pointer.
fn from_pointer<T: Sc>(run: &mut Run, dim: (usize, usize), offset: usize, stride: (usize, usize)) {
    let buf = GuardBuf::<T>::new(200, |q| T::tag(q));
    let p = unsafe { buf.ptr().add(offset) };
    let mut models = vec![];
    for (o, s) in [(Order::Row, None), (Order::Col, None), (Order::Row, Some(stride)), (Order::Col, Some(stride))] {
        let lay = RefLayout { order: o, dim, stride: s };
        if offset + lay.span() as usize <= 200 && !lay.overlapping() {
            models.push((lay, o, s));
        }
    }
    for (lay, o, s) in models {
        let mut m = Model { lay, store: buf.snapshot(), base: offset, window: lay.span() as usize };
        macro_rules! at {
            ($L:ident $(, $s:expr)?) => {{
                let r = unsafe { SliceMatrix::<T, $L, Dynamic, Dynamic>::from_pointer(p, dim $(, $s)?) };
                run.eval(check_view(&r, &m, "matrix on a pointer"));
                if m.window > 0 {
                    ensure!(r.get_pointer() == p as *const T, "the pointer of a matrix on a pointer");
                }
                drop(r);
                let mut w = unsafe { SliceMatrixMut::<T, $L, Dynamic, Dynamic>::from_pointer(p, dim $(, $s)?) };
                let mut w = BaseObj(&mut w);
                all_windows(run, &mut w, &mut m, false);
                for k in 0..lay.len() {
                    for route in 0..8 {
                        let v = T::tag(900 + 8 * k + route);
                        write_route(&mut w, &lay, m.window, route, k, v);
                        m.set(k, v);
                        run.eval(check_obj(&w, &m, "matrix on a pointer"));
                    }
                }
                // the memory changes behind the matrix: it shows
                for k in 0..lay.len() {
                    buf.set(offset + lay.raw1(k), T::tag(700 + k));
                    m.set(k, T::tag(700 + k));
                }
                run.eval(check_obj(&w, &m, "matrix on a pointer whose memory changed"));
            }};
        }
        match (o, s) {
            (Order::Row, None) => at!(RowMajor),
            (Order::Col, None) => at!(ColumnMajor),
            (Order::Row, Some(st)) => at!(ArbitraryStrideRowMajor, st),
            (_, Some(st)) => at!(ArbitraryStrideColumnMajor, st),
            _ => unreachable!(),
        }
        finish(&buf, &m);
        run.trace();
        run.state(hash_of(&(lay, offset)));
    }
}
fn explore<T: Sc>(cx: &mut Cx, full: bool, primary: bool) {
    let k = if full { 4 } else { 3 };
    let strides: &[(usize, usize)] = if full { &[(7, 1), (1, 6), (9, 2), (2, 11), (13, 3)] } else { &[(7, 1), (1, 6), (9, 2)] };
    let mut dims: Vec<(usize, usize)> = (0..=k).flat_map(|m| (0..=k).map(move |n| (m, n))).collect();
    dims.extend(if full { vec![(1, 12), (12, 1), (6, 5)] } else { vec![(1, 7), (7, 1)] });
    for &d in &dims {
        let mut strides = strides.to_vec();
        strides.extend(stride_classes(d));
        strides.sort();
        strides.dedup();
        let strides = &strides[..];
        for kind in kinds_for(d, strides, &[1, 2, 3]) {
            cx.case("all windows", || format!("{} {:?}", T::NAME, kind), |run| {
                LAST_LOG.with(|l| *l.borrow_mut() = None);
                with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| all_windows(run, o, m, true))
            });
            if primary && kind.lay.reference(d).span() <= if full { 9 } else { 6 } {
                cx.case("pairs of writes", || format!("{} {:?}", T::NAME, kind), |run| with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| pairs(run, o, m)));
            }
        }
        if d.0 <= 4 && d.1 <= 4 && (primary || d.0 + d.1 <= 5) {
            for kind in block_parents(d, strides) {
                let depth = if primary { 2 } else { 1 };
                cx.case("windows of blocks", || format!("{} {:?}", T::NAME, kind), |run| with_parent::<T>(&kind, &|q| T::tag(q), &mut |o, m| blocks(run, o.as_blk(), m, depth)));
                cx.case("windows of mutable blocks", || format!("{} {:?}", T::NAME, kind), |run| with_parent::<T>(&kind, &|q| T::tag(q), &mut |o, m| blocks_mut(run, o, m)));
            }
        }
        for off in [0, 1, 7] {
            for &s in strides {
                cx.case("matrices on pointers", || format!("{} {:?} offset {} stride {:?}", T::NAME, d, off, s), |run| from_pointer::<T>(run, d, off, s));
            }
        }
    }
}
fn beyond<T: Sc>(cx: &mut Cx, primary: bool, full: bool) {
    for d in huge_for(primary, full) {
        let (m, n) = d;
        for kind in kinds_for(d, &[(2 * n + 1, 2), (3, 3 * m + 1), (1, m + 2), (2 * n, 2), (2, 2 * m)], &[1, 3]) {
            cx.case("beyond size thresholds", || format!("{} {:?}", T::NAME, kind), |run| {
                LAST_LOG.with(|l| *l.borrow_mut() = None);
                with_kind::<T>(&kind, &|q| T::tag(q), &mut |o, m| all_windows(run, o, m, true))
            });
        }
        for kind in block_parents(d, &[(n + 1, 1), (2, 2 * m + 1)]) {
            cx.case("blocks beyond size thresholds", || format!("{} {:?}", T::NAME, kind), |run| {
                with_parent::<T>(&kind, &|q| T::tag(q), &mut |o, mo| {
                    for (tl, b) in [((0, 0), (m, n)), ((m / 2, n / 2), (m - m / 2, n - n / 2)), ((0, n - 1), (m, 1)), ((m - 1, 0), (1, n))] {
                        let mut m1 = block_of(mo, tl, b);
                        run.step(|| format!("block {:?} {:?}", tl, b));
                        o.as_blk().blk(tl, b, &mut |x| {
                            for w in if m1.window <= 120 { windows(m1.window) } else { threshold_windows(m1.window.max(1)) } {
                                if granted(m1.window, w) {
                                    let s = x.bslice(w.0, w.1);
                                    ensure!(s.len() == w.1 - w.0, "window {:?} of a block has {} elements", w, s.len());
                                    for k in 0..s.len() {
                                        ensure!(s[k].same(m1.store[m1.base + w.0 + k]), "window {:?} of a block: entry {} is {:?}", w, k, s[k]);
                                    }
                                    run.eval(s.len() as u64);
                                } else {
                                    must_refuse(&format!("the window {:?} of a block spanning {} locations", w, m1.window), || x.bslice(w.0, w.1).len());
                                    run.eval(1);
                                }
                            }
                            run.transition();
                        });
                        if m1.window > 120 {
                            o.blk_mut(tl, b, &mut |x| all_windows(run, x.as_obj(), &mut m1, false));
                            mo.store = m1.store;
                        }
                    }
                })
            });
        }
    }
}
fn main() {
    let mut cx = Cx::from_args();
    let full = cx.thorough();
    explore::<f64>(&mut cx, full, true);
    explore::<c32>(&mut cx, full, false);
    beyond::<f64>(&mut cx, true, full);
    explore::<f32>(&mut cx, full, false);
    explore::<c64>(&mut cx, full, false);
    beyond::<c32>(&mut cx, false, full);
    beyond::<c64>(&mut cx, false, full);
    beyond::<f32>(&mut cx, false, full);
    cx.finish();
}
