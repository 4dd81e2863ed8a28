//! C04: out-of-range element access is refused on every kind of object, in every build.
use mc::*;
use householder::matrix_ref::MatrixRef;
use householder::types::{c32, c64};
use householder::*;

/// Coordinates worth trying against a dimension `d`, given the distances used in address computations.
fn coords(d: usize, dists: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=d.min(5) + 2).collect();
    for x in [d / 2, d.wrapping_sub(1), d, d + 1, d + 2, 2 * d, d * d, 255, 256, 65535, 65536] {
        v.push(x);
    }
    for e in [8u32, 16, 32] {
        // right again if only the low bits are looked at
        v.extend([(1usize << e) + d / 2, (1usize << e) + d.saturating_sub(1), (d | 255) + 1, (d | 65535) + 1]);
    }
    for e in [31u32, 32, 60, 61, 62, 63] {
        let p = 1usize << e;
        v.extend([p - 1, p, p + 1]);
    }
    for k in 0..=2 {
        v.push(usize::MAX - k);
    }
    v.push(usize::MAX - d);
    v.push((usize::MAX - d).wrapping_add(1));
    for &s in dists {
        if s > 1 {
            // x * s wraps around to something small
            for q in [1u128, s as u128 - 1] {
                let x = (q << 64) / s as u128;
                for y in [x, x + 1, x.wrapping_sub(1)] {
                    if y <= u64::MAX as u128 {
                        v.push(y as usize);
                    }
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
fn alphabets(l: &RefLayout) -> (Vec<usize>, Vec<usize>, Vec<usize>) {
    let (m, n) = l.dim;
    let (r, c) = l.stride.unwrap_or((n, m));
    let rows = coords(m, &[r, n, m, c]);
    let cols = coords(n, &[c, r, m, n]);
    let mut k = coords(l.len(), &[r, c, m, n, r * c]);
    for x in 0..=(l.len() + 3).min(60) {
        k.push(x);
    }
    k.extend([m * n, m * n + 1, (m * n).wrapping_sub(1), l.span() as usize, l.span() as usize + 1]);
    k.sort();
    k.dedup();
    (rows, cols, k)
}

fn clean(log: &Option<std::rc::Rc<MonLog>>, what: &dyn Fn() -> String) {
    if let Some(l) = log {
        ensure!(l.untouched(), "{}: a refused access touched the storage", what());
    }
}
fn one_get<T: Sc>(o: &dyn View<T>, m: &Model<T>, i: usize, j: usize, log: &Option<std::rc::Rc<MonLog>>) {
    let l = &m.lay;
    if l.contains(i, j) {
        let x = o.v_get(i, j);
        ensure!(x.same(m.at2(i, j)), "get({}, {}) = {:?}, expected {:?}", i, j, x, m.at2(i, j));
    } else {
        log.as_ref().map(|l| l.clear());
        if let Ok(x) = refused(|| o.v_get(i, j)) {
            fail!("get({}, {}) on dimension {:?} gave {:?}", i, j, l.dim, x);
        }
        clean(log, &|| format!("get({}, {})", i, j));
    }
}
fn one_get1<T: Sc>(o: &dyn View<T>, m: &Model<T>, k: usize, log: &Option<std::rc::Rc<MonLog>>) {
    let l = &m.lay;
    if k < l.len() {
        let x = o.v_get1(k);
        ensure!(x.same(m.at(k)), "get1d({}) = {:?}, expected {:?}", k, x, m.at(k));
    } else {
        log.as_ref().map(|l| l.clear());
        if let Ok(x) = refused(|| o.v_get1(k)) {
            fail!("get1d({}) with {} elements gave {:?}", k, l.len(), x);
        }
        clean(log, &|| format!("get1d({})", k));
    }
}
fn probe_view<T: Sc>(run: &mut Run, o: &dyn View<T>, m: &Model<T>, logs: &[std::rc::Rc<MonLog>]) {
    let (rows, cols, ks) = alphabets(&m.lay);
    let log = logs.get(0).cloned();
    for &i in &rows {
        for &j in &cols {
            logs.iter().for_each(|l| l.clear());
            run.step(|| format!("get({}, {})", i, j));
            one_get(o, m, i, j, &log);
            if !m.lay.contains(i, j) {
                logs.iter().for_each(|l| clean(&Some(l.clone()), &|| format!("get({}, {})", i, j)));
            }
        }
    }
    for &k in &ks {
        logs.iter().for_each(|l| l.clear());
        run.step(|| format!("get1d({})", k));
        one_get1(o, m, k, &log);
        if k >= m.lay.len() {
            logs.iter().for_each(|l| clean(&Some(l.clone()), &|| format!("get1d({})", k)));
        }
    }
    run.eval((rows.len() * cols.len() + ks.len()) as u64);
    run.state(hash_of(&(m.lay, rows.len(), cols.len())));
    run.outcome(hash_of(&(rows, cols, ks)));
}
fn probe_obj<T: Sc>(run: &mut Run, kind: &Kind) {
    with_kind::<T>(kind, &|q| T::tag(q), &mut |o, m| {
        let log = if matches!(kind.st, St::Mon(_)) { LAST_LOG.with(|l| l.borrow().clone()) } else { None };
        let logs: Vec<_> = log.iter().cloned().collect();
        probe_view(run, o.view(), m, &logs);
        let l = m.lay;
        let (rows, cols, ks) = alphabets(&l);
        for &i in &rows {
            for &j in &cols {
                run.step(|| format!("get_mut({}, {})", i, j));
                if l.contains(i, j) {
                    let x = *o.get_mut_(i, j);
                    ensure!(x.same(m.at2(i, j)), "get_mut({}, {}) gives {:?}, expected {:?}", i, j, x, m.at2(i, j));
                } else {
                    logs.iter().for_each(|l| l.clear());
                    if refused(|| o.get_mut_(i, j) as *mut T).is_ok() {
                        fail!("get_mut({}, {}) on dimension {:?} was granted", i, j, l.dim);
                    }
                    clean(&log, &|| format!("get_mut({}, {})", i, j));
                }
            }
        }
        for &k in &ks {
            run.step(|| format!("get1d_mut({})", k));
            if k < l.len() {
                let x = *o.get1_mut_(k);
                ensure!(x.same(m.at(k)), "get1d_mut({}) gives {:?}, expected {:?}", k, x, m.at(k));
            } else {
                logs.iter().for_each(|l| l.clear());
                if refused(|| o.get1_mut_(k) as *mut T).is_ok() {
                    fail!("get1d_mut({}) with {} elements was granted", k, l.len());
                }
                clean(&log, &|| format!("get1d_mut({})", k));
            }
        }
        run.eval((rows.len() * cols.len() + ks.len()) as u64);
        let e = check_obj(o, m, "after refused accesses");
        run.eval(e);
    });
}

/// Two accesses after one another: the verdict on the second never depends on the first.
fn pairs<T: Sc>(run: &mut Run, kind: &Kind) {
    with_kind::<T>(kind, &|q| T::tag(q), &mut |o, m| {
        let l = m.lay;
        let c = |d: usize| {
            let mut v = vec![0, d.wrapping_sub(1), d, d + 1, usize::MAX];
            v.extend(0..d);
            v.sort();
            v.dedup();
            v
        };
        let mut acts: Vec<(usize, usize, usize)> = vec![];
        for i in c(l.dim.0) {
            for j in c(l.dim.1) {
                acts.push((0, i, j));
                acts.push((1, i, j));
            }
        }
        for k in c(l.len()) {
            acts.push((2, k, 0));
            acts.push((3, k, 0));
        }
        let mut act = |a: (usize, usize, usize)| {
            let (op, i, j) = a;
            match op {
                0 => one_get(o.view(), m, i, j, &None),
                2 => one_get1(o.view(), m, i, &None),
                1 => {
                    let r = refused(|| *o.get_mut_(i, j));
                    ensure!(r.is_ok() == l.contains(i, j), "get_mut({}, {}) {}", i, j, if r.is_ok() { "was granted" } else { "was refused" });
                    if let Ok(x) = r {
                        ensure!(x.same(m.at2(i, j)), "get_mut({}, {}) gives {:?}", i, j, x);
                    }
                }
                _ => {
                    let r = refused(|| *o.get1_mut_(i));
                    ensure!(r.is_ok() == (i < l.len()), "get1d_mut({}) {}", i, if r.is_ok() { "was granted" } else { "was refused" });
                    if let Ok(x) = r {
                        ensure!(x.same(m.at(i)), "get1d_mut({}) gives {:?}", i, x);
                    }
                }
            }
        };
        for &a in &acts {
            for &b in &acts {
                act(a);
                run.step(|| format!("{:?} then {:?}", a, b));
                act(b);
                run.transition();
            }
        }
        run.trace();
        run.state(acts.len() as u64);
        run.eval(2 * (acts.len() * acts.len()) as u64);
    });
}

/// Expressions, read-only blocks and reference wrappers.
macro_rules! derived {
    ($cx:expr, $T:ty, $dims:expr) => {
        for &dim in $dims {
            let (m, n) = dim;
            for lay in [Order::Row, Order::Col] {
                $cx.case("expressions, blocks and references", || format!("{} {:?} {:?}", <$T>::NAME, lay, dim), |run| {
                    macro_rules! go {
                        ($L:ident, $AS:ident, $order:expr, $s:expr) => {{
                            let l = RefLayout::packed($order, dim);
                            let len = l.len();
                            let mk = |off: usize| {
                                let (c, b, log) = MonContainer::<$T>::fresh(len, |q| <$T>::tag(q + off));
                                (GenericBaseMatrix::<$T, $L, MonContainer<$T>, Dynamic, Dynamic>::from_data(c, $L::new(dim)), b, log)
                            };
                            let two = <$T>::of(2.0, 0.0);
                            let model = |f: &dyn Fn(usize) -> $T| Model { lay: l, store: (0..len).map(f).collect(), base: 0, window: len };
                            let (a, _ba, la) = mk(0);
                            let (b, _bb, lb) = mk(500);
                            let logs = [la.clone(), lb.clone()];
                            let sum = model(&|q| <$T>::tag(q).add_(<$T>::tag(q + 500)));
                            let dbl = model(&|q| two.mul_(<$T>::tag(q)));
                            let plain = model(&|q| <$T>::tag(q));
                            probe_view(run, &(&a + &b), &sum, &logs);
                            probe_view(run, &(two * &a), &dbl, &logs);
                            probe_view(run, &(&a * two), &dbl, &logs);
                            let both = model(&|q| <$T>::tag(q).add_(two.mul_(<$T>::tag(q + 500))));
                            probe_view(run, &(&a + two * &b), &both, &logs);
                            let all = model(&|q| two.mul_(<$T>::tag(q).add_(<$T>::tag(q + 500))));
                            probe_view(run, &((&a + &b) * two), &all, &logs);
                            with_refs(&a, 1, &mut |v| probe_view(run, v, &plain, &logs));
                            with_refs(&a, 3, &mut |v| probe_view(run, v, &plain, &logs));
                            // wider storage of the second operand must not extend the range
                            let s: (usize, usize) = $s;
                            let big = RefLayout::strided($order, dim, s);
                            let (c, _bc, lc) = MonContainer::<$T>::fresh(big.span() as usize + 7, |q| <$T>::tag(q));
                            let st = GenericBaseMatrix::<$T, $AS, MonContainer<$T>, Dynamic, Dynamic>::from_data(c, $AS::new(dim, s));
                            let mixed = model(&|q| <$T>::tag(q).add_(<$T>::tag(big.raw1(q))));
                            let logs2 = [la.clone(), lc.clone()];
                            probe_view(run, &(&a + &st), &mixed, &logs2);
                            let mixed2 = model(&|q| <$T>::tag(big.raw1(q)).add_(<$T>::tag(q)));
                            probe_view(run, &(&st + &a), &mixed2, &logs2);
                            let owned = model(&|q| <$T>::tag(q).add_(<$T>::tag(q + 500)));
                            probe_view(run, &(a + b), &owned, &logs);
                            // read-only blocks of a bigger parent
                            let pdim = (m + 2, n + 3);
                            let pl = RefLayout::packed($order, pdim);
                            let (c, _bp, lp) = MonContainer::<$T>::fresh(pl.len(), |q| <$T>::tag(q));
                            let p = GenericBaseMatrix::<$T, $L, MonContainer<$T>, Dynamic, Dynamic>::from_data(c, $L::new(pdim));
                            let blk = p.block((1, 1), dim);
                            let bm = model(&|q| { let (i, j) = l.pos(q); <$T>::tag(pl.idx(i + 1, j + 1) as usize) });
                            probe_view(run, &blk, &bm, &[lp.clone()]);
                            let outer = p.block((0, 1), (m + 2, n + 1));
                            let blk2 = outer.block((1, 0), dim);
                            probe_view(run, &blk2, &bm, &[lp.clone()]);
                            let bs = model(&|q| two.mul_(bm.at(q)));
                            probe_view(run, &(two * &blk2), &bs, &[lp.clone()]);
                            let r: Matrix<$T, _, _, _, _> = Matrix::new(MatrixRef::new(&blk2));
                            probe_view(run, &r, &bm, &[lp]);
                        }};
                    }
                    if lay == Order::Row {
                        go!(RowMajor, ArbitraryStrideRowMajor, Order::Row, (n + 2, 1))
                    } else {
                        go!(ColumnMajor, ArbitraryStrideColumnMajor, Order::Col, (1, m + 2))
                    }
                });
            }
            $cx.case("expressions, blocks and references", || format!("{} vectors and triangles {:?}", <$T>::NAME, dim), |run| {
                macro_rules! go {
                    ($L:ident, $RS:ident, $CS:ident, $l:expr, $order:expr, $d:expr) => {{
                        let l = RefLayout::packed($order, $d);
                        let len = l.len();
                        let mk = |off: usize| {
                            let (c, _, log) = MonContainer::<$T>::fresh(len, |q| <$T>::tag(q + off));
                            (GenericBaseMatrix::<$T, $L, MonContainer<$T>, $RS, $CS>::from_data(c, $l), log)
                        };
                        let (a, la) = mk(0);
                        let (b, lb) = mk(300);
                        let logs = [la, lb];
                        let two = <$T>::of(2.0, 0.0);
                        let model = |f: &dyn Fn(usize) -> $T| Model { lay: l, store: (0..len).map(f).collect(), base: 0, window: len };
                        probe_view(run, &(&a + &b), &model(&|q| <$T>::tag(q).add_(<$T>::tag(q + 300))), &logs);
                        probe_view(run, &(two * &a + &b), &model(&|q| two.mul_(<$T>::tag(q)).add_(<$T>::tag(q + 300))), &logs);
                        with_refs(&a, 2, &mut |v| probe_view(run, v, &model(&|q| <$T>::tag(q)), &logs));
                        probe_view(run, &(b * two), &model(&|q| <$T>::tag(q + 300).mul_(two)), &logs);
                    }};
                }
                go!(RowVector, Fixed1, Dynamic, RowVector::new(n), Order::Row, (1, n));
                go!(ColumnVector, Dynamic, Fixed1, ColumnVector::new(m), Order::Col, (m, 1));
                go!(UpperTriangular, Dynamic, Dynamic, UpperTriangular::new(m), Order::Upper, (m, m));
                go!(UpperTriangular, Dynamic, Dynamic, UpperTriangular::new(n), Order::Upper, (n, n));
            });
        }
    };
}

fn objects<T: Sc>(cx: &mut Cx, dims: &[(usize, usize)]) {
    for &dim in dims {
        let mut st = stride_classes(dim);
        st.push((8, 64));
        for kind in kinds_for(dim, &st, &[1, 2, 5]) {
            cx.case("objects", || format!("{} {:?}", T::NAME, kind), |r| probe_obj::<T>(r, &kind));
        }
    }
}

fn main() {
    let mut cx = Cx::from_args();
    let full = cx.thorough();
    let k = cx.pick(3, 6);
    let mut dims: Vec<(usize, usize)> = (0..=k).flat_map(|i| (0..=k).map(move |j| (i, j))).collect();
    dims.extend([(1, 8), (8, 1), (4, 4), (5, 2), (2, 5), (16, 16), (3, 64), (1, 100), (100, 1)]);
    let short: Vec<(usize, usize)> = dims.iter().copied().filter(|d| d.0 <= 3 && d.1 <= 3).collect();
    objects::<f64>(&mut cx, &dims);
    objects::<c64>(&mut cx, if full { &dims } else { &short });
    objects::<f32>(&mut cx, if full { &dims } else { &short[5..] });
    objects::<c32>(&mut cx, if full { &dims } else { &short[5..] });
    // the alphabets hold what is a multiple of 2^8, 2^16 and 2^32 too far
    for dim in huge_dims(full).into_iter().chain([(400, 400)]) {
        for kind in kinds_for(dim, &[(dim.1 + 2, 1), (2, 2 * dim.0 + 1)], &[1, 3]) {
            // monitoring every access takes time proportional to the storage
            if matches!(kind.st, St::Mon(_)) || dim == (400, 400) && kind.lay != Lay::UP {
                continue;
            }
            cx.case("objects beyond size thresholds", || format!("{:?}", kind), |r| probe_obj::<f64>(r, &kind));
            if full || [(257, 300), (33, 31), (1, 1021), (1021, 1)].contains(&dim) {
                cx.case("objects beyond size thresholds", || format!("c64 {:?}", kind), |r| probe_obj::<c64>(r, &kind));
                cx.case("objects beyond size thresholds", || format!("c32 {:?}", kind), |r| probe_obj::<c32>(r, &kind));
                cx.case("objects beyond size thresholds", || format!("f32 {:?}", kind), |r| probe_obj::<f32>(r, &kind));
            }
        }
    }
    for &dim in &[(2, 2), (2, 3), (3, 2), (1, 3), (3, 1), (3, 3), (0, 2), (0, 0)] {
        for kind in kinds_for(dim, &[(dim.1 + 1, 1), (2, 9)], &[2]) {
            cx.case("pairs of accesses", || format!("{:?}", kind), |r| pairs::<f64>(r, &kind));
        }
    }
    let d: Vec<(usize, usize)> = dims.iter().copied().filter(|d| d.0 <= 5 && d.1 <= 5).collect();
    derived!(cx, f64, &d);
    derived!(cx, f32, &short);
    derived!(cx, c32, &short);
    derived!(cx, c64, &short);
    cx.finish();
}
