// C19 for one scalar type `T`; included for the primary type with everything, for the others with less
// (the code is generic there).
pub fn of_dim(cx: &mut Cx, d: (usize, usize), depth: usize) {
    let other = |k: usize| T::of(0.25 * (k as f64) - 3.0, 2.0 + k as f64);
    let strided = (d.1 * 2 + (d.0 + d.1) % 2, 2);
    macro_rules! kinds {
        (dyn, $name:expr, $order:expr, $stride:expr, |$run:ident, $buf:ident| $mk:expr, $b:expr) => {{
            cx.case("wrapped matrices", || format!("{} {} {:?}", T::NAME, $name, d), |$run| {
                let lay = RefLayout { order: $order, dim: d, stride: $stride };
                let mut $buf = GuardBuf::<T>::new(lay.span() as usize, |q| T::tag(q));
                let mut model = Model { lay, store: $buf.snapshot(), base: 0, window: 0 };
                {
                    let mut a = $mk;
                    let b = filled($b, other);
                    for k in 0..lay.len() { *a.get1d_mut(k) = model.at(k); }
                    expressions($run, &mut a, &b, &model);
                    kinds!(@eval dyn, $run, a, b, model);
                    examine($run, &mut a, &mut model, depth);
                    expressions($run, &mut a, &b, &model);
                }
                ensure!($buf.guards_ok(), "memory outside of the storage was overwritten");
            });
        }};
        (any, $name:expr, $order:expr, $stride:expr, |$run:ident, $buf:ident| $mk:expr, $b:expr) => {{
            cx.case("wrapped matrices", || format!("{} {} {:?}", T::NAME, $name, d), |$run| {
                let lay = RefLayout { order: $order, dim: d, stride: $stride };
                let mut $buf = GuardBuf::<T>::new(lay.span() as usize, |q| T::tag(q));
                let mut model = Model { lay, store: $buf.snapshot(), base: 0, window: 0 };
                {
                    let mut a = $mk;
                    let b = filled($b, other);
                    for k in 0..lay.len() { *a.get1d_mut(k) = model.at(k); }
                    expressions($run, &mut a, &b, &model);
                    examine($run, &mut a, &mut model, depth);
                    expressions($run, &mut a, &b, &model);
                }
                ensure!($buf.guards_ok(), "memory outside of the storage was overwritten");
            });
        }};
        (@eval dyn, $run:ident, $a:ident, $bb:ident, $m:ident) => { evaluation($run, &mut $a, &$bb, &$m) };
    }
    macro_rules! sl { ($buf:ident, $RS:ident, $CS:ident, $l:expr) => { GenericBaseMatrixMut::<T, _, SliceContainerMut<T>, $RS, $CS>::from_data(SliceContainerMut::new(unsafe { $buf.view() }), $l) }; }
    let (m, n) = d;
    kinds!(dyn, "row-major", Order::Row, None, |run, buf| MatrixD::<T, RowMajor>::zeros_from_dim(m, n), MatrixD::<T, RowMajor>::zeros_from_dim(m, n));
    wide! { kinds!(dyn, "column-major", Order::Col, None, |run, buf| MatrixD::<T, ColumnMajor>::zeros_from_dim(m, n), MatrixD::<T, ColumnMajor>::zeros_from_dim(m, n)); }
    wide! { kinds!(dyn, "row-major slice", Order::Row, None, |run, buf| sl!(buf, Dynamic, Dynamic, RowMajor::new(d)), MatrixD::<T, RowMajor>::zeros_from_dim(m, n)); }
    wide! { kinds!(dyn, "strided row-major", Order::Row, Some(strided), |run, buf| sl!(buf, Dynamic, Dynamic, ArbitraryStrideRowMajor::new(d, strided)), MatrixD::<T, RowMajor>::zeros_from_dim(m, n)); }
    let sc = (2, 2 * m + (d.0 + d.1) % 2);
    kinds!(dyn, "strided column-major", Order::Col, Some(sc), |run, buf| sl!(buf, Dynamic, Dynamic, ArbitraryStrideColumnMajor::new(d, sc)), MatrixD::<T, ColumnMajor>::zeros_from_dim(m, n));
    if m == n {
        kinds!(dyn, "upper triangular", Order::Upper, None, |run, buf| UpperTriangularMatrix::<T>::zeros_from_dim(m, n), UpperTriangularMatrix::<T>::zeros_from_dim(m, n));
    }
    if m == 1 {
        wide! { kinds!(any, "row vector", Order::Row, None, |run, buf| RowVectorD::<T>::zeros_from_length(n), RowVectorD::<T>::zeros_from_length(n)); }
        wide! { kinds!(any, "strided row vector", Order::Row, Some((1, 3)), |run, buf| sl!(buf, Fixed1, Dynamic, ArbitraryStrideRowVector::new(n, 3)), RowVectorD::<T>::zeros_from_length(n)); }
    }
    if n == 1 {
        kinds!(any, "column vector", Order::Col, None, |run, buf| ColumnVectorD::<T>::zeros_from_length(m), ColumnVectorD::<T>::zeros_from_length(m));
        wide! { kinds!(any, "strided column vector", Order::Col, Some((3, 1)), |run, buf| sl!(buf, Dynamic, Fixed1, ArbitraryStrideColumnVector::new(m, 3)), ColumnVectorD::<T>::zeros_from_length(m)); }
    }
    if d == (2, 3) {
        type F23<T> = GenericBaseMatrixMut<T, RowMajor, ArrayContainer<T, 6>, Fixed2, Fixed3>;
        wide! { kinds!(any, "fixed row-major", Order::Row, None, |run, buf| F23::<T>::from_data(ArrayContainer::new(), RowMajor::new(d)), F23::<T>::from_data(ArrayContainer::new(), RowMajor::new(d))); }
    }
    if d == (3, 3) {
        type F33<T> = GenericBaseMatrixMut<T, ColumnMajor, ArrayContainer<T, 9>, Fixed3, Fixed3>;
        wide! { kinds!(any, "fixed column-major", Order::Col, None, |run, buf| F33::<T>::from_data(ArrayContainer::new(), ColumnMajor::new(d)), F33::<T>::from_data(ArrayContainer::new(), ColumnMajor::new(d))); }
    }
    // blocks, and blocks of blocks
    cx.case("wrapped blocks", || format!("{} {:?}", T::NAME, d), |run| {
        for nested in [false, true] {
            let big = (m + 3, n + 4);
            let o = if nested { 2 } else { 1 };
            let lay = RefLayout::strided(Order::Row, d, (big.1, 1));
            let base = if m * n == 0 { 0 } else { o * big.1 + o };
            let store: Vec<T> = (0..big.0 * big.1).map(|q| T::tag(q)).collect();
            let mut p = filled(MatrixD::<T, RowMajor>::zeros_from_dim(big.0, big.1), |k| T::tag(k));
            let mut model = Model { lay, store, base, window: 0 };
            let b = filled(MatrixD::<T, RowMajor>::zeros_from_dim(m, n), other);
            {
                let mut b1 = p.block_mut((1, 1), (m + 1, n + 2));
                if nested {
                    wide! {
                    let mut b2 = b1.block_mut((1, 1), d);
                    evaluation(run, &mut b2, &b, &model);
                    examine(run, &mut b2, &mut model, depth.min(1));
                    expressions(run, &mut b2, &b, &model);
                    }
                } else {
                    drop(b1);
                    let mut b1 = p.block_mut((1, 1), d);
                    evaluation(run, &mut b1, &b, &model);
                    examine(run, &mut b1, &mut model, depth.min(1));
                    expressions(run, &mut b1, &b, &model);
                }
            }
            for q in 0..big.0 * big.1 {
                ensure!(p.get1d(q).same(model.store[q]), "parent element {} is {:?}, expected {:?}", q, p.get1d(q), model.store[q]);
            }
        }
    });
    cx.case("monitored storage", || format!("{} {:?}", T::NAME, d), |run| {
        touches::<T, _, Dynamic, Dynamic>(run, RefLayout::packed(Order::Row, d), || RowMajor::new(d));
        touches::<T, _, Dynamic, Dynamic>(run, RefLayout::packed(Order::Col, d), || ColumnMajor::new(d));
        touches::<T, _, Dynamic, Dynamic>(run, RefLayout::strided(Order::Row, d, strided), || ArbitraryStrideRowMajor::new(d, strided));
        touches::<T, _, Dynamic, Dynamic>(run, RefLayout::strided(Order::Col, d, sc), || ArbitraryStrideColumnMajor::new(d, sc));
        if m == n {
            touches::<T, _, Dynamic, Dynamic>(run, RefLayout::packed(Order::Upper, d), || UpperTriangular::new(n));
        }
        if m == 1 {
            touches::<T, _, Fixed1, Dynamic>(run, RefLayout::packed(Order::Row, d), || RowVector::new(n));
        }
        if n == 1 {
            touches::<T, _, Dynamic, Fixed1>(run, RefLayout::packed(Order::Col, d), || ColumnVector::new(m));
        }
    });
}
