//! C05: construction yields the requested shape, zeroed, or is refused.
use householder::base_matrix::BaseMatrix;
use householder::types::{c32, c64, HScalar};
use householder::*;
use mc::*;

fn expect_zero<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, lay: RefLayout, what: &str) {
    let n = lay.len();
    let mut m = Model { lay, store: vec![T::zero_(); n], base: 0, window: n };
    let e = check_obj(o, &m, what);
    run.eval(e);
    // the storage is its own and usable
    for k in 0..n {
        *o.get1_mut_(k) = T::tag(k);
        m.set(k, T::tag(k));
    }
    let e = check_obj(o, &m, "after writing");
    run.eval(e);
    run.state(hash_of(&(lay, what)));
    run.outcome(n as u64);
}

/// Builds twice, dirtying the first object in between, so that neither reused nor shared memory passes for fresh zeros.
macro_rules! twice {
    ($run:expr, $lay:expr, $what:expr, $mk:expr) => {{
        let mut first = $mk;
        expect_zero($run, &mut BaseObj(&mut first), $lay, $what);
        let mut second = $mk;
        expect_zero($run, &mut BaseObj(&mut second), $lay, $what);
        drop(first);
        let mut third = $mk;
        expect_zero($run, &mut BaseObj(&mut third), $lay, $what);
    }};
}

fn zeros<T: Sc>(run: &mut Run, dim: (usize, usize)) {
    let (m, n) = dim;
    twice!(run, RefLayout::packed(Order::Row, dim), "MatrixD RowMajor", MatrixD::<T, RowMajor>::zeros_from_dim(m, n));
    twice!(run, RefLayout::packed(Order::Col, dim), "MatrixD ColumnMajor", MatrixD::<T, ColumnMajor>::zeros_from_dim(m, n));
    twice!(run, RefLayout::packed(Order::Row, dim), "mat!", mat![T, dim]);
    twice!(run, RefLayout::packed(Order::Row, dim), "mat! RowMajor", mat![T, dim, RowMajor]);
    twice!(run, RefLayout::packed(Order::Col, dim), "mat! ColumnMajor", mat![T, dim, ColumnMajor]);
    if m == n {
        twice!(run, RefLayout::packed(Order::Upper, dim), "UpperTriangularMatrix", UpperTriangularMatrix::<T>::zeros_from_dim(m, n));
    } else {
        must_refuse("a non-square triangular matrix", || UpperTriangularMatrix::<T>::zeros_from_dim(m, n));
        must_refuse("a non-square triangular layout", || UpperTriangular::from_dimension(dim));
    }
    if m == 1 {
        twice!(run, RefLayout::packed(Order::Row, dim), "RowVectorD", RowVectorD::<T>::zeros_from_dim(m, n));
        twice!(run, RefLayout::packed(Order::Row, dim), "MatrixD RowVector", MatrixD::<T, RowVector>::zeros_from_dim(m, n));
    } else {
        must_refuse("a row vector with rows != 1", || RowVectorD::<T>::zeros_from_dim(m, n));
        must_refuse("a RowVector matrix with rows != 1", || MatrixD::<T, RowVector>::zeros_from_dim(m, n));
        must_refuse("a RowVector layout with rows != 1", || RowVector::from_dimension(dim));
    }
    if n == 1 {
        twice!(run, RefLayout::packed(Order::Col, dim), "ColumnVectorD", ColumnVectorD::<T>::zeros_from_dim(m, n));
        twice!(run, RefLayout::packed(Order::Col, dim), "MatrixD ColumnVector", MatrixD::<T, ColumnVector>::zeros_from_dim(m, n));
    } else {
        must_refuse("a column vector with columns != 1", || ColumnVectorD::<T>::zeros_from_dim(m, n));
        must_refuse("a ColumnVector matrix with columns != 1", || MatrixD::<T, ColumnVector>::zeros_from_dim(m, n));
        must_refuse("a ColumnVector layout with columns != 1", || ColumnVector::from_dimension(dim));
    }
}
fn vectors<T: Sc>(run: &mut Run, n: usize) {
    let (r, c) = (RefLayout::packed(Order::Row, (1, n)), RefLayout::packed(Order::Col, (n, 1)));
    twice!(run, r, "RowVectorD from length", RowVectorD::<T>::zeros_from_length(n));
    twice!(run, c, "ColumnVectorD from length", ColumnVectorD::<T>::zeros_from_length(n));
    twice!(run, c, "vector!", vector![T, n]);
    twice!(run, c, "vector! ColumnVector", vector![T, n, ColumnVector]);
    twice!(run, r, "vector! RowVector", vector![T, n, RowVector]);
    ensure!(RowVectorD::<T>::zeros_from_length(n).length() == n, "row vector length");
    ensure!(ColumnVectorD::<T>::zeros_from_length(n).length() == n, "column vector length");
    let b = BaseMatrix::<T, _, RowVector, Fixed1, Dynamic>::new(VectorContainer::<T>::new(n + 2), RowVector::new(n));
    ensure!(b.length() == n, "base row vector length {}, expected {}", b.length(), n);
    let b = GenericBaseMatrix::<T, _, _, Fixed1, Dynamic>::from_data(VectorContainer::<T>::new(n + 2), RowVector::new(n));
    ensure!(b.length() == n, "row vector length {} on a larger container, expected {}", b.length(), n);
    let b = GenericBaseMatrix::<T, _, _, Dynamic, Fixed1>::from_data(VectorContainer::<T>::new(n + 2), ColumnVector::new(n));
    ensure!(b.length() == n, "column vector length {} on a larger container, expected {}", b.length(), n);
    let v = VectorContainer::<T>::new(n);
    ensure!(v.number_of_elements() == n, "vector container with {} elements, expected {}", v.number_of_elements(), n);
    for k in 0..n {
        ensure!(unsafe { v.get_unchecked(k) }.same(T::zero_()), "vector container not zero at {}", k);
    }
    run.eval(6);
}
fn fixed<T: Sc>(run: &mut Run) {
    macro_rules! mats {
        ($(($m:expr, $n:expr, $R:ident, $C:ident, $N:expr)),*) => { $(
            twice!(run, RefLayout::packed(Order::Row, ($m, $n)), "fixed RowMajor",
                GenericBaseMatrixMut::<T, RowMajor, ArrayContainer<T, $N>, $R, $C>::zeros_from_dim());
            twice!(run, RefLayout::packed(Order::Col, ($m, $n)), "fixed ColumnMajor",
                GenericBaseMatrixMut::<T, ColumnMajor, ArrayContainer<T, $N>, $R, $C>::zeros_from_dim());
        )* };
    }
    mats!((2, 2, Fixed2, Fixed2, 4), (1, 2, Fixed1, Fixed2, 2), (3, 3, Fixed3, Fixed3, 9), (1, 3, Fixed1, Fixed3, 3), (2, 3, Fixed2, Fixed3, 6), (3, 2, Fixed3, Fixed2, 6));
    twice!(run, RefLayout::packed(Order::Row, (2, 2)), "Matrix22", Matrix22::<T, RowMajor>::zeros_from_dim());
    twice!(run, RefLayout::packed(Order::Row, (3, 3)), "Matrix33", Matrix33::<T, RowMajor>::zeros_from_dim());
    twice!(run, RefLayout::packed(Order::Row, (3, 2)), "Matrix32", Matrix32::<T, RowMajor>::zeros_from_dim());
    twice!(run, RefLayout::packed(Order::Row, (2, 3)), "Matrix23", Matrix23::<T, RowMajor>::zeros_from_dim());
    twice!(run, RefLayout::packed(Order::Col, (2, 2)), "Matrix22 CM", Matrix22::<T, ColumnMajor>::zeros_from_dim());
    twice!(run, RefLayout::packed(Order::Col, (3, 3)), "Matrix33 CM", Matrix33::<T, ColumnMajor>::zeros_from_dim());
    twice!(run, RefLayout::packed(Order::Col, (3, 2)), "Matrix32 CM", Matrix32::<T, ColumnMajor>::zeros_from_dim());
    twice!(run, RefLayout::packed(Order::Col, (2, 3)), "Matrix23 CM", Matrix23::<T, ColumnMajor>::zeros_from_dim());
    macro_rules! vecs {
        ($(($L:ident, $o:expr, $d:expr, $R:ident, $C:ident, $N:expr)),*) => { $(
            twice!(run, RefLayout::packed($o, $d), "fixed vector", GenericBaseMatrixMut::<T, $L, ArrayContainer<T, $N>, $R, $C>::zeros_from_length());
        )* };
    }
    vecs!((ColumnVector, Order::Col, (2, 1), Fixed2, Fixed1, 2), (ColumnVector, Order::Col, (3, 1), Fixed3, Fixed1, 3),
        (RowVector, Order::Row, (1, 2), Fixed1, Fixed2, 2), (RowVector, Order::Row, (1, 3), Fixed1, Fixed3, 3));
    let a = ArrayContainer::<T, 5>::new();
    let b = ArrayContainer::<T, 5>::default();
    for k in 0..5 {
        ensure!(unsafe { a.get_unchecked(k).same(T::zero_()) && b.get_unchecked(k).same(T::zero_()) }, "array container not zero");
    }
    ensure!(a.number_of_elements() == 5, "array container size");
}

/// Wrapping existing storage: granted exactly if the last element of the layout is inside of it.
fn wrap<T: Sc>(run: &mut Run, lay: Lay, dim: (usize, usize)) {
    let r = lay.reference(dim);
    let need = (r.span() as usize).max(0);
    let over = r.overlapping();
    macro_rules! with_l {
        ($RS:ident, $CS:ident, $e:ident) => {
            match lay {
                Lay::RM => { type $RS = Dynamic; type $CS = Dynamic; $e!(RowMajor, RowMajor::new(dim)) }
                Lay::CM => { type $RS = Dynamic; type $CS = Dynamic; $e!(ColumnMajor, ColumnMajor::new(dim)) }
                Lay::RV => { type $RS = Fixed1; type $CS = Dynamic; $e!(RowVector, RowVector::new(dim.1)) }
                Lay::CV => { type $RS = Dynamic; type $CS = Fixed1; $e!(ColumnVector, ColumnVector::new(dim.0)) }
                Lay::UP => { type $RS = Dynamic; type $CS = Dynamic; $e!(UpperTriangular, UpperTriangular::new(dim.0)) }
                Lay::ASRM(a, b) => { type $RS = Dynamic; type $CS = Dynamic; $e!(ArbitraryStrideRowMajor, ArbitraryStrideRowMajor::new(dim, (a, b))) }
                Lay::ASCM(a, b) => { type $RS = Dynamic; type $CS = Dynamic; $e!(ArbitraryStrideColumnMajor, ArbitraryStrideColumnMajor::new(dim, (a, b))) }
                Lay::ASRV(s) => { type $RS = Fixed1; type $CS = Dynamic; $e!(ArbitraryStrideRowVector, ArbitraryStrideRowVector::new(dim.1, s)) }
                Lay::ASCV(s) => { type $RS = Dynamic; type $CS = Fixed1; $e!(ArbitraryStrideColumnVector, ArbitraryStrideColumnVector::new(dim.0, s)) }
            }
        };
    }
    let lens: Vec<usize> = if need <= 2000 { (0..=need + 3).collect() } else {
        let mut v = vec![0, 1, need & 255, need & 65535, need - 256.min(need), need - 65536.min(need), need / 2, need - 1, need, need + 1, need + 300];
        v.sort();
        v.dedup();
        v
    };
    for len in lens {
        let granted = len >= need;
        if over && granted && len < r.len() {
            continue; // more elements than locations: whether this is a request that can be honoured is not specified
        }
        let buf = GuardBuf::<T>::new(len, |q| T::tag(q));
        let model = Model { lay: r, store: buf.snapshot(), base: 0, window: len };
        run.step(|| format!("container of {} for a span of {}", len, need));
        macro_rules! go {
            ($L:ident, $mk:expr) => {{
                macro_rules! one {
                    ($cont:expr, $what:expr, $chk:expr) => {{
                        let res = refused(|| GenericBaseMatrixMut::<T, $L, _, RS, CS>::from_data($cont, $mk));
                        match res {
                            Ok(mut m) => {
                                ensure!(granted, "{}: {} elements accepted for a layout with span {}", $what, len, need);
                                $chk(&mut m);
                            }
                            Err(()) => ensure!(!granted, "{}: {} elements refused for a layout with span {}", $what, len, need),
                        }
                        run.eval(1);
                    }};
                }
                one!(SliceContainer::new(unsafe { buf.view() }), "slice container",
                    |m: &mut GenericBaseMatrixMut<T, $L, SliceContainer<T>, RS, CS>| { let e = check_view(&*m, &model, "slice container"); run.eval(e); });
                one!(SliceContainerMut::new(unsafe { buf.view() }), "mutable slice container",
                    |m: &mut GenericBaseMatrixMut<T, $L, SliceContainerMut<T>, RS, CS>| { let e = check_obj(&BaseObj(m), &model, "mutable slice container"); run.eval(e); });
                one!(VectorContainer::<T>::new(len), "vector container",
                    |m: &mut GenericBaseMatrixMut<T, $L, VectorContainer<T>, RS, CS>| {
                        let z = Model { store: vec![T::zero_(); len], ..model.clone() };
                        let e = check_obj(&BaseObj(m), &z, "vector container");
                        run.eval(e);
                    });
                let (c, _b, _log) = MonContainer::<T>::fresh(len, |q| T::tag(q));
                let c = std::cell::Cell::new(Some(c));
                one!(c.take().unwrap(), "client container", |m: &mut GenericBaseMatrixMut<T, $L, MonContainer<T>, RS, CS>| {
                    let e = check_obj(&BaseObj(m), &model, "client container");
                    run.eval(e);
                });
                let base = refused(|| BaseMatrix::<T, _, $L, RS, CS>::new(VectorContainer::<T>::new(len), $mk));
                ensure!(base.is_ok() == granted, "BaseMatrix::new with {} elements for a span of {}", len, need);
                if let Ok(b) = base {
                    let m = Matrix::<T, _, $L, RS, CS>::new(b);
                    let z = Model { store: vec![T::zero_(); len], ..model.clone() };
                    let e = check_view(&m, &z, "Matrix::new");
                    run.eval(e);
                }
                if len == 4 {
                    one!(ArrayContainer::<T, 4>::new(), "array container", |m: &mut GenericBaseMatrixMut<T, $L, ArrayContainer<T, 4>, RS, CS>| {
                        let z = Model { store: vec![T::zero_(); 4], ..model.clone() };
                        let e = check_obj(&BaseObj(m), &z, "array container");
                        run.eval(e);
                    });
                }
            }};
        }
        with_l!(RS, CS, go);
        ensure!(buf.guards_ok(), "construction wrote outside of the storage");
        run.state(hash_of(&(lay, dim, len)));
    }
    // raw pointers
    let buf = GuardBuf::<T>::new(need, |q| T::tag(q));
    let model = Model { lay: r, store: buf.snapshot(), base: 0, window: need };
    unsafe {
        let p = buf.ptr();
        macro_rules! ptrs {
            ($L:ident, $($a:expr),*) => {{
                let e = check_view(&SliceMatrix::<T, $L, Dynamic, Dynamic>::from_pointer(p, dim $(, $a)*), &model, "from_pointer");
                let f = check_obj(&BaseObj(&mut SliceMatrixMut::<T, $L, Dynamic, Dynamic>::from_pointer(p, dim $(, $a)*)), &model, "mutable from_pointer");
                run.eval(e + f);
            }};
        }
        match lay {
            Lay::RM => ptrs!(RowMajor,),
            Lay::CM => ptrs!(ColumnMajor,),
            Lay::ASRM(a, b) if !over => ptrs!(ArbitraryStrideRowMajor, (a, b)),
            Lay::ASCM(a, b) if !over => ptrs!(ArbitraryStrideColumnMajor, (a, b)),
            _ => {}
        }
    }
    run.outcome(need as u64);
}

/// Dimensions whose number of elements, or strides whose last location, is not representable.
fn huge<T: Sc>(run: &mut Run, a: usize, b: usize) {
    let dim = (a, b);
    let prod = a as u128 * b as u128;
    run.step(|| format!("{:?}", dim));
    let cont = |n: usize| MonContainer::<T>::fresh(n, |q| T::tag(q)).0;
    let wrapped = (prod & u64::MAX as u128) as usize;
    let small = if wrapped <= 64 { wrapped } else { 9 };
    if prod > u64::MAX as u128 {
        must_refuse("MatrixD RowMajor", || MatrixD::<T, RowMajor>::zeros_from_dim(a, b));
        must_refuse("MatrixD ColumnMajor", || MatrixD::<T, ColumnMajor>::zeros_from_dim(a, b));
        must_refuse("mat!", || mat![T, dim]);
        for n in [0, 1, small, small + 3] {
            must_refuse("from_data RowMajor", || GenericBaseMatrix::<T, _, _, Dynamic, Dynamic>::from_data(cont(n), RowMajor::new(dim)));
            must_refuse("from_data ColumnMajor", || GenericBaseMatrix::<T, _, _, Dynamic, Dynamic>::from_data(cont(n), ColumnMajor::new(dim)));
            for s in [(0, 0), (1, 1), (b, 1), (1, a), (1, 0), (0, 1)] {
                must_refuse("from_data strided row major", || GenericBaseMatrix::<T, _, _, Dynamic, Dynamic>::from_data(cont(n), ArbitraryStrideRowMajor::new(dim, s)));
                must_refuse("from_data strided column major", || GenericBaseMatrix::<T, _, _, Dynamic, Dynamic>::from_data(cont(n), ArbitraryStrideColumnMajor::new(dim, s)));
            }
        }
        let buf = GuardBuf::<T>::new(small + 4, |q| T::tag(q));
        unsafe {
            must_refuse("mutable from_pointer RowMajor", || SliceMatrixMut::<T, RowMajor, Dynamic, Dynamic>::from_pointer(buf.ptr(), dim).dim());
            must_refuse("mutable from_pointer ColumnMajor", || SliceMatrixMut::<T, ColumnMajor, Dynamic, Dynamic>::from_pointer(buf.ptr(), dim).dim());
        }
        run.eval(40);
        run.state(hash_of(&dim));
        run.outcome(1);
    } else if prod * (std::mem::size_of::<T>() as u128) > isize::MAX as u128 {
        // the number of elements is representable, their storage is not
        must_refuse("MatrixD RowMajor", || MatrixD::<T, RowMajor>::zeros_from_dim(a, b));
        must_refuse("MatrixD ColumnMajor", || MatrixD::<T, ColumnMajor>::zeros_from_dim(a, b));
        must_refuse("VectorContainer", || VectorContainer::<T>::new(prod as usize));
        must_refuse("RowVectorD", || RowVectorD::<T>::zeros_from_length(prod as usize));
        must_refuse("ColumnVectorD", || ColumnVectorD::<T>::zeros_from_length(prod as usize));
        must_refuse("RowVectorD by dimension", || RowVectorD::<T>::zeros_from_dim(1, prod as usize));
        must_refuse("ColumnVectorD by dimension", || ColumnVectorD::<T>::zeros_from_dim(prod as usize, 1));
        must_refuse("from_data RowMajor", || GenericBaseMatrix::<T, _, _, Dynamic, Dynamic>::from_data(cont(9), RowMajor::new(dim)));
        must_refuse("from_data ColumnMajor", || GenericBaseMatrix::<T, _, _, Dynamic, Dynamic>::from_data(cont(9), ColumnMajor::new(dim)));
        must_refuse("from_data RowVector", || GenericBaseMatrix::<T, _, _, Fixed1, Dynamic>::from_data(cont(9), RowVector::new(prod as usize)));
        must_refuse("from_data ColumnVector", || GenericBaseMatrix::<T, _, _, Dynamic, Fixed1>::from_data(cont(9), ColumnVector::new(prod as usize)));
        run.eval(11);
        run.state(hash_of(&dim));
        run.outcome(2);
    } else if prod > 64 {
        for n in [0, 1, 9] {
            must_refuse("from_data RowMajor", || GenericBaseMatrix::<T, _, _, Dynamic, Dynamic>::from_data(cont(n), RowMajor::new(dim)));
            must_refuse("from_data ColumnMajor", || GenericBaseMatrix::<T, _, _, Dynamic, Dynamic>::from_data(cont(n), ColumnMajor::new(dim)));
        }
        run.eval(6);
        run.state(hash_of(&dim));
        run.outcome(3);
    } else if prod == 0 {
        // empty, however large the other dimension
        let m = MatrixD::<T, RowMajor>::zeros_from_dim(a, b);
        ensure!(m.dim() == dim && m.layout().number_of_elements() == 0, "empty matrix {:?}", m.dim());
        let m = MatrixD::<T, ColumnMajor>::zeros_from_dim(a, b);
        ensure!(m.dim() == dim && m.layout().number_of_elements() == 0, "empty matrix {:?}", m.dim());
        run.eval(4);
        run.state(hash_of(&dim));
        run.outcome(4);
    }
    if a == b && a > 64 {
        let n = a as u128 * (a as u128 + 1) / 2;
        if n > u64::MAX as u128 || n * (std::mem::size_of::<T>() as u128) > isize::MAX as u128 {
            must_refuse("UpperTriangularMatrix", || UpperTriangularMatrix::<T>::zeros_from_dim(a, a));
        }
        for n in [0, 1, 9] {
            must_refuse("from_data UpperTriangular", || GenericBaseMatrix::<T, _, _, Dynamic, Dynamic>::from_data(cont(n), UpperTriangular::new(a)));
        }
        run.eval(4);
    }
}
/// Strides that put the last element outside of every storage, possibly by wrapping around.
fn huge_strides<T: Sc>(run: &mut Run, dim: (usize, usize), s: (usize, usize)) {
    let lay = RefLayout::strided(Order::Row, dim, s);
    if lay.span() <= 64 {
        return;
    }
    let cont = |n: usize| MonContainer::<T>::fresh(n, |q| T::tag(q)).0;
    let mut lens = vec![0, 1, 9, lay.len(), lay.len() + 9, 64];
    lens.sort();
    for n in lens {
        must_refuse("strided row major", || GenericBaseMatrix::<T, _, _, Dynamic, Dynamic>::from_data(cont(n), ArbitraryStrideRowMajor::new(dim, s)));
        must_refuse("strided column major", || GenericBaseMatrix::<T, _, _, Dynamic, Dynamic>::from_data(cont(n), ArbitraryStrideColumnMajor::new(dim, s)));
        if dim.0 == 1 {
            must_refuse("strided row vector", || GenericBaseMatrix::<T, _, _, Fixed1, Dynamic>::from_data(cont(n), ArbitraryStrideRowVector::new(dim.1, s.1)));
        }
        if dim.1 == 1 {
            must_refuse("strided column vector", || GenericBaseMatrix::<T, _, _, Dynamic, Fixed1>::from_data(cont(n), ArbitraryStrideColumnVector::new(dim.0, s.0)));
        }
    }
    run.eval(12);
    run.state(hash_of(&(dim, s)));
    run.outcome(5);
}

fn explore<T: Sc>(cx: &mut Cx, main: bool) {
    let full = cx.thorough();
    let k = if full { 24 } else if main { 12 } else { 6 };
    for m in 0..=k {
        for n in 0..=k {
            cx.case("zero matrices", || format!("{} {}x{}", T::NAME, m, n), |r| zeros::<T>(r, (m, n)));
        }
    }
    for d in [(1, 300), (300, 1), (64, 65), (65, 64), (100, 100), (1, 0), (0, 1)] {
        cx.case("zero matrices", || format!("{} {:?}", T::NAME, d), |r| zeros::<T>(r, d));
    }
    for n in (0..=if full { 1200 } else { 130 }).chain([255, 256, 257, 1023, 1024, 1025, 4096]) {
        cx.case("zero vectors", || format!("{} {}", T::NAME, n), |r| vectors::<T>(r, n));
    }
    cx.case("fixed size", || T::NAME.to_string(), |r| fixed::<T>(r));
    let w = if full { 5 } else { 4 };
    let strides: Vec<(usize, usize)> = (0..=6).flat_map(|r| (0..=6).map(move |c| (r, c))).chain([(17, 1), (1, 19), (9, 30)]).collect();
    for m in 0..=w {
        for n in 0..=w {
            for lay in lays_for((m, n), &strides, &[0, 1, 2, 3, 9]) {
                if !main && !full && matches!(lay, Lay::ASRM(a, b) | Lay::ASCM(a, b) if a > 3 || b > 3) {
                    continue;
                }
                cx.case("wrapped storage", || format!("{} {:?} {}x{}", T::NAME, lay, m, n), |r| wrap::<T>(r, lay, (m, n)));
            }
        }
    }
    for d in [(7, 5), (1, 40), (40, 1), (9, 9)] {
        for lay in lays_for(d, &[(d.1, 1), (1, d.0), (d.1 + 3, 1), (2, 31)], &[1, 4]) {
            cx.case("wrapped storage", || format!("{} {:?} {:?}", T::NAME, lay, d), |r| wrap::<T>(r, lay, d));
        }
    }
    for d in huge_dims(full) {
        if !main && !full {
            continue;
        }
        cx.case("zero matrices", || format!("{} {:?}", T::NAME, d), |r| zeros::<T>(r, d));
        for lay in lays_for(d, &[(d.1 + 3, 1), (2, 2 * d.0 + 1)], &[1, 3]) {
            cx.case("wrapped storage", || format!("{} {:?} {:?}", T::NAME, lay, d), |r| wrap::<T>(r, lay, d));
        }
    }
    for n in [65_535, 65_536, 65_537, 70_000, 131_073] {
        cx.case("zero vectors", || format!("{} {}", T::NAME, n), |r| vectors::<T>(r, n));
    }
    for d in [(361, 361), (400, 400)] {
        cx.case("zero matrices", || format!("{} {:?}", T::NAME, d), |r| zeros::<T>(r, d));
        cx.case("wrapped storage", || format!("{} triangle {:?}", T::NAME, d), |r| wrap::<T>(r, Lay::UP, d));
    }
    let mut big = big_values();
    big.extend([0, 10, 1 << 61, 1 << 63, (1 << 63) + 1, usize::MAX, usize::MAX - 1, 0xAAAAAAAAAAAAAAAB, 0xCCCCCCCCCCCCCCCD, 0x5555555555555556, (1 << 62) + 1, 6148914691236517206]);
    for &a in &big {
        for &b in &big {
            cx.case("unrepresentable dimensions", || format!("{} {:?}", T::NAME, (a, b)), |r| huge::<T>(r, a, b));
        }
    }
    let mut bs = vec![0, 1, 2, 3, 7, 1 << 31, 1 << 32, (1 << 62) + 1, 1 << 62, 1 << 63, (1 << 63) + 1, usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 3, 0xAAAAAAAAAAAAAAAB, 0x5555555555555556];
    if full {
        bs.extend(big);
    }
    for m in 1..=3usize {
        for n in 1..=4usize {
            for &a in &bs {
                for &b in &bs {
                    cx.case("unrepresentable strides", || format!("{} {:?} {:?}", T::NAME, (m, n), (a, b)), |r| huge_strides::<T>(r, (m, n), (a, b)));
                }
            }
        }
    }
}
/// The random macros: requested shapes.
macro_rules! random_macros {
    ($cx:expr, $T:ty) => {
        for m in 0..=4usize {
            for n in 0..=4usize {
                $cx.case("random macros", || format!("{}x{}", m, n), |r| {
                    let dim = (m, n);
                    let a = rand_mat![$T, dim];
                    let b = rand_mat![$T, dim, RowMajor];
                    let c = rand_mat![$T, dim, ColumnMajor];
                    let d = rand_vector![$T, n];
                    let e = rand_vector![$T, n, ColumnVector];
                    let f = rand_vector![$T, n, RowVector];
                    ensure!(a.dim() == dim && b.dim() == dim && c.dim() == dim, "rand_mat! dimension");
                    ensure!(d.dim() == (n, 1) && e.dim() == (n, 1) && f.dim() == (1, n), "rand_vector! dimension");
                    ensure!(d.length() == n && e.length() == n && f.length() == n, "rand_vector! length");
                    if n > 1 {
                        ensure!(b.layout().convert_2d_raw(0, 1) == 1 && a.layout().convert_2d_raw(0, 1) == 1, "rand_mat! row major");
                    }
                    if m > 1 {
                        ensure!(c.layout().convert_2d_raw(1, 0) == 1, "rand_mat! column major");
                    }
                    r.eval(12);
                });
            }
        }
    };
}
/// The argument of a macro is any expression: it is evaluated once, also if every evaluation gives another answer.
fn computed_requests(run: &mut Run, forms: &[usize]) {
    use std::cell::Cell;
    let dims = [(2, 3), (4, 1), (1, 5), (3, 3), (0, 2)];
    let asked = Cell::new(0usize);
    let next = || {
        asked.set(asked.get() + 1);
        dims[(asked.get() - 1) % 5]
    };
    for (k, &f) in forms.iter().enumerate() {
        asked.set(k);
        let want = dims[k % 5];
        run.step(|| format!("form {} for {:?}", f, want));
        let got = match f {
            0 => mat![f64, next()].dim(),
            1 => mat![c32, next(), RowMajor].dim(),
            2 => mat![f64, next(), ColumnMajor].dim(),
            3 => rand_mat![f32, next()].dim(),
            4 => rand_mat![f64, next(), RowMajor].dim(),
            5 => rand_mat![c64, next(), ColumnMajor].dim(),
            6 => vector![f64, next().0].dim(),
            7 => vector![f64, next().0, ColumnVector].dim(),
            8 => vector![f64, next().1, RowVector].dim(),
            9 => rand_vector![f64, next().0].dim(),
            10 => rand_vector![f64, next().0, ColumnVector].dim(),
            _ => rand_vector![f64, next().1, RowVector].dim(),
        };
        let want = match f {
            0..=5 => want,
            6 | 7 | 9 | 10 => (want.0, 1),
            _ => (1, want.1),
        };
        ensure!(asked.get() == k + 1, "the macro of form {} evaluates its argument {} times", f, asked.get() - k);
        ensure!(got == want, "the macro of form {} yields {:?} for the request {:?}", f, got, want);
        run.eval(2);
        run.transition();
    }
    run.state(hash_of(&forms));
    run.trace();
}
fn main() {
    let mut cx = Cx::from_args();
    for code in 0..12usize.pow(3) {
        let forms = [code % 12, code / 12 % 12, code / 144];
        cx.case("computed requests", || format!("{:?}", forms), |r| computed_requests(r, &forms));
    }
    explore::<f64>(&mut cx, true);
    explore::<f32>(&mut cx, false);
    explore::<c32>(&mut cx, false);
    explore::<c64>(&mut cx, false);
    random_macros!(cx, f64);
    random_macros!(cx, f32);
    random_macros!(cx, c32);
    random_macros!(cx, c64);
    let _ = <f64 as HScalar>::atan2(0.0, 1.0);
    cx.finish();
}
