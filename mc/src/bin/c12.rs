//! C12: operations on incompatible shapes are refused without side effects.
#[macro_use]
#[path = "../gemm.rs"]
mod gemm;
use gemm::*;
use householder::types::{c32, c64};
use householder::*;
use mc::*;

fn product<T: Gemm>(run: &mut Run, shape: Shape, ops: [Op; 3], d: [Dim; 3], al: T, be: T) {
    let gap = T::of(f64::NAN, 3.0);
    let o = [
        shape.a(ops[0], d[0], gap, |i, j| val(1, i, j)),
        shape.b(ops[1], d[1], gap, |i, j| val(2, i, j)),
        shape.c(ops[2], d[2], gap, |i, j| val(3, i, j)),
    ];
    let f = Frame::new([&o[0], &o[1], &o[2]]);
    let fits = d[0].1 == d[1].0 && d[2] == (d[0].0, d[1].1);
    run.step(|| format!("{:?} {:?} {:?}", shape, ops, d));
    let r = refused(|| T::gemm(shape, al, &o[0], &o[1], be, &o[2]));
    ensure!(r.is_ok() == fits, "product of {:?} ({:?}) into {:?} was {}", (d[0], d[1]), (shape, ops), d[2], if fits { format!("refused: {}", last_panic()) } else { "not refused".into() });
    let e = f.check([&o[0], &o[1], &o[2]], fits == false);
    run.eval(1 + e);
    run.transition();
    run.state(hash_of(&d));
    run.outcome(fits as u64);
}
fn products<T: Gemm>(run: &mut Run, shape: Shape, da: Dim, dims: &[usize], salt: usize) {
    let (oa, ob, oc) = shape.ops();
    let one = [1];
    let pick = |fixed: bool| if fixed { &one[..] } else { dims };
    let sc = [(T::of(1.0, 0.0), T::of(0.0, 0.0)), (T::of(0.0, 0.0), T::of(1.0, 0.0)), (T::of(2.0, 1.0), T::of(-1.0, 0.0)), (T::of(0.0, 0.0), T::of(0.0, 0.0))];
    let mut q = salt;
    for &k in dims {
        for &n in pick(shape == Shape::MV) {
            for &r in pick(shape == Shape::VM) {
                for &c in pick(shape == Shape::MV) {
                    let (al, be) = sc[q % 4];
                    product::<T>(run, shape, [oa[q % oa.len()], ob[q / 3 % ob.len()], oc[q / 7 % oc.len()]], [da, (k, n), (r, c)], al, be);
                    q += 1;
                }
            }
        }
    }
    run.trace();
}
/// Operands without elements but with enormous other dimensions.
fn empty_products<T: Gemm>(run: &mut Run, big: &[usize]) {
    for &k1 in big {
        for &k2 in big {
            for &x in big {
                product::<T>(run, Shape::MM, [Op::Row, Op::Col, Op::Row], [(0, k1), (k2, 0), (0, 0)], T::of(1.0, 0.0), T::of(1.0, 0.0));
                product::<T>(run, Shape::MM, [Op::Row, Op::Row, Op::Col], [(0, k1), (k2, 0), (0, x)], T::of(1.0, 0.0), T::of(1.0, 0.0));
                product::<T>(run, Shape::MM, [Op::Col, Op::Row, Op::Col], [(0, k1), (k2, 0), (x, 0)], T::of(1.0, 0.0), T::of(1.0, 0.0));
                product::<T>(run, Shape::MM, [Op::Own, Op::Own, Op::Own], [(x, 0), (0, k1), (0, k2)], T::of(1.0, 0.0), T::of(1.0, 0.0));
                product::<T>(run, Shape::MM, [Op::Own, Op::Own, Op::Own], [(0, 0), (0, k1), (0, k2)], T::of(1.0, 0.0), T::of(1.0, 0.0));
                product::<T>(run, Shape::MM, [Op::Own, Op::Own, Op::Own], [(k1, 0), (0, 0), (k2, 0)], T::of(1.0, 0.0), T::of(1.0, 0.0));
            }
            product::<T>(run, Shape::MV, [Op::Row, Op::Own, Op::Row], [(0, k1), (0, 1), (0, 1)], T::of(1.0, 0.0), T::of(1.0, 0.0));
            product::<T>(run, Shape::VM, [Op::Own, Op::Row, Op::Row], [(1, 0), (k1, 0), (1, 0)], T::of(1.0, 0.0), T::of(1.0, 0.0));
        }
    }
    run.trace();
}

// ---- the allocating product ----
fn dot(run: &mut Run, shape: Shape, ops: [Op; 2], d: [Dim; 2]) {
    let o = [shape.a(ops[0], d[0], 0.5, |i, j| val(1, i, j)), shape.b(ops[1], d[1], 0.5, |i, j| val(2, i, j))];
    let none = Opd::matrix(Op::Row, (0, 0), 0.0, |_, _| 0.0);
    let f = Frame::new([&o[0], &o[1], &none]);
    let fits = d[0].1 == d[1].0;
    run.step(|| format!("dot {:?} {:?} {:?}", shape, ops, d));
    let r = refused(|| dots(shape, &o[0], &o[1], &mut |_| ()));
    ensure!(r.is_ok() == fits, "dot of {:?} ({:?} {:?}) was {}", d, shape, ops, if fits { format!("refused: {}", last_panic()) } else { "not refused".into() });
    let e = f.check([&o[0], &o[1], &none], true);
    run.eval(1 + e);
    run.transition();
    run.state(hash_of(&(d, ops)));
}

// ---- sums ----
struct Leaf<'a, T: Sc> {
    o: &'a Opd<T>,
}
/// `a + b` for every way to hold operands with the same numbering order; `f` gets the sum.
macro_rules! sums {
    ($name:ident, $T:ty, $a:expr, $b:expr, $form:expr, $f:expr) => {{
        let (p, q): (&_, &_) = ($a, $b);
        let s = <$T>::of(2.0, 0.0);
        match $form {
            0 => $f(&(p + q)),
            1 => $f(&(&(p * s) + q)),
            2 => $f(&(p + (s * q))),
            3 => $f(&((p * s) + (q * s))),
            4 => $f(&((p + p) + q)),
            5 => $f(&(p + (q + q))),
            _ => $f(&(&Matrix::from_ref(p) + &Matrix::from_ref(q))),
        }
    }};
}
macro_rules! adds {
    ($T:ty, $m:ident) => {
        mod $m {
            use super::*;
            type M<L, D> = GenericBaseMatrix<$T, L, D, Dynamic, Dynamic>;
            fn go<LA: LayoutType, DA: DataContainer<Item = $T>, LB: LayoutType, DB: DataContainer<Item = $T>, R: SizeIdentifier, C: SizeIdentifier, BL: BaseLayoutType + LayoutType<IndexLayout = BL>>(
                run: &mut Run, a: &GenericBaseMatrix<$T, LA, DA, R, C>, b: &GenericBaseMatrix<$T, LB, DB, R, C>, what: &dyn Fn() -> String,
            ) where
                LA: LayoutType<IndexLayout = BL>,
                LB: LayoutType<IndexLayout = BL>,
            {
                let (da, db) = (a.layout().dim(), b.layout().dim());
                for form in 0..7 {
                    run.step(|| format!("{} form {} {:?} {:?}", what(), form, da, db));
                    let f = |e: &dyn View<$T>| e.v_dim();
                    let r = refused(|| sums!(sum, $T, a, b, form, f));
                    ensure!(r.is_ok() == (da == db), "{} form {}: adding {:?} and {:?} was {}", what(), form, da, db, if da == db { format!("refused: {}", last_panic()) } else { "not refused".into() });
                    if let Ok(d) = r {
                        ensure!(d == da, "{} form {}: dimension {:?}", what(), form, d);
                    }
                    run.eval(2);
                    run.transition();
                }
                run.state(hash_of(&(da, db, what())));
            }
            pub fn matrices(run: &mut Run, da: Dim, db: Dim) {
                let rows = [Op::Row, Op::StrRow, Op::RowTall, Op::Own, Op::Block];
                let cols = [Op::Col, Op::StrCol, Op::ColWide, Op::Block2];
                for (order, ops) in [&rows[..], &cols[..]].into_iter().enumerate() {
                    for &x in ops {
                        for &y in ops {
                            let o = [Opd::<$T>::matrix(x, da, 0.25 as _, |i, j| val(1, i, j)), Opd::<$T>::matrix(y, db, 0.25 as _, |i, j| val(2, i, j))];
                            let none = Opd::matrix(Op::Row, (0, 0), 0.0 as _, |_, _| 0.0 as _);
                            let f = Frame::new([&o[0], &o[1], &none]);
                            let w = || format!("{} matrices {:?} {:?}", <$T>::NAME, x, y);
                            if order == 0 {
                                with_rows!($T, &o[0], p, with_rows!($T, &o[1], q, go(run, p, q, &w)))
                            } else {
                                with_cols!($T, &o[0], p, with_cols!($T, &o[1], q, go(run, p, q, &w)))
                            }
                            run.eval(f.check([&o[0], &o[1], &none], true));
                        }
                    }
                }
                if da.0 == da.1 && db.0 == db.1 {
                    let (a, b) = (UpperTriangularMatrix::<$T>::zeros_from_dim(da.0, da.1), UpperTriangularMatrix::<$T>::zeros_from_dim(db.0, db.1));
                    go(run, &a, &b, &|| "triangular".into());
                }
                run.trace();
            }
            pub fn vectors(run: &mut Run, n: usize, m: usize) {
                let (a, b) = (RowVectorD::<$T>::zeros_from_length(n), RowVectorD::<$T>::zeros_from_length(m));
                go(run, &a, &b, &|| "row vectors".into());
                let data = vec![0.0 as $T; 3 * n.max(m) + 1];
                let st = GenericBaseMatrix::<$T, ArbitraryStrideRowVector, _, Fixed1, Dynamic>::from_data(SliceContainer::new(&data), ArbitraryStrideRowVector::new(m, 3));
                go(run, &a, &st, &|| "row vector and strided".into());
                go(run, &st, &a, &|| "strided and row vector".into());
                let (a, b) = (ColumnVectorD::<$T>::zeros_from_length(n), ColumnVectorD::<$T>::zeros_from_length(m));
                go(run, &a, &b, &|| "column vectors".into());
                let st = GenericBaseMatrix::<$T, ArbitraryStrideColumnVector, _, Dynamic, Fixed1>::from_data(SliceContainer::new(&data), ArbitraryStrideColumnVector::new(m, 3));
                go(run, &a, &st, &|| "column vector and strided".into());
                go(run, &st, &a, &|| "strided and column vector".into());
                run.trace();
            }
            /// Without elements, but with enormous other dimensions.
            pub fn empty(run: &mut Run, da: Dim, db: Dim) {
                let (a, b) = (MatrixD::<$T, RowMajor>::zeros_from_dim(da.0, da.1), MatrixD::<$T, RowMajor>::zeros_from_dim(db.0, db.1));
                go(run, &a, &b, &|| "empty row-major".into());
                let (a, b) = (MatrixD::<$T, ColumnMajor>::zeros_from_dim(da.0, da.1), MatrixD::<$T, ColumnMajor>::zeros_from_dim(db.0, db.1));
                go(run, &a, &b, &|| "empty column-major".into());
                run.trace();
            }
        }
    };
}
macro_rules! with_rows {
    ($T:ty, $o:expr, $x:ident, $go:expr) => {{
        let o: &Opd<$T> = $o;
        match o.op {
            Op::Row => { let $x = &M::<RowMajor, _>::from_data(SliceContainer::new(&*o.view()), RowMajor::new(o.dim)); $go }
            Op::Own => { let $x = &MatrixD::<$T, RowMajor>::zeros_from_dim(o.dim.0, o.dim.1); $go }
            Op::Block => {
                let p = M::<RowMajor, _>::from_data(SliceContainer::new(&*o.view()), RowMajor::new(o.pdim));
                let $x = &p.block((1, 2), o.dim);
                $go
            }
            _ => { let $x = &M::<ArbitraryStrideRowMajor, _>::from_data(SliceContainer::new(&*o.view()), ArbitraryStrideRowMajor::new(o.dim, o.stride)); $go }
        }
    }};
}
macro_rules! with_cols {
    ($T:ty, $o:expr, $x:ident, $go:expr) => {{
        let o: &Opd<$T> = $o;
        match o.op {
            Op::Col => { let $x = &M::<ColumnMajor, _>::from_data(SliceContainer::new(&*o.view()), ColumnMajor::new(o.dim)); $go }
            Op::Block2 => {
                let p = M::<ColumnMajor, _>::from_data(SliceContainer::new(&*o.view()), ColumnMajor::new(o.pdim));
                let $x = &p.block((2, 1), o.dim);
                $go
            }
            _ => { let $x = &M::<ArbitraryStrideColumnMajor, _>::from_data(SliceContainer::new(&*o.view()), ArbitraryStrideColumnMajor::new(o.dim, o.stride)); $go }
        }
    }};
}
adds!(f64, add64);
adds!(f32, add32);

fn explore<T: Gemm>(cx: &mut Cx) {
    let dims: Vec<usize> = (0..=cx.pick(4, 7)).collect();
    for shape in [Shape::MM, Shape::MV, Shape::VM] {
        for (q, &m) in dims.iter().enumerate() {
            for &k in &dims {
                let rows = if shape == Shape::VM { 1 } else { m };
                if shape == Shape::VM && q > 0 {
                    continue;
                }
                for salt in 0..cx.pick(9, 9) {
                    cx.case("products", || format!("{} {:?} first factor {:?} mix {}", T::NAME, shape, (rows, k), salt), |run| products::<T>(run, shape, (rows, k), &dims, salt * 311 + k));
                }
            }
        }
    }
    // equal element counts, permuted dimensions
    let coincidences: &[usize] = if cx.thorough() { &[1, 2, 3, 4, 6, 8, 12, 24] } else { &[1, 2, 6, 12] };
    for &m in coincidences {
        for &k in coincidences {
            cx.case("products with equal element counts", || format!("{} first factor {:?}", T::NAME, (m, k)), |run| products::<T>(run, Shape::MM, (m, k), coincidences, m + k));
        }
    }
    let big = [0, 1, 1 << 16, 1 << 32, (1 << 32) + 1, 1 << 62];
    cx.case("empty factors of enormous dimension", || T::NAME.to_string(), |run| empty_products::<T>(run, &big));
}
/// Dimensions whose low bits agree.
const NEAR: [(usize, usize); 10] = [(1, 257), (2, 258), (256, 512), (1, 65537), (3, 65539), (65536, 131072), (255, 511), (0, 256), (0, 65536), (300, 300)];
fn far<T: Gemm>(cx: &mut Cx) {
    for (a, b) in NEAR {
        for (a, b) in [(a, b), (b, a)] {
            for shape in [Shape::MM, Shape::MV, Shape::VM] {
                let (oa, ob, oc) = shape.ops();
                cx.case("products with dimensions congruent modulo powers of two", || format!("{} {:?} {} {}", T::NAME, shape, a, b), |run| {
                    for (q, d) in [[(1, a), (b, 1), (1, 1)], [(2, a), (b, 1), (2, 1)], [(1, a), (b, 2), (1, 2)], [(a, 1), (1, 1), (b, 1)], [(a, 2), (2, 1), (b, 1)], [(1, 1), (1, a), (1, b)], [(1, 2), (2, a), (1, b)],
                        [(2, 1), (1, a), (2, b)], [(a, 1), (1, 2), (b, 2)], [(a, 1), (1, 1), (1, b)], [(1, a), (a, 1), (1, b)], [(1, a), (a, 1), (b, 1)]].into_iter().enumerate() {
                        let vector = |d: Dim, col: bool| if col { d.1 == 1 } else { d.0 == 1 };
                        match shape {
                            Shape::MV if !vector(d[1], true) || !vector(d[2], true) => continue,
                            Shape::VM if !vector(d[0], false) || !vector(d[2], false) => continue,
                            _ => {}
                        }
                        for z in 0..3 {
                            let x = 5 * q + 7 * z;
                            let (al, be) = [(T::of(1.0, 0.0), T::of(0.0, 0.0)), (T::of(0.0, 0.0), T::of(1.0, 0.0)), (T::of(2.0, 1.0), T::of(-1.0, 0.0))][z];
                            product::<T>(run, shape, [oa[x % oa.len()], ob[x / 2 % ob.len()], oc[x / 3 % oc.len()]], d, al, be);
                        }
                    }
                    run.trace();
                });
            }
        }
    }
}
fn main() {
    let mut cx = Cx::from_args();
    far::<f64>(&mut cx);
    far::<c64>(&mut cx);
    far::<f32>(&mut cx);
    far::<c32>(&mut cx);
    for (a, b) in NEAR {
        for (a, b) in [(a, b), (b, a)] {
            cx.case("sums with dimensions congruent modulo powers of two", || format!("{} {}", a, b), |run| {
                add64::vectors(run, a, b);
                add32::vectors(run, a, b);
                for (da, db) in [((1, a), (1, b)), ((a, 1), (b, 1)), ((2, a), (2, b)), ((a, 1), (1, b)), ((a, b), (b, a))] {
                    if da.0 * da.1 < 200000 {
                        add64::matrices(run, da, db);
                    }
                }
            });
            for shape in [Shape::MM, Shape::MV, Shape::VM] {
                cx.case("allocating products with dimensions congruent modulo powers of two", || format!("{:?} {} {}", shape, a, b), |run| {
                    let (oa, ob, _) = shape.ops();
                    for q in 0..9 {
                        for m in [1, 2] {
                            let m = if shape == Shape::VM { 1 } else { m };
                            dot(run, shape, [oa[q % oa.len()], ob[(q + m) % ob.len()]], [(m, a), (b, 1)]);
                        }
                    }
                    run.trace();
                });
            }
        }
    }
    explore::<f64>(&mut cx);
    explore::<c64>(&mut cx);
    explore::<f32>(&mut cx);
    explore::<c32>(&mut cx);
    let dims: Vec<usize> = (0..=cx.pick(5, 9)).collect();
    for shape in [Shape::MM, Shape::MV, Shape::VM] {
        for &m in &dims {
            for &k in &dims {
                if shape == Shape::VM && m != 1 {
                    continue;
                }
                cx.case("allocating products", || format!("{:?} first factor {:?}", shape, (m, k)), |run| {
                    let (oa, ob, _) = shape.ops();
                    for &k2 in &dims {
                        for &n in &dims {
                            if shape == Shape::MV && n != 1 {
                                continue;
                            }
                            for &x in &oa {
                                for &y in &ob {
                                    dot(run, shape, [x, y], [(m, k), (k2, n)]);
                                }
                            }
                        }
                    }
                    run.trace();
                });
            }
        }
    }
    let top = cx.pick(4, 7);
    for m in 0..=top {
        for n in 0..=top {
            for p in 0..=top {
                for q in 0..=top {
                    cx.case("sums of matrices", || format!("{:?} {:?}", (m, n), (p, q)), |run| {
                        add64::matrices(run, (m, n), (p, q));
                    });
                    cx.case("sums of matrices, single precision", || format!("{:?} {:?}", (m, n), (p, q)), |run| {
                        add32::matrices(run, (m, n), (p, q));
                    });
                }
            }
            cx.case("sums of vectors", || format!("{} {}", m, n), |run| {
                add64::vectors(run, m, n);
                add32::vectors(run, m, n);
            });
        }
    }
    for (a, b) in [(64, 63), (63, 64), (100, 101), (12, 12)] {
        cx.case("sums of vectors", || format!("{} {}", a, b), |run| add64::vectors(run, a, b));
    }
    let big = [0usize, 1, 255, 256, 1 << 16, 1 << 32, (1 << 32) + 1, 1 << 63, usize::MAX];
    for &a in &big {
        for &b in &big {
            cx.case("sums of empty matrices", || format!("{} {}", a, b), |run| {
                for (da, db) in [((0, a), (0, b)), ((a, 0), (b, 0)), ((0, a), (b, 0))] {
                    add64::empty(run, da, db)
                }
            });
        }
    }
    cx.finish();
}
