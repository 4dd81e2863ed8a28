// C09 for one scalar type `T`; included once per type.
struct In<'a> {
    lay: RefLayout,
    fa: Elem<'a, T>,
    fb: Elem<'a, T>,
    fc: Elem<'a, T>,
    st: &'a [(T, T)],
}
macro_rules! forms {
    ($name:ident, $form:tt, ($R:ident, $C:ident), $gen:tt, $ev:tt, $pa:ident $ra:ident, $pb:ident $rb:ident, $pc:ident $rc:ident) => {
        forms!{@ $name, $form, ($R, $C), $gen, $ev, $pa $ra, $pb $rb, $pc $rc}
    };
    (@ $name:ident, $form:tt, ($R:ident, $C:ident), ($($G:ident),*), $ev:tt, $pa:ident $ra:ident, $pb:ident $rb:ident, $pc:ident $rc:ident) => {
        fn $name<IA, LA, IB, LB, IC, LC, BL, $($G: SizeIdentifier),*>(
            run: &mut Run, inp: &In,
            $pa: impl Fn() -> Matrix<T, IA, LA, $R, $C>,
            $pb: impl Fn() -> Matrix<T, IB, LB, $R, $C>,
            $pc: impl Fn() -> Matrix<T, IC, LC, $R, $C>,
        ) where
            BL: BaseLayoutType + LayoutType<IndexLayout = BL>,
            LA: LayoutType<IndexLayout = BL>, LB: LayoutType<IndexLayout = BL>, LC: LayoutType<IndexLayout = BL>,
            IA: MatrixTrait<T, LA, $R, $C>, IB: MatrixTrait<T, LB, $R, $C>, IC: MatrixTrait<T, LC, $R, $C>,
        {
            let (ma, mb, mcc) = ($pa(), $pb(), $pc());
            #[allow(unused)]
            let ($ra, $rb, $rc) = (&ma, &mb, &mcc);
            let n = inp.lay.len();
            let pos = inp.lay.positions();
            let (va, vb, vc): (Vec<T>, Vec<T>, Vec<T>) = (
                pos.iter().map(|p| (inp.fa)(p.0, p.1)).collect(), pos.iter().map(|p| (inp.fb)(p.0, p.1)).collect(),
                pos.iter().map(|p| (inp.fc)(p.0, p.1)).collect());
            #[allow(unused)]
            for &(s, t) in inp.st {
                macro_rules! visit {
                    ($what:expr, $occ:expr, $e:expr, $m:expr) => {{
                        run.step(|| format!("{} with s = {:?}, t = {:?}", $what, s, t));
                        let f = arith::<T, _>($m);
                        let want: Vec<T> = (0..n).map(|k| f(va[k], vb[k], vc[k])).collect();
                        match $e { e => {
                        check(run, &e, inp.lay, &want, $what);
                        run.state(hash_of(&($what, s.bits(), t.bits(), inp.lay)));
                        forms!(eval $ev, {
                            let r = e.eval();
                            check(run, &r, inp.lay, &want, concat!("eval of ", $what));
                            check(run, &e, inp.lay, &want, concat!($what, " after eval"));
                        });
                        }}
                        run.trace();
                    }};
                }
                forms!(call $form, visit, $pa $ra, $pb $rb, $pc $rc, s, t, x, y, z);
            }
        }
    };
    (eval yes, $b:block) => { $b };
    (eval no, $b:block) => {};
    (call one, $v:ident, $pa:ident $ra:ident, $pb:ident $rb:ident, $pc:ident $rc:ident, $s:ident, $t:ident, $x:ident, $y:ident, $z:ident) => {
        tree_forms!(one, $v, $pa, $ra, $s, $t, $x, $y, $z)
    };
    (call two, $v:ident, $pa:ident $ra:ident, $pb:ident $rb:ident, $pc:ident $rc:ident, $s:ident, $t:ident, $x:ident, $y:ident, $z:ident) => {
        tree_forms!(two, $v, $pa, $pb, $ra, $rb, $s, $t, $x, $y, $z)
    };
    (call three, $v:ident, $pa:ident $ra:ident, $pb:ident $rb:ident, $pc:ident $rc:ident, $s:ident, $t:ident, $x:ident, $y:ident, $z:ident) => {
        tree_forms!(three, $v, $pa, $pb, $pc, $ra, $rb, $rc, $s, $t, $x, $y, $z)
    };
}
forms!(one_dyn, one, (Dynamic, Dynamic), (), yes, pa ra, pb rb, pc rc);
forms!(two_dyn, two, (Dynamic, Dynamic), (), yes, pa ra, pb rb, pc rc);
forms!(three_dyn, three, (Dynamic, Dynamic), (), yes, pa ra, pb rb, pc rc);
forms!(one_any, one, (RS, CS), (RS, CS), no, pa ra, pb rb, pc rc);
forms!(two_any, two, (RS, CS), (RS, CS), no, pa ra, pb rb, pc rc);
forms!(three_any, three, (RS, CS), (RS, CS), no, pa ra, pb rb, pc rc);

fn rm(d: (usize, usize), f: Elem<T>) -> MatrixD<T, RowMajor> {
    fill(MatrixD::<T, RowMajor>::zeros_from_dim(d.0, d.1), RefLayout::packed(Order::Row, d), f)
}
fn cm(d: (usize, usize), f: Elem<T>) -> MatrixD<T, ColumnMajor> {
    fill(MatrixD::<T, ColumnMajor>::zeros_from_dim(d.0, d.1), RefLayout::packed(Order::Col, d), f)
}
/// All forms with row-major operands of the four storage classes, in all roles.
fn rows(run: &mut Run, inp: &In, part: usize) {
    let d = inp.lay.dim;
    let (f, g, h) = (inp.fa, inp.fb, inp.fc);
    // with and without a gap between the rows
    let s = (2 * d.1 + (d.0 + d.1) % 2, 2);
    let sl = RefLayout::strided(Order::Row, d, s);
    let shifted = |f| move |i: usize, j: usize| if i >= 1 && j >= 2 && i < d.0 + 1 && j < d.1 + 2 { call(f, i - 1, j - 2) } else { T::of(-9.5, 3.5) };
    fn call(f: Elem<T>, i: usize, j: usize) -> T {
        f(i, j)
    }
    let big = (d.0 + 2, d.1 + 3);
    let (ba, bb, bc) = (buf(sl, f), buf(sl, g), buf(sl, h));
    let (pa, pb, pc) = (rm(big, &shifted(f)), rm(big, &shifted(g)), rm(big, &shifted(h)));
    let (qa, qb) = (buf(RefLayout::packed(Order::Row, d), f), buf(RefLayout::packed(Order::Row, d), g));
    macro_rules! st { ($b:ident) => { || GenericBaseMatrix::<T, _, _, Dynamic, Dynamic>::from_data(SliceContainer::new(&$b), ArbitraryStrideRowMajor::new(d, s)) }; }
    macro_rules! sl { ($b:ident) => { || GenericBaseMatrix::<T, _, _, Dynamic, Dynamic>::from_data(SliceContainer::new(&$b), RowMajor::new(d)) }; }
    macro_rules! mn { ($f:ident) => { || { let (c, b, _) = MonContainer::<T>::fresh(sl.span() as usize, |_| T::of(5e20, 1.0)); for k in 0..sl.len() { let p = sl.pos(k); b.set(sl.raw1(k), $f(p.0, p.1)); } GenericBaseMatrix::<T, _, _, Dynamic, Dynamic>::from_data(c, ArbitraryStrideRowMajor::new(d, s)) } }; }
    macro_rules! bl { ($p:ident) => { || $p.block((1, 2), d) }; }
    macro_rules! ow { ($f:ident) => { || rm(d, $f) }; }
    match part {
        0 => {
            one_dyn(run, inp, ow!(f), ow!(g), ow!(h));
            wide! {
                one_dyn(run, inp, bl!(pa), ow!(g), ow!(h));
                one_dyn(run, inp, mn!(f), ow!(g), ow!(h));
            }
        }
        1 => {
            two_dyn(run, inp, ow!(f), ow!(g), ow!(h));
            two_dyn(run, inp, ow!(f), st!(bb), ow!(h));
            wide! {
                two_dyn(run, inp, bl!(pa), ow!(g), ow!(h));
                two_dyn(run, inp, st!(ba), bl!(pb), ow!(h));
                two_dyn(run, inp, sl!(qa), mn!(g), ow!(h));
            }
        }
        _ => {
            three_dyn(run, inp, ow!(f), ow!(g), ow!(h));
            wide! {
                three_dyn(run, inp, bl!(pa), sl!(qb), st!(bc));
            }
        }
    }
}
fn cols(run: &mut Run, inp: &In, part: usize) {
    let d = inp.lay.dim;
    let (f, g, h) = (inp.fa, inp.fb, inp.fc);
    let s = (2, 2 * d.0 + (d.0 + d.1) % 2);
    let sl = RefLayout::strided(Order::Col, d, s);
    let (ba, bb) = (buf(sl, f), buf(sl, g));
    let big = (d.0 + 2, d.1 + 3);
    let sh = |i: usize, j: usize| if i >= 1 && j >= 2 && i < d.0 + 1 && j < d.1 + 2 { g(i - 1, j - 2) } else { T::of(-9.5, 3.5) };
    let pb = cm(big, &sh);
    macro_rules! st { ($b:ident) => { || GenericBaseMatrix::<T, _, _, Dynamic, Dynamic>::from_data(SliceContainer::new(&$b), ArbitraryStrideColumnMajor::new(d, s)) }; }
    macro_rules! bl { ($p:ident) => { || $p.block((1, 2), d) }; }
    macro_rules! ow { ($f:ident) => { || cm(d, $f) }; }
    match part {
        0 => {
            one_dyn(run, inp, ow!(f), ow!(g), ow!(h));
            wide! { one_dyn(run, inp, st!(ba), ow!(g), ow!(h)); }
        }
        1 => {
            two_dyn(run, inp, ow!(f), ow!(g), ow!(h));
            wide! {
                two_dyn(run, inp, ow!(f), bl!(pb), ow!(h));
                two_dyn(run, inp, st!(ba), ow!(g), ow!(h));
            }
        }
        _ => {
            three_dyn(run, inp, ow!(f), ow!(g), ow!(h));
            wide! { three_dyn(run, inp, st!(ba), bl!(pb), ow!(h)); }
        }
    }
}
fn vecs(run: &mut Run, inp: &In, part: usize) {
    let d = inp.lay.dim;
    let (f, g, h) = (inp.fa, inp.fb, inp.fc);
    let lay = inp.lay;
    if lay.order == Order::Row {
        let sl = RefLayout::strided(Order::Row, d, (1, 3));
        let (ba, bb) = (buf(sl, f), buf(sl, g));
        macro_rules! st { ($b:ident) => { || GenericBaseMatrix::<T, _, _, Fixed1, Dynamic>::from_data(SliceContainer::new(&$b), ArbitraryStrideRowVector::new(d.1, 3)) }; }
        macro_rules! ow { ($f:ident) => { || fill(RowVectorD::<T>::zeros_from_length(d.1), lay, $f) }; }
        macro_rules! dy { ($f:ident) => { || fill(MatrixD::<T, RowVector>::zeros_from_dim(1, d.1), lay, $f) }; }
        match part {
            0 => { one_any(run, inp, ow!(f), ow!(g), ow!(h)); one_any(run, inp, st!(ba), ow!(g), ow!(h)); one_dyn(run, inp, dy!(f), dy!(g), dy!(h)) }
            1 => { two_any(run, inp, ow!(f), ow!(g), ow!(h)); two_any(run, inp, st!(ba), ow!(g), ow!(h)); two_any(run, inp, ow!(f), st!(bb), ow!(h)); two_dyn(run, inp, dy!(f), dy!(g), dy!(h)) }
            _ => three_any(run, inp, ow!(f), st!(bb), ow!(h)),
        }
    } else {
        let sl = RefLayout::strided(Order::Col, d, (3, 1));
        let (ba, bb) = (buf(sl, f), buf(sl, g));
        macro_rules! st { ($b:ident) => { || GenericBaseMatrix::<T, _, _, Dynamic, Fixed1>::from_data(SliceContainer::new(&$b), ArbitraryStrideColumnVector::new(d.0, 3)) }; }
        macro_rules! ow { ($f:ident) => { || fill(ColumnVectorD::<T>::zeros_from_length(d.0), lay, $f) }; }
        macro_rules! dy { ($f:ident) => { || fill(MatrixD::<T, ColumnVector>::zeros_from_dim(d.0, 1), lay, $f) }; }
        match part {
            0 => { one_any(run, inp, ow!(f), ow!(g), ow!(h)); one_any(run, inp, st!(ba), ow!(g), ow!(h)); one_dyn(run, inp, dy!(f), dy!(g), dy!(h)) }
            1 => { two_any(run, inp, ow!(f), ow!(g), ow!(h)); two_any(run, inp, st!(ba), ow!(g), ow!(h)); two_any(run, inp, ow!(f), st!(bb), ow!(h)); two_dyn(run, inp, dy!(f), dy!(g), dy!(h)) }
            _ => three_any(run, inp, ow!(f), st!(bb), ow!(h)),
        }
    }
}
fn upper(run: &mut Run, inp: &In, part: usize) {
    let n = inp.lay.dim.0;
    let (f, g, h, lay) = (inp.fa, inp.fb, inp.fc, inp.lay);
    let bb = buf(lay, g);
    macro_rules! ow { ($f:ident) => { || fill(UpperTriangularMatrix::<T>::zeros_from_dim(n, n), lay, $f) }; }
    let st = || GenericBaseMatrix::<T, _, _, Dynamic, Dynamic>::from_data(SliceContainer::new(&bb), UpperTriangular::new(n));
    match part {
        0 => one_dyn(run, inp, ow!(f), ow!(g), ow!(h)),
        1 => two_dyn(run, inp, ow!(f), &st, ow!(h)),
        _ => three_dyn(run, inp, ow!(f), st, ow!(h)),
    }
}
fn fixed(run: &mut Run, inp: &In, part: usize) {
    let (f, g, h, lay) = (inp.fa, inp.fb, inp.fc, inp.lay);
    macro_rules! go {
        ($Ty:ident, $L:ident) => {{
            macro_rules! ow { ($x:ident) => { || fill($Ty::<T, $L>::zeros_from_dim(), lay, $x) }; }
            match part {
                0 => one_any(run, inp, ow!(f), ow!(g), ow!(h)),
                1 => two_any(run, inp, ow!(f), ow!(g), ow!(h)),
                _ => {}
            }
        }};
    }
    match (lay.order, lay.dim) {
        (Order::Row, (2, 3)) => go!(Matrix23, RowMajor),
        (Order::Row, (3, 3)) => go!(Matrix33, RowMajor),
        (Order::Col, (3, 2)) => go!(Matrix32, ColumnMajor),
        (Order::Col, (2, 2)) => go!(Matrix22, ColumnMajor),
        _ => {}
    }
}
fn all(run: &mut Run, inp: &In, part: usize) {
    let d = inp.lay.dim;
    match inp.lay.order {
        Order::Row => rows(run, inp, part),
        Order::Col => cols(run, inp, part),
        Order::Upper => {
            wide! { upper(run, inp, part); }
        }
    }
    wide! { fixed(run, inp, part); }
    wide! {
    if inp.lay.order == Order::Row && d.0 == 1 || inp.lay.order == Order::Col && d.1 == 1 {
        vecs(run, inp, part);
    }
    }
}
pub fn explore(cx: &mut Cx) {
    let full = cx.thorough();
    let kmax = if full { 9 } else { 4 };
    let mut dims: Vec<(usize, usize)> = (0..=kmax).flat_map(|m| (0..=kmax).map(move |n| (m, n))).collect();
    if full {
        dims.extend([(1, 100), (100, 1), (17, 31), (31, 17), (64, 65), (33, 33)]);
    } else {
        dims.extend([(1, 33), (33, 1), (7, 5), (5, 7), (6, 6), (16, 17)]);
    }
    for d in dims {
        for order in [Order::Row, Order::Col, Order::Upper] {
            if order == Order::Upper && d.0 != d.1 {
                continue;
            }
            for part in 0..3 {
                cx.case("shapes and storage classes", || format!("{} {:?} {:?} forms {}", T::NAME, order, d, part), |run| {
                    let st = [(T::of(2.0, -1.0), T::of(-0.5, 3.0)), (T::of(0.0, 0.0), T::of(1.0, 0.0))];
                    let fa = |i: usize, j: usize| T::tag(i * 37 + j);
                    let fb = |i: usize, j: usize| T::tag(2000 + i * 41 + 3 * j);
                    let fc = |i: usize, j: usize| T::tag(9000 + i * 5 + 101 * j);
                    let inp = In { lay: RefLayout::packed(order, d), fa: &fa, fb: &fb, fc: &fc, st: &st };
                    all(run, &inp, part);
                    run.outcome(part as u64);
                });
            }
        }
    }
    // beyond size thresholds, where machine-width shortcuts would start to matter
    let mut huge = vec![(257, 300), (1, 70000), (70000, 1)];
    if full {
        huge.extend([(300, 257), (1100, 65), (65, 1100), (2, 40000), (40000, 2)]);
    }
    for d in huge {
        for order in [Order::Row, Order::Col] {
            for part in 0..3 {
                cx.case("beyond size thresholds", || format!("{} {:?} {:?} forms {}", T::NAME, order, d, part), |run| {
                    let st = [(T::of(2.0, -1.0), T::of(-0.5, 3.0))];
                    let fa = |i: usize, j: usize| T::of((i * d.1 + j) as f64, 1.0);
                    let fb = |i: usize, j: usize| T::of((2 * i + 3 * j) as f64, -2.0);
                    let fc = |i: usize, j: usize| T::of(7.0, (i * d.1 + j + 1) as f64);
                    let inp = In { lay: RefLayout::packed(order, d), fa: &fa, fb: &fb, fc: &fc, st: &st };
                    all(run, &inp, part);
                    run.outcome(part as u64);
                });
            }
        }
    }
    // every combination of values
    let (n2, n3) = match (full, T::COMPLEX) {
        (false, false) => (14, 10),
        (true, false) => (18, 18),
        (false, true) => (60, 14),
        (true, true) => (120, 28),
    };
    let ns = match (full, T::COMPLEX) {
        (false, false) => 14,
        (true, false) => 18,
        (false, true) => 20,
        (true, true) => 60,
    };
    let (al2, al3, als) = (alphabet::<T>(n2), alphabet::<T>(n3), scalars::<T>(ns));
    for (q, &s) in als.iter().enumerate() {
        for part in 0..3 {
            cx.case("values", || format!("{} forms {} s = {:?}", T::NAME, part, s), |run| {
                let al = if part == 2 { &al3 } else { &al2 };
                let n = al.len();
                let st: Vec<(T, T)> = if part == 2 || T::COMPLEX {
                    (0..if full { 8 } else { 3 }).map(|x| (s, als[(q + 1 + 4 * x) % als.len()])).collect()
                } else {
                    als.iter().map(|&t| (s, t)).collect()
                };
                let w = if part == 2 { n } else { 1 };
                let fa = |i: usize, _: usize| al[i];
                let fb = |_: usize, j: usize| al[j / w];
                let fc = |_: usize, j: usize| al[j % w];
                let d = (n, n * w);
                let inp = In { lay: RefLayout::packed(if q % 2 == 0 { Order::Row } else { Order::Col }, d), fa: &fa, fb: &fb, fc: &fc, st: &st };
                macro_rules! ow { ($m:ident, $f:ident) => { || $m(d, &$f) }; }
                match (part, q % 2) {
                    (0, 0) => one_dyn(run, &inp, ow!(rm, fa), ow!(rm, fb), ow!(rm, fc)),
                    (1, 0) => two_dyn(run, &inp, ow!(rm, fa), ow!(rm, fb), ow!(rm, fc)),
                    (_, 0) => three_dyn(run, &inp, ow!(rm, fa), ow!(rm, fb), ow!(rm, fc)),
                    (0, _) => one_dyn(run, &inp, ow!(cm, fa), ow!(cm, fb), ow!(cm, fc)),
                    (1, _) => two_dyn(run, &inp, ow!(cm, fa), ow!(cm, fb), ow!(cm, fc)),
                    (_, _) => three_dyn(run, &inp, ow!(cm, fa), ow!(cm, fb), ow!(cm, fc)),
                }
            });
        }
    }
}
