#![allow(unused)]
//! C19: reference wrappers are transparent, to any depth.
use householder::addition::Addition;
use householder::matrix_ref::{MatrixRef, MatrixRefMut};
use householder::scalar_mult::ScalarMult;
use householder::types::{c32, c64};
use householder::*;
use mc::*;

/// Shared wrappers of depth `d` (0: the matrix itself).
macro_rules! shared {
    ($m:expr, $d:expr, |$v:ident| $b:expr) => {
        match $d {
            0 => { let $v = $m; $b }
            1 => { let r1 = Matrix::<T, _, L, RS, CS>::from_ref($m); let $v = &r1; $b }
            2 => { let r1 = Matrix::<T, _, L, RS, CS>::from_ref($m); let r2 = Matrix::<T, _, L, RS, CS>::new(MatrixRef::new(&r1)); let $v = &r2; $b }
            _ => {
                let r1 = Matrix::<T, _, L, RS, CS>::from_ref($m);
                let r2 = Matrix::<T, _, L, RS, CS>::new(MatrixRef::new(&r1));
                let r3 = Matrix::<T, _, L, RS, CS>::from_ref(&r2);
                let $v = &r3;
                $b
            }
        }
    };
}
/// Mutable wrappers of depth `d` (0: the matrix itself).
macro_rules! unique {
    ($m:expr, $d:expr, |$v:ident| $b:expr) => {
        match $d {
            0 => { let $v = &mut *$m; $b }
            1 => { let mut r1 = Matrix::<T, _, L, RS, CS>::new(MatrixRefMut::new(&mut *$m)); let $v = &mut r1; $b }
            2 => {
                let mut r1 = Matrix::<T, _, L, RS, CS>::new(MatrixRefMut::new(&mut *$m));
                let mut r2 = Matrix::<T, _, L, RS, CS>::new(MatrixRefMut::new(&mut r1));
                let $v = &mut r2;
                $b
            }
            _ => {
                let mut r1 = Matrix::<T, _, L, RS, CS>::new(MatrixRefMut::new(&mut *$m));
                let mut r2 = Matrix::<T, _, L, RS, CS>::new(MatrixRefMut::new(&mut r1));
                let mut r3 = Matrix::<T, _, L, RS, CS>::new(MatrixRefMut::new(&mut r2));
                let $v = &mut r3;
                $b
            }
        }
    };
}

/// Everything readable: elements, dimension, numbering, storage description, index layout.
fn same_view<T: Sc>(run: &mut Run, v: &dyn View<T>, m: &Model<T>, stride: Option<(usize, usize)>, what: &str) {
    let e = check_view(v, m, what);
    for k in 0..m.lay.len() {
        let p = m.lay.pos(k);
        ensure!(v.v_12(k) == p && v.v_21(p.0, p.1) == k, "{}: numbering at {} = {:?}", what, k, p);
        ensure!(v.v_ix12(k) == p && v.v_ix21(p.0, p.1) == k, "{}: numbering of the index layout at {} = {:?}", what, k, p);
        let raw = m.lay.raw1(k);
        ensure!(v.v_raw1(k) == raw && v.v_raw2(p.0, p.1) == raw, "{}: location of element {}", what, k);
    }
    ensure!(v.v_ix() == (m.lay.dim, m.lay.len()), "{}: index layout {:?}", what, v.v_ix());
    if let Some(s) = stride {
        ensure!(v.v_stride() == s, "{}: strides {:?}, those of the wrapped matrix are {:?}", what, v.v_stride(), s);
    }
    run.eval(e + 3 * m.lay.len() as u64 + 1);
}
/// 0..n, or the places around machine-width thresholds when there are very many.
fn thin(n: usize) -> Vec<usize> {
    if n <= 200 {
        return (0..n).collect();
    }
    let mut v = vec![0, 1, 2, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, n / 2, 65_535, 65_536, 65_537, n - 3, n - 2, n - 1];
    v.retain(|&x| x < n);
    v.sort();
    v.dedup();
    v
}
fn outside(lay: &RefLayout) -> (Vec<(usize, usize)>, Vec<usize>) {
    let (m, n) = lay.dim;
    let mut p = vec![];
    for i in thin(m + 2) {
        for j in thin(n + 2) {
            p.push((i, j));
        }
    }
    let big = [1usize << 31, 1 << 32, 1 << 33, 1 << 62, 1 << 63, (1 << 63) + 1, usize::MAX - 1, usize::MAX];
    for &b in &big {
        for j in [0, 1, n.wrapping_sub(1), n, b] {
            p.push((b, j));
            p.push((j, b));
        }
    }
    p.retain(|&(i, j)| !lay.contains(i, j));
    p.sort();
    p.dedup();
    let l = lay.len();
    let mut q: Vec<usize> = (l..l + 3).collect();
    q.extend(big);
    q.extend([usize::MAX - l, (1usize << 63) + l, usize::MAX / 2]);
    (p, q)
}
fn refuses<T: Sc>(run: &mut Run, v: &dyn View<T>, lay: &RefLayout, what: &str) {
    let (p, q) = outside(lay);
    for (i, j) in &p {
        must_refuse(&format!("{}: get({}, {})", what, i, j), || v.v_get(*i, *j));
    }
    for k in &q {
        must_refuse(&format!("{}: get1d({})", what, k), || v.v_get1(*k));
    }
    run.eval((p.len() + q.len()) as u64);
}
fn refuses_mut<T: Sc>(run: &mut Run, o: &mut dyn Obj<T>, lay: &RefLayout, what: &str) {
    let (p, q) = outside(lay);
    for (i, j) in &p {
        must_refuse(&format!("{}: get_mut({}, {})", what, i, j), || *o.get_mut_(*i, *j) = T::sentinel());
    }
    for k in &q {
        must_refuse(&format!("{}: get1d_mut({})", what, k), || *o.get1_mut_(*k) = T::sentinel());
    }
    run.eval((p.len() + q.len()) as u64);
}

/// Reading, refusing and writing through wrappers of every depth, on any matrix.
fn examine<T: Sc, I, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(run: &mut Run, m: &mut Matrix<T, I, L, RS, CS>, model: &mut Model<T>, depth: usize)
where
    I: MatrixTraitMut<T, L, RS, CS>,
{
    let n = model.lay.len();
    let stride = refused(|| (m as &dyn View<T>).v_stride()).ok();
    for d in 0..=3 {
        run.step(|| format!("shared wrappers, depth {}", d));
        shared!(&*m, d, |v| {
            same_view(run, v, model, stride, &format!("shared wrapper of depth {}", d));
            refuses(run, v, &model.lay, &format!("shared wrapper of depth {}", d));
        });
        run.state(hash_of(&(0, d)));
    }
    let mut tag = 100;
    // every element by every route at every depth, read back at every depth
    for d in 1..=3 {
        for r in 0..4 {
            let ks = thin(n);
            for &k in &ks {
                run.step(|| format!("write element {} by {} through {} mutable wrappers", k, ROUTES[r], d));
                tag += 1;
                let v = T::tag(tag);
                model.set(k, v);
                unique!(m, d, |w| {
                    write_route(&mut AccObj(&mut *w), &model.lay, 0, r, k, v);
                    if n > ks.len() {
                        for &q in &ks {
                            let (i, j) = model.lay.pos(q);
                            ensure!(w.get1d(q).same(model.at(q)) && w.get(i, j).same(model.at(q)), "mutable wrapper of depth {} after writing element {}: element {} is {:?}, expected {:?}", d, k, q, w.get1d(q), model.at(q));
                        }
                        run.eval(2 * ks.len() as u64);
                    } else {
                        let e = check_view(&*w, model, &format!("mutable wrapper of depth {} after writing element {}", d, k));
                        run.eval(e);
                    }
                });
                run.transition();
                if n > ks.len() && k + 1 != n {
                    continue;
                }
                let e = check_view(&*m, model, &format!("wrapped matrix after element {} was written through {} mutable wrappers", k, d));
                run.eval(e);
                run.state(hash_of(&(1, d, r, k)));
            }
        }
        unique!(m, d, |w| {
            refuses_mut(run, &mut AccObj(&mut *w), &model.lay, &format!("mutable wrapper of depth {}", d));
            same_view(run, &*w, model, stride, &format!("mutable wrapper of depth {}", d));
            // shared wrappers around mutable ones
            for s in 1..=2 {
                shared!(&*w, s, |v| {
                    same_view(run, v, model, stride, &format!("{} shared around {} mutable wrappers", s, d));
                    refuses(run, v, &model.lay, &format!("{} shared around {} mutable wrappers", s, d));
                });
            }
        });
        let e = check_view(&*m, model, "wrapped matrix after refused writes");
        run.eval(e);
    }
    run.trace();
    // histories: wrap to some depth, write some element, unwrap
    if n > 0 && n <= 4 {
        let ops: Vec<(usize, usize, usize)> = (0..=3usize).flat_map(|d| (0..n).flat_map(move |k| (0..4usize).map(move |r| (d, k, r)))).collect();
        let mut seq = vec![0usize; depth];
        'all: loop {
            for (step, &o) in seq.iter().enumerate() {
                let (d, k, r) = ops[o];
                run.step(|| format!("depth {}: element {} by {}", d, k, ROUTES[r]));
                tag = tag % 50000 + 1;
                let v = T::tag(tag);
                model.set(k, v);
                unique!(m, d, |w| {
                    write_route(&mut AccObj(&mut *w), &model.lay, 0, r, k, v);
                    shared!(&*w, (d + step) % 3, |x| {
                        ensure!(x.get1d(k).same(v), "wrapper reads {:?} right after writing {:?}", x.get1d(k), v);
                    });
                });
                run.transition();
            }
            let e = check_view(&*m, model, "wrapped matrix after a history of wrapped writes");
            run.eval(e + depth as u64);
            run.state(hash_of(&seq));
            run.trace();
            for p in 0..depth {
                seq[p] += 1;
                if seq[p] < ops.len() {
                    continue 'all;
                }
                seq[p] = 0;
            }
            break;
        }
    }
}
/// Sums and scalar products with wrapped operands, and wrappers around expressions.
fn expressions<T: Sc, I, J, B, L, L2: LayoutType<IndexLayout = B>, RS: SizeIdentifier, CS: SizeIdentifier>(
    run: &mut Run, a: &mut Matrix<T, I, L, RS, CS>, b: &Matrix<T, J, L2, RS, CS>, ma: &Model<T>,
) where
    B: BaseLayoutType + LayoutType<IndexLayout = B>,
    L: LayoutType<IndexLayout = B>,
    I: MatrixTraitMut<T, L, RS, CS>,
    J: MatrixTrait<T, L2, RS, CS>,
{
    let n = ma.lay.len();
    let order = ma.lay.order;
    let s = T::of(-3.0, 0.5);
    let vb: Vec<T> = (0..n).map(|k| b.get1d(k)).collect();
    let model = |f: &dyn Fn(usize) -> T| Model { lay: RefLayout::packed(order, ma.lay.dim), store: (0..n).map(f).collect(), base: 0, window: n };
    let m_sum = model(&|k| ma.at(k).add_(vb[k]));
    let m_rev = model(&|k| vb[k].add_(ma.at(k)));
    let m_dbl = model(&|k| ma.at(k).add_(ma.at(k)));
    let m_lin = model(&|k| s.mul_(ma.at(k)).add_(vb[k]));
    let m_sca = model(&|k| s.mul_(ma.at(k)));
    macro_rules! see {
        ($e:expr, $m:expr, $what:expr) => {{
            let e = $e;
            let c = check_view(&e, $m, $what);
            refuses(run, &e, &$m.lay, $what);
            run.eval(c);
            run.transition();
        }};
    }
    for d in 0..=3 {
        let what = format!("expression with {} shared wrappers", d);
        run.step(|| what.clone());
        shared!(&*a, d, |x| {
            see!(x + b, &m_sum, &what);
            see!(b + x, &m_rev, &what);
            see!(x + x, &m_dbl, &what);
            see!(&*a + x, &m_dbl, &what);
            let sca = Matrix::<T, _, L, RS, CS>::new(ScalarMult::new(Matrix::<T, _, L, RS, CS>::from_ref(x), s));
            {
                let c = check_view(&sca, &m_sca, &what);
                run.eval(c);
                // wrappers around the product
                let w1 = Matrix::<T, _, L, RS, CS>::from_ref(&sca);
                let w2 = Matrix::<T, _, L, RS, CS>::from_ref(&w1);
                run.eval(check_view(&w1, &m_sca, "wrapper around a scalar product") + check_view(&w2, &m_sca, "wrappers around a scalar product"));
                see!(&w2 + b, &m_lin, "sum of a wrapped scalar product");
            }
            let sum = x + b;
            let w1 = Matrix::<T, _, B, RS, CS>::from_ref(&sum);
            let w2 = Matrix::<T, _, B, RS, CS>::new(MatrixRef::new(&w1));
            run.eval(check_view(&w1, &m_sum, "wrapper around a sum") + check_view(&w2, &m_sum, "wrappers around a sum"));
            refuses(run, &w1, &m_sum.lay, "wrapper around a sum");
            refuses(run, &w2, &m_sum.lay, "wrappers around a sum");
        });
        run.state(hash_of(&(2, d)));
    }
    for d in 1..=3 {
        let what = format!("expression with {} mutable wrappers", d);
        run.step(|| what.clone());
        unique!(a, d, |x| {
            see!(b + &*x, &m_rev, &what);
            see!(&*x + &*x, &m_dbl, &what);
        });
        // the wrapper itself as an owned operand
        match d {
            1 => see!(Matrix::<T, _, L, RS, CS>::new(MatrixRefMut::new(&mut *a)) + b, &m_sum, &what),
            2 => {
                let mut r1 = Matrix::<T, _, L, RS, CS>::new(MatrixRefMut::new(&mut *a));
                see!(Matrix::<T, _, L, RS, CS>::new(MatrixRefMut::new(&mut r1)) + b, &m_sum, &what)
            }
            _ => {
                let e = Matrix::<T, _, B, RS, CS>::new(Addition::new(
                    Matrix::<T, _, L, RS, CS>::new(MatrixRefMut::new(&mut *a)),
                    Matrix::<T, _, L2, RS, CS>::from_ref(b),
                ));
                run.eval(check_view(&e, &m_sum, &what));
            }
        }
        run.state(hash_of(&(3, d)));
    }
    run.eval(check_view(&*a, ma, "operand after the expressions"));
    run.trace();
}
/// Evaluation of wrapped matrices and of expressions of them.
fn evaluation<T: Sc, I, J, B, L, L2: LayoutType<IndexLayout = B>>(
    run: &mut Run, a: &mut Matrix<T, I, L, Dynamic, Dynamic>, b: &Matrix<T, J, L2, Dynamic, Dynamic>, ma: &Model<T>,
) where
    B: BaseLayoutType + LayoutType<IndexLayout = B>,
    L: LayoutType<IndexLayout = B>,
    I: MatrixTraitMut<T, L, Dynamic, Dynamic>,
    J: MatrixTrait<T, L2, Dynamic, Dynamic>,
{
    type RS = Dynamic;
    type CS = Dynamic;
    let n = ma.lay.len();
    let order = ma.lay.order;
    let vb: Vec<T> = (0..n).map(|k| b.get1d(k)).collect();
    let model = |f: &dyn Fn(usize) -> T| Model { lay: RefLayout::packed(order, ma.lay.dim), store: (0..n).map(f).collect(), base: 0, window: n };
    let same = model(&|k| ma.at(k));
    let sum = model(&|k| ma.at(k).add_(vb[k]));
    for d in 0..=3 {
        run.step(|| format!("evaluation at depth {}", d));
        shared!(&*a, d, |x| {
            let mut r = x.eval();
            run.eval(check_view(&r, &same, "evaluation of shared wrappers"));
            if n > 0 {
                *r.get1d_mut(0) = T::sentinel();
            }
            run.eval(check_view(x, ma, "wrapper after its evaluation was written to"));
            run.eval(check_view(&(x + b).eval(), &sum, "evaluation of a sum with shared wrappers"));
        });
        unique!(a, d, |x| {
            let mut r = x.eval();
            run.eval(check_view(&r, &same, "evaluation of mutable wrappers"));
            if n > 0 {
                *r.get1d_mut(n - 1) = T::sentinel();
            }
            run.eval(check_view(&*x, ma, "mutable wrapper after its evaluation was written to"));
            run.eval(check_view(&(&*x + b).eval(), &sum, "evaluation of a sum with mutable wrappers"));
        });
        run.transition();
        run.state(hash_of(&(4, d)));
    }
    run.trace();
}
/// A monitored matrix: a wrapped read or write touches the storage exactly as an unwrapped one does.
fn touches<T: Sc, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(run: &mut Run, lay: RefLayout, l: impl Fn() -> L) {
    let (c, buf, log) = MonContainer::<T>::fresh(lay.span() as usize, |q| T::tag(q));
    let mut mat = GenericBaseMatrixMut::<T, L, MonContainer<T>, RS, CS>::from_data(c, l());
    let m = &mut mat;
    for d in 0..=3 {
        for k in thin(lay.len()) {
            let (i, j) = lay.pos(k);
            shared!(&*m, d, |v| {
                for r in 0..4 {
                    log.clear();
                    match r {
                        0 => drop(v.get(i, j)),
                        1 => drop(v.get1d(k)),
                        2 => drop(unsafe { v.get_unchecked(i, j) }),
                        _ => drop(unsafe { v.get1d_unchecked(k) }),
                    }
                    ensure!(log.total() == 1 && log.reads.borrow()[lay.raw1(k)] == 1, "reading element {} through {} wrappers touched {:?}", k, d, log.order.borrow());
                    run.eval(1);
                }
            });
            run.state(hash_of(&(d, k)));
        }
        let (p, q) = outside(&lay);
        log.clear();
        shared!(&*m, d, |v| {
            for (i, j) in &p {
                must_refuse("get", || v.get(*i, *j));
            }
            for k in &q {
                must_refuse("get1d", || v.get1d(*k));
            }
        });
        unique!(m, d, |v| {
            for (i, j) in &p {
                must_refuse("get_mut", || *v.get_mut(*i, *j) = T::sentinel());
            }
            for k in &q {
                must_refuse("get1d_mut", || *v.get1d_mut(*k) = T::sentinel());
            }
        });
        ensure!(log.untouched(), "refused accesses through {} wrappers touched {:?}", d, log.order.borrow());
        run.transition();
    }
    ensure!(buf.guards_ok(), "memory outside of the storage was overwritten");
    for q in 0..buf.len() {
        ensure!(buf.at(q).same(T::tag(q)), "storage changed at {}", q);
    }
    run.trace();
}

fn filled<T: Sc, L: LayoutType, D: DataContainerMut<Item = T>, R: SizeIdentifier, C: SizeIdentifier>(
    mut m: GenericBaseMatrixMut<T, L, D, R, C>, f: impl Fn(usize) -> T,
) -> GenericBaseMatrixMut<T, L, D, R, C> {
    for k in 0..m.layout().number_of_elements() {
        *m.get1d_mut(k) = f(k);
    }
    m
}
mod t1 {
    use super::*;
    type T = f64;
    macro_rules! wide { ($($x:tt)*) => { $($x)* }; }
    include!("../wraps_body.rs");
}
macro_rules! wide {
    ($($x:tt)*) => {};
}
mod t2 {
    use super::*;
    type T = c32;
    include!("../wraps_body.rs");
}
mod t3 {
    use super::*;
    type T = f32;
    include!("../wraps_body.rs");
}
mod t4 {
    use super::*;
    type T = c64;
    include!("../wraps_body.rs");
}
fn explore(cx: &mut Cx, of_dim: fn(&mut Cx, (usize, usize), usize), primary: bool) {
    let k = if primary { cx.pick(4, 7) } else { cx.pick(3, 5) };
    for m in 0..=k {
        for n in 0..=k {
            of_dim(cx, (m, n), cx.pick(2, 3));
        }
    }
    for d in [(1, 20), (20, 1), (9, 7)] {
        of_dim(cx, d, 1);
    }
    for d in if primary { huge_dims(cx.thorough()) } else { vec![(257, 300)] } {
        of_dim(cx, d, 1);
    }
}
fn main() {
    let mut cx = Cx::from_args();
    explore(&mut cx, t1::of_dim, true);
    explore(&mut cx, t2::of_dim, false);
    explore(&mut cx, t3::of_dim, false);
    explore(&mut cx, t4::of_dim, false);
    cx.finish();
}
