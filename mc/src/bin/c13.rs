//! C13: matrix products compute alpha*A*B + beta*C exactly as defined.
#[macro_use]
#[path = "../gemm.rs"]
mod gemm;
use gemm::*;
use householder::types::{c32, c64};
use mc::*;

fn one<T: Gemm>(run: &mut Run, shape: Shape, ops: [Op; 3], (m, k, n): (usize, usize, usize), al: T, be: T, salt: usize, f: &dyn Fn(usize, usize, usize) -> T) {
    let d = shape.dims(m, k, n);
    let nan = T::of(f64::NAN, f64::NAN);
    let a = shape.a(ops[0], d[0], nan, |i, j| f(salt, i, j));
    let b = shape.b(ops[1], d[1], nan, |i, j| f(salt + 1, i, j));
    let c = shape.c(ops[2], d[2], nan, |i, j| f(salt + 2, i, j));
    run.step(|| format!("{:?} {:?} sizes {:?} alpha {:?} beta {:?}", shape, ops, (m, k, n), al, be));
    let want: Vec<T> = (0..m * n).map(|q| math(al, &|p| a.at(q / n, p), &|p| b.at(p, q % n), k, be, c.at(q / n, q % n))).collect();
    T::gemm(shape, al, &a, &b, be, &c);
    for q in 0..m * n {
        let x = c.at(q / n, q % n);
        ensure!(equal(x, want[q]), "element {:?} of the product ({:?} {:?}, m, k, n = {:?}, alpha {:?}, beta {:?}) is {:?}, expected {:?}", (q / n, q % n), shape, ops, (m, k, n), al, be, x, want[q]);
    }
    run.eval((m * n) as u64);
    run.transition();
}
fn scalars<T: Sc>() -> Vec<T> {
    let mut v = vec![T::of(1.0, 0.0), T::of(0.0, 0.0), T::of(-1.0, 0.0), T::of(2.0, 0.0), T::of(-0.5, 0.0)];
    if T::COMPLEX {
        v.extend([T::of(0.0, 1.0), T::of(1.0, -1.0), T::of(-0.5, 2.0)]);
    }
    v
}
fn all_kinds<T: Gemm>(run: &mut Run, shape: Shape, (m, k, n): (usize, usize, usize), x: Op, extra: bool) {
    let (_, ob, oc) = shape.ops();
    let s = scalars::<T>();
    let mut q = m + 2 * k + 3 * n;
    let ob: Vec<Op> = if extra && shape != Shape::MV { vec![Op::Broadcast] } else { ob };
    for &y in &ob {
        for &z in &oc {
            for _ in 0..3 {
                let (al, be) = (s[q % s.len()], s[(q / s.len()) % s.len()]);
                q += 1;
                one::<T>(run, shape, [x, y, z], (m, k, n), al, be, q, &|a, b, c| val(a, b, c));
            }
            run.state(hash_of(&(shape, x, y, z)));
        }
    }
    run.trace();
}
/// Every pair of scalars, on operands of equal storage.
fn all_scalars<T: Gemm>(run: &mut Run, shape: Shape, (m, k, n): (usize, usize, usize)) {
    let (oa, ob, oc) = shape.ops();
    for q in 0..oc.len() {
        let ops = [oa[q % oa.len()], ob[(2 * q + 1) % ob.len()], oc[q]];
        for &al in &scalars::<T>() {
            for &be in &scalars::<T>() {
                one::<T>(run, shape, ops, (m, k, n), al, be, q, &|a, b, c| val(a, b, c));
                run.state(hash_of(&(ops, al.bits(), be.bits())));
            }
        }
    }
    run.trace();
}
/// Contents that use all digits of the scalar type, at several magnitudes; everything stays exact.
fn wide<T: Gemm>(run: &mut Run, shape: Shape, (m, k, n): (usize, usize, usize), salt: usize) {
    let single = if T::COMPLEX { std::mem::size_of::<T>() == 8 } else { std::mem::size_of::<T>() == 4 };
    let digits: [(u32, u32); 3] = if single { [(16, 3), (3, 16), (9, 9)] } else { [(30, 17), (17, 30), (23, 23)] };
    let exps: [i32; 3] = if single { [-30, 0, 30] } else { [-300, 0, 300] };
    let int = |bits: u32, salt: usize, i: usize, j: usize| {
        let h = hash_of(&(salt, i, j));
        let part = |h: u64| {
            let x = (h % (1 << bits) | 1) as f64;
            if h >> 40 & 1 == 1 { -x } else { x }
        };
        T::of(part(h), part(h.rotate_left(29)))
    };
    let (oa, ob, oc) = shape.ops();
    let sc = [T::of(1.0, 0.0), T::of(-1.0, 0.0), T::of(2.0, 0.0), T::of(0.0, 1.0), T::of(0.0, 0.0)];
    let nan = T::of(f64::NAN, f64::NAN);
    let d = shape.dims(m, k, n);
    let mut q = salt;
    for (wa, wb) in digits {
        for ea in exps {
            for eb in exps {
                q += 1;
                let ops = [oa[q % oa.len()], ob[q / 3 % ob.len()], oc[q / 7 % oc.len()]];
                let (al, be) = (sc[q % 5], sc[q / 2 % 5]);
                let fa = |i: usize, j: usize| int(wa, salt, i, j);
                let fb = |i: usize, j: usize| int(wb, salt + 1, i, j);
                let fc = |i: usize, j: usize| int(wa.min(wb) + 3, salt + 2, i, j);
                let up = |x: T, e: i32| {
                    let p = x.parts();
                    T::of(p.0 * 2f64.powi(e), p.1 * 2f64.powi(e))
                };
                let a = shape.a(ops[0], d[0], nan, |i, j| up(fa(i, j), ea));
                let b = shape.b(ops[1], d[1], nan, |i, j| up(fb(i, j), eb));
                let c = shape.c(ops[2], d[2], nan, |i, j| up(fc(i, j), ea + eb));
                run.step(|| format!("{:?} {:?} sizes {:?} alpha {:?} beta {:?} digits {:?} exponents {:?}", shape, ops, (m, k, n), al, be, (wa, wb), (ea, eb)));
                T::gemm(shape, al, &a, &b, be, &c);
                for i in 0..m {
                    for j in 0..n {
                        let want = up(math(al, &|p| fa(i, p), &|p| fb(p, j), k, be, fc(i, j)), ea + eb);
                        let x = c.at(i, j);
                        ensure!(equal(x, want), "element {:?} of the product ({:?} {:?}, m, k, n = {:?}, alpha {:?}, beta {:?}, digits {:?}, exponents {:?}) is {:?}, expected {:?}", (i, j), shape, ops, (m, k, n), al, be, (wa, wb), (ea, eb), x, want);
                    }
                }
                run.eval((m * n) as u64);
                run.transition();
                run.state(hash_of(&(ops, ea, eb, wa)));
            }
        }
    }
    run.trace();
}
/// With beta zero, whatever the target held is of no consequence.
fn overwritten<T: Gemm>(run: &mut Run, shape: Shape, (m, k, n): (usize, usize, usize)) {
    let (oa, ob, oc) = shape.ops();
    let d = shape.dims(m, k, n);
    let nan = T::of(f64::NAN, f64::NAN);
    for (z, &op) in oc.iter().enumerate() {
        for old in [nan, T::of(f64::INFINITY, 0.0), T::of(1e30, f64::NAN)] {
            for al in [T::of(1.0, 0.0), T::of(-2.0, 1.0)] {
                let ops = [oa[z % oa.len()], ob[(2 * z + m) % ob.len()], op];
                let a = shape.a(ops[0], d[0], nan, |i, j| val(z, i, j));
                let b = shape.b(ops[1], d[1], nan, |i, j| val(z + 1, i, j));
                let c = shape.c(ops[2], d[2], nan, |_, _| old);
                run.step(|| format!("{:?} {:?} sizes {:?} alpha {:?} beta 0 target {:?}", shape, ops, (m, k, n), al, old));
                T::gemm(shape, al, &a, &b, T::of(0.0, 0.0), &c);
                for i in 0..m {
                    for j in 0..n {
                        let want = math(al, &|p| a.at(i, p), &|p| b.at(p, j), k, T::of(0.0, 0.0), T::of(0.0, 0.0));
                        ensure!(equal(c.at(i, j), want), "element {:?} of the product ({:?} {:?}, m, k, n = {:?}, alpha {:?}, beta 0, target full of {:?}) is {:?}, expected {:?}", (i, j), shape, ops, (m, k, n), al, old, c.at(i, j), want);
                    }
                }
                run.eval((m * n) as u64);
                run.transition();
                run.state(hash_of(&(ops, old.bits(), al.bits())));
            }
        }
    }
    run.trace();
}
/// Every content of small factors over an alphabet.
fn all_contents<T: Gemm>(run: &mut Run, shape: Shape, (m, k, n): (usize, usize, usize), alpha: &[T], part: usize, parts: usize) {
    let (na, nb) = (m * k, k * n);
    let total = alpha.len().pow((na + nb) as u32);
    let (oa, ob, oc) = shape.ops();
    for code in (part..total).step_by(parts) {
        let digit = |q: usize| alpha[code / alpha.len().pow(q as u32) % alpha.len()];
        let ops = [oa[code % oa.len()], ob[code / 3 % ob.len()], oc[code / 7 % oc.len()]];
        one::<T>(run, shape, ops, (m, k, n), T::of(1.0, 0.0), T::of(-1.0, 0.0), 0, &|a, i, j| match a {
            0 => digit(i * k + j),
            1 => digit(na + i * n + j),
            _ => val(7, i, j),
        });
        run.state(code as u64);
    }
    run.trace();
}
/// Factors that are views of one storage: the same matrix, its transpose, other shapes and strides of it.
fn shared<T: Gemm>(run: &mut Run, shape: Shape, (m, k, n): (usize, usize, usize), x: Op) {
    let (_, ob, oc) = shape.ops();
    let d = shape.dims(m, k, n);
    let nan = T::of(f64::NAN, f64::NAN);
    let s = scalars::<T>();
    let mut q = m + k + n;
    for &y in &ob {
        for _ in 0..2 {
            q += 1;
            let (al, be, z) = (s[q % s.len()], s[q / s.len() % s.len()], oc[q % oc.len()]);
            let (mut a, mut b) = (shape.a(x, d[0], nan, |_, _| nan), shape.b(y, d[1], nan, |_, _| nan));
            share(&mut a, &mut b, |p| val(q, p, 3));
            for own in [false, true] {
                if own && !(shape == Shape::MM && x == y && m == k && k == n) {
                    continue;
                }
                let c = shape.c(z, d[2], nan, |i, j| val(q + 1, i, j));
                run.step(|| format!("{:?} {:?} sizes {:?} alpha {:?} beta {:?} on one storage{}", shape, (x, y, z), (m, k, n), al, be, if own { ", one object" } else { "" }));
                let want: Vec<T> = (0..m * n).map(|q| math(al, &|p| a.at(q / n, p), &|p| b.at(p, q % n), k, be, c.at(q / n, q % n))).collect();
                if own {
                    T::mm_self(al, &a, be, &c)
                } else {
                    T::gemm(shape, al, &a, &b, be, &c)
                }
                for q in 0..m * n {
                    let v = c.at(q / n, q % n);
                    ensure!(equal(v, want[q]), "element {:?} of the product of two views of one storage ({:?} {:?}, m, k, n = {:?}, alpha {:?}, beta {:?}, one object {}) is {:?}, expected {:?}", (q / n, q % n), shape, (x, y, z), (m, k, n), al, be, own, v, want[q]);
                }
                run.eval((m * n) as u64);
                run.transition();
                run.state(hash_of(&(x, y, q, own)));
            }
        }
    }
    run.trace();
}
/// All sequences of products over a pool of matrices, the results feeding later products.
fn sequences<T: Gemm>(run: &mut Run, kinds: [Op; 3], n: usize, depth: usize) {
    let nan = T::of(f64::NAN, f64::NAN);
    let sc = [(T::of(1.0, 0.0), T::of(0.0, 0.0)), (T::of(-1.0, 0.0), T::of(1.0, 0.0)), (T::of(0.0, 1.0), T::of(2.0, 0.0))];
    let mut ops = vec![];
    for c in 0..3 {
        for a in (0..3).filter(|&a| a != c) {
            for b in (0..3).filter(|&b| b != c) {
                for s in 0..3 {
                    ops.push((a, b, c, s));
                }
            }
        }
    }
    let mut seq = vec![0usize; depth];
    loop {
        let pool: Vec<Opd<T>> = (0..3).map(|x| Opd::matrix(kinds[x], (n, n), nan, |i, j| T::of(((x + 2 * i + j) % 4) as f64 - 1.0, ((i + j + x) % 3) as f64 - 1.0))).collect();
        let mut model: Vec<Vec<T>> = pool.iter().map(|o| (0..n * n).map(|q| o.at(q / n, q % n)).collect()).collect();
        for &q in &seq {
            let (a, b, c, s) = ops[q];
            let (al, be) = sc[s];
            run.step(|| format!("matrix {} = {:?} matrix {} * matrix {} + {:?} matrix {}", c, al, a, b, be, c));
            T::mm(al, &pool[a], &pool[b], be, &pool[c]);
            model[c] = (0..n * n).map(|q| math(al, &|p| model[a][q / n * n + p], &|p| model[b][p * n + q % n], n, be, model[c][q])).collect();
            run.transition();
        }
        for x in 0..3 {
            for q in 0..n * n {
                let v = pool[x].at(q / n, q % n);
                ensure!(equal(v, model[x][q]), "after products {:?} over {:?}, element {:?} of matrix {} is {:?}, expected {:?}", seq.iter().map(|&q| ops[q]).collect::<Vec<_>>(), kinds, (q / n, q % n), x, v, model[x][q]);
            }
        }
        run.eval((3 * n * n) as u64);
        run.trace();
        run.state(hash_of(&seq));
        let mut d = 0;
        while d < depth {
            seq[d] += 1;
            if seq[d] < ops.len() {
                break;
            }
            seq[d] = 0;
            d += 1;
        }
        if d == depth {
            return;
        }
    }
}
fn explore<T: Gemm>(cx: &mut Cx) {
    let full = cx.thorough();
    for shape in [Shape::MM, Shape::MV, Shape::VM] {
        let top = cx.pick(if shape == Shape::MM { 6 } else { 10 }, if shape == Shape::MM { 9 } else { 20 });
        let r = || 0..=top;
        for m in r() {
            for k in r() {
                for n in r().chain([9, 17].into_iter().filter(|_| m == 1 && k <= 2)) {
                    if !shape.admits(m, n) {
                        continue;
                    }
                    for x in shape.ops().0 {
                        cx.case("operand kinds", || format!("{} {:?} {:?} first operand {:?}", T::NAME, shape, (m, k, n), x), |run| all_kinds::<T>(run, shape, (m, k, n), x, false));
                    }
                    if shape != Shape::VM {
                        cx.case("operand kinds", || format!("{} {:?} {:?} first operand broadcast", T::NAME, shape, (m, k, n)), |run| all_kinds::<T>(run, shape, (m, k, n), Op::Broadcast, false));
                    }
                    cx.case("operand kinds", || format!("{} {:?} {:?} second operand broadcast", T::NAME, shape, (m, k, n)), |run| all_kinds::<T>(run, shape, (m, k, n), shape.ops().0[1], true));
                    cx.case("scalars", || format!("{} {:?} {:?}", T::NAME, shape, (m, k, n)), |run| all_scalars::<T>(run, shape, (m, k, n)));
                }
            }
        }
        let top = cx.pick(4, 7);
        let mut ds: Vec<(usize, usize, usize)> = (0..(top + 1usize).pow(3)).map(|q| (q % (top + 1), q / (top + 1) % (top + 1), q / (top + 1).pow(2))).collect();
        ds.extend([(9, 9, 9), (17, 17, 17), (33, 33, 33), (65, 65, 65), (17, 3, 17), (3, 40, 3), (9, 8, 1), (33, 33, 1), (1, 9, 9), (1, 33, 33), (1, 40, 1)]);
        if full {
            ds.extend([(130, 130, 130), (104, 104, 104), (1, 300, 1), (300, 2, 300)]);
        }
        for d in ds {
            if shape.admits(d.0, d.2) {
                for x in shape.ops().0 {
                    cx.case("factors in one storage", || format!("{} {:?} {:?} first operand {:?}", T::NAME, shape, d, x), |run| shared::<T>(run, shape, d, x));
                }
            }
        }
        // contents
        let al3 = [T::of(0.0, 0.0), T::of(1.0, 2.0), T::of(-3.0, 1.0)];
        let al2 = [T::of(0.0, 1.0), T::of(5.0, -2.0)];
        let sizes: Vec<((usize, usize, usize), usize)> = match shape {
            Shape::MM => vec![((2, 2, 2), 3), ((1, 3, 1), 3), ((3, 1, 3), 3), ((2, 3, 2), 2), ((3, 2, 2), 2), ((1, 2, 3), 3)],
            Shape::MV => vec![((2, 2, 1), 3), ((3, 2, 1), 3), ((2, 3, 1), 2)],
            Shape::VM => vec![((1, 2, 2), 3), ((1, 2, 3), 3), ((1, 3, 2), 2)],
        };
        for (d, b) in sizes {
            let b = if full && d.0 * d.1 * d.2 <= 8 { 3 } else { b };
            for part in 0..8 {
                cx.case("factor contents", || format!("{} {:?} {:?} over {} values, part {}", T::NAME, shape, d, b, part), |run| {
                    all_contents::<T>(run, shape, d, if b == 3 { &al3 } else { &al2 }, part, 8)
                });
            }
        }
        // every size around the places where the implementation changes its blocking
        let edges: Vec<usize> = if full { (7..=9).chain(15..=17).chain(31..=33).chain(63..=65).chain(127..=129).chain(255..=258).chain([511, 512, 513, 1023, 1024, 1025]).collect() }
            else { vec![7, 8, 9, 16, 17, 33, 64, 65, 127, 128, 129, 255, 256, 257, 1025] };
        for (q, &e) in edges.iter().enumerate() {
            let (u, v) = ([1, 2, 5][q % 3], [3, 9, 1][q % 3]);
            let mut ds = vec![(e, u, v), (u, e, v), (u, v, e), (e, 1, 1), (1, e, 1), (1, 1, e)];
            if e <= 65 {
                ds.push((e, e, e));
            }
            if full && e <= 300 {
                ds.extend([(e, e, 17), (17, e, e), (e, 19, e)]);
            }
            for d in ds {
                let d = match shape {
                    Shape::MM => d,
                    Shape::MV => (d.0, d.1, 1),
                    Shape::VM => (1, d.1, d.2),
                };
                cx.case("sizes around blocking thresholds", || format!("{} {:?} {:?}", T::NAME, shape, d), |run| {
                    let (oa, ob, oc) = shape.ops();
                    let s = scalars::<T>();
                    for z in 0..oc.len() {
                        let ops = [oa[(z + q) % oa.len()], ob[(z * 2 + q) % ob.len()], oc[z]];
                        one::<T>(run, shape, ops, d, s[(z + q) % s.len()], s[(z / 2) % s.len()], z, &|a, b, c| val(a, b, c));
                        run.state(hash_of(&ops));
                    }
                    run.trace();
                });
            }
        }
    }
}
fn huge<T: Gemm>(cx: &mut Cx) {
    let full = cx.thorough();
    for shape in [Shape::MM, Shape::MV, Shape::VM] {
        let mut ds = match shape {
            Shape::MM => vec![(70000, 1, 1), (1, 70000, 1), (1, 1, 70000), (4097, 2, 3), (2, 4097, 3), (3, 2, 4097), (300, 3, 257), (257, 300, 2), (104, 104, 104), (130, 130, 130), (140, 260, 101)],
            Shape::MV => vec![(70000, 1, 1), (1, 70000, 1), (4097, 3, 1), (3, 4097, 1), (257, 300, 1)],
            Shape::VM => vec![(1, 1, 70000), (1, 70000, 1), (1, 3, 4097), (1, 4097, 3), (1, 300, 257)],
        };
        if full {
            ds.extend(match shape {
                Shape::MM => vec![(300, 257, 300), (1100, 65, 70), (2, 40000, 2), (40000, 2, 2)],
                Shape::MV => vec![(2, 40000, 1), (40000, 2, 1), (1100, 1100, 1)],
                Shape::VM => vec![(1, 2, 40000), (1, 40000, 2), (1, 1100, 1100)],
            });
        }
        for d in ds {
            let (oa, ob, oc) = shape.ops();
            for z in 0..oc.len() {
                let ops = [oa[z % oa.len()], ob[(2 * z + 1) % ob.len()], oc[z]];
                cx.case("beyond size thresholds", || format!("{} {:?} {:?} {:?}", T::NAME, shape, d, ops), |run| {
                    let s = scalars::<T>();
                    one::<T>(run, shape, ops, d, s[z % s.len()], s[(z / 2) % s.len()], z, &|a, b, c| val(a, b, c));
                    run.state(hash_of(&ops));
                    run.trace();
                });
            }
        }
        let top = cx.pick(4, 6);
        for m in 1..=top {
            for k in 0..=top {
                for n in 1..=top {
                    if shape.admits(m, n) {
                        for salt in 0..if full { 40 } else { 4 } {
                            if k <= 3 {
                                cx.case("all digits and magnitudes", || format!("{} {:?} {:?} {}", T::NAME, shape, (m, k, n), salt), |run| wide::<T>(run, shape, (m, k, n), 31 * salt));
                            }
                        }
                        cx.case("overwritten targets", || format!("{} {:?} {:?}", T::NAME, shape, (m, k, n)), |run| overwritten::<T>(run, shape, (m, k, n)));
                    }
                }
            }
        }
        for d in [(9, 3, 17), (17, 9, 1), (1, 300, 9), (33, 2, 1), (1, 3, 33), (129, 2, 5), (5, 2, 129)] {
            if shape.admits(d.0, d.2) {
                cx.case("overwritten targets", || format!("{} {:?} {:?}", T::NAME, shape, d), |run| overwritten::<T>(run, shape, d));
            }
        }
    }
}
fn pools<T: Gemm>(cx: &mut Cx) {
    for (q, n) in [1, 2, 2, 2, 3].into_iter().enumerate() {
        let depth = if n == 2 { cx.pick(2, 3) } else { 2 };
        for x in 0..TARGETS.len() {
            let kinds = [TARGETS[x], TARGETS[(x + q + 1) % TARGETS.len()], TARGETS[(3 * x + 2 * q + 5) % TARGETS.len()]];
            cx.case("sequences of products", || format!("{} {:?} {}x{} depth {}", T::NAME, kinds, n, n, depth), |run| sequences::<T>(run, kinds, n, depth));
        }
    }
}
fn main() {
    let mut cx = Cx::from_args();
    explore::<f64>(&mut cx);
    explore::<c64>(&mut cx);
    explore::<f32>(&mut cx);
    explore::<c32>(&mut cx);
    huge::<f64>(&mut cx);
    huge::<c64>(&mut cx);
    huge::<f32>(&mut cx);
    huge::<c32>(&mut cx);
    pools::<f64>(&mut cx);
    pools::<c64>(&mut cx);
    pools::<f32>(&mut cx);
    pools::<c32>(&mut cx);
    cx.finish();
}
