//! C22: products of inexact floating-point data stay within the standard rounding-error bound.
//!
//! The contents are values whose products and sums are not representable; the reference value is
//! computed with twice the working precision of f64, so that its own error is negligible in every bound.
#[macro_use]
#[path = "../gemm.rs"]
mod gemm;
use gemm::*;
use householder::types::{c32, c64};
use mc::*;

/// An unevaluated sum of two doubles.
#[derive(Clone, Copy)]
struct Dd(f64, f64);
fn split(a: f64) -> (f64, f64) {
    let t = 134217729.0 * a;
    let h = t - (t - a);
    (h, a - h)
}
fn two_prod(a: f64, b: f64) -> Dd {
    let p = a * b;
    let ((ah, al), (bh, bl)) = (split(a), split(b));
    Dd(p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}
fn two_sum(a: f64, b: f64) -> Dd {
    let s = a + b;
    let z = s - a;
    Dd(s, (a - (s - z)) + (b - z))
}
impl Dd {
    fn add(self, o: Dd) -> Dd {
        let s = two_sum(self.0, o.0);
        let t = two_sum(self.1, o.1);
        let s = two_sum(s.0, s.1 + t.0);
        two_sum(s.0, s.1 + t.1)
    }
    fn neg(self) -> Dd {
        Dd(-self.0, -self.1)
    }
    fn times(self, x: f64) -> Dd {
        let p = two_prod(self.0, x);
        let q = two_prod(self.1, x);
        let s = two_sum(p.0, p.1 + q.0);
        two_sum(s.0, s.1 + q.1)
    }
}
type Cd = (Dd, Dd);
fn cmul(x: Cd, y: (f64, f64)) -> Cd {
    (x.0.times(y.0).add(x.1.times(y.1).neg()), x.0.times(y.1).add(x.1.times(y.0)))
}
const Z: Dd = Dd(0.0, 0.0);
fn mag(x: (f64, f64)) -> f64 {
    x.0.abs() + x.1.abs()
}
fn single<T: Sc>() -> bool {
    std::mem::size_of::<T>() == if T::COMPLEX { 8 } else { 4 }
}
/// The value of one element of the target, and the bound for its error.
fn reference<T: Sc>(alpha: T, a: &dyn Fn(usize) -> T, b: &dyn Fn(usize) -> T, k: usize, beta: T, c: T) -> (Cd, f64) {
    let (mut s, mut sum): (Cd, f64) = ((Z, Z), 0.0);
    for p in 0..k {
        let (x, y) = (a(p).parts(), b(p).parts());
        if T::COMPLEX {
            let t = cmul((Dd(x.0, 0.0), Dd(x.1, 0.0)), y);
            s = (s.0.add(t.0), s.1.add(t.1));
        } else {
            s.0 = s.0.add(two_prod(x.0, y.0));
        }
        sum += mag(x) * mag(y);
    }
    let v = cmul(s, alpha.parts());
    let (c, beta, alpha) = (c.parts(), beta.parts(), alpha.parts());
    let w = if beta == (0.0, 0.0) { (Z, Z) } else { cmul((Dd(c.0, 0.0), Dd(c.1, 0.0)), beta) };
    let mut abs = mag(alpha) * sum;
    if beta != (0.0, 0.0) {
        abs += mag(beta) * mag(c);
    }
    let u = if single::<T>() { 2f64.powi(-24) } else { 2f64.powi(-53) };
    ((v.0.add(w.0), v.1.add(w.1)), if T::COMPLEX { 4.0 } else { 2.0 } * (k as f64 + 8.0) * u * abs)
}
fn within(v: Cd, bound: f64, x: (f64, f64)) -> bool {
    let e = |d: Dd, x: f64| (d.add(Dd(-x, 0.0))).0.abs();
    x.0.is_finite() && x.1.is_finite() && e(v.0, x.0) <= bound && e(v.1, x.1) <= bound
}
/// Values whose arithmetic rounds, with mixed signs and magnitudes; cancellation is frequent.
fn alphabet<T: Sc>(n: usize) -> Vec<T> {
    let (eps, third, big) = if single::<T>() { (2f64.powi(-23), (1f32 / 3.0) as f64, 16777213.0 * 64.0) } else { (2f64.powi(-52), 1.0 / 3.0, 9007199254740989.0 * 64.0) };
    let r: [f64; 12] = [
        third,
        -(1.0 + eps),
        if single::<T>() { 0.1f32 as f64 } else { 0.1 },
        1.0 - eps,
        -big,
        if single::<T>() { -0.7f32 as f64 } else { -0.7 },
        big * (1.0 - eps),
        third * 2f64.powi(-20),
        if single::<T>() { std::f32::consts::PI as f64 } else { std::f64::consts::PI },
        -1.0,
        if single::<T>() { -1.0e6f32 as f64 / 3.0 } else { -1.0e12 / 3.0 },
        0.0,
    ];
    // rounded to the working precision by `of`
    (0..n).map(|q| if T::COMPLEX { T::of(r[q % 12], r[(5 * q + 1) % 12]) } else { T::of(r[q % 12], 0.0) }).collect()
}
fn scalars<T: Sc>() -> Vec<T> {
    let mut v: Vec<T> = [1.0, 0.0, -1.0, 0.1, -3.7, 1.0 / 3.0].into_iter().map(|x| T::of(x, 0.0)).collect();
    if T::COMPLEX {
        v.extend([T::of(0.1, -0.7), T::of(0.0, 1.0 / 3.0), T::of(-1.0, 1e-3)]);
    }
    v
}
#[allow(clippy::too_many_arguments)]
fn one<T: Gemm>(run: &mut Run, shape: Shape, ops: [Op; 3], (m, k, n): (usize, usize, usize), al: T, be: T, fa: &dyn Fn(usize, usize) -> T, fb: &dyn Fn(usize, usize) -> T, fc: &dyn Fn(usize, usize) -> T) {
    let d = shape.dims(m, k, n);
    let nan = T::of(f64::NAN, f64::NAN);
    let (a, b, c) = (shape.a(ops[0], d[0], nan, fa), shape.b(ops[1], d[1], nan, fb), shape.c(ops[2], d[2], nan, fc));
    let old: Vec<T> = (0..m * n).map(|q| c.at(q / n, q % n)).collect();
    run.step(|| format!("{:?} {:?} sizes {:?} alpha {:?} beta {:?}", shape, ops, (m, k, n), al, be));
    T::gemm(shape, al, &a, &b, be, &c);
    // plain arrays: the reference is evaluated often
    let av: Vec<T> = (0..m * k).map(|q| a.at(q / k, q % k)).collect();
    let bv: Vec<T> = (0..k * n).map(|q| b.at(q / n, q % n)).collect();
    for q in 0..m * n {
        let (i, j) = (q / n, q % n);
        let (want, bound) = reference(al, &|p| av[i * k + p], &|p| bv[p * n + j], k, be, old[q]);
        let x = c.at(i, j);
        ensure!(within(want, bound, x.parts()), "element {:?} of the product ({:?} {:?}, m, k, n = {:?}, alpha {:?}, beta {:?}) is {:?}, but the value is {:e}, {:e} with an error of at most {:e}",
            (i, j), shape, ops, (m, k, n), al, be, x, want.0 .0, want.1 .0, bound);
    }
    run.eval((m * n) as u64);
    run.transition();
}
fn pick<T: Sc>(al: &[T], salt: usize, i: usize, j: usize) -> T {
    al[(hash_of(&(salt, i, j)) >> 7) as usize % al.len()]
}
fn fill<T: Gemm>(run: &mut Run, shape: Shape, ops: [Op; 3], d: (usize, usize, usize), al: T, be: T, salt: usize) {
    let v = alphabet::<T>(11);
    one::<T>(run, shape, ops, d, al, be, &|i, j| pick(&v, salt, i, j), &|i, j| pick(&v, salt + 1, i, j), &|i, j| pick(&v, salt + 2, i, j));
}
/// All k-tuples over the alphabet as rows of the left factor, all as columns of the right one.
fn all_dots<T: Gemm>(run: &mut Run, k: usize, size: usize, al: T, be: T, ops: [Op; 3]) {
    let v = alphabet::<T>(size);
    let rows = size.pow(k as u32);
    let digit = |x: usize, p: usize| v[x / size.pow(p as u32) % size];
    one::<T>(run, Shape::MM, ops, (rows, k, rows), al, be, &|i, p| digit(i, p), &|p, j| digit(j, p), &|i, j| v[(i + 3 * j) % size]);
    run.state(hash_of(&(k, size, ops, al.bits(), be.bits())));
    run.trace();
}
/// Every content of small factors, one product each.
fn all_contents<T: Gemm>(run: &mut Run, shape: Shape, (m, k, n): (usize, usize, usize), size: usize, part: usize) {
    let v = alphabet::<T>(size);
    let s = scalars::<T>();
    let (oa, ob, oc) = shape.ops();
    let (na, nb) = (m * k, k * n);
    for code in (part..size.pow((na + nb) as u32)).step_by(8) {
        let digit = |q: usize| v[code / size.pow(q as u32) % size];
        let ops = [oa[code % oa.len()], ob[code / 3 % ob.len()], oc[code / 7 % oc.len()]];
        one::<T>(run, shape, ops, (m, k, n), s[code / 5 % s.len()], s[code / 8 % s.len()], &|i, j| digit(i * k + j), &|i, j| digit(na + i * n + j), &|i, j| v[(i + j) % size]);
        run.state(code as u64);
    }
    run.trace();
}
fn explore<T: Gemm>(cx: &mut Cx) {
    let full = cx.thorough();
    let s = scalars::<T>();
    for shape in [Shape::MM, Shape::MV, Shape::VM] {
        let (oa, ob, oc) = shape.ops();
        let top = cx.pick(if shape == Shape::MM { 7 } else { 16 }, if shape == Shape::MM { 10 } else { 30 });
        for m in 1..=top {
            for k in 0..=top {
                for n in 1..=top {
                    if !shape.admits(m, n) {
                        continue;
                    }
                    cx.case("operand kinds", || format!("{} {:?} {:?}", T::NAME, shape, (m, k, n)), |run| {
                        let mut q = m + 3 * k + 5 * n;
                        for &x in &oa {
                            for &z in &oc {
                                q += 1;
                                fill::<T>(run, shape, [x, ob[q % ob.len()], z], (m, k, n), s[q % s.len()], s[(q / s.len()) % s.len()], q);
                                run.state(hash_of(&(x, z, q)));
                            }
                        }
                        run.trace();
                    });
                    cx.case("scalars", || format!("{} {:?} {:?}", T::NAME, shape, (m, k, n)), |run| {
                        for (q, &al) in s.iter().enumerate() {
                            for (r, &be) in s.iter().enumerate() {
                                for z in 0..if full { oc.len() } else { 2 } {
                                    let z = z * 5 + q + r;
                                    fill::<T>(run, shape, [oa[z % oa.len()], ob[(z / 2) % ob.len()], oc[z % oc.len()]], (m, k, n), al, be, z);
                                    run.state(hash_of(&(q, r, z)));
                                }
                            }
                        }
                        run.trace();
                    });
                }
            }
        }
        let sizes: Vec<((usize, usize, usize), usize)> = match shape {
            Shape::MM => vec![((1, 1, 1), 11), ((1, 2, 1), 11), ((2, 1, 2), 10), ((2, 2, 1), 5), ((1, 2, 2), 5), ((2, 2, 2), 3), ((1, 3, 1), 6), ((1, 4, 1), 4), ((1, 5, 1), 3)],
            Shape::MV => vec![((1, 1, 1), 11), ((1, 2, 1), 10), ((2, 2, 1), 5), ((1, 3, 1), 6), ((1, 4, 1), 4)],
            Shape::VM => vec![((1, 1, 1), 11), ((1, 2, 1), 10), ((1, 2, 2), 5), ((1, 3, 1), 6), ((1, 4, 1), 4)],
        };
        for (d, b) in sizes {
            let b = if full && d.0 * d.1 * d.2 > 1 { b + 1 } else { b };
            for part in 0..8 {
                cx.case("all contents", || format!("{} {:?} {:?} over {} values, part {}", T::NAME, shape, d, b, part), |run| all_contents::<T>(run, shape, d, b, part));
            }
        }
        // sizes around and beyond the places where the implementation changes its blocking
        let edges: Vec<usize> = if full { (7..=9).chain(15..=17).chain(31..=33).chain(63..=65).chain(127..=129).chain(255..=258).chain([511, 512, 513, 1023, 1024, 1025, 2049]).collect() }
            else { vec![8, 16, 17, 33, 64, 65, 128, 129, 256, 257, 513, 1025] };
        for (q, &e) in edges.iter().enumerate() {
            let (u, v) = ([1, 2, 5][q % 3], [3, 9, 1][q % 3]);
            let mut ds = vec![(e, u, v), (u, e, v), (u, v, e), (1, e, 1)];
            if e <= if full { 300 } else { 65 } {
                ds.push((e, e, e));
            }
            for d in ds {
                let d = match shape {
                    Shape::MM => d,
                    Shape::MV => (d.0, d.1, 1),
                    Shape::VM => (1, d.1, d.2),
                };
                cx.case("sizes around blocking thresholds", || format!("{} {:?} {:?}", T::NAME, shape, d), |run| {
                    let big = d.0 * d.1 * d.2 > 1 << 20;
                    for z in 0..if big { 2 } else { oc.len() } {
                        let ops = [oa[(z + q) % oa.len()], ob[(z * 2 + q) % ob.len()], oc[(z + q) % oc.len()]];
                        fill::<T>(run, shape, ops, d, s[(z + q) % s.len()], s[(z / 2) % s.len()], z);
                        run.state(hash_of(&(z, ops)));
                    }
                    run.trace();
                });
            }
        }
        for d in [(130, 130, 130), (260, 257, 70), (70, 300, 260), (70000, 1, 1), (1, 70000, 1), (1, 1, 70000), (3, 5000, 2), (5000, 3, 2), (2, 3, 5000)] {
            if !(shape == Shape::MM || shape == Shape::MV || d.0 <= 130) {
                continue;
            }
            let d = match shape {
                Shape::MM => d,
                Shape::MV => (d.0, d.1, 1),
                Shape::VM => (1, d.1, d.2),
            };
            for z in 0..if full { oc.len() } else { 2 } {
                cx.case("beyond size thresholds", || format!("{} {:?} {:?} {}", T::NAME, shape, d, z), |run| {
                    let ops = [oa[(3 * z) % oa.len()], ob[(z * 2 + 1) % ob.len()], oc[(5 * z + 1) % oc.len()]];
                    fill::<T>(run, shape, ops, d, s[(z + 3) % s.len()], s[z % s.len()], z);
                    run.trace();
                    run.state(hash_of(&ops));
                });
            }
        }
    }
    for (k, size) in if full { vec![(1, 12), (2, 11), (3, 8), (4, 5)] } else { vec![(1, 12), (2, 11), (3, 7)] } {
        for (q, &al) in s.iter().enumerate() {
            for (r, &be) in s.iter().enumerate() {
                if !full && k == 3 && (q + r) % 3 != 0 {
                    continue;
                }
                let ops = [FACTORS[(q + r) % 12], FACTORS[(q + 2 * r + 3) % 12], TARGETS[(3 * q + r) % 13]];
                cx.case("all inner products", || format!("{} {} terms over {} values, alpha {:?} beta {:?}", T::NAME, k, size, al, be), |run| all_dots::<T>(run, k, size, al, be, ops));
            }
        }
    }
}
/// Scalars so different in magnitude that nothing but the terms of the definition may be formed from them.
fn magnitudes<T: Gemm>(cx: &mut Cx) {
    let e = if single::<T>() { 80 } else { 640 };
    let third = 1.0 / 3.0;
    let mut s: Vec<T> = [1.0, third * 2f64.powi(e), third * 2f64.powi(-e), -2f64.powi(e / 2), 0.0].into_iter().map(|x| T::of(x, 0.0)).collect();
    if T::COMPLEX {
        s.extend([T::of(2f64.powi(e), third * 2f64.powi(-e)), T::of(0.0, -third * 2f64.powi(e)), T::of(0.1 * 2f64.powi(-e), -0.7 * 2f64.powi(-e))]);
    }
    let v: Vec<T> = alphabet::<T>(11).into_iter().filter(|x| mag(x.parts()) > 0.05 && mag(x.parts()) < 10.0).collect();
    let full = cx.thorough();
    let cx_data = cx.pick(4, 16);
    for shape in [Shape::MM, Shape::MV, Shape::VM] {
        let (oa, ob, oc) = shape.ops();
        let top = cx.pick(4, 7);
        let mut ds: Vec<(usize, usize, usize)> = (1..=top).flat_map(|m| (0..=top).flat_map(move |k| (1..=top).map(move |n| (m, k, n)))).collect();
        ds.extend([(9, 1, 9), (9, 3, 17), (17, 9, 1), (1, 9, 17), (5, 0, 2), (70, 2, 70), (1, 300, 1), (300, 1, 1), (1, 1, 300), (33, 33, 33)]);
        for (m, k, n) in ds {
            if !shape.admits(m, n) {
                continue;
            }
            cx.case("magnitudes of the data", || format!("{} {:?} {:?}", T::NAME, shape, (m, k, n)), |run| {
                let by = |v: T, x: i32| {
                    let (re, im) = v.parts();
                    T::of(re * 2f64.powi(x), im * 2f64.powi(x))
                };
                let plain = scalars::<T>();
                // term p is a product of a huge and a tiny factor; the old target is huge or tiny, its scalar the opposite
                for z in 0..cx_data {
                    for (be, ec) in [(T::of(0.1, 0.0), e), (T::of(-0.3 * 2f64.powi(e), 0.0), -e), (T::of(2f64.powi(-e), 0.0), e), (T::of(0.0, 0.0), e), (T::of(1.0, 0.0), -e)] {
                        let ep = move |p: usize| match z % 4 {
                            0 => e,
                            1 => -e,
                            2 if p % 2 == 0 => e,
                            2 => -e,
                            _ if p % 3 == 1 => e / 2,
                            _ => -e,
                        };
                        let ops = [oa[(m + 2 * z) % oa.len()], ob[(n + z) % ob.len()], oc[(k + m + z) % oc.len()]];
                        let al = plain[[0, 2, 3, 4, 5][(z + m + n) % 5]];
                        one::<T>(run, shape, ops, (m, k, n), al, be, &|i, p| by(pick(&v, z, i, p), ep(p)), &|p, j| by(pick(&v, z + 9, p, j), -ep(p)), &|i, j| by(pick(&v, z + 20, i, j), ec));
                        run.state(hash_of(&(z, ec, be.bits(), ops)));
                    }
                }
                run.trace();
            });
            cx.case("magnitudes of the scalars", || format!("{} {:?} {:?}", T::NAME, shape, (m, k, n)), |run| {
                for (q, &al) in s.iter().enumerate() {
                    for (r, &be) in s.iter().enumerate() {
                        for z in 0..if full { oc.len() } else { 3 } {
                            let ops = [oa[(q + 2 * z) % oa.len()], ob[(r + z) % ob.len()], oc[(q + r + z) % oc.len()]];
                            one::<T>(run, shape, ops, (m, k, n), al, be, &|i, j| pick(&v, z, i, j), &|i, j| pick(&v, z + 9, i, j), &|i, j| pick(&v, q + 20, i, j));
                            run.state(hash_of(&(q, r, ops)));
                        }
                    }
                }
                run.trace();
            });
        }
    }
}
/// The allocating product.
fn dot(cx: &mut Cx) {
    let full = cx.thorough();
    for shape in [Shape::MM, Shape::MV, Shape::VM] {
        let (oa, ob, _) = shape.ops();
        let top = cx.pick(if shape == Shape::MM { 7 } else { 20 }, if shape == Shape::MM { 11 } else { 60 });
        let mut ds = vec![(64, 65, 33), (130, 130, 130), (257, 3, 260), (1, 5000, 1), (300, 300, 20)];
        for m in 1..=top {
            for k in 0..=top {
                for n in 1..=top {
                    ds.push((m, k, n));
                }
            }
        }
        for d in ds {
            let big = d.0.max(d.1).max(d.2) > top;
            let d = match shape {
                Shape::MM => d,
                Shape::MV if big || d.2 == 1 => (d.0, d.1, 1),
                Shape::VM if big || d.0 == 1 => (1, d.1, d.2),
                _ => continue,
            };
            cx.case("allocating products", || format!("{:?} {:?}", shape, d), |run| {
                let v = alphabet::<f64>(11);
                let (m, k, n) = d;
                for (x, &opa) in oa.iter().enumerate() {
                    for (y, &opb) in ob.iter().enumerate() {
                        if (big || !full) && (x + y) % 5 != 0 || big && (x + y) % 10 != 0 {
                            continue;
                        }
                        let a = shape.a(opa, (m, k), f64::NAN, |i, j| pick(&v, x, i, j));
                        let b = shape.b(opb, (k, n), f64::NAN, |i, j| pick(&v, y + 50, i, j));
                        run.step(|| format!("{:?} {:?} x {:?} sizes {:?}", shape, opa, opb, d));
                        dots(shape, &a, &b, &mut |r| {
                            for i in 0..m {
                                for j in 0..n {
                                    let (want, bound) = reference(1.0, &|p| a.at(i, p), &|p| b.at(p, j), k, 0.0, 0.0);
                                    let x = r.view().v_get(i, j);
                                    ensure!(within(want, bound, (x, 0.0)), "element {:?} of the allocated product ({:?} {:?} x {:?}, m, k, n = {:?}) is {:e}, but the value is {:e} with an error of at most {:e}", (i, j), shape, opa, opb, d, x, want.0 .0, bound);
                                }
                            }
                        });
                        run.eval((m * n) as u64);
                        run.transition();
                        run.state(hash_of(&(opa, opb)));
                    }
                }
                run.trace();
            });
        }
    }
}
fn main() {
    let mut cx = Cx::from_args();
    dot(&mut cx);
    explore::<f64>(&mut cx);
    explore::<c64>(&mut cx);
    explore::<f32>(&mut cx);
    explore::<c32>(&mut cx);
    magnitudes::<f64>(&mut cx);
    magnitudes::<c64>(&mut cx);
    magnitudes::<f32>(&mut cx);
    magnitudes::<c32>(&mut cx);
    cx.finish();
}
