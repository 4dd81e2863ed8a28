//! C14: a product writes only its target.
#[macro_use]
#[path = "../gemm.rs"]
mod gemm;
use gemm::*;
use householder::types::{c32, c64};
use householder::*;
use mc::*;

type Mkn = (usize, usize, usize);
fn operands<T: Gemm>(shape: Shape, ops: [Op; 3], (m, k, n): Mkn, gap: T, salt: usize) -> [Opd<T>; 3] {
    let d = shape.dims(m, k, n);
    [
        shape.a(ops[0], d[0], gap, |i, j| val(salt, i, j)),
        shape.b(ops[1], d[1], gap, |i, j| val(salt + 1, i, j)),
        shape.c(ops[2], d[2], gap, |i, j| val(salt + 2, i, j)),
    ]
}
fn scalars<T: Sc>() -> Vec<T> {
    vec![T::of(1.0, 0.0), T::of(0.0, 0.0), T::of(-0.5, 1.0)]
}
/// Everything but the target is bit for bit as before.
fn frame<T: Gemm>(run: &mut Run, shape: Shape, ops: [Op; 3], mkn: Mkn, al: T, be: T, gap: T) {
    let o = operands::<T>(shape, ops, mkn, gap, 3);
    let [a, b, c] = [&o[0], &o[1], &o[2]];
    run.step(|| format!("{:?} {:?} sizes {:?} alpha {:?} beta {:?}", shape, ops, mkn, al, be));
    let f = Frame::new([a, b, c]);
    T::gemm(shape, al, a, b, be, c);
    let e = f.check([a, b, c], false);
    run.eval(e);
    run.transition();
}
fn frames<T: Gemm>(run: &mut Run, shape: Shape, mkn: Mkn, x: Op) {
    let (_, ob, oc) = shape.ops();
    let s = scalars::<T>();
    let gaps = [T::of(f64::NAN, f64::NAN), T::of(-0.0, 4.0), T::of(f64::INFINITY, -7.0)];
    let mut q = mkn.0 + mkn.1 + mkn.2;
    for &y in &ob {
        for &z in &oc {
            for _ in 0..2 {
                frame::<T>(run, shape, [x, y, z], mkn, s[q % 3], s[q / 3 % 3], gaps[q / 9 % 3]);
                q += 1;
            }
            run.state(hash_of(&(x, y, z)));
        }
    }
    run.trace();
}
/// As above for contents that do not survive being scaled, negated or rounded, and scalars of every kind;
/// the factors are separate, or views of one storage.
fn inexact<T: Gemm>(run: &mut Run, shape: Shape, mkn: Mkn, x: Op) {
    let (_, ob, oc) = shape.ops();
    let d = shape.dims(mkn.0, mkn.1, mkn.2);
    let n = |r: f64, i: f64| T::of(r, i);
    let scalars = [n(3.0, 0.0), n(0.7, 0.0), n(0.0, 0.0), n(-1.0, 0.0), n(1e-30, 0.0), n(f64::NAN, 0.0), n(f64::INFINITY, 0.0), n(-0.0, 0.0), n(1.0, 1.0), n(0.1, -0.3), n(1e300, 1e-300)];
    let special = [0.1, -0.0, f64::NAN, 5e-324, -1.0 / 3.0, f64::MAX, 1e-310, 1e-42, f64::NEG_INFINITY, -3e38, 0.7, f64::INFINITY, -1e-30];
    let content = |class: usize, q: usize| match class % 3 {
        0 => n((q * 7 % 23) as f64 / 7.0 - 1.3, (q * 5 % 19) as f64 / 11.0 - 0.9),
        1 => n(special[(q + class) % 13], special[(3 * q + 5 + class) % 13]),
        _ => n((q * 7 % 23) as f64 * 1e-8 + 1.1, -1e9 / (q + 1) as f64),
    };
    let mut q = mkn.0 + 2 * mkn.1 + 3 * mkn.2;
    for &y in &ob {
        for (e, &al) in scalars.iter().enumerate() {
            q += 1;
            let (be, z) = (scalars[(e + q) % 11], oc[q % oc.len()]);
            let (mut a, mut b) = (shape.a(x, d[0], n(0.1, 0.2), |i, j| content(q, i * d[0].1 + j)), shape.b(y, d[1], n(0.3, 0.1), |i, j| content(q + 1, i * d[1].1 + j)));
            if q % 3 == 0 {
                share(&mut a, &mut b, |p| content(q / 3, p));
            }
            let c = shape.c(z, d[2], n(-0.7, 0.4), |i, j| content(q + 2, i * d[2].1 + j));
            run.step(|| format!("{:?} {:?} sizes {:?} alpha {:?} beta {:?} contents {}", shape, (x, y, z), mkn, al, be, q));
            let f = Frame::new([&a, &b, &c]);
            T::gemm(shape, al, &a, &b, be, &c);
            run.eval(f.check([&a, &b, &c], false));
            run.transition();
            run.state(hash_of(&(x, y, e)));
        }
    }
    run.trace();
}
/// Special values at one place of an operand reach only the row, column or element it belongs to.
fn isolation<T: Gemm>(run: &mut Run, shape: Shape, ops: [Op; 3], mkn: Mkn, al: T, be: T) {
    let (m, k, n) = mkn;
    let gap = T::of(f64::NAN, f64::NAN);
    let o = operands::<T>(shape, ops, mkn, gap, 11);
    T::gemm(shape, al, &o[0], &o[1], be, &o[2]);
    let plain: Vec<T> = (0..m * n).map(|q| o[2].at(q / n, q % n)).collect();
    let places = (0..m * k).map(|q| (0, q / k, q % k)).chain((0..k * n).map(|q| (1, q / n, q % n))).chain((0..m * n).map(|q| (2, q / n, q % n)));
    let big = m * k * n > 8000;
    let edge = |i: usize, n: usize| !big || [0, 1, n / 3, n / 2, n.saturating_sub(2), n - 1].contains(&i);
    for (x, i, j) in places {
        let d = o[x].dim;
        if !edge(i, d.0) || !edge(j, d.1) || (big && (i + j + x) % 2 == 1) {
            continue;
        }
        for v in [T::of(f64::NAN, f64::NAN), T::of(f64::INFINITY, 0.0), T::of(1e10, -1e10)] {
            run.step(|| format!("{:?} {:?} sizes {:?} alpha {:?} beta {:?}: {:?} at {:?} of {}", shape, ops, mkn, al, be, v, (i, j), ["A", "B", "C"][x]));
            let o = operands::<T>(shape, ops, mkn, gap, 11);
            o[x].set(i, j, v);
            let f = Frame::new([&o[0], &o[1], &o[2]]);
            T::gemm(shape, al, &o[0], &o[1], be, &o[2]);
            f.check([&o[0], &o[1], &o[2]], false);
            for q in 0..m * n {
                let (r, c) = (q / n, q % n);
                let mine = match x {
                    0 => r == i,
                    1 => c == j,
                    _ => (r, c) == (i, j),
                };
                ensure!(mine || o[2].at(r, c).same(plain[q]), "{:?} at {:?} of {} changes element {:?} of the product from {:?} to {:?} ({:?} {:?} {:?})", v, (i, j), ["A", "B", "C"][x], (r, c), plain[q], o[2].at(r, c), shape, ops, mkn);
            }
            run.eval((m * n) as u64);
            run.transition();
        }
        run.state(hash_of(&(x, i, j)));
    }
    run.trace();
}
/// Products whose target and factors are blocks of one and the same matrix, split in four.
trait Splits: Sc {
    fn in_split(buf: &mut [Self], dim: Dim, at: Dim, prog: &[(usize, usize, usize, Self, Self)]);
}
macro_rules! splits {
    ($($T:ty)*) => {$(
        impl Splits for $T {
            fn in_split(buf: &mut [Self], dim: Dim, at: Dim, prog: &[(usize, usize, usize, Self, Self)]) {
                let mut p = SliceMatrixMut::<$T, RowMajor, Dynamic, Dynamic>::from_data(SliceContainerMut::new(buf), RowMajor::new(dim));
                let (b0, b1, b2, b3) = p.split_in_four_mut(at);
                let mut b = [b0, b1, b2, b3];
                for &(x, y, z, al, be) in prog {
                    let (lo, hi) = b.split_at_mut(z);
                    let (t, hi) = hi.split_first_mut().unwrap();
                    let lo = &*lo;
                    let hi = &*hi;
                    let get = |q: usize| if q < z { &lo[q] } else { &hi[q - z - 1] };
                    <$T>::matmul(al, get(x), get(y), be, t);
                }
            }
        }
    )*};
}
splits!(f32 f64 c32 c64);
fn split_products<T: Gemm + Splits>(run: &mut Run, dim: Dim, at: Dim, depth: usize) {
    let (p, q) = dim;
    let org = [(0, 0), (0, at.1), (at.0, 0), at];
    let d = [at, (at.0, q - at.1), (p - at.0, at.1), (p - at.0, q - at.1)];
    let sc = [(T::of(1.0, 0.0), T::of(1.0, 0.0)), (T::of(-1.0, 1.0), T::of(0.0, 0.0))];
    let mut ops = vec![];
    for z in 0..4 {
        for x in (0..4).filter(|&x| x != z) {
            for y in (0..4).filter(|&y| y != z) {
                if d[x].1 == d[y].0 && d[z] == (d[x].0, d[y].1) {
                    ops.extend(sc.iter().map(|s| (x, y, z, s.0, s.1)));
                }
            }
        }
    }
    if ops.is_empty() {
        return;
    }
    let total = ops.len().pow(depth as u32);
    for code in 0..total {
        let prog: Vec<_> = (0..depth).map(|e| ops[code / ops.len().pow(e as u32) % ops.len()]).collect();
        run.step(|| format!("{:?}", prog));
        let buf = GuardBuf::<T>::new(p * q, |k| T::of((k * 7 % 11) as f64 - 5.0, (k * 5 % 7) as f64 - 3.0));
        let mut model = buf.snapshot();
        T::in_split(unsafe { buf.view() }, dim, at, &prog);
        for &(x, y, z, al, be) in &prog {
            let at = |m: &Vec<T>, b: usize, i: usize, j: usize| m[(org[b].0 + i) * q + org[b].1 + j];
            let old = model.clone();
            for i in 0..d[z].0 {
                for j in 0..d[z].1 {
                    model[(org[z].0 + i) * q + org[z].1 + j] = math(al, &|s| at(&old, x, i, s), &|s| at(&old, y, s, j), d[x].1, be, at(&old, z, i, j));
                }
            }
            run.transition();
        }
        ensure!(buf.guards_ok(), "memory around the matrix was overwritten");
        for k in 0..p * q {
            ensure!(equal(buf.at(k), model[k]), "products {:?} of the blocks of a {:?} matrix split at {:?}: element {:?} is {:?}, expected {:?}", prog, dim, at, (k / q, k % q), buf.at(k), model[k]);
        }
        run.eval((p * q) as u64);
        run.trace();
        run.state(code as u64);
    }
}
fn explore<T: Gemm + Splits>(cx: &mut Cx) {
    let full = cx.thorough();
    for shape in [Shape::MM, Shape::MV, Shape::VM] {
        let top = cx.pick(if shape == Shape::MM { 5 } else { 12 }, if shape == Shape::MM { 7 } else { 20 });
        let mut ds: Vec<Mkn> = vec![];
        for m in 0..=top {
            for k in 0..=top {
                for n in 0..=top {
                    ds.push((m, k, n));
                }
            }
        }
        ds.extend([(9, 5, 17), (17, 9, 1), (1, 9, 17), (33, 3, 1), (1, 3, 33), (8, 8, 8), (16, 4, 12), (2, 1, 8), (8, 1, 2), (8, 2, 8), (1, 1, 9), (9, 1, 1), (2, 9, 2)]);
        if full {
            ds.extend([(65, 3, 9), (9, 257, 5), (5, 3, 129), (129, 2, 1), (1, 2, 129), (3, 3, 1030)]);
        }
        for mkn in ds {
            if !shape.admits(mkn.0, mkn.2) {
                continue;
            }
            for x in shape.ops().0 {
                cx.case("frames", || format!("{} {:?} {:?} first operand {:?}", T::NAME, shape, mkn, x), |run| frames::<T>(run, shape, mkn, x));
            }
            if mkn.0.max(mkn.1).max(mkn.2) <= cx.pick(3, 5) || mkn.0.max(mkn.1).max(mkn.2) > 5 {
                for x in shape.ops().0 {
                    cx.case("frames of contents that do not survive arithmetic", || format!("{} {:?} {:?} first operand {:?}", T::NAME, shape, mkn, x), |run| inexact::<T>(run, shape, mkn, x));
                }
            }
            if mkn.0 * mkn.1 * mkn.2 > 0 && mkn.0.max(mkn.1).max(mkn.2) <= cx.pick(17, 40) {
                let (oa, ob, oc) = shape.ops();
                for z in 0..oc.len() {
                    let ops = [oa[(z + mkn.0) % oa.len()], ob[(2 * z + mkn.1) % ob.len()], oc[z]];
                    let s = scalars::<T>();
                    for (al, be) in [(s[0], s[0]), (s[2], s[2]), (s[1], s[0])] {
                        cx.case("isolation", || format!("{} {:?} {:?} {:?} {:?}", T::NAME, shape, mkn, ops, (al, be)), |run| isolation::<T>(run, shape, ops, mkn, al, be));
                    }
                }
            }
        }
    }
    for shape in [Shape::MM, Shape::MV, Shape::VM] {
        let mut ds: Vec<Mkn> = match shape {
            Shape::MM => vec![(70000, 1, 1), (1, 70000, 1), (1, 1, 70000), (4097, 2, 3), (3, 2, 4097), (257, 3, 300)],
            Shape::MV => vec![(70000, 1, 1), (1, 70000, 1), (4097, 3, 1)],
            Shape::VM => vec![(1, 1, 70000), (1, 70000, 1), (1, 3, 4097)],
        };
        if full {
            ds.extend(match shape {
                Shape::MM => vec![(1100, 65, 70), (2, 40000, 2), (40000, 2, 2)],
                Shape::MV => vec![(2, 40000, 1), (40000, 2, 1)],
                Shape::VM => vec![(1, 2, 40000), (1, 40000, 2)],
            });
        }
        for mkn in ds {
            let (oa, ob, oc) = shape.ops();
            for z in 0..oc.len() {
                let ops = [oa[(z + mkn.0) % oa.len()], ob[(2 * z + mkn.1) % ob.len()], oc[z]];
                cx.case("frames beyond size thresholds", || format!("{} {:?} {:?} {:?}", T::NAME, shape, mkn, ops), |run| {
                    let s = scalars::<T>();
                    for gap in [T::of(f64::NAN, f64::NAN), T::of(-0.0, 4.0)] {
                        frame::<T>(run, shape, ops, mkn, s[z % 3], s[z / 3 % 3], gap);
                        run.state(hash_of(&(ops, mkn, gap.bits())));
                    }
                    run.trace();
                });
            }
        }
    }
    let top = cx.pick(4, 6);
    for mkn in [(104, 103, 102), (130, 130, 130), (65, 2, 130), (130, 257, 3), (3, 300, 65), (260, 1, 70), (1, 513, 1), (513, 3, 1), (1, 3, 513)] {
        for shape in [Shape::MM, Shape::MV, Shape::VM] {
            if !shape.admits(mkn.0, mkn.2) {
                continue;
            }
            let (oa, ob, oc) = shape.ops();
            for z in 0..if full { oc.len() } else { 3 } {
                let ops = [oa[(5 * z + mkn.0) % oa.len()], ob[(2 * z + mkn.1) % ob.len()], oc[(4 * z + mkn.2) % oc.len()]];
                let s = scalars::<T>();
                let (al, be) = [(s[0], s[0]), (s[2], s[2]), (s[0], s[1])][z % 3];
                cx.case("isolation beyond size thresholds", || format!("{} {:?} {:?} {:?} {:?}", T::NAME, shape, mkn, ops, (al, be)), |run| isolation::<T>(run, shape, ops, mkn, al, be));
            }
        }
    }
    for p in 0..=top {
        for q in 0..=top {
            for r in 0..=p {
                for c in 0..=q {
                    for depth in 1..=2 {
                        cx.case("products inside a split matrix", || format!("{} {:?} at {:?} depth {}", T::NAME, (p, q), (r, c), depth), |run| split_products::<T>(run, (p, q), (r, c), depth));
                    }
                }
            }
        }
    }
}
fn main() {
    let mut cx = Cx::from_args();
    explore::<f64>(&mut cx);
    explore::<c64>(&mut cx);
    explore::<f32>(&mut cx);
    explore::<c32>(&mut cx);
    cx.finish();
}
