//! C15: the dot product allocates a correct, fresh product.
#[macro_use]
#[path = "../gemm.rs"]
mod gemm;
use gemm::*;
use mc::*;

type Mkn = (usize, usize, usize);
fn model(shape: Shape, a: &Opd<f64>, b: &Opd<f64>) -> Model<f64> {
    let (m, k, n) = (a.dim.0, a.dim.1, b.dim.1);
    let lay = RefLayout::packed(if shape == Shape::MV { Order::Col } else { Order::Row }, (m, n));
    let store: Vec<f64> = lay.positions().iter().map(|&(i, j)| math(1.0, &|p| a.at(i, p), &|p| b.at(p, j), k, 0.0, 0.0)).collect();
    let window = store.len();
    Model { lay, store, base: 0, window }
}
/// As `check_obj`, but zeros of either sign are the same number.
fn check(run: &mut Run, o: &dyn Obj<f64>, m: &Model<f64>, what: &str) {
    let v = o.view();
    ensure!(v.v_dim() == m.lay.dim && v.v_n() == m.lay.len(), "{}: dimension {:?}, {} elements, expected {:?}", what, v.v_dim(), v.v_n(), m.lay.dim);
    for k in 0..m.lay.len() {
        let (i, j) = m.lay.pos(k);
        for x in [v.v_get(i, j), v.v_get1(k), unsafe { v.v_getu(i, j) }, unsafe { v.v_getu1(k) }, o.slice_(0, m.window)[k]] {
            ensure!(equal(x, m.at(k)), "{}: element {:?} is {:?}, expected {:?}", what, (i, j), x, m.at(k));
        }
    }
    run.eval(5 * m.lay.len() as u64 + 1);
}
fn operands(shape: Shape, ops: [Op; 2], (m, k, n): Mkn, salt: usize) -> [Opd<f64>; 2] {
    [shape.a(ops[0], (m, k), f64::NAN, |i, j| val(salt, i, j)), shape.b(ops[1], (k, n), f64::NAN, |i, j| val(salt + 1, i, j))]
}
fn one(run: &mut Run, shape: Shape, ops: [Op; 2], mkn: Mkn, salt: usize) {
    let o = operands(shape, ops, mkn, salt);
    let none = Opd::matrix(Op::Row, (0, 0), 0.0, |_, _| 0.0);
    let f = Frame::new([&o[0], &o[1], &none]);
    let m = model(shape, &o[0], &o[1]);
    run.step(|| format!("{:?} {:?} {:?}", shape, ops, mkn));
    dots(shape, &o[0], &o[1], &mut |r| {
        check(run, r, &m, "product");
        f.check([&o[0], &o[1], &none], true);
        // overwrite the operands: the result stays; a second product sees the new values
        for x in &o {
            for i in 0..x.dim.0 {
                for j in 0..x.dim.1 {
                    x.set(i, j, val(salt + 5, j, i));
                }
            }
        }
        let m2 = model(shape, &o[0], &o[1]);
        check(run, r, &m, "product after its operands changed");
        dots(shape, &o[0], &o[1], &mut |r2| {
            check(run, r2, &m2, "second product");
            // overwrite the first result
            for k in 0..m.lay.len() {
                *r.get1_mut_(k) = 1e9 + k as f64;
            }
            check(run, r2, &m2, "second product after the first one changed");
            let mut m3 = m.clone();
            for k in 0..m.lay.len() {
                *r2.get1_mut_(k) = -7.5;
                m3.set(k, 1e9 + k as f64);
            }
            check(run, r, &m3, "first product after the second one changed");
        });
        dots(shape, &o[0], &o[1], &mut |r3| check(run, r3, &m2, "third product"));
    });
    run.transition();
    run.trace();
    run.state(hash_of(&(ops, mkn)));
}
/// Factors that are views of one storage, or one object.
fn shared(run: &mut Run, shape: Shape, (m, k, n): Mkn, x: Op) {
    let none = Opd::matrix(Op::Row, (0, 0), 0.0, |_, _| 0.0);
    for &y in &shape.ops().1 {
        let [mut a, mut b] = operands(shape, [x, y], (m, k, n), 0);
        share(&mut a, &mut b, |p| val(m + n, p, 1));
        let mo = model(shape, &a, &b);
        let f = Frame::new([&a, &b, &none]);
        run.step(|| format!("{:?} {:?} {:?} on one storage", shape, (x, y), (m, k, n)));
        for _ in 0..2 {
            dots(shape, &a, &b, &mut |r| check(run, r, &mo, "product of two views of one storage"));
            run.transition();
        }
        if shape == Shape::MM && x == y && m == k && k == n {
            dots_self(&a, &mut |r| check(run, r, &mo, "product of an object with itself"));
            run.transition();
        }
        f.check([&a, &b, &none], true);
        run.state(hash_of(&(x, y)));
    }
    run.trace();
}
/// Products between products of other shapes.
fn sequences(run: &mut Run, jobs: &[(Shape, [Op; 2], Mkn)]) {
    for &(s1, o1, d1) in jobs {
        for &(s2, o2, d2) in jobs {
            let (a, b) = (operands(s1, o1, d1, 3), operands(s2, o2, d2, 8));
            let (ma, mb) = (model(s1, &a[0], &a[1]), model(s2, &b[0], &b[1]));
            dots(s1, &a[0], &a[1], &mut |r1| {
                dots(s2, &b[0], &b[1], &mut |r2| {
                    check(run, r2, &mb, "inner product");
                    check(run, r1, &ma, "outer product");
                    dots(s1, &a[0], &a[1], &mut |r3| check(run, r3, &ma, "repeated product"));
                });
                check(run, r1, &ma, "outer product afterwards");
            });
            run.transition();
            run.trace();
            run.state(hash_of(&(o1, d1, o2, d2)));
        }
    }
}
fn contents(run: &mut Run, shape: Shape, (m, k, n): Mkn, al: &[f64], part: usize, parts: usize) {
    let (na, nb) = (m * k, k * n);
    let (oa, ob, _) = shape.ops();
    for code in (part..al.len().pow((na + nb) as u32)).step_by(parts) {
        let digit = |q: usize| al[code / al.len().pow(q as u32) % al.len()];
        let a = shape.a(oa[code % oa.len()], (m, k), f64::NAN, |i, j| digit(i * k + j));
        let b = shape.b(ob[code / 3 % ob.len()], (k, n), f64::NAN, |i, j| digit(na + i * n + j));
        let mo = model(shape, &a, &b);
        dots(shape, &a, &b, &mut |r| check(run, r, &mo, "product"));
        run.transition();
        run.state(code as u64);
    }
    run.trace();
}
/// Contents that use all digits, at several magnitudes; everything stays exact.
fn wide(run: &mut Run, shape: Shape, (m, k, n): Mkn, salt: usize) {
    let int = |bits: u32, salt: usize, i: usize, j: usize| {
        let h = hash_of(&(salt, i, j));
        let x = (h % (1 << bits) | 1) as f64;
        if h >> 40 & 1 == 1 { -x } else { x }
    };
    let (oa, ob, _) = shape.ops();
    let mut q = salt;
    for (wa, wb) in [(32, 18), (18, 32), (25, 25)] {
        for ea in [-300, 0, 300] {
            for eb in [-300, 0, 300] {
                q += 1;
                let fa = |i: usize, j: usize| int(wa, salt, i, j);
                let fb = |i: usize, j: usize| int(wb, salt + 1, i, j);
                let a = shape.a(oa[q % oa.len()], (m, k), f64::NAN, |i, j| fa(i, j) * 2f64.powi(ea));
                let b = shape.b(ob[q / 3 % ob.len()], (k, n), f64::NAN, |i, j| fb(i, j) * 2f64.powi(eb));
                let lay = RefLayout::packed(if shape == Shape::MV { Order::Col } else { Order::Row }, (m, n));
                let store: Vec<f64> = lay.positions().iter().map(|&(i, j)| math(1.0, &|p| fa(i, p), &|p| fb(p, j), k, 0.0, 0.0) * 2f64.powi(ea + eb)).collect();
                let window = store.len();
                let mo = Model { lay, store, base: 0, window };
                run.step(|| format!("{:?} sizes {:?} digits {:?} exponents {:?}", shape, (m, k, n), (wa, wb), (ea, eb)));
                dots(shape, &a, &b, &mut |r| check(run, r, &mo, "product"));
                run.transition();
                run.state(hash_of(&(salt, ea, eb, wa)));
            }
        }
    }
    run.trace();
}
fn main() {
    let mut cx = Cx::from_args();
    let full = cx.thorough();
    for shape in [Shape::MM, Shape::MV, Shape::VM] {
        let top = if shape == Shape::MM { cx.pick(11, 16) } else { cx.pick(40, 90) };
        for m in 0..=top {
            for k in 0..=top {
                for n in 0..=top {
                    if !shape.admits(m, n) {
                        continue;
                    }
                    cx.case("all dimensions", || format!("{:?} {:?}", shape, (m, k, n)), |run| {
                        let (oa, ob, _) = shape.ops();
                        for &x in &oa {
                            for &y in &ob {
                                one(run, shape, [x, y], (m, k, n), m + k + n);
                            }
                        }
                    });
                }
            }
        }
        let top = cx.pick(5, 8);
        let mut ds: Vec<Mkn> = (0..(top + 1usize).pow(3)).map(|q| (q % (top + 1), q / (top + 1) % (top + 1), q / (top + 1).pow(2))).collect();
        ds.extend([(9, 9, 9), (17, 17, 17), (33, 33, 33), (65, 65, 65), (130, 130, 130), (17, 3, 17), (3, 40, 3), (33, 33, 1), (1, 33, 33), (1, 40, 1)]);
        for d in ds {
            if shape.admits(d.0, d.2) {
                for x in shape.ops().0 {
                    cx.case("factors in one storage", || format!("{:?} {:?} first operand {:?}", shape, d, x), |run| shared(run, shape, d, x));
                }
            }
        }
        let edges: &[usize] = if full { &[16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1024, 1025] } else { &[16, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129, 255, 256, 257, 512, 513, 1025] };
        for &e in edges {
            let mut v = vec![(e, 3, 2), (2, e, 3), (3, 2, e), (e, 1, 1), (1, e, 1), (1, 1, e)];
            if e <= 65 {
                v.push((e, e, e));
            }
            for d in v {
                let d = match shape {
                    Shape::MM => d,
                    Shape::MV => (d.0, d.1, 1),
                    Shape::VM => (1, d.1, d.2),
                };
                cx.case("larger dimensions", || format!("{:?} {:?}", shape, d), |run| {
                    let (oa, ob, _) = shape.ops();
                    for z in 0..oa.len().max(ob.len()) {
                        one(run, shape, [oa[z % oa.len()], ob[(2 * z + 1) % ob.len()]], d, z);
                    }
                });
            }
        }
        let mut huge: Vec<Mkn> = match shape {
            Shape::MM => vec![(70000, 1, 1), (1, 70000, 1), (1, 1, 70000), (4097, 2, 3), (3, 2, 4097), (3, 4097, 2), (257, 3, 300), (104, 104, 104), (130, 130, 130), (140, 260, 101), (256, 256, 256)],
            Shape::MV => vec![(70000, 1, 1), (1, 70000, 1), (4097, 3, 1), (257, 300, 1)],
            Shape::VM => vec![(1, 1, 70000), (1, 70000, 1), (1, 3, 4097), (1, 300, 257)],
        };
        if full {
            huge.extend(match shape {
                Shape::MM => vec![(300, 257, 300), (2, 40000, 2), (40000, 2, 2)],
                Shape::MV => vec![(2, 40000, 1), (40000, 2, 1), (1100, 1100, 1)],
                Shape::VM => vec![(1, 2, 40000), (1, 40000, 2), (1, 1100, 1100)],
            });
        }
        for d in huge {
            let (oa, ob, _) = shape.ops();
            for z in 0..oa.len().max(ob.len()) {
                cx.case("beyond size thresholds", || format!("{:?} {:?} {}", shape, d, z), |run| {
                    one(run, shape, [oa[z % oa.len()], ob[(2 * z + 1) % ob.len()]], d, z);
                });
            }
        }
        // all digits of double precision, at several magnitudes
        for m in 1..=4 {
            for k in 0..=3 {
                for n in 1..=4 {
                    if shape.admits(m, n) {
                        cx.case("all digits and magnitudes", || format!("{:?} {:?}", shape, (m, k, n)), |run| {
                            for salt in 0..if full { 60 } else { 6 } {
                                wide(run, shape, (m, k, n), 17 * salt)
                            }
                        });
                    }
                }
            }
        }
        let sizes: Vec<(Mkn, usize)> = match shape {
            Shape::MM => vec![((2, 2, 2), 3), ((1, 3, 1), 3), ((2, 1, 3), 3), ((3, 2, 2), 2), ((2, 3, 2), 2)],
            Shape::MV => vec![((2, 2, 1), 3), ((3, 2, 1), 3), ((2, 3, 1), 3)],
            Shape::VM => vec![((1, 2, 2), 3), ((1, 2, 3), 3), ((1, 3, 2), 3)],
        };
        for (d, b) in sizes {
            for part in 0..8 {
                let b = if full { 3 } else { b };
                cx.case("factor contents", || format!("{:?} {:?} part {}", shape, d, part), |run| contents(run, shape, d, &[0.0, 5.0, -0.75][..b], part, 8));
            }
        }
    }
    for first in 0..6 {
        cx.case("sequences of products", || format!("operands {}", first), |run| {
            let mut jobs = vec![];
            for shape in [Shape::MM, Shape::MV, Shape::VM] {
                let (oa, ob, _) = shape.ops();
                for (q, d) in [(2, 2, 2), (3, 1, 2), (1, 4, 1), (2, 0, 3), (0, 2, 2), (5, 5, 5), (2, 3, 9)].into_iter().enumerate() {
                    let d = match shape {
                        Shape::MM => d,
                        Shape::MV => (d.0, d.1, 1),
                        Shape::VM => (1, d.1, d.2),
                    };
                    jobs.push((shape, [oa[(q + first) % oa.len()], ob[(2 * q + first) % ob.len()]], d));
                }
            }
            sequences(run, &jobs)
        });
    }
    cx.finish();
}
