//! C02: one storage location per element, agreed on by all address paths.
use mc::*;

fn check_pos(l: &dyn LV, r: &RefLayout, k: usize) {
    let (i, j) = r.pos(k);
    let e = r.raw(i, j);
    let a = l.r2(i, j);
    let b = l.r1(k);
    ensure!(a as u128 == e, "({}, {}) -> location {}, expected {}", i, j, a, e);
    ensure!(b as u128 == e, "1d {} -> location {}, expected {}", k, b, e);
}
fn reported(l: &dyn LV, lay: Lay, r: &RefLayout, ks: &[usize]) {
    if lay == Lay::UP {
        return;
    }
    let s = l.stride();
    match lay {
        Lay::ASRM(a, b) | Lay::ASCM(a, b) => ensure!(s == (a, b), "reports stride {:?}, created with {:?}", s, (a, b)),
        _ => {}
    }
    for &k in ks {
        let (i, j) = r.pos(k);
        let x = i as u128 * s.0 as u128 + j as u128 * s.1 as u128;
        ensure!(x == r.raw(i, j), "reported stride {:?} puts ({}, {}) at {}, but it is stored at {}", s, i, j, x, r.raw(i, j));
    }
}
fn one(run: &mut Run, lay: Lay, dim: (usize, usize), ks: &[usize], complete: bool) {
    let r = lay.reference(dim);
    for &via in vias(lay) {
        with_lv(lay, dim, via, |l| {
            if r.n() > 0 {
                ensure!(l.r1(0) == 0, "1d position 0 lies at location {}", l.r1(0));
            }
            for &k in ks {
                check_pos(l, &r, k);
            }
            for &k in ks.iter().rev() {
                check_pos(l, &r, k);
            }
            reported(l, lay, &r, ks);
            run.eval(5 * ks.len() as u64);
            if complete && !r.overlapping() {
                let mut seen = std::collections::HashSet::new();
                for &k in ks {
                    let (i, j) = r.pos(k);
                    ensure!(seen.insert(l.r2(i, j)), "({}, {}) shares its location {}", i, j, l.r2(i, j));
                }
                if r.stride.is_none() {
                    ensure!(seen.iter().all(|&x| (x as u128) < r.n()), "packed layout leaves 0..{}", r.n());
                    for &k in ks {
                        ensure!(l.r1(k) == k, "packed layout stores element {} at {}", k, l.r1(k));
                    }
                }
                run.eval(2 * ks.len() as u64);
            }
            // the logical index layout is packed
            let p = RefLayout { stride: None, ..r };
            l.index(&mut |x| {
                for &k in ks {
                    check_pos(x, &p, k);
                }
                run.eval(2 * ks.len() as u64);
            });
        });
    }
    run.state(hash_of(&(lay, dim)));
    run.outcome(hash_of(&ks.iter().map(|&k| r.raw(r.pos(k).0, r.pos(k).1)).collect::<Vec<_>>()));
}
fn interleaved(run: &mut Run, a: Lay, da: (usize, usize), b: Lay, db: (usize, usize)) {
    let (ra, rb) = (a.reference(da), b.reference(db));
    with_lv(a, da, 0, |la| {
        with_lv(b, db, 0, |lb| {
            for x in 0..ra.len() {
                for y in 0..rb.len() {
                    check_pos(la, &ra, x);
                    check_pos(lb, &rb, y);
                    check_pos(la, &ra, x);
                    run.transition();
                }
            }
            run.eval(6 * (ra.len() * rb.len()) as u64);
        })
    });
    run.state(hash_of(&(a, da, b, db)));
    run.trace();
}

fn main() {
    let mut cx = Cx::from_args();
    let full = cx.thorough();
    let strides: Vec<(usize, usize)> = (0..=6).flat_map(|r| (0..=6).map(move |c| (r, c))).chain([(7, 1), (1, 9), (100, 3), (1000, 1), (65536, 65537)]).collect();
    let m = cx.pick(16, 40);
    for i in 0..=m {
        for j in 0..=m {
            let dim = (i, j);
            let mut st: Vec<(usize, usize)> = if i <= 6 && j <= 6 || full { strides.clone() } else { vec![(j, 1), (j + 3, 1), (1, i), (2, 2 * i + 1)] };
            st.push((j, 1));
            st.push((1, i));
            st.sort();
            st.dedup();
            let ks: Vec<usize> = (0..i * j).collect();
            for lay in lays_for(dim, &st, &[0, 1, 2, 3, 8, 100]) {
                let n = lay.reference(dim).len();
                cx.case("all dimensions and strides", || format!("{:?} {:?}", lay, dim), |r| one(r, lay, dim, &ks[..n], true));
            }
        }
    }
    for n in 0..=cx.pick(300, 3000) {
        let ks: Vec<usize> = (0..n).collect();
        for (dim, lays) in [((n, 1), vec![Lay::CV, Lay::CM, Lay::ASCV(1), Lay::ASCV(5)]), ((1, n), vec![Lay::RV, Lay::RM, Lay::ASRV(1), Lay::ASRV(5)])] {
            for lay in lays {
                cx.case("all vector lengths", || format!("{:?} {:?}", lay, dim), |r| one(r, lay, dim, &ks, true));
            }
        }
    }
    for n in 0..=cx.pick(120, 320) {
        let ks: Vec<usize> = (0..n * (n + 1) / 2).collect();
        cx.case("all triangles", || format!("UP {}", n), |r| one(r, Lay::UP, (n, n), &ks, true));
    }
    let big = big_values();
    for &a in &big {
        for &b in &big {
            let dim = (a, b);
            if (a as u128) * (b as u128) >= 1 << 64 {
                continue;
            }
            let mut st: Vec<(usize, usize)> = vec![];
            for s in [(b, 1), (1, a), (b + 1, 1), (1, a + 3), (0, 0), (1, 1), (2 * (b & !(1 << 63)), 2), (3, 1 << 20), (1 << 33, 5)] {
                if (a as u128 - 1) * s.0 as u128 + (b as u128 - 1) * (s.1 as u128) < (1 << 64) - 1 {
                    st.push(s);
                }
            }
            let vs: Vec<usize> = [1usize, 2, 7, 1 << 20, 1 << 32].into_iter().filter(|&s| (a.max(b) as u128) * (s as u128) < 1 << 64).collect();
            for lay in lays_for(dim, &st, &vs) {
                if lay == Lay::UP && (a as u128) >= 1 << 32 {
                    continue;
                }
                cx.case("boundary dimensions and strides", || format!("{:?} {:?}", lay, dim), |r| {
                    let ks = probe_positions(&lay.reference(dim));
                    one(r, lay, dim, &ks, false)
                });
            }
        }
    }
    let small: Vec<(usize, usize)> = (1..=4).flat_map(|i| (1..=4).map(move |j| (i, j))).collect();
    for &da in &small {
        for &db in &small {
            for a in lays_for(da, &[(1, 1), (9, 2)], &[3]) {
                for b in lays_for(db, &[(1, 1), (2, 9)], &[4]) {
                    if std::mem::discriminant(&a) != std::mem::discriminant(&b) && !full && da != db {
                        continue;
                    }
                    cx.case("interleaved queries", || format!("{:?} {:?} with {:?} {:?}", a, da, b, db), |r| interleaved(r, a, da, b, db));
                }
            }
        }
    }
    cx.finish();
}
