//! C01: logical numbering is a bijection in the documented order.
use mc::*;

fn check_pos(l: &dyn LV, r: &RefLayout, k: usize) {
    let p = r.pos(k);
    let q = l.t12(k);
    ensure!(q == p, "1d position {} -> {:?}, expected {:?}", k, q, p);
    let b = l.t21(p.0, p.1);
    ensure!(b == k, "position {:?} -> 1d {}, expected {}", p, b, k);
}
fn check_all(l: &dyn LV, r: &RefLayout, ks: &mut dyn Iterator<Item = usize>, run: &mut Run) {
    ensure!(l.dim() == r.dim, "dimension {:?}, expected {:?}", l.dim(), r.dim);
    ensure!(l.n() as u128 == r.n(), "{} elements, expected {}", l.n(), r.n());
    let mut c = 2;
    for k in ks {
        check_pos(l, r, k);
        let p = r.pos(k);
        ensure!(r.contains(p.0, p.1), "model");
        c += 2;
    }
    run.eval(c);
}
fn whole(run: &mut Run, lay: Lay, dim: (usize, usize)) {
    let r = lay.reference(dim);
    for &via in vias(lay) {
        with_lv(lay, dim, via, |l| {
            check_all(l, &r, &mut (0..r.len()), run);
            // backwards, and from positions: every stored position is the image of exactly one index
            for k in (0..r.len()).rev() {
                check_pos(l, &r, k);
            }
            let mut seen = vec![false; r.len()];
            for i in 0..dim.0 {
                for j in 0..dim.1 {
                    if r.contains(i, j) {
                        let k = l.t21(i, j);
                        ensure!(k < r.len() && !seen[k], "({}, {}) -> {}: not one-to-one", i, j, k);
                        seen[k] = true;
                        ensure!(l.t12(k) == (i, j), "({}, {}) -> {} -> {:?}", i, j, k, l.t12(k));
                    }
                }
            }
            run.eval(3 * r.len() as u64);
            let mut sub = |x: &dyn LV| check_all(x, &r, &mut (0..r.len()), run);
            l.index(&mut sub);
            l.index2(&mut sub);
        });
    }
    run.state(hash_of(&(lay, dim)));
    run.outcome(r.len() as u64);
}
fn probes(run: &mut Run, lay: Lay, dim: (usize, usize)) {
    let r = lay.reference(dim);
    let ks = probe_positions(&r);
    for &via in vias(lay) {
        with_lv(lay, dim, via, |l| {
            check_all(l, &r, &mut ks.iter().copied(), run);
            check_all(l, &r, &mut ks.iter().rev().copied(), run);
            let mut sub = |x: &dyn LV| check_all(x, &r, &mut ks.iter().copied(), run);
            l.index(&mut sub);
        });
    }
    run.state(hash_of(&(lay, dim)));
    run.outcome(hash_of(&ks));
}
/// One query on each of two layouts in every order, results must not depend on what was asked before.
fn interleaved(run: &mut Run, a: Lay, da: (usize, usize), b: Lay, db: (usize, usize)) {
    let (ra, rb) = (a.reference(da), b.reference(db));
    let q = |l: &dyn LV, r: &RefLayout, op: usize, k: usize, hist: &str| {
        let p = r.pos(k);
        match op {
            0 => ensure!(l.t12(k) == p, "1d {} -> {:?}, expected {:?} after {}", k, l.t12(k), p, hist),
            1 => ensure!(l.t21(p.0, p.1) == k, "{:?} -> {}, expected {} after {}", p, l.t21(p.0, p.1), k, hist),
            _ => {
                l.index(&mut |x| ensure!(x.t12(k) == p && x.t21(p.0, p.1) == k, "index layout at {} after {}", k, hist));
            }
        }
    };
    with_lv(a, da, 0, |la| {
        with_lv(b, db, 0, |lb| {
            for x in 0..ra.len() {
                for y in 0..rb.len() {
                    for op in 0..9 {
                        q(la, &ra, op / 3, x, "");
                        q(lb, &rb, op % 3, y, "a query of another layout");
                        q(la, &ra, op / 3, x, "a query of another layout");
                        run.transition();
                    }
                }
            }
            run.eval(27 * (ra.len() * rb.len()) as u64);
        })
    });
    run.trace();
    run.state(hash_of(&(a, da, b, db)));
}

fn main() {
    let mut cx = Cx::from_args();
    let full = cx.thorough();
    let all_strides: Vec<(usize, usize)> = (0..4).flat_map(|r| (0..4).map(move |c| (r, c))).chain([(7, 1), (1, 9), (100, 3)]).collect();
    let m = cx.pick(20, 48);
    for i in 0..=m {
        for j in 0..=m {
            let dim = (i, j);
            let st: &[(usize, usize)] = if i <= 7 && j <= 7 || full { &all_strides } else { &all_strides[5..9] };
            for lay in lays_for(dim, st, &[0, 1, 2, 5]) {
                cx.case("all dimensions", || format!("{:?} {:?}", lay, dim), |r| whole(r, lay, dim));
            }
        }
    }
    for n in 0..=cx.pick(600, 5000) {
        for (dim, lays) in [((n, 1), vec![Lay::CV, Lay::CM, Lay::RM, Lay::ASCV(3)]), ((1, n), vec![Lay::RV, Lay::RM, Lay::CM, Lay::ASRV(3)])] {
            for lay in lays {
                cx.case("all vector lengths", || format!("{:?} {:?}", lay, dim), |r| whole(r, lay, dim));
            }
        }
    }
    for n in 0..=cx.pick(160, 420) {
        cx.case("all triangles", || format!("UP {}", n), |r| whole(r, Lay::UP, (n, n)));
    }
    for n in if full { vec![1000, 1024, 2047, 3000, 4100, 6000] } else { vec![1024, 1500] } {
        cx.case("all triangles", || format!("UP {}", n), |r| whole(r, Lay::UP, (n, n)));
        cx.case("all dimensions", || format!("RM {}", n), |r| whole(r, Lay::RM, (n, n / 2)));
        cx.case("all dimensions", || format!("CM {}", n), |r| whole(r, Lay::CM, (n, n / 2)));
    }
    let big = big_values();
    for &a in &big {
        for &b in &big {
            let dim = (a, b);
            if (a as u128) * (b as u128) >= 1 << 64 {
                continue;
            }
            let st: Vec<(usize, usize)> = [(b, 1), (1, a), (0, 0), (1, 1)]
                .into_iter()
                .filter(|s| (a as u128 - 1) * s.0 as u128 + (b as u128 - 1) * (s.1 as u128) < 1 << 64)
                .collect();
            let vs: Vec<usize> = [1usize, 2].into_iter().filter(|&s| (a.max(b) as u128) * (s as u128) < 1 << 64).collect();
            for lay in lays_for(dim, &st, &vs) {
                if lay != Lay::UP {
                    cx.case("boundary dimensions", || format!("{:?} {:?}", lay, dim), |r| probes(r, lay, dim));
                }
            }
        }
    }
    let mut tri: Vec<usize> = big.iter().copied().filter(|&n| (n as u128) < (1 << 32)).collect();
    for e in 5..32 {
        for d in [-3i64, -2, -1, 0, 1, 2, 3] {
            tri.push(((1i64 << e) + d) as usize);
            tri.push(((3i64 << e >> 1) + d) as usize);
        }
    }
    tri.extend([(1 << 32) - 2, (1 << 32) - 3, 94906264, 94906265, 94906266, 94906267, 94906268, 134217726, 134217727, 134217728, 134217729]);
    tri.retain(|&n| (n as u128) < 1 << 32);
    tri.sort();
    tri.dedup();
    for &n in &tri {
        cx.case("boundary triangles", || format!("UP {}", n), |r| probes(r, Lay::UP, (n, n)));
    }
    // dense row boundaries of a huge triangle
    let chunks = cx.pick(64, 1024);
    for c in 0..chunks {
        let n = (1usize << 32) - 1;
        cx.case("row boundaries of a huge triangle", || format!("UP {} chunk {}/{}", n, c, chunks), |run| {
            let r = Lay::UP.reference((n, n));
            with_lv(Lay::UP, (n, n), 0, |l| {
                let per = 4096;
                for q in 0..per {
                    // rows spread evenly over the triangle, visited at both ends
                    let p = ((c * per + q) as u128 * (n as u128 - 1) / (chunks * per) as u128) as u128;
                    let k = p * (p + 1) / 2;
                    check_pos(l, &r, k as usize);
                    check_pos(l, &r, (k + p) as usize);
                }
                run.eval(4 * per as u64);
            });
            run.state(hash_of(&c));
        });
    }
    let small: Vec<(usize, usize)> = (1..=4).flat_map(|i| (1..=4).map(move |j| (i, j))).chain([(1, 7), (7, 1), (6, 6)]).collect();
    for &da in &small {
        for &db in &small {
            for a in lays_for(da, &[(1, 1), (9, 2)], &[3]) {
                for b in lays_for(db, &[(1, 1), (9, 2)], &[3]) {
                    let same = std::mem::discriminant(&a) == std::mem::discriminant(&b);
                    if !same && !full && (da != db) {
                        continue;
                    }
                    cx.case("interleaved queries", || format!("{:?} {:?} with {:?} {:?}", a, da, b, db), |r| interleaved(r, a, da, b, db));
                }
            }
        }
    }
    cx.finish();
}
