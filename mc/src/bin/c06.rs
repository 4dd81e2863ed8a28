//! C06: a read-only block is an exact window, at any nesting depth.
use householder::types::{c32, c64};
use mc::*;

fn check_blk<T: Sc>(run: &mut Run, b: &dyn Blk<T>, m: &Model<T>) {
    let mut e = check_view(b.as_view(), m, "block");
    let n = m.lay.len();
    for k in 0..n {
        let p = m.lay.pos(k);
        let v = b.as_view();
        ensure!(v.v_12(k) == p && v.v_21(p.0, p.1) == k, "block numbers its elements differently at {}", k);
    }
    e += n as u64;
    if n > 0 {
        let s = b.bslice(0, m.window);
        for q in 0..m.window {
            ensure!(s[q].same(m.store[m.base + q]), "storage location {} of the block", q);
        }
        ensure!(unsafe { *b.bptr() }.same(m.at(0)), "pointer of the block");
        e += m.window as u64 + 1;
    }
    if refused(|| b.bslice(0, m.window + 1).len()).is_ok() {
        fail!("a window of {} locations granted on a block that spans {}", m.window + 1, m.window);
    }
    let (p, q) = m.lay.dim;
    for (i, j) in [(p, 0), (0, q), (p, q), (p.wrapping_sub(1), q), (p, q.wrapping_sub(1)), (usize::MAX, 0)] {
        if !m.lay.contains(i, j) {
            if let Ok(x) = refused(|| b.as_view().v_get(i, j)) {
                fail!("element ({}, {}) of a block of dimension {:?} gave {:?}", i, j, m.lay.dim, x);
            }
        }
    }
    if refused(|| b.as_view().v_get1(n)).is_ok() {
        fail!("element {} of a block with {} elements was granted", n, n);
    }
    run.eval(e + 8);
    run.state(hash_of(&(m.lay, m.base)));
    run.transition();
}

/// All requests (granted and refused ones) at each of `depth` levels.
fn nest<T: Sc>(run: &mut Run, o: &dyn Blk<T>, m: &Model<T>, depth: usize) {
    check_blk(run, o, m);
    if depth == 0 {
        run.trace();
        return;
    }
    let (p, q) = m.lay.dim;
    for r in 0..=p + 1 {
        for c in 0..=q + 1 {
            for h in 0..=p + 1 {
                for w in 0..=q + 1 {
                    let fits = block_fits((p, q), (r, c), (h, w));
                    run.step(|| format!("block at ({}, {}) of dimension ({}, {})", r, c, h, w));
                    if fits {
                        let bm = block_of(m, (r, c), (h, w));
                        let mut called = false;
                        o.blk((r, c), (h, w), &mut |b| {
                            called = true;
                            nest(run, b, &bm, depth - 1)
                        });
                        ensure!(called, "harness");
                    } else {
                        if refused(|| o.blk((r, c), (h, w), &mut |_| ())).is_ok() {
                            fail!("block at ({}, {}) of dimension ({}, {}) granted on a matrix of dimension {:?}", r, c, h, w, (p, q));
                        }
                        run.eval(1);
                    }
                    run.outcome(fits as u64);
                }
            }
        }
    }
}
/// Huge requests: every pair of far values for the rows against a few for the columns, and vice versa
/// (all combinations of both for the smallest parents).
fn far<T: Sc>(run: &mut Run, o: &dyn Blk<T>, m: &Model<T>, all: bool) {
    let d = m.lay.dim;
    for (r, c, h, w) in far_requests(d, all) {
        if block_fits(d, (r, c), (h, w)) {
            let bm = block_of(m, (r, c), (h, w));
            o.blk((r, c), (h, w), &mut |b| check_blk(run, b, &bm));
        } else if refused(|| o.blk((r, c), (h, w), &mut |_| ())).is_ok() {
            fail!("block at ({}, {}) of dimension ({}, {}) granted on a matrix of dimension {:?}", r, c, h, w, d);
        }
        run.eval(1);
    }
}
/// Two blocks alive at the same time, queried alternately.
fn pairs<T: Sc>(run: &mut Run, o: &dyn Blk<T>, m: &Model<T>) {
    let blocks: Vec<_> = all_blocks(m.lay.dim).into_iter().filter(|b| b.1 .0 * b.1 .1 > 0).collect();
    for &(t1, d1) in &blocks {
        let m1 = block_of(m, t1, d1);
        o.blk(t1, d1, &mut |b1| {
            for &(t2, d2) in &blocks {
                let m2 = block_of(m, t2, d2);
                o.blk(t2, d2, &mut |b2| {
                    check_view(b1.as_view(), &m1, "first block");
                    check_view(b2.as_view(), &m2, "second block");
                    check_view(b1.as_view(), &m1, "first block again");
                });
                run.transition();
            }
        });
        run.trace();
    }
    run.eval((blocks.len() * blocks.len() * 3) as u64);
}

fn explore<T: Sc>(cx: &mut Cx, main: bool) {
    let full = cx.thorough();
    let init = |q: usize| T::tag(q);
    let kmax = if full { 5 } else if main { 4 } else { 3 };
    for m in 0..=kmax {
        for n in 0..=kmax {
            let dim = (m, n);
            let strides = stride_classes(dim);
            for kind in block_parents(dim, &strides) {
                let d3 = if full { 9 } else { 4 };
                let depth = if m * n <= d3 && main { 3 } else if m * n <= if full { 20 } else { 9 } || full && main && m * n <= 25 { 2 } else { 1 };
                let depth = if full && main && m * n <= 4 { 4 } else { depth };
                cx.case("all blocks of blocks", || format!("{} {:?} depth {}", T::NAME, kind, depth), |run| {
                    with_parent::<T>(&kind, &init, &mut |o, mo| {
                        nest(run, o.as_blk(), mo, depth);
                    });
                });
                if m <= 3 && n <= 3 {
                    let all = full && m * n <= 2;
                    if main || full {
                        cx.case("far requests", || format!("{} {:?}", T::NAME, kind), |run| with_parent::<T>(&kind, &init, &mut |o, mo| far(run, o.as_blk(), mo, all)));
                    }
                    cx.case("two blocks", || format!("{} {:?}", T::NAME, kind), |run| with_parent::<T>(&kind, &init, &mut |o, mo| pairs(run, o.as_blk(), mo)));
                }
            }
        }
    }
    // larger parents: all corners from a boundary set
    let big: Vec<(usize, usize)> = if full { vec![(17, 23), (23, 17), (64, 33), (33, 64), (1, 300), (300, 1), (128, 129), (40, 40)] } else { vec![(9, 17), (33, 10), (1, 130), (130, 1)] };
    for dim in big {
        let strides = [(dim.1 + 1, 1), (1, dim.0 + 3), (2, 2 * dim.0 + 1), (2 * dim.1, 2), (3, 3 * dim.0)];
        for kind in block_parents(dim, &strides) {
            cx.case("larger parents", || format!("{} {:?}", T::NAME, kind), |run| {
                with_parent::<T>(&kind, &init, &mut |o, mo| {
                    let c = |d: usize| {
                        let mut v = if full { vec![0, 1, d / 2, d.saturating_sub(1), d, d + 1] } else { vec![0, d / 2, d, d + 1] };
                        v.sort();
                        v.dedup();
                        v
                    };
                    for r in c(dim.0) {
                        for q in c(dim.1) {
                            for h in c(dim.0 - r.min(dim.0)) {
                                for w in c(dim.1 - q.min(dim.1)) {
                                    if block_fits(dim, (r, q), (h, w)) {
                                        let bm = block_of(mo, (r, q), (h, w));
                                        o.as_blk().blk((r, q), (h, w), &mut |b| {
                                            check_blk(run, b, &bm);
                                            let (p, s) = (h / 2, w / 2);
                                            let inner = block_of(&bm, (p, s), (h - p, w - s));
                                            b.blk((p, s), (h - p, w - s), &mut |b2| check_blk(run, b2, &inner));
                                        });
                                    } else if refused(|| o.as_blk().blk((r, q), (h, w), &mut |_| ())).is_ok() {
                                        fail!("block at {:?} of {:?} granted on {:?}", (r, q), (h, w), dim);
                                    }
                                }
                            }
                        }
                    }
                });
            });
        }
    }
    for dim in huge_dims(full) {
        if !main && !full {
            continue;
        }
        let (m, n) = dim;
        for kind in block_parents(dim, &[(n + 1, 1), (2, 2 * m + 1), (2 * n, 2), (3, 3 * m)]) {
            cx.case("beyond size thresholds", || format!("{} {:?}", T::NAME, kind), |run| {
                with_parent::<T>(&kind, &init, &mut |o, mo| {
                    let c = |d: usize| {
                        let mut v = vec![0, 255.min(d - 1), 65_536.min(d - 1), d - 1];
                        v.dedup();
                        v
                    };
                    let mut tags = 0;
                    for r in c(m) {
                        for q in c(n) {
                            // all that is left, and single rows, columns and elements; then the last element of each
                            for (h, w) in [(m - r, n - q), (1, n - q), (m - r, 1), (1, 1)] {
                                let bm = block_of(mo, (r, q), (h, w));
                                tags += 1;
                                o.as_blk().blk((r, q), (h, w), &mut |b| {
                                    if (h, w) != (m - r, n - q) || tags % 3 == 1 {
                                        check_blk(run, b, &bm);
                                    }
                                    let inner = block_of(&bm, (h - 1, w - 1), (1, 1));
                                    b.blk((h - 1, w - 1), (1, 1), &mut |b2| check_blk(run, b2, &inner));
                                    let half = block_of(&bm, (h / 2, w / 2), (h - h / 2, 1));
                                    b.blk((h / 2, w / 2), (h - h / 2, 1), &mut |b2| check_blk(run, b2, &half));
                                });
                            }
                            for (h, w) in [(m - r + 1, 1), (1, n - q + 1), (m - r + 256, 1), (1, n - q + 65_536), (m - r + (1 << 32), 1)] {
                                must_refuse("a block beyond the matrix", || o.as_blk().blk((r, q), (h, w), &mut |_| ()));
                            }
                        }
                    }
                    run.trace();
                });
            });
        }
    }
}
fn main() {
    let mut cx = Cx::from_args();
    explore::<f64>(&mut cx, true);
    explore::<c64>(&mut cx, false);
    explore::<f32>(&mut cx, false);
    explore::<c32>(&mut cx, false);
    cx.finish();
}
