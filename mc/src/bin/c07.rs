//! C07: writes through a mutable sub-block reach exactly the addressed elements.
use householder::types::{c32, c64};
use mc::*;
use std::collections::{HashSet, VecDeque};

/// Takes what a block's model holds back into its parent's model.
fn back<T: Copy>(m: &mut Model<T>, bm: &Model<T>) {
    m.store.clone_from(&bm.store);
}
fn whole<T: Sc>(run: &mut Run, o: &dyn BlkMut<T>, m: &Model<T>, what: &str) {
    let e = check_obj(o.as_obj_ref(), m, what);
    run.eval(e);
}
fn write<T: Sc>(run: &mut Run, b: &mut dyn BlkMut<T>, bm: &mut Model<T>, route: usize, k: usize, v: T) {
    run.step(|| format!("write {:?} to element {:?} by {}", v, bm.lay.pos(k), ROUTES[route]));
    let (lay, window) = (bm.lay, bm.window);
    write_route(b.as_obj(), &lay, window, route, k, v);
    bm.set(k, v);
    run.transition();
}

/// Every block, every element of it, every write route, one write each, complete comparison afterwards.
fn single<T: Sc>(run: &mut Run, o: &mut dyn BlkMut<T>, m: &mut Model<T>) {
    let mut tag = 1000;
    for (tl, d) in all_blocks(m.lay.dim) {
        run.step(|| format!("block_mut({:?}, {:?})", tl, d));
        for route in 0..ROUTES.len() {
            for k in 0..(d.0 * d.1).max(1) {
                let mut bm = block_of(m, tl, d);
                o.blk_mut(tl, d, &mut |b| {
                    if k == 0 {
                        let e = check_obj(b.as_obj_ref(), &bm, "fresh block");
                        run.eval(e);
                    }
                    if bm.lay.len() > 0 {
                        tag += 1;
                        write(run, b, &mut bm, route, k, T::tag(tag));
                    }
                    let e = check_obj(b.as_obj_ref(), &bm, "block after a write");
                    run.eval(e);
                });
                back(m, &bm);
                whole(run, o, m, "matrix after release");
                run.trace();
            }
        }
        run.state(hash_of(&(tl, d)));
    }
}
/// As `single`, through a block of a block; writes to the outer block before, in between and after.
fn nested<T: Sc>(run: &mut Run, o: &mut dyn BlkMut<T>, m: &mut Model<T>, deep: bool) {
    let mut tag = 5000;
    for (tl, d) in all_blocks(m.lay.dim) {
        let mut bm = block_of(m, tl, d);
        o.blk_mut(tl, d, &mut |b| {
            let n1 = bm.lay.len();
            for (tl2, d2) in all_blocks(d) {
                run.step(|| format!("block_mut({:?}, {:?}) of block_mut({:?}, {:?})", tl2, d2, tl, d));
                tag += 10;
                let r = tag / 10;
                if n1 > 0 {
                    write(run, b, &mut bm, r % 8, r % n1, T::tag(tag));
                }
                let mut bm2 = block_of(&bm, tl2, d2);
                b.blk_mut(tl2, d2, &mut |b2| {
                    let n2 = bm2.lay.len();
                    let e = check_obj(b2.as_obj_ref(), &bm2, "inner block");
                    run.eval(e);
                    for k in 0..n2 {
                        write(run, b2, &mut bm2, (r + k) % 8, k, T::tag(tag + 1 + k));
                    }
                    if deep && n2 > 1 {
                        for (tl3, d3) in all_blocks(d2) {
                            let mut bm3 = block_of(&bm2, tl3, d3);
                            b2.blk_mut(tl3, d3, &mut |b3| {
                                for k in 0..bm3.lay.len() {
                                    tag += 1;
                                    write(run, b3, &mut bm3, (tag + k) % 8, k, T::tag(tag));
                                }
                                let e = check_obj(b3.as_obj_ref(), &bm3, "innermost block");
                                run.eval(e);
                            });
                            back(&mut bm2, &bm3);
                            let e = check_obj(b2.as_obj_ref(), &bm2, "inner block after the innermost one");
                            run.eval(e);
                        }
                    }
                });
                back(&mut bm, &bm2);
                let e = check_obj(b.as_obj_ref(), &bm, "outer block after the inner one");
                run.eval(e);
                if n1 > 0 {
                    write(run, b, &mut bm, (r + 3) % 8, (r + 1) % n1, T::tag(tag + 7));
                }
                run.state(hash_of(&(tl, d, tl2, d2)));
                run.trace();
            }
        });
        back(m, &bm);
        whole(run, o, m, "matrix after release");
    }
}
/// All histories of `depth` steps; a step is a write through a block (or to the matrix itself), after which
/// the block is released.
fn histories<T: Sc>(run: &mut Run, o: &mut dyn BlkMut<T>, m: &mut Model<T>, depth: usize, at: usize) {
    if depth == 0 {
        run.trace();
        return;
    }
    let blocks: Vec<_> = all_blocks(m.lay.dim).into_iter().filter(|b| b.1 .0 * b.1 .1 > 0).collect();
    for (q, &(tl, d)) in blocks.iter().enumerate() {
        for k in 0..d.0 * d.1 {
            let route = (q + k + depth + at) % 8;
            let save = m.store.clone();
            let mut bm = block_of(m, tl, d);
            o.blk_mut(tl, d, &mut |b| {
                write(run, b, &mut bm, route, k, T::tag(100 * depth + (at * 7 + k) % 89));
            });
            back(m, &bm);
            whole(run, o, m, "matrix after release");
            // a view that did not exist when the write happened
            let (tl2, d2) = blocks[(q * 5 + k) % blocks.len()];
            let bm2 = block_of(m, tl2, d2);
            o.as_blk().blk(tl2, d2, &mut |b| {
                check_view(b.as_view(), &bm2, "later view");
            });
            histories(run, o, m, depth - 1, at * 3 + k);
            // undo through the matrix itself
            for k in 0..m.lay.len() {
                let r = m.base + m.lay.raw1(k);
                *o.as_obj().get1_mut_(k) = save[r];
                m.store[r] = save[r];
            }
        }
    }
}
/// All contents over two values reachable by writes through blocks, with every transition taken.
fn fixpoint<T: Sc>(run: &mut Run, o: &mut dyn BlkMut<T>, m: &mut Model<T>) {
    let vals = [T::tag(3), T::tag(8)];
    let n = m.lay.len();
    let blocks: Vec<_> = all_blocks(m.lay.dim).into_iter().filter(|b| b.1 .0 * b.1 .1 > 0).collect();
    let mut seen = HashSet::from([0u32]);
    let mut todo = VecDeque::from([0u32]);
    while let Some(s) = todo.pop_front() {
        for &(tl, d) in &blocks {
            for k in 0..d.0 * d.1 {
                for v in 0..2 {
                    for route in 0..8 {
                        for j in 0..n {
                            let x = vals[(s >> j & 1) as usize];
                            *o.as_obj().get1_mut_(j) = x;
                            m.set(j, x);
                        }
                        let mut bm = block_of(m, tl, d);
                        o.blk_mut(tl, d, &mut |b| write(run, b, &mut bm, route, k, vals[v]));
                        back(m, &bm);
                        whole(run, o, m, "matrix after release");
                        let t = (0..n).fold(0, |a, j| a | (m.at(j).same(vals[1]) as u32) << j);
                        if seen.insert(t) {
                            todo.push_back(t);
                        }
                    }
                }
            }
        }
        run.state(s as u64);
    }
    ensure!(seen.len() == 1 << n, "only {} of {} contents are reachable by writes through blocks", seen.len(), 1 << n);
}
/// Requests at and beyond the edges: granted exactly when inside, and nothing is changed by a refusal.
fn requests<T: Sc>(run: &mut Run, o: &mut dyn BlkMut<T>, m: &mut Model<T>, depth: usize) {
    let (p, q) = m.lay.dim;
    for r in 0..=p + 1 {
        for c in 0..=q + 1 {
            for h in 0..=p + 1 {
                for w in 0..=q + 1 {
                    let fits = block_fits((p, q), (r, c), (h, w));
                    run.step(|| format!("block_mut at ({}, {}) of dimension ({}, {})", r, c, h, w));
                    if fits {
                        let mut bm = block_of(m, (r, c), (h, w));
                        o.blk_mut((r, c), (h, w), &mut |b| {
                            let e = check_obj(b.as_obj_ref(), &bm, "block");
                            run.eval(e);
                            for (i, j) in [(h, 0), (0, w), (h, w), (usize::MAX, 0)] {
                                if !bm.lay.contains(i, j) && refused(|| *b.as_obj().get_mut_(i, j) = T::sentinel()).is_ok() {
                                    fail!("write to ({}, {}) of a block of dimension {:?} was granted", i, j, (h, w));
                                }
                            }
                            if refused(|| *b.as_obj().get1_mut_(h * w) = T::sentinel()).is_ok() {
                                fail!("write to element {} of a block with that many elements was granted", h * w);
                            }
                            if refused(|| b.as_obj().slice_mut_(0, bm.window + 1)[0] = T::sentinel()).is_ok() {
                                fail!("mutable window beyond the span of a block was granted");
                            }
                            if depth > 0 {
                                requests(run, b, &mut bm, depth - 1);
                            }
                        });
                        back(m, &bm);
                    } else if refused(|| o.blk_mut((r, c), (h, w), &mut |b| b.as_obj().each_(&mut |x| *x = T::sentinel()))).is_ok() {
                        fail!("mutable block at ({}, {}) of dimension ({}, {}) granted on a matrix of dimension {:?}", r, c, h, w, (p, q));
                    }
                    run.eval(1);
                    run.outcome(fits as u64);
                }
            }
        }
    }
    whole(run, o, m, "matrix after the requests");
}
fn far<T: Sc>(run: &mut Run, o: &mut dyn BlkMut<T>, m: &mut Model<T>) {
    let d = m.lay.dim;
    for (r, c, h, w) in far_requests(d, false) {
        if block_fits(d, (r, c), (h, w)) {
            let bm = block_of(m, (r, c), (h, w));
            o.blk_mut((r, c), (h, w), &mut |b| {
                check_obj(b.as_obj_ref(), &bm, "block");
            });
        } else if refused(|| o.blk_mut((r, c), (h, w), &mut |_| ())).is_ok() {
            fail!("mutable block at ({}, {}) of dimension ({}, {}) granted on a matrix of dimension {:?}", r, c, h, w, d);
        }
        run.eval(1);
    }
    whole(run, o, m, "matrix after the requests");
}
/// apply-to-all, random filling and window writes through a block touch the block only
fn bulk<T: Sc>(run: &mut Run, o: &mut dyn BlkMut<T>, m: &mut Model<T>) {
    for (tl, d) in all_blocks(m.lay.dim) {
        let mut bm = block_of(m, tl, d);
        o.blk_mut(tl, d, &mut |b| {
            let mut k = 0;
            b.as_obj().each_(&mut |x| {
                let v = T::tag(300 + k + tl.0 * 16 + tl.1);
                ensure!(k < bm.lay.len() && (*x).same(bm.at(k)), "apply-to-all on a block: call {} sees {:?}", k, x);
                *x = v;
                bm.set(k, v);
                k += 1;
            });
            ensure!(k == bm.lay.len(), "apply-to-all on a block made {} calls", k);
            let e = check_obj(b.as_obj_ref(), &bm, "block after apply-to-all");
            run.eval(e);
        });
        back(m, &bm);
        whole(run, o, m, "matrix after release");
        run.trace();
    }
}

fn explore<T: Sc>(cx: &mut Cx, main: bool) {
    let full = cx.thorough();
    let init = |q: usize| T::tag(q);
    let kmax = if full { 5 } else if main { 4 } else { 3 };
    for m in 0..=kmax {
        for n in 0..=kmax {
            let dim = (m, n);
            let strides = stride_classes(dim);
            for kind in block_parents(dim, &strides) {
                let k = || format!("{} {:?}", T::NAME, kind);
                macro_rules! sp {
                    ($name:expr, $f:expr) => {
                        cx.case($name, k, |run| with_parent::<T>(&kind, &init, &mut |o, mo| $f(run, o, mo)))
                    };
                }
                let sz = m * n;
                if sz <= if full { 25 } else { 12 } {
                    sp!("one write", single);
                    sp!("apply to all", bulk);
                }
                if sz <= if full { 16 } else { 9 } {
                    let deep = sz <= if full { 6 } else { 4 };
                    sp!("nested blocks", |r: &mut Run, o: &mut dyn BlkMut<T>, mo: &mut Model<T>| nested(r, o, mo, deep));
                }
                let depth = match (full, main) {
                    (true, true) => if sz <= 4 { 3 } else if sz <= 9 { 2 } else { 0 },
                    (true, false) => if sz <= 6 { 2 } else { 0 },
                    (false, true) => if sz <= 2 { 3 } else if sz <= 6 { 2 } else { 0 },
                    (false, false) => if sz <= 4 { 2 } else { 0 },
                };
                if depth > 0 && sz > 0 {
                    sp!("histories", |r: &mut Run, o: &mut dyn BlkMut<T>, mo: &mut Model<T>| histories(r, o, mo, depth, 0));
                }
                if sz > 0 && sz <= if full { 6 } else { 4 } {
                    sp!("contents to a fixpoint", fixpoint);
                }
                if main || sz <= 4 || full {
                    let nest = if sz <= 4 && (full || main) { 1 } else { 0 };
                    sp!("requests", |r: &mut Run, o: &mut dyn BlkMut<T>, mo: &mut Model<T>| requests(r, o, mo, nest));
                }
                if m <= 2 && n <= 2 && (main || full) {
                    sp!("far requests", far);
                }
            }
        }
    }
    let big: Vec<(usize, usize)> = if full { vec![(17, 23), (23, 17), (33, 64), (1, 300), (300, 1), (65, 66)] } else { vec![(9, 17), (17, 8), (1, 70), (70, 1)] };
    for dim in big {
        for kind in block_parents(dim, &[(dim.1 + 1, 1), (2, 2 * dim.0 + 1)]) {
            if !(main || full) {
                continue;
            }
            cx.case("larger parents", || format!("{} {:?}", T::NAME, kind), |run| {
                with_parent::<T>(&kind, &init, &mut |o, m| {
                    let c = |d: usize| [0, d / 3, d / 2, d - 1];
                    let mut tag = 0;
                    for r in c(dim.0) {
                        for q in c(dim.1) {
                            for (h, w) in [(dim.0 - r, dim.1 - q), (1, dim.1 - q), (dim.0 - r, 1), ((dim.0 - r) / 2, (dim.1 - q) / 2)] {
                                let mut bm = block_of(m, (r, q), (h, w));
                                o.blk_mut((r, q), (h, w), &mut |b| {
                                    let n = bm.lay.len();
                                    for k in [0, 1, w, h, n / 2, n.wrapping_sub(1)] {
                                        if k < n {
                                            tag += 1;
                                            write(run, b, &mut bm, tag % 8, k, T::tag(2000 + tag));
                                        }
                                    }
                                });
                                back(m, &bm);
                                whole(run, o, m, "matrix after release");
                            }
                        }
                    }
                });
            });
        }
    }
    for dim in huge_dims(full) {
        if !main && !full {
            continue;
        }
        let (m, n) = dim;
        for kind in block_parents(dim, &[(n + 1, 1), (2, 2 * m + 1), (2 * n, 2), (3, 3 * m)]) {
            cx.case("beyond size thresholds", || format!("{} {:?}", T::NAME, kind), |run| {
                with_parent::<T>(&kind, &init, &mut |o, mo| {
                    let c = |d: usize| {
                        let mut v = vec![0, 255.min(d - 1), 65_536.min(d - 1), d - 1];
                        v.dedup();
                        v
                    };
                    let mut tag = 200_000;
                    for r in c(m) {
                        for q in c(n) {
                            for (h, w) in [(m - r, n - q), (1, n - q), (m - r, 1)] {
                                let mut bm = block_of(mo, (r, q), (h, w));
                                let at = mc::lv::probe_positions(&bm.lay);
                                o.blk_mut((r, q), (h, w), &mut |b| {
                                    for (x, &k) in at.iter().enumerate() {
                                        let v = T::tag(tag);
                                        tag += 1;
                                        let route = if x % 16 == 5 { 6 } else { [0, 1, 2, 3, 4, 5, 7][x % 7] };
                                        run.step(|| format!("block at {:?} of {:?}: element {} by {}", (r, q), (h, w), k, ROUTES[route]));
                                        write_route(b.as_obj(), &bm.lay, bm.window, route, k, v);
                                        bm.set(k, v);
                                        run.transition();
                                    }
                                    let (x, y) = (h / 2, w - 1);
                                    let mut b2 = block_of(&bm, (x, y), (h - x, 1));
                                    b.blk_mut((x, y), (h - x, 1), &mut |c| {
                                        let k = b2.lay.len() - 1;
                                        *c.as_obj().get1_mut_(k) = T::tag(tag);
                                        b2.set(k, T::tag(tag));
                                        tag += 1;
                                    });
                                    bm.store = std::mem::take(&mut b2.store);
                                });
                                back(mo, &bm);
                                whole(run, o, mo, "matrix after release");
                            }
                        }
                    }
                    run.trace();
                });
            });
        }
    }
}
fn main() {
    let mut cx = Cx::from_args();
    explore::<f64>(&mut cx, true);
    explore::<c64>(&mut cx, false);
    explore::<f32>(&mut cx, false);
    explore::<c32>(&mut cx, false);
    cx.finish();
}
