//! C08: a four-way split partitions the matrix into independent blocks.
use householder::types::{c32, c64};
use mc::*;

type Four<'a, 'b, T> = &'a mut [&'b mut dyn BlkMut<T>; 4];

/// The four blocks and the matrix, over one shared store.
struct World<T> {
    lay: [RefLayout; 4],
    base: [usize; 4],
    store: Vec<T>,
}
impl<T: Sc> World<T> {
    fn new(m: &Model<T>, at: (usize, usize)) -> Self {
        let (p, q) = m.lay.dim;
        let d = [(at.0, at.1), (at.0, q - at.1), (p - at.0, at.1), (p - at.0, q - at.1)];
        let o = [(0, 0), (0, at.1), (at.0, 0), at];
        World {
            lay: std::array::from_fn(|b| RefLayout::strided(Order::Row, d[b], (q, 1))),
            base: std::array::from_fn(|b| if d[b].0 * d[b].1 == 0 { m.base } else { m.base + o[b].0 * q + o[b].1 }),
            store: m.store.clone(),
        }
    }
    fn model(&self, b: usize) -> Model<T> {
        Model { lay: self.lay[b], store: self.store.clone(), base: self.base[b], window: self.lay[b].span() as usize }
    }
    fn n(&self, b: usize) -> usize {
        self.lay[b].len()
    }
    fn at(&self, b: usize, k: usize) -> T {
        self.store[self.base[b] + self.lay[b].raw1(k)]
    }
    fn set(&mut self, b: usize, k: usize, v: T) {
        let r = self.base[b] + self.lay[b].raw1(k);
        self.store[r] = v
    }
    /// Elementwise comparison of all four blocks by all read routes.
    fn check(&self, run: &mut Run, bs: &[&mut dyn BlkMut<T>; 4], what: &str) {
        for b in 0..4 {
            let l = &self.lay[b];
            let v = bs[b].as_blk().as_view();
            ensure!(v.v_dim() == l.dim, "{}: block {} has dimension {:?}, expected {:?}", what, b, v.v_dim(), l.dim);
            for k in 0..l.len() {
                let (i, j) = l.pos(k);
                let e = self.at(b, k);
                let x = [v.v_get(i, j), v.v_get1(k), unsafe { v.v_getu(i, j) }, unsafe { v.v_getu1(k) }];
                for r in 0..4 {
                    ensure!(x[r].same(e), "{}: block {} element ({}, {}) reads {:?} by route {}, expected {:?}", what, b, i, j, x[r], r, e);
                }
            }
            run.eval(4 * l.len() as u64);
        }
    }
    fn write(&mut self, run: &mut Run, bs: Four<T>, b: usize, k: usize, route: usize, v: T) {
        run.step(|| format!("block {}: write {:?} to {:?} by {}", b, v, self.lay[b].pos(k), ROUTES[route]));
        let w = self.lay[b].span() as usize;
        write_route(bs[b].as_obj(), &self.lay[b], w, route, k, v);
        self.set(b, k, v);
        run.transition();
    }
}
fn split<T: Sc>(o: &mut dyn BlkMut<T>, m: &mut Model<T>, at: (usize, usize), f: &mut dyn FnMut(Four<T>, &mut World<T>)) {
    let mut w = World::new(m, at);
    o.split4(at, &mut |bs| f(bs, &mut w));
    m.store = w.store;
    check_obj(o.as_obj_ref(), m, "matrix after release");
}

/// The blocks cover every element exactly once, where they should.
fn partition<T: Sc>(run: &mut Run, o: &mut dyn BlkMut<T>, m: &mut Model<T>, at: (usize, usize)) {
    let start = o.as_obj().ptr_() as usize;
    let (p, q) = m.lay.dim;
    split(o, m, at, &mut |bs, w| {
        w.check(run, bs, "fresh blocks");
        let mut seen = vec![0; p * q];
        for b in 0..4 {
            for k in 0..w.n(b) {
                let a = bs[b].as_obj().get1_mut_(k) as *mut T as usize;
                let loc = a.wrapping_sub(start) / std::mem::size_of::<T>();
                ensure!(loc < p * q, "block {} element {} lies outside of the matrix", b, k);
                seen[loc] += 1;
                ensure!(loc == w.base[b] + w.lay[b].raw1(k), "block {} element {} is element {} of the matrix", b, k, loc);
            }
            for (i, j) in [(w.lay[b].dim.0, 0), (0, w.lay[b].dim.1), w.lay[b].dim, (usize::MAX, 0), (0, usize::MAX)] {
                if !w.lay[b].contains(i, j) {
                    must_refuse("an element outside of a block", || *bs[b].as_obj().get_mut_(i, j) = T::sentinel());
                    must_refuse("an element outside of a block", || bs[b].as_blk().as_view().v_get(i, j));
                }
            }
            let n = w.n(b);
            must_refuse("an element beyond the last of a block", || *bs[b].as_obj().get1_mut_(n) = T::sentinel());
            let span = w.lay[b].span() as usize;
            must_refuse("a window beyond the span of a block", || bs[b].as_obj().slice_mut_(0, span + 1)[0] = T::sentinel());
            if span > 0 {
                let win = bs[b].as_obj().slice_mut_(0, span);
                ensure!(win.len() == span, "window of a block");
                let own: std::collections::HashSet<usize> = (0..n).map(|k| w.lay[b].raw1(k)).collect();
                if let Some(x) = (0..span).find(|x| !own.contains(x)) {
                    let l = w.base[b] + x;
                    run.finding(
                        "raw window of a split_in_four_mut block spans its siblings",
                        format!("split at {:?} of a {:?} matrix: get_slice_mut(0, {}) of block {} contains element {:?} of the matrix, which belongs to another block", at, (p, q), span, b, (l / q, l % q)),
                    );
                }
            }
        }
        ensure!(seen.iter().all(|&c| c == 1), "the blocks cover the elements {:?} times", seen);
        run.eval((p * q + 40) as u64);
        run.state(hash_of(&(p, q, at)));
        run.trace();
    });
}
/// One write through every block element by every route; all four blocks compared after every write.
fn single<T: Sc>(run: &mut Run, o: &mut dyn BlkMut<T>, m: &mut Model<T>, at: (usize, usize)) {
    let mut tag = 3000;
    for route in 0..8 {
        split(o, m, at, &mut |bs, w| {
            for b in 0..4 {
                for k in 0..w.n(b) {
                    tag += 1;
                    w.write(run, bs, b, k, route, T::tag(tag));
                    w.check(run, bs, "after a write");
                    run.state(hash_of(&(m_key(w), b, k, route)));
                }
            }
            run.trace();
        });
    }
}
fn m_key<T>(w: &World<T>) -> u64 {
    hash_of(&w.lay)
}

/// Operations of a block holder.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Write(usize),
    Each,
    Nested(usize),
    Window(usize),
    Bad,
}
fn exec<T: Sc>(run: &mut Run, bs: Four<T>, w: &mut World<T>, b: usize, op: Op, t: usize) {
    run.step(|| format!("holder {}: {:?}", b, op));
    run.transition();
    match op {
        Op::Write(k) => w.write(run, bs, b, k, t % 4, T::tag(t)),
        Op::Window(k) => w.write(run, bs, b, k, 4 + t % 2, T::tag(t)),
        Op::Each => {
            let mut k = 0;
            bs[b].as_obj().each_(&mut |x| {
                ensure!(k < w.n(b) && (*x).same(w.at(b, k)), "apply-to-all of block {} sees {:?} in call {}", b, x, k);
                *x = T::tag(t + k);
                w.set(b, k, T::tag(t + k));
                k += 1;
            });
            ensure!(k == w.n(b), "apply-to-all of block {} made {} calls", b, k);
        }
        Op::Nested(k) => {
            let (i, j) = w.lay[b].pos(k);
            let d = w.lay[b].dim;
            let sub = (d.0 - i, d.1 - j);
            bs[b].blk_mut((i, j), sub, &mut |x| {
                ensure!(x.as_blk().as_view().v_get(0, 0).same(w.at(b, k)), "block of block {} shows {:?}", b, x.as_blk().as_view().v_get(0, 0));
                *x.as_obj().get1_mut_(sub.0 * sub.1 - 1) = T::tag(t);
                let last = w.lay[b].len() - 1;
                w.set(b, last, T::tag(t));
                *x.as_obj().get_mut_(0, 0) = T::tag(t + 1);
                w.set(b, k, T::tag(t + 1));
            });
        }
        Op::Bad => {
            let (p, q) = w.lay[b].dim;
            must_refuse("an element outside of a block", || *bs[b].as_obj().get_mut_(p, 0) = T::sentinel());
            must_refuse("an element outside of a block", || *bs[b].as_obj().get_mut_(0, q) = T::sentinel());
            must_refuse("a block outside of a block", || bs[b].blk_mut((0, 0), (p + 1, q), &mut |x| x.as_obj().each_(&mut |v| *v = T::sentinel())));
            must_refuse("a block outside of a block", || bs[b].blk_mut((0, 0), (p, q + 1), &mut |x| x.as_obj().each_(&mut |v| *v = T::sentinel())));
        }
    }
}
fn ops_of(n: usize) -> Vec<Op> {
    let mut v: Vec<Op> = (0..n).map(Op::Write).collect();
    if n > 0 {
        v.extend([Op::Each, Op::Bad, Op::Nested(0), Op::Window(n - 1)]);
        if n > 1 {
            v.push(Op::Nested(n - 1))
        }
    }
    v
}
/// All sequences of operations of the four holders up to a depth (each prefix fully checked); the blocks
/// stay alive throughout. Backtracking restores through the blocks themselves.
fn sequences<T: Sc>(run: &mut Run, bs: Four<T>, w: &mut World<T>, depth: usize, t: usize) {
    if depth == 0 {
        run.trace();
        return;
    }
    for b in 0..4 {
        for (x, op) in ops_of(w.n(b)).into_iter().enumerate() {
            let save = w.store.clone();
            exec(run, bs, w, b, op, t + 64 * x);
            w.check(run, bs, "after a step");
            run.state(hash_of(&w.store.iter().map(|x| x.bits()).collect::<Vec<_>>()));
            sequences(run, bs, w, depth - 1, t * 3 + x + 1);
            w.store = save;
            for c in 0..4 {
                for k in 0..w.n(c) {
                    *bs[c].as_obj().get1_mut_(k) = w.at(c, k);
                }
            }
        }
    }
}
/// All interleavings of four programs, each replayed from a fresh split.
fn interleavings<T: Sc>(run: &mut Run, o: &mut dyn BlkMut<T>, m: &mut Model<T>, at: (usize, usize), programs: &[Vec<Op>; 4]) {
    let mut order = vec![];
    let mut left: [usize; 4] = std::array::from_fn(|b| programs[b].len());
    fn rec(left: &mut [usize; 4], order: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if left.iter().all(|&x| x == 0) {
            return f(order);
        }
        for b in 0..4 {
            if left[b] > 0 {
                left[b] -= 1;
                order.push(b);
                rec(left, order, f);
                order.pop();
                left[b] += 1;
            }
        }
    }
    let mut t = 0;
    rec(&mut left, &mut order, &mut |sch| {
        t += 1;
        run.step(|| format!("schedule {:?}", sch));
        split(o, m, at, &mut |bs, w| {
            let mut pc = [0; 4];
            for (s, &b) in sch.iter().enumerate() {
                exec(run, bs, w, b, programs[b][pc[b]], (t * 13 + s * 7) % 5000);
                pc[b] += 1;
                w.check(run, bs, "after a step");
            }
        });
        run.state(hash_of(sch));
        run.trace();
    });
}
fn splits(d: (usize, usize)) -> Vec<(usize, usize)> {
    (0..=d.0).flat_map(|i| (0..=d.1).map(move |j| (i, j))).collect()
}

fn explore<T: Sc>(cx: &mut Cx, main: bool) {
    let full = cx.thorough();
    let init = |q: usize| T::tag(q);
    let kinds = |d: (usize, usize)| -> Vec<Kind> { block_parents(d, &[]).into_iter().filter(|k| k.lay == Lay::RM).collect() };
    let kmax = if full { 10 } else { 6 };
    for m in 0..=kmax {
        for n in 0..=kmax {
            for kind in kinds((m, n)) {
                cx.case("partition", || format!("{} {:?}", T::NAME, kind), |run| {
                    with_parent::<T>(&kind, &init, &mut |o, mo| {
                        for at in splits((m, n)) {
                            partition(run, o, mo, at)
                        }
                    })
                });
                if m * n <= if full { 49 } else if main { 20 } else { 12 } {
                    cx.case("one write", || format!("{} {:?}", T::NAME, kind), |run| {
                        with_parent::<T>(&kind, &init, &mut |o, mo| {
                            for at in splits((m, n)) {
                                single(run, o, mo, at)
                            }
                        })
                    });
                }
                if m * n > 0 && m * n <= if full { 12 } else if main { 9 } else { 4 } {
                    let depth = match (full, main) {
                        (true, true) => if m * n <= 4 { 4 } else { 3 },
                        (false, true) => if m * n <= 4 { 3 } else { 2 },
                        _ => if m * n <= 4 { 3 } else { 2 },
                    };
                    for at in splits((m, n)) {
                        cx.case("operation sequences", || format!("{} {:?} split at {:?} depth {}", T::NAME, kind, at, depth), |run| {
                            with_parent::<T>(&kind, &init, &mut |o, mo| split(o, mo, at, &mut |bs, w| sequences(run, bs, w, depth, 1)))
                        });
                    }
                }
                if m <= 3 && n <= 3 {
                    cx.case("refused splits", || format!("{} {:?}", T::NAME, kind), |run| {
                        with_parent::<T>(&kind, &init, &mut |o, mo| {
                            let mut vs = far_values(m.max(n));
                            vs.extend(0..=m + n + 3);
                            for &i in &vs {
                                for &j in &vs {
                                    if i <= m && j <= n {
                                        continue;
                                    }
                                    run.step(|| format!("split at ({}, {})", i, j));
                                    if refused(|| o.split4((i, j), &mut |_| ())).is_ok() {
                                        fail!("split at ({}, {}) of a {:?} matrix was granted", i, j, (m, n));
                                    }
                                    run.eval(1);
                                }
                            }
                            let e = check_obj(o.as_obj_ref(), mo, "after refused splits");
                            run.eval(e);
                        })
                    });
                }
            }
        }
    }
    let inter: Vec<((usize, usize), (usize, usize))> = vec![((2, 2), (1, 1)), ((3, 3), (1, 2)), ((4, 4), (2, 2)), ((4, 3), (3, 1)), ((5, 4), (2, 3))];
    for (d, at) in inter {
        for kind in kinds(d) {
            let last = |n: usize| n - 1;
            for v in 0..3 {
                if !(full || main || v == 0) {
                    continue;
                }
                cx.case("interleavings", || format!("{} {:?} split at {:?} programs {}", T::NAME, kind, at, v), |run| {
                    with_parent::<T>(&kind, &init, &mut |o, mo| {
                        let w = World::new(mo, at);
                        let programs: [Vec<Op>; 4] = std::array::from_fn(|b| {
                            let n = w.n(b);
                            let mut p = match v {
                                0 => vec![Op::Write(0), Op::Write(last(n))],
                                1 => vec![Op::Each, Op::Write(n / 2)],
                                _ => vec![Op::Nested(0), if b % 2 == 0 { Op::Window(last(n)) } else { Op::Bad }],
                            };
                            if full && main && v == 0 && d.0 * d.1 <= 9 {
                                p.push(Op::Nested(last(n)));
                            }
                            p
                        });
                        interleavings(run, o, mo, at, &programs)
                    })
                });
            }
        }
    }
    let big: Vec<(usize, usize)> = if full { vec![(17, 23), (33, 64), (64, 33), (1, 300), (300, 1), (100, 100)] } else { vec![(10, 10), (9, 17), (17, 8), (1, 40), (40, 1)] };
    for d in big {
        for kind in kinds(d) {
            if !main && !full {
                continue;
            }
            cx.case("larger matrices", || format!("{} {:?}", T::NAME, kind), |run| {
                with_parent::<T>(&kind, &init, &mut |o, mo| {
                    for i in [0, 1, d.0 / 3, d.0 / 2, d.0 - 1, d.0] {
                        for j in [0, 1, d.1 / 3, d.1 / 2, d.1 - 1, d.1] {
                            partition(run, o, mo, (i, j));
                            split(o, mo, (i, j), &mut |bs, w| {
                                for b in 0..4 {
                                    let n = w.n(b);
                                    for k in [0, 1, n / 2, n.wrapping_sub(1)] {
                                        if k < n {
                                            w.write(run, bs, b, k, (b + k) % 8, T::tag(7000 + 10 * b + k % 10));
                                        }
                                    }
                                }
                                w.check(run, bs, "after the writes");
                            });
                        }
                    }
                })
            });
        }
    }
    for d in huge_dims(full) {
        for kind in kinds(d) {
            if !main && !full {
                continue;
            }
            for at in [(d.0 / 2, d.1 / 2), (d.0, d.1 - 1), (d.0 - 1, d.1), (d.0 - 1, d.1 - 1), (256.min(d.0), 256.min(d.1)), (65_536.min(d.0), 65_536.min(d.1))] {
                cx.case("beyond size thresholds", || format!("{} {:?} at {:?}", T::NAME, kind, at), |run| {
                    with_parent::<T>(&kind, &init, &mut |o, mo| {
                        partition(run, o, mo, at);
                        let mut tag = 300_000;
                        split(o, mo, at, &mut |bs, w| {
                            for b in 0..4 {
                                for (x, k) in mc::lv::probe_positions(&w.lay[b]).into_iter().enumerate() {
                                    let route = if x % 16 == 5 { 6 } else { [0, 1, 2, 3, 4, 5, 7][x % 7] };
                                    tag += 1;
                                    w.write(run, bs, b, k, route, T::tag(tag));
                                }
                            }
                            w.check(run, bs, "after the writes");
                        });
                    })
                });
            }
        }
    }
}
fn main() {
    let mut cx = Cx::from_args();
    explore::<f64>(&mut cx, true);
    explore::<c64>(&mut cx, false);
    explore::<f32>(&mut cx, false);
    explore::<c32>(&mut cx, false);
    cx.finish();
}
