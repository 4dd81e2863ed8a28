//! C03: histories of writes and reads through every access route of every kind of object.
use mc::*;
use std::collections::{HashMap, VecDeque};

fn strides_for(dim: (usize, usize), full: bool) -> Vec<(usize, usize)> {
    let (m, n) = dim;
    let mut v = stride_classes(dim);
    if full {
        v.extend([(2, 2 * m), (3, 3 * m + 2), (3 * n, 3), (n + 7, 1), (1, 1), (5, 1), (1, 5)]);
    }
    v.sort();
    v.dedup();
    v.retain(|s| s.0 > 0 && s.1 > 0);
    v
}

/// Search over all contents reachable by writing two values, every write by every route from every
/// state; each state is reached by replaying the history that found it.
fn reach<T: Sc>(run: &mut Run, kind: &Kind) {
    let zero = |_: usize| T::of(0.0, 0.0);
    let mut n = 0;
    with_kind::<T>(kind, &zero, &mut |_, m| n = m.lay.len());
    let vals = [T::of(0.0, 0.0), T::of(1.0, -1.0)];
    let mut seen: HashMap<u64, Vec<(usize, usize, usize)>> = HashMap::new();
    let mut queue = VecDeque::new();
    seen.insert(0, vec![]);
    queue.push_back(0u64);
    run.state(0);
    while let Some(s) = queue.pop_front() {
        let path = seen[&s].clone();
        for route in 0..ROUTES.len() {
            for k in 0..n {
                for v in 0..2 {
                    let t = if v == 1 { s | 1 << k } else { s & !(1 << k) };
                    let mut applied = false;
                    with_kind::<T>(kind, &zero, &mut |o, m| {
                        let (l, w) = (m.lay, m.window);
                        for &(r, k, v) in &path {
                            write_route(o, &l, w, r, k, vals[v]);
                            m.set(k, vals[v]);
                        }
                        applied = write_route(o, &l, w, route, k, vals[v]);
                        if applied {
                            m.set(k, vals[v]);
                            let e = check_obj(o, m, "after history");
                            run.eval(e);
                        }
                        for q in 0..n {
                            let bit = t >> q & 1;
                            if applied {
                                ensure!(m.at(q).same(vals[bit as usize]), "model state mismatch");
                            }
                        }
                    });
                    if !applied {
                        continue;
                    }
                    run.step(|| format!("state {:b} {} element {} value {}", s, ROUTES[route], k, v));
                    run.transition();
                    run.trace();
                    run.outcome(t);
                    if !seen.contains_key(&t) {
                        let mut p = path.clone();
                        p.push((route, k, v));
                        seen.insert(t, p);
                        queue.push_back(t);
                        run.state(t);
                    }
                }
            }
        }
    }
    ensure!(seen.len() == 1 << n, "only {} of {} contents reached", seen.len(), 1 << n);
}

/// Every sequence of `depth` writes (route, element), each with a fresh value, checked after every step.
fn sequences<T: Sc>(run: &mut Run, kind: &Kind, depth: usize) {
    let init = |q: usize| T::tag(1000 + q);
    let mut n = 0;
    let mut caps = false;
    with_kind::<T>(kind, &init, &mut |o, m| {
        n = m.lay.len();
        caps = o.caps();
        let e = check_obj(o, m, "initially");
        run.eval(e);
    });
    let routes = if caps { ROUTES.len() } else { 4 };
    let ops = routes * n;
    if ops == 0 {
        return;
    }
    let mut total = 1usize;
    for _ in 0..depth {
        total *= ops;
    }
    for code in 0..total {
        let mut seq = [0usize; 8];
        let mut c = code;
        for d in (0..depth).rev() {
            seq[d] = c % ops;
            c /= ops;
        }
        with_kind::<T>(kind, &init, &mut |o, m| {
            let (l, w) = (m.lay, m.window);
            for (d, &op) in seq[..depth].iter().enumerate() {
                let (route, k) = (op / n, op % n);
                run.step(|| format!("{}: write element {} by {}", d, k, ROUTES[route]));
                let v = T::tag(d);
                write_route(o, &l, w, route, k, v);
                m.set(k, v);
                run.transition();
                // earlier steps of the same prefix are checked by the sequences that end there
                if d + 1 == depth {
                    let e = check_obj(o, m, "after history");
                    run.eval(e);
                    run.state(hash_of(&m.store.iter().map(|x| x.bits()).collect::<Vec<_>>()));
                }
            }
        });
        run.trace();
    }
    run.outcome(ops as u64);
}

/// Every element written by one route (in a given order), everything read back by all routes; then by the next.
fn sweep<T: Sc>(run: &mut Run, kind: &Kind) {
    let init = |q: usize| T::tag(q);
    with_kind::<T>(kind, &init, &mut |o, m| {
        let (l, w) = (m.lay, m.window);
        let n = l.len();
        let mut stamp = 10_000;
        let e = check_obj(o, m, "initially");
        run.eval(e);
        for rev in 0..2 {
            for route in 0..ROUTES.len() {
                if route == 6 {
                    if o.caps() {
                        let mut k = 0;
                        o.each_(&mut |x| {
                            *x = T::tag(stamp + k);
                            m.set(k, T::tag(stamp + k));
                            k += 1;
                        });
                        ensure!(k == n, "for_each made {} calls for {} elements", k, n);
                        stamp += n;
                        run.transition();
                    }
                } else {
                    for q in 0..n {
                        let k = if rev == 1 { n - 1 - q } else { q };
                        let v = T::tag(stamp % 1_000_000);
                        if !write_route(o, &l, w, route, k, v) {
                            break;
                        }
                        m.set(k, v);
                        stamp += 1;
                        run.transition();
                    }
                }
                run.step(|| format!("all elements by {}", ROUTES[route]));
                let e = check_obj(o, m, "after writing all elements");
                run.eval(e);
                run.state(hash_of(&m.store.iter().map(|x| x.bits()).collect::<Vec<_>>()));
            }
        }
        run.trace();
    });
}

/// Writes at every position near a size threshold by every route, then everywhere, compared as a whole.
fn sparse<T: Sc>(run: &mut Run, kind: &Kind) {
    let init = |q: usize| T::tag(q);
    with_kind::<T>(kind, &init, &mut |o, m| {
        let (l, w) = (m.lay, m.window);
        let at = mc::lv::probe_positions(&l);
        let mut stamp = 400_000;
        for route in 0..ROUTES.len() {
            for (x, &k) in at.iter().enumerate() {
                // apply-to-all costs a pass over everything
                if route == 6 && x % 40 != 7 {
                    continue;
                }
                run.step(|| format!("element {} by {}", k, ROUTES[route]));
                if !write_route(o, &l, w, route, k, T::tag(stamp)) {
                    break;
                }
                m.set(k, T::tag(stamp));
                stamp += 1;
                let (i, j) = l.pos(k);
                ensure!(o.view().v_get(i, j).same(m.at(k)) && o.view().v_get1(k).same(m.at(k)), "element {} just written by {}", k, ROUTES[route]);
                run.transition();
            }
        }
        let e = check_obj(o, m, "after writing at the thresholds");
        run.eval(e);
        for k in 0..l.len() {
            let v = T::tag(500_000 + k);
            write_route(o, &l, w, if k % 3 == 0 { 0 } else { k % 4 }, k, v);
            m.set(k, v);
        }
        let e = check_obj(o, m, "after writing all elements");
        run.eval(e);
        run.state(hash_of(&(kind, at.len())));
        run.trace();
    });
}

fn explore<T: Sc>(cx: &mut Cx, main: bool) {
    let full = cx.thorough();
    // reachability
    let small: Vec<(usize, usize)> = (1..=6).flat_map(|m| (1..=6).map(move |n| (m, n))).filter(|d| d.0 * d.1 <= 6 || d.0 == d.1 && d.0 <= 3).collect();
    for &dim in &small {
        for kind in kinds_for(dim, &strides_for(dim, full), &[1, 2, 3]) {
            let n = kind.lay.reference(dim).len();
            let cap = if main || full { if full { 6 } else { 5 } } else { 4 };
            if n > cap {
                continue;
            }
            cx.case("reachable contents", || format!("{} {:?}", T::NAME, kind), |r| reach::<T>(r, &kind));
        }
    }
    // all sequences
    for m in 0..=4 {
        for n in 0..=5 {
            let dim = (m, n);
            for kind in kinds_for(dim, &strides_for(dim, full), &[1, 2, 3]) {
                let len = kind.lay.reference(dim).len();
                let depth = match (len, main, full) {
                    (0, _, _) => 1,
                    (1, _, _) => 3,
                    (2..=4, true, _) => 3,
                    (2..=4, false, true) => 3,
                    (2..=6, _, _) => 2,
                    (7..=9, true, _) => 2,
                    (_, _, true) => 2,
                    _ => 1,
                };
                let depth = if full && main && len <= 2 { 4 } else { depth };
                cx.case("write sequences", || format!("{} {:?} depth {}", T::NAME, kind, depth), |r| sequences::<T>(r, &kind, depth));
            }
        }
    }
    // larger shapes
    let mut big = vec![(1, 1), (1, 17), (17, 1), (1, 70), (70, 1), (7, 9), (9, 7), (8, 8), (16, 5), (5, 16), (17, 19), (33, 31), (1, 300), (300, 1), (3, 65), (65, 3), (40, 40)];
    if full {
        for m in 1..=24 {
            for n in 1..=24 {
                big.push((m, n));
            }
        }
        big.extend([(127, 3), (128, 4), (129, 5), (3, 257), (257, 2), (100, 100), (1, 4097), (4097, 1)]);
    }
    let mut huge = huge_dims(full);
    huge.push((400, 400));
    for dim in huge {
        let mut st = vec![(dim.1 + 1, 1), (2, 2 * dim.0 + 1), (2 * dim.1, 2), (3, 3 * dim.0)];
        if full {
            st.extend([(1, dim.0), (dim.1, 1), (3 * dim.1, 3)]);
        }
        for kind in kinds_for(dim, &st, &[1, 3]) {
            // square dimensions that big are there for the triangle
            if dim == (400, 400) && kind.lay != Lay::UP || !main && !full && matches!(kind.st, St::Split(_) | St::Mon(_) | St::Slice(2)) {
                continue;
            }
            cx.case("beyond size thresholds", || format!("{} {:?}", T::NAME, kind), |r| sparse::<T>(r, &kind));
        }
    }
    for &dim in &big {
        for kind in kinds_for(dim, &strides_for(dim, full), &[1, 2, 3, 7]) {
            cx.case("sweeps over larger shapes", || format!("{} {:?}", T::NAME, kind), |r| sweep::<T>(r, &kind));
        }
    }
}

fn main() {
    let mut cx = Cx::from_args();
    explore::<f64>(&mut cx, true);
    explore::<f32>(&mut cx, false);
    explore::<householder::types::c32>(&mut cx, false);
    explore::<householder::types::c64>(&mut cx, false);
    cx.finish();
}
