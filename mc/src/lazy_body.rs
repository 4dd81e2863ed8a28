// C10 for one scalar type `T`; included once per type.
type Mon<L, R, C> = GenericBaseMatrix<T, L, MonContainer<T>, R, C>;
type Made<L, R, C> = (Mon<L, R, C>, Rc<GuardBuf<T>>, Rc<MonLog>);

fn leaf<L: LayoutType, R: SizeIdentifier, C: SizeIdentifier>(which: usize, lay: RefLayout, l: L, special: bool) -> Made<L, R, C> {
    let (c, buf, log) = MonContainer::<T>::fresh(lay.span() as usize + which % 2, |q| {
        if special && q % 3 == 1 {
            [T::of(0.0, 0.0), T::of(f64::NAN, f64::NAN), T::of(1.0, 0.0)][(q / 3 + which) % 3]
        } else {
            T::tag(100 * which + q)
        }
    });
    log.order.borrow_mut().reserve(16 * buf.len() + 64);
    (Mon::<L, R, C>::from_data(c, l), buf, log)
}
/// One operand in its two occurrences: moved into the expression and borrowed by it.
struct Operand {
    own: (Rc<GuardBuf<T>>, Rc<MonLog>),
    borrowed: (Rc<GuardBuf<T>>, Rc<MonLog>),
    lay: RefLayout,
}
impl Operand {
    fn clear(&self) {
        self.own.1.clear();
        self.borrowed.1.clear();
    }
    fn reads(&self, q: usize) -> u32 {
        let g = |l: &MonLog| {
            let r = l.reads.borrow();
            if q < r.len() { r[q] } else { 0 }
        };
        g(&self.own.1) + g(&self.borrowed.1)
    }
    fn pointers(&self) -> u32 {
        self.own.1.pointers.get() + self.borrowed.1.pointers.get()
    }
    fn muts(&self) -> u32 {
        self.own.1.muts.borrow().iter().sum::<u32>() + self.borrowed.1.muts.borrow().iter().sum::<u32>()
    }
    fn total(&self) -> u32 {
        self.own.1.total() + self.borrowed.1.total()
    }
    fn set(&self, q: usize, v: T) {
        self.own.0.set(q, v);
        self.borrowed.0.set(q, v);
    }
    fn same_contents(&self) {
        for q in 0..self.own.0.len() {
            self.borrowed.0.set(q, self.own.0.at(q));
        }
    }
    fn at(&self, k: usize) -> T {
        self.own.0.at(self.lay.raw1(k))
    }
}

macro_rules! forms {
    ($name:ident, $form:tt, ($R:ident, $C:ident), ($($G:ident)?, $($H:ident)?), $ev:tt, $pa:ident $ra:ident, $pb:ident $rb:ident, $pc:ident $rc:ident) => {
        fn $name<LA, LB, BL $(, $G: SizeIdentifier)? $(, $H: SizeIdentifier)?>(
            run: &mut Run, scalars: &[(T, T)], lays: [RefLayout; 3],
            mka: impl Fn() -> Made<LA, $R, $C>,
            mkb: impl Fn() -> Made<LB, $R, $C>,
            mkc: impl Fn() -> Made<LA, $R, $C>,
        ) where
            BL: BaseLayoutType + LayoutType<IndexLayout = BL>,
            LA: LayoutType<IndexLayout = BL>, LB: LayoutType<IndexLayout = BL>,
        {
            let n = lays[0].len();
            // the borrowed occurrences of the operands live longer than the expressions
            let (ba, bb, bc) = (mka(), mkb(), mkc());
            let (slot_a, slot_b, slot_c) = (Cell::new(None), Cell::new(None), Cell::new(None));
            let $pa = || slot_a.take().expect("used once");
            let $pb = || slot_b.take().expect("used once");
            let $pc = || slot_c.take().expect("used once");
            let ($ra, $rb, $rc) = (&ba.0, &bb.0, &bc.0);
            for &(s, t) in scalars {
                macro_rules! visit {
                    ($what:expr, $occ:expr, $e:expr, $m:expr) => {{
                        run.step(|| format!("{} with s = {:?}, t = {:?}", $what, s, t));
                        let (oa, ob, oc) = (mka(), mkb(), mkc());
                        let ops = [
                            Operand { own: (oa.1, oa.2), borrowed: (ba.1.clone(), ba.2.clone()), lay: lays[0] },
                            Operand { own: (ob.1, ob.2), borrowed: (bb.1.clone(), bb.2.clone()), lay: lays[1] },
                            Operand { own: (oc.1, oc.2), borrowed: (bc.1.clone(), bc.2.clone()), lay: lays[2] },
                        ];
                        slot_a.set(Some(oa.0));
                        slot_b.set(Some(ob.0));
                        slot_c.set(Some(oc.0));
                        let occ: [u32; 3] = $occ;
                        let f = arith::<T, _>($m);
                        for o in &ops {
                            o.same_contents();
                            o.clear()
                        }
                        let mut probe = Probe { run, ops: &ops, occ, n, what: $what, scal: &f, allocs: Allocs::start() };
                        match $e {
                            e => {
                                probe.built();
                                probe.explore(&e);
                                forms!(eval $ev, probe.evaluate(&e, &mut || { let a = Allocs::start(); let r = e.eval(); let allocs = a.end(); Evaluated { values: probe_values(&r), allocs } }));
                                drop(e);
                            }
                        }
                        probe.finish();
                    }};
                }
                forms!(call $form, visit, $pa $ra, $pb $rb, $pc $rc, s, t, x, y, z);
            }
        }
    };
    (eval yes, $b:expr) => { $b };
    (eval no, $b:expr) => {};
    (call one, $v:ident, $pa:ident $ra:ident, $pb:ident $rb:ident, $pc:ident $rc:ident, $s:ident, $t:ident, $x:ident, $y:ident, $z:ident) => {
        tree_forms!(one, $v, $pa, $ra, $s, $t, $x, $y, $z)
    };
    (call two, $v:ident, $pa:ident $ra:ident, $pb:ident $rb:ident, $pc:ident $rc:ident, $s:ident, $t:ident, $x:ident, $y:ident, $z:ident) => {
        tree_forms!(two, $v, $pa, $pb, $ra, $rb, $s, $t, $x, $y, $z)
    };
    (call three, $v:ident, $pa:ident $ra:ident, $pb:ident $rb:ident, $pc:ident $rc:ident, $s:ident, $t:ident, $x:ident, $y:ident, $z:ident) => {
        tree_forms!(three, $v, $pa, $pb, $pc, $ra, $rb, $rc, $s, $t, $x, $y, $z)
    };
}

struct Probe<'a> {
    run: &'a mut Run,
    ops: &'a [Operand; 3],
    occ: [u32; 3],
    n: usize,
    what: &'a str,
    scal: &'a dyn Fn(T, T, T) -> T,
    allocs: Allocs,
}
impl<'a> Probe<'a> {
    fn want(&self, k: usize) -> T {
        (self.scal)(self.ops[0].at(k), self.ops[1].at(k), self.ops[2].at(k))
    }
    fn untouched(&self, when: &str) {
        for (o, name) in self.ops.iter().zip(["A", "B", "C"]) {
            ensure!(o.total() == 0, "{}: {} {} element accesses of {}", self.what, when, o.total(), name);
        }
    }
    fn built(&mut self) {
        let (c, b, _) = self.allocs.end();
        ensure!(c == 0, "{}: building the expression made {} allocations of {} bytes", self.what, c, b);
        self.untouched("building the expression made");
        for o in self.ops {
            ensure!(o.pointers() == 0, "{}: building the expression asked for the storage of an operand", self.what);
        }
        self.run.eval(4);
        self.run.transition();
    }
    fn only(&self, k: usize, how: &str) {
        for (o, name) in self.ops.iter().zip(["A", "B", "C"]) {
            let raw = o.lay.raw1(k);
            ensure!(o.muts() == 0, "{}: {} mutably accessed {}", self.what, how, name);
            let extra = o.total() - o.reads(raw);
            ensure!(extra == 0, "{}: {} of element {} made {} reads of other elements of {}", self.what, how, k, extra, name);
        }
    }
    /// Reads of single elements, with the operands changing in between.
    fn explore(&mut self, e: &dyn View<T>) {
        let l = self.ops[0].lay;
        let n = self.n;
        // all elements, or the ones around the size thresholds of a huge operand
        let ks: Vec<usize> = if n < 1000 {
            (0..n).collect()
        } else {
            let mut v = vec![0, 1, 255, 256, 257, 4095, 4096, n / 2, 65535, 65536, 65537, n - 2, n - 1];
            v.retain(|&k| k < n);
            v
        };
        for round in 0..2 {
            for &k in &ks {
                let (i, j) = l.pos(k);
                for route in 0..4 {
                    for o in self.ops {
                        o.clear()
                    }
                    self.allocs = Allocs::start();
                    let x = match route {
                        0 => e.v_get(i, j),
                        1 => e.v_get1(k),
                        2 => unsafe { e.v_getu(i, j) },
                        _ => unsafe { e.v_getu1(k) },
                    };
                    let a = self.allocs.end();
                    self.only(k, ["get", "get1d", "get_unchecked", "get1d_unchecked"][route]);
                    ensure!(x.same(self.want(k)), "{}: element {} is {:?}, expected {:?}", self.what, k, x, self.want(k));
                    ensure!(a.0 == 0, "{}: reading an element allocates", self.what);
                    self.run.eval(3);
                    self.run.transition();
                }
                if round == 0 {
                    // an expression is a recipe: it sees what its operands hold when it is read
                    for (w, o) in self.ops.iter().enumerate() {
                        o.set(o.lay.raw1(k), T::tag(7000 + 300 * w + k));
                    }
                    let x = e.v_get(i, j);
                    ensure!(x.same(self.want(k)), "{}: element {} is {:?} after the operands changed, expected {:?}", self.what, k, x, self.want(k));
                    self.run.eval(1);
                }
            }
            for o in self.ops {
                o.clear()
            }
            let d = e.v_dim();
            ensure!(d == l.dim && e.v_n() == self.n, "{}: dimension {:?}", self.what, d);
            for (i, j) in [(d.0, 0), (0, d.1), (usize::MAX, usize::MAX)] {
                must_refuse("an element outside of the expression", || e.v_get(i, j));
            }
            must_refuse("an element outside of the expression", || e.v_get1(self.n));
            self.untouched("asking for the dimension and refused accesses made");
            self.run.state(hash_of(&(self.what, round, self.n)));
        }
    }
    fn evaluate(&mut self, e: &dyn View<T>, eval: &mut dyn FnMut() -> Evaluated<T>) {
        for round in 0..2 {
            for o in self.ops {
                o.clear()
            }
            let before: Vec<Vec<T>> = self.ops.iter().map(|o| o.own.0.snapshot()).collect();
            let v = eval();
            ensure!(v.allocs.1 <= (self.n * std::mem::size_of::<T>()) as u64 + 64, "{}: evaluating {} elements allocated {} bytes", self.what, self.n, v.allocs.1);
            for (w, (o, name)) in self.ops.iter().zip(["A", "B", "C"]).enumerate() {
                ensure!(o.muts() == 0, "{}: evaluation mutably accessed {}", self.what, name);
                let mut expect = vec![0u32; o.own.0.len()];
                for k in 0..self.n {
                    expect[o.lay.raw1(k)] = self.occ[w];
                }
                if o.pointers() == 0 {
                    for q in 0..expect.len() {
                        ensure!(o.reads(q) == expect[q], "{}: evaluation read location {} of {} {} times, expected {}", self.what, q, name, o.reads(q), expect[q]);
                    }
                }
                for (q, x) in o.own.0.snapshot().iter().enumerate() {
                    ensure!(x.same(before[w][q]) && o.borrowed.0.at(q).same(before[w][q]), "{}: evaluation changed location {} of {}", self.what, q, name);
                }
                ensure!(o.own.0.guards_ok() && o.borrowed.0.guards_ok(), "{}: evaluation wrote outside of {}", self.what, name);
                self.run.eval(2 * expect.len() as u64);
            }
            ensure!(v.values.len() == self.n, "{}: {} values", self.what, v.values.len());
            for k in 0..self.n {
                ensure!(v.values[k].same(self.want(k)), "{}: evaluated element {} is {:?}, expected {:?}", self.what, k, v.values[k], self.want(k));
            }
            self.run.transition();
            if round == 0 {
                for (w, o) in self.ops.iter().enumerate() {
                    for k in 0..self.n {
                        o.set(o.lay.raw1(k), T::tag(40 * w + 3 * k));
                    }
                }
            }
        }
        let _ = e;
    }
    fn finish(self) {
        self.run.trace();
        self.run.outcome(hash_of(self.what));
    }
}

forms!(one_dyn, one, (Dynamic, Dynamic), (,), yes, pa ra, pb rb, pc rc);
forms!(two_dyn, two, (Dynamic, Dynamic), (,), yes, pa ra, pb rb, pc rc);
forms!(three_dyn, three, (Dynamic, Dynamic), (,), yes, pa ra, pb rb, pc rc);
wide! {
    forms!(one_any, one, (RS, CS), (RS, CS), no, pa ra, pb rb, pc rc);
    forms!(two_any, two, (RS, CS), (RS, CS), no, pa ra, pb rb, pc rc);
}

pub fn explore(cx: &mut Cx) {
    let full = cx.thorough();
    let kmax = if full { 6 } else { 3 };
    let mut dims: Vec<(usize, usize)> = (0..=kmax).flat_map(|m| (0..=kmax).map(move |n| (m, n))).collect();
    dims.extend(if full { vec![(1, 64), (64, 1), (17, 23), (40, 33), (128, 3)] } else { vec![(1, 17), (17, 1), (9, 8), (5, 13)] });
    let scalars = |q: usize| -> Vec<(T, T)> {
        let v = [T::of(2.0, -1.0), T::of(0.0, 0.0), T::of(1.0, 0.0), T::of(-1.0, 0.0), T::of(f64::NAN, 0.0), T::of(0.0, 1.0), T::of(f64::INFINITY, 0.0)];
        if full {
            v.iter().flat_map(|&s| v.iter().map(move |&t| (s, t))).collect()
        } else {
            (0..v.len()).map(|x| (v[x], v[(3 * x + q) % v.len()])).collect()
        }
    };
    let small = dims.len();
    dims.extend([(257, 300), (1, 70000), (70000, 1)]);
    if full {
        dims.extend([(300, 257), (1100, 65)]);
    }
    for (q, d) in dims.into_iter().enumerate() {
        let huge = q >= small;
        macro_rules! space { ($x:literal) => { if huge { concat!($x, " beyond size thresholds") } else { $x } }; }
        for special in [false, true] {
            if huge && special {
                continue;
            }
            for part in 0..3 {
                let (r, c) = (RefLayout::packed(Order::Row, d), RefLayout::packed(Order::Col, d));
                let odd = (d.0 + d.1) % 2;
                let (sr, sc) = ((2 * d.1 + 3 * odd, 2), (2, 2 * d.0 + odd));
                let (rs, cs) = (RefLayout::strided(Order::Row, d, sr), RefLayout::strided(Order::Col, d, sc));
                macro_rules! rm { ($w:expr) => { || leaf::<_, Dynamic, Dynamic>($w, r, RowMajor::new(d), special) }; }
                macro_rules! cm { ($w:expr) => { || leaf::<_, Dynamic, Dynamic>($w, c, ColumnMajor::new(d), special) }; }
                macro_rules! asr { ($w:expr) => { || leaf::<_, Dynamic, Dynamic>($w, rs, ArbitraryStrideRowMajor::new(d, sr), special) }; }
                macro_rules! asc { ($w:expr) => { || leaf::<_, Dynamic, Dynamic>($w, cs, ArbitraryStrideColumnMajor::new(d, sc), special) }; }
                let sv = if huge { vec![(T::of(2.0, -1.0), T::of(3.0, 1.0))] } else { scalars(q) };
                cx.case(space!("row-major operands"), || format!("{} {:?} forms {} special {}", T::NAME, d, part, special), |run| match part {
                    0 => one_dyn(run, &sv, [r, r, r], rm!(1), rm!(2), rm!(3)),
                    1 => two_dyn(run, &sv, [r, r, r], rm!(1), rm!(2), rm!(3)),
                    _ => three_dyn(run, &sv, [r, r, r], rm!(1), rm!(2), rm!(3)),
                });
                wide! {
                    cx.case(space!("column-major operands"), || format!("{} {:?} forms {} special {}", T::NAME, d, part, special), |run| match part {
                        0 => one_dyn(run, &sv, [c, c, c], cm!(1), cm!(2), cm!(3)),
                        1 => two_dyn(run, &sv, [cs, c, cs], asc!(1), cm!(2), asc!(3)),
                        _ => three_dyn(run, &sv, [c, c, c], cm!(1), cm!(2), cm!(3)),
                    });
                    cx.case(space!("mixed strided operands"), || format!("{} {:?} forms {} special {}", T::NAME, d, part, special), |run| match part {
                        0 => one_dyn(run, &sv, [rs, rs, rs], asr!(1), asr!(2), asr!(3)),
                        1 => two_dyn(run, &sv, [rs, r, rs], asr!(1), rm!(2), asr!(3)),
                        _ => three_dyn(run, &sv, [r, rs, r], rm!(1), asr!(2), rm!(3)),
                    });
                    if d.0 == d.1 {
                        let u = RefLayout::packed(Order::Upper, d);
                        macro_rules! up { ($w:expr) => { || leaf::<_, Dynamic, Dynamic>($w, u, UpperTriangular::new(d.0), special) }; }
                        cx.case(space!("triangular operands"), || format!("{} {:?} forms {} special {}", T::NAME, d, part, special), |run| match part {
                            0 => one_dyn(run, &sv, [u, u, u], up!(1), up!(2), up!(3)),
                            _ => two_dyn(run, &sv, [u, u, u], up!(1), up!(2), up!(3)),
                        });
                    }
                    if d.0 == 1 {
                        let v = RefLayout::strided(Order::Row, d, (1, 2));
                        macro_rules! ow { ($w:expr) => { || leaf::<_, Fixed1, Dynamic>($w, r, RowVector::new(d.1), special) }; }
                        macro_rules! st { ($w:expr) => { || leaf::<_, Fixed1, Dynamic>($w, v, ArbitraryStrideRowVector::new(d.1, 2), special) }; }
                        cx.case(space!("row vector operands"), || format!("{} {:?} forms {} special {}", T::NAME, d, part, special), |run| match part {
                            0 => one_any(run, &sv, [r, r, r], ow!(1), ow!(2), ow!(3)),
                            1 => two_any(run, &sv, [r, v, r], ow!(1), st!(2), ow!(3)),
                            _ => two_any(run, &sv, [v, v, v], st!(1), st!(2), st!(3)),
                        });
                    }
                    if d.1 == 1 {
                        let v = RefLayout::strided(Order::Col, d, (2, 1));
                        macro_rules! ow { ($w:expr) => { || leaf::<_, Dynamic, Fixed1>($w, c, ColumnVector::new(d.0), special) }; }
                        macro_rules! st { ($w:expr) => { || leaf::<_, Dynamic, Fixed1>($w, v, ArbitraryStrideColumnVector::new(d.0, 2), special) }; }
                        cx.case(space!("column vector operands"), || format!("{} {:?} forms {} special {}", T::NAME, d, part, special), |run| match part {
                            0 => one_any(run, &sv, [c, c, c], ow!(1), ow!(2), ow!(3)),
                            1 => two_any(run, &sv, [c, v, c], ow!(1), st!(2), ow!(3)),
                            _ => two_any(run, &sv, [v, v, v], st!(1), st!(2), st!(3)),
                        });
                    }
                }
            }
        }
    }
}
