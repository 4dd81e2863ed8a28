// All expression trees up to four operators over operands on monitored storage; included by the checks of
// C09 (what they evaluate to) and C10 (what they read, and when).
use householder::*;
use mc::*;
use std::rc::Rc;

type T = f64;
struct Allocs(u64, u64);
impl Allocs {
    fn start() -> Self {
        let a = mc::alloc::counters();
        Allocs(a.0, a.1)
    }
    fn end(&self) -> (u64, u64) {
        let a = mc::alloc::counters();
        (a.0 - self.0, a.1 - self.1)
    }
}
type MonMat<L> = GenericBaseMatrix<T, L, MonContainer<T>, Dynamic, Dynamic>;
/// Six operands: packed ones at even places, strided ones at odd places.
pub struct Leaves {
    dim: (usize, usize),
    stride: (usize, usize),
    bufs: Vec<(Rc<GuardBuf<T>>, Rc<MonLog>)>,
    packed: Vec<MonMat<RowMajor>>,
    gapped: Vec<MonMat<ArbitraryStrideRowMajor>>,
}
impl Leaves {
    fn new(dim: (usize, usize)) -> Self {
        let mut l = Leaves { dim, stride: (2 * dim.1 + 3, 2), bufs: vec![], packed: vec![], gapped: vec![] };
        for i in 0..6 {
            let (_, buf, log) = MonContainer::<T>::fresh(l.lay(i).span() as usize, |q| 1e200 + q as f64);
            log.order.borrow_mut().reserve(64 * buf.len() + 64);
            l.bufs.push((buf, log));
        }
        for i in 0..6 {
            let (p, g) = (l.po(i & !1), l.go(i | 1));
            l.packed.push(p);
            l.gapped.push(g);
        }
        l
    }
    fn lay(&self, i: usize) -> RefLayout {
        if i % 2 == 0 { RefLayout::packed(Order::Row, self.dim) } else { RefLayout::strided(Order::Row, self.dim, self.stride) }
    }
    fn container(&self, i: usize) -> MonContainer<T> {
        MonContainer::new(self.bufs[i].0.clone(), self.bufs[i].1.clone())
    }
    fn po(&self, i: usize) -> MonMat<RowMajor> {
        MonMat::from_data(self.container(i), RowMajor::new(self.dim))
    }
    fn go(&self, i: usize) -> MonMat<ArbitraryStrideRowMajor> {
        MonMat::from_data(self.container(i), ArbitraryStrideRowMajor::new(self.dim, self.stride))
    }
    fn pr(&self, i: usize) -> &MonMat<RowMajor> {
        &self.packed[i]
    }
    fn gr(&self, i: usize) -> &MonMat<ArbitraryStrideRowMajor> {
        &self.gapped[i]
    }
    fn clear(&self) {
        for b in &self.bufs {
            b.1.clear();
        }
    }
    fn set(&self, i: usize, k: usize, x: T) {
        self.bufs[i].0.set(self.lay(i).raw1(k), x);
    }
    fn at(&self, i: usize, k: usize) -> T {
        self.bufs[i].0.at(self.lay(i).raw1(k))
    }
}
pub struct Tree {
    name: &'static str,
    operators: usize,
    leaves: usize,
    run: fn(&Leaves, &[T], &mut Harness),
    model: fn(&[T], &[T]) -> T,
}
pub struct Evaluated {
    value: MatrixD<T, RowMajor>,
    allocs: (u64, u64),
}
fn evaluate<M: MatrixTrait<T, L, Dynamic, Dynamic>, L: LayoutType<IndexLayout = RowMajor>>(e: &Matrix<T, M, L, Dynamic, Dynamic>) -> Evaluated {
    let a = Allocs::start();
    let value = e.eval();
    Evaluated { value, allocs: a.end() }
}
pub struct Harness<'a> {
    tree: &'a Tree,
    l: &'a Leaves,
    s: &'a [T],
    run: &'a mut Run,
    allocs: Allocs,
    /// C09: the values; C10: the accesses
    values: bool,
    alphabet: &'a [T],
}
impl<'a> Harness<'a> {
    fn want(&self, k: usize) -> T {
        let x: Vec<T> = (0..6).map(|i| self.l.at(i, k)).collect();
        (self.tree.model)(&x, self.s)
    }
    fn fill(&self, round: usize) {
        let n = self.l.dim.0 * self.l.dim.1;
        for i in 0..6 {
            for k in 0..n {
                self.l.set(i, k, self.alphabet[(5 * k + (2 * round + 1) * i + 3 * round) % self.alphabet.len()]);
            }
        }
    }
    fn touched(&self, k: Option<usize>, times: u32, how: &str) {
        for (i, b) in self.l.bufs.iter().enumerate() {
            let t = b.1.total();
            let want = if i < self.tree.leaves { times } else { 0 };
            match k {
                None => ensure!(t == 0, "{}: {} made {} accesses of operand {}", self.tree.name, how, t, i),
                Some(k) => {
                    let r = b.1.reads.borrow();
                    let q = self.l.lay(i).raw1(k);
                    let here = if q < r.len() { r[q] } else { 0 };
                    ensure!(t == want && here == want && b.1.pointers.get() == 0, "{}: {} made {} accesses of operand {}, {} of them of the element", self.tree.name, how, t, i, here);
                }
            }
        }
    }
    fn go(&mut self, e: &dyn View<T>, eval: &mut dyn FnMut() -> Evaluated) {
        let a = self.allocs.end();
        let n = self.l.dim.0 * self.l.dim.1;
        let lay = self.l.lay(0);
        if !self.values {
            ensure!(a.0 == 0, "{}: building the expression made {} allocations", self.tree.name, a.0);
            self.touched(None, 0, "building the expression");
        }
        self.run.transition();
        for round in 0..if self.values { 4 } else { 2 } {
            self.fill(round);
            if self.values {
                let want: Vec<T> = (0..n).map(|k| self.want(k)).collect();
                let m = Model { lay, store: want.clone(), base: 0, window: n };
                let c = check_view(e, &m, self.tree.name);
                let r = eval();
                let c2 = check_view(&r.value, &m, "the evaluated matrix");
                self.run.eval(c + c2);
            } else {
                for k in 0..n {
                    let (i, j) = lay.pos(k);
                    for route in 0..4 {
                        self.l.clear();
                        let al = Allocs::start();
                        let x = match route {
                            0 => e.v_get(i, j),
                            1 => e.v_get1(k),
                            2 => unsafe { e.v_getu(i, j) },
                            _ => unsafe { e.v_getu1(k) },
                        };
                        let al = al.end();
                        ensure!(al.0 == 0, "{}: reading an element allocates", self.tree.name);
                        self.touched(Some(k), 1, "reading an element");
                        ensure!(x.same(self.want(k)), "{}: element {} is {:?}, the operands now hold {:?}", self.tree.name, k, x, self.want(k));
                        self.run.eval(3);
                    }
                }
                self.l.clear();
                let r = eval();
                ensure!(r.allocs.1 <= (n * std::mem::size_of::<T>()) as u64 + 64, "{}: evaluation allocated {} bytes", self.tree.name, r.allocs.1);
                for (i, b) in self.l.bufs.iter().enumerate() {
                    let want = if i < self.tree.leaves { n as u32 } else { 0 };
                    ensure!(b.1.total() == want, "{}: evaluation made {} accesses of operand {}, expected {}", self.tree.name, b.1.total(), i, want);
                }
                for k in 0..n {
                    ensure!(r.value.get1d(k).same(self.want(k)), "{}: evaluated element {} is not what the operands hold", self.tree.name, k);
                }
                self.run.eval(2 * n as u64);
            }
            self.run.transition();
        }
        self.run.trace();
    }
}
include!("all_trees.rs");

pub fn explore(cx: &mut Cx, values: bool) {
    // values whose sums and products round, cancel, overflow or are special
    let alphabet = [0.1, -3.0, 1.0 + f64::EPSILON, 1e16, -0.0, 7.3, -1e16, 0.0, 1.0 / 3.0, f64::INFINITY, 1e-300, -0.1, f64::MAX, 2.5, f64::NAN, 5e-324, -1.0, 1e300, f64::NEG_INFINITY];
    let tame = [0.1, -3.0, 7.3, 1e16, 2.5, -0.7, 1.0 / 3.0, -1e16, 11.0, 0.01, 5.5];
    let scalars: Vec<[T; 5]> = if cx.thorough() {
        vec![[2.0, -1.0, 0.3, 1.0 + f64::EPSILON, -0.7], [0.0, 1.0, -1.0, 0.5, -0.0], [1.0; 5], [-1.0; 5], [0.0; 5], [1e200, 1e-200, 3.0, f64::INFINITY, 0.1], [0.1, 0.2, 0.3, 0.4, 0.7]]
    } else {
        vec![[2.0, -1.0, 0.3, 1.0 + f64::EPSILON, -0.7], [0.0, 1.0, -1.0, 0.5, -0.0], [1.0; 5]]
    };
    for t in TREES {
        cx.case(["", "expression trees of up to 3 operators", "expression trees of up to 3 operators", "expression trees of up to 3 operators", "expression trees of 4 operators"][t.operators], || t.name.to_string(), |run| {
            for d in [(2, 3), (1, 1), (3, 2)] {
                let l = Leaves::new(d);
                for s in &scalars {
                    run.step(|| format!("{} {:?} {:?}", t.name, d, s));
                    l.clear();
                    let mut h = Harness { tree: t, l: &l, s, run, allocs: Allocs::start(), values, alphabet: if values { &alphabet } else { &tame } };
                    h.allocs = Allocs::start();
                    (t.run)(&l, s, &mut h);
                }
                run.state(hash_of(&(t.name, d)));
            }
            run.outcome(hash_of(t.name));
        });
    }
}
