//! Object-safe access to every kind of matrix, and builders for all of them.
use crate::engine::refused;
use crate::guard::*;
use crate::lv::LV;
use crate::refm::*;
use crate::scal::Sc;
use crate::{ensure, fail};
use householder::matrix_ref::{MatrixRef, MatrixRefMut};
use householder::*;
use std::rc::Rc;

/// Read access to any matrix, view, reference wrapper or expression.
pub trait View<T: Sc> {
    fn v_lv(&self) -> &dyn LV;
    fn v_get(&self, i: usize, j: usize) -> T;
    fn v_get1(&self, k: usize) -> T;
    unsafe fn v_getu(&self, i: usize, j: usize) -> T;
    unsafe fn v_getu1(&self, k: usize) -> T;
}
impl<T: Sc, M: RandomAccess<Item = T> + Layout> View<T> for M {
    fn v_lv(&self) -> &dyn LV {
        self.layout()
    }
    fn v_get(&self, i: usize, j: usize) -> T {
        self.get(i, j)
    }
    fn v_get1(&self, k: usize) -> T {
        self.get1d(k)
    }
    unsafe fn v_getu(&self, i: usize, j: usize) -> T {
        self.get_unchecked(i, j)
    }
    unsafe fn v_getu1(&self, k: usize) -> T {
        self.get1d_unchecked(k)
    }
}
impl<'a, T: Sc> dyn View<T> + 'a {
    pub fn v_dim(&self) -> (usize, usize) {
        self.v_lv().dim()
    }
    pub fn v_n(&self) -> usize {
        self.v_lv().n()
    }
    pub fn v_12(&self, k: usize) -> (usize, usize) {
        self.v_lv().t12(k)
    }
    pub fn v_21(&self, i: usize, j: usize) -> usize {
        self.v_lv().t21(i, j)
    }
    pub fn v_raw1(&self, k: usize) -> usize {
        self.v_lv().r1(k)
    }
    pub fn v_raw2(&self, i: usize, j: usize) -> usize {
        self.v_lv().r2(i, j)
    }
    pub fn v_stride(&self) -> (usize, usize) {
        self.v_lv().stride()
    }
    pub fn v_ix(&self) -> ((usize, usize), usize) {
        let mut r = ((0, 0), 0);
        self.v_lv().index(&mut |l| r = (l.dim(), l.n()));
        r
    }
    pub fn v_ix12(&self, k: usize) -> (usize, usize) {
        let mut r = (0, 0);
        self.v_lv().index(&mut |l| r = l.t12(k));
        r
    }
    pub fn v_ix21(&self, i: usize, j: usize) -> usize {
        let mut r = 0;
        self.v_lv().index(&mut |l| r = l.t21(i, j));
        r
    }
}

/// Mutable access; `caps` tells whether the raw routes and apply-to-all exist for this object.
pub trait Obj<T: Sc> {
    fn view(&self) -> &dyn View<T>;
    fn get_mut_(&mut self, i: usize, j: usize) -> &mut T;
    fn get1_mut_(&mut self, k: usize) -> &mut T;
    unsafe fn getu_mut_(&mut self, i: usize, j: usize) -> &mut T;
    unsafe fn getu1_mut_(&mut self, k: usize) -> &mut T;
    fn caps(&self) -> bool;
    fn slice_(&self, a: usize, b: usize) -> &[T];
    fn slice_mut_(&mut self, a: usize, b: usize) -> &mut [T];
    fn ptr_(&self) -> *const T;
    fn ptr_mut_(&mut self) -> *mut T;
    fn each_(&mut self, f: &mut dyn FnMut(&mut T));
    /// Apply-to-all with a callable that has no state of its own: a function item, or a function pointer.
    fn each_plain_(&mut self, _pointer: bool, _f: &mut dyn FnMut(&mut T)) {
        unreachable!()
    }
    fn fill_(&mut self, _: &mut dyn rand::RngCore) {
        unreachable!()
    }
}

type PlainHook = *mut (dyn FnMut(*mut ()) + 'static);
thread_local! { static PLAIN: std::cell::Cell<Option<PlainHook>> = const { std::cell::Cell::new(None) } }
fn plain<T>(x: &mut T) {
    let h = PLAIN.with(|h| h.get()).expect("no callable");
    unsafe { (*h)(x as *mut T as *mut ()) }
}
pub struct BaseObj<'a, T: Sc, L: LayoutType, D: DataContainerMut<Item = T>, RS: SizeIdentifier, CS: SizeIdentifier>(
    pub &'a mut GenericBaseMatrixMut<T, L, D, RS, CS>,
);
pub struct AccObj<'a, M>(pub &'a mut M);

macro_rules! common {
    () => {
        fn view(&self) -> &dyn View<T> {
            &*self.0
        }
        fn get_mut_(&mut self, i: usize, j: usize) -> &mut T {
            self.0.get_mut(i, j)
        }
        fn get1_mut_(&mut self, k: usize) -> &mut T {
            self.0.get1d_mut(k)
        }
        unsafe fn getu_mut_(&mut self, i: usize, j: usize) -> &mut T {
            self.0.get_unchecked_mut(i, j)
        }
        unsafe fn getu1_mut_(&mut self, k: usize) -> &mut T {
            self.0.get1d_unchecked_mut(k)
        }
    };
}
impl<'a, T: Sc, L: LayoutType, D: DataContainerMut<Item = T>, RS: SizeIdentifier, CS: SizeIdentifier> Obj<T>
    for BaseObj<'a, T, L, D, RS, CS>
{
    common!();
    fn caps(&self) -> bool {
        true
    }
    fn slice_(&self, a: usize, b: usize) -> &[T] {
        self.0.get_slice(a, b)
    }
    fn slice_mut_(&mut self, a: usize, b: usize) -> &mut [T] {
        self.0.get_slice_mut(a, b)
    }
    fn ptr_(&self) -> *const T {
        self.0.get_pointer()
    }
    fn ptr_mut_(&mut self) -> *mut T {
        self.0.get_pointer_mut()
    }
    fn each_(&mut self, f: &mut dyn FnMut(&mut T)) {
        self.0.for_each(|x| f(x))
    }
    fn each_plain_(&mut self, pointer: bool, f: &mut dyn FnMut(&mut T)) {
        struct Reset(Option<PlainHook>);
        impl Drop for Reset {
            fn drop(&mut self) {
                PLAIN.with(|h| h.set(self.0.take()))
            }
        }
        let mut g = |x: *mut ()| f(unsafe { &mut *(x as *mut T) });
        let g: &mut dyn FnMut(*mut ()) = &mut g;
        let g: PlainHook = unsafe { std::mem::transmute(g) };
        let _reset = Reset(PLAIN.with(|h| h.replace(Some(g))));
        if pointer {
            self.0.for_each(plain::<T> as fn(&mut T))
        } else {
            self.0.for_each(plain::<T>)
        }
    }
    fn fill_(&mut self, rng: &mut dyn rand::RngCore) {
        T::fill(self.0, rng)
    }
}
impl<'a, T: Sc, M: RandomAccess<Item = T> + RandomAccessMut<Item = T> + Layout> Obj<T> for AccObj<'a, M> {
    common!();
    fn caps(&self) -> bool {
        false
    }
    fn slice_(&self, _: usize, _: usize) -> &[T] {
        unreachable!()
    }
    fn slice_mut_(&mut self, _: usize, _: usize) -> &mut [T] {
        unreachable!()
    }
    fn ptr_(&self) -> *const T {
        unreachable!()
    }
    fn ptr_mut_(&mut self) -> *mut T {
        unreachable!()
    }
    fn each_(&mut self, _: &mut dyn FnMut(&mut T)) {
        unreachable!()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Lay {
    RM,
    CM,
    RV,
    CV,
    UP,
    ASRM(usize, usize),
    ASCM(usize, usize),
    ASRV(usize),
    ASCV(usize),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum St {
    /// the library's own dynamically allocated storage
    Owned,
    /// same, dynamic size kind also for the fixed dimension of a vector
    OwnedDyn,
    /// compile time dimension, array storage
    Arr,
    /// mutable slice container over client memory with this many additional elements
    Slice(usize),
    /// client supplied container with this many additional elements
    Mon(usize),
    /// built from a raw pointer
    Ptr,
    /// mutable block at (1, 1) of a bigger matrix
    Block,
    /// mutable block of a mutable block
    Block2,
    /// quadrant of a split of a bigger row-major matrix
    Split(u8),
    /// reference wrappers around the owned object, nested this deep
    Wrap(u8),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Kind {
    pub lay: Lay,
    pub dim: (usize, usize),
    pub st: St,
}

impl Lay {
    pub fn reference(self, dim: (usize, usize)) -> RefLayout {
        let (o, s) = match self {
            Lay::RM => (Order::Row, None),
            Lay::CM => (Order::Col, None),
            Lay::RV => (Order::Row, None),
            Lay::CV => (Order::Col, None),
            Lay::UP => (Order::Upper, None),
            Lay::ASRM(r, c) => (Order::Row, Some((r, c))),
            Lay::ASCM(r, c) => (Order::Col, Some((r, c))),
            Lay::ASRV(s) => (Order::Row, Some((1, s))),
            Lay::ASCV(s) => (Order::Col, Some((s, 1))),
        };
        RefLayout { order: o, dim, stride: s }
    }
    pub fn admits(self, dim: (usize, usize)) -> bool {
        match self {
            Lay::RV | Lay::ASRV(_) => dim.0 == 1,
            Lay::CV | Lay::ASCV(_) => dim.1 == 1,
            Lay::UP => dim.0 == dim.1,
            _ => true,
        }
    }
}

/// Compares everything observable about `o` with the model.
pub fn check_view<T: Sc>(o: &dyn View<T>, m: &Model<T>, what: &str) -> u64 {
    let l = &m.lay;
    ensure!(o.v_dim() == l.dim, "{}: dimension {:?}, expected {:?}", what, o.v_dim(), l.dim);
    ensure!(o.v_n() == l.len(), "{}: {} elements, expected {}", what, o.v_n(), l.len());
    for k in 0..l.len() {
        let (i, j) = l.pos(k);
        let e = m.at(k);
        let r = [o.v_get(i, j), o.v_get1(k), unsafe { o.v_getu(i, j) }, unsafe { o.v_getu1(k) }];
        for (x, name) in r.iter().zip(["get", "get1d", "get_unchecked", "get1d_unchecked"]) {
            ensure!(
                x.same(e),
                "{}: {} of element {} = ({}, {}) gives {:?}, expected {:?}",
                what, name, k, i, j, x, e
            );
        }
    }
    4 * l.len() as u64 + 2
}
/// As `check_view`, and the raw routes and the whole storage window.
pub fn check_obj<T: Sc>(o: &dyn Obj<T>, m: &Model<T>, what: &str) -> u64 {
    let mut n = check_view(o.view(), m, what);
    if o.caps() && m.window > 0 {
        let s = o.slice_(0, m.window);
        ensure!(s.len() == m.window, "{}: slice of {} elements, expected {}", what, s.len(), m.window);
        for q in 0..m.window {
            let e = m.store[m.base + q];
            ensure!(s[q].same(e), "{}: storage location {} holds {:?}, expected {:?}", what, q, s[q], e);
            let p = unsafe { *o.ptr_().add(q) };
            ensure!(p.same(e), "{}: pointer location {} holds {:?}, expected {:?}", what, q, p, e);
        }
        n += 2 * m.window as u64;
    }
    n
}

/// Write routes. `true` is returned if the route exists for the object.
pub const ROUTES: [&str; 8] =
    ["get_mut", "get1d_mut", "get_unchecked_mut", "get1d_unchecked_mut", "get_slice_mut", "get_pointer_mut", "for_each", "full get_slice_mut"];
pub fn write_route<T: Sc>(o: &mut dyn Obj<T>, l: &RefLayout, window: usize, route: usize, k: usize, v: T) -> bool {
    let (i, j) = l.pos(k);
    let raw = l.raw1(k);
    match route {
        0 => *o.get_mut_(i, j) = v,
        1 => *o.get1_mut_(k) = v,
        2 => unsafe { *o.getu_mut_(i, j) = v },
        3 => unsafe { *o.getu1_mut_(k) = v },
        _ if !o.caps() => return false,
        4 => o.slice_mut_(raw, raw + 1)[0] = v,
        5 => unsafe { *o.ptr_mut_().add(raw) = v },
        6 => {
            let mut c = 0;
            o.each_(&mut |x| {
                if c == k {
                    *x = v
                }
                c += 1;
            })
        }
        7 => o.slice_mut_(0, window)[raw] = v,
        _ => unreachable!(),
    }
    true
}

type Vis<'v, T> = &'v mut dyn FnMut(&mut dyn Obj<T>, &mut Model<T>);

fn go_guarded<T: Sc, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
    k: &Kind, l: L, init: &dyn Fn(usize) -> T, f: Vis<T>,
) {
    let lay = k.lay.reference(k.dim);
    let span = lay.span() as usize;
    let extra = match k.st {
        St::Slice(e) | St::Mon(e) => e,
        _ => 0,
    };
    let buf = Rc::new(GuardBuf::new(span + extra, init));
    let mut model = Model { lay, store: buf.snapshot(), base: 0, window: span + extra };
    match k.st {
        St::Slice(_) => {
            let mut m =
                GenericBaseMatrixMut::<T, L, SliceContainerMut<T>, RS, CS>::from_data(SliceContainerMut::new(unsafe { buf.view() }), l);
            f(&mut BaseObj(&mut m), &mut model);
        }
        St::Mon(_) => {
            let log = MonLog::new(span + extra);
            LAST_LOG.with(|l| *l.borrow_mut() = Some(log.clone()));
            let c = MonContainer::new(buf.clone(), log);
            let mut m = GenericBaseMatrixMut::<T, L, MonContainer<T>, RS, CS>::from_data(c, l);
            f(&mut BaseObj(&mut m), &mut model);
        }
        _ => unreachable!(),
    }
    finish(&buf, &model);
}
/// The memory behind the object holds exactly what the model says, and nothing around it changed.
pub fn finish<T: Sc>(buf: &GuardBuf<T>, m: &Model<T>) {
    ensure!(buf.guards_ok(), "memory outside of the storage was overwritten");
    for q in 0..buf.len() {
        ensure!(
            buf.at(q).same(m.store[q]),
            "after release, storage location {} holds {:?}, expected {:?}",
            q, buf.at(q), m.store[q]
        );
    }
}
fn go_wrap<T: Sc, L: LayoutType, D: DataContainerMut<Item = T>, RS: SizeIdentifier, CS: SizeIdentifier>(
    m: &mut GenericBaseMatrixMut<T, L, D, RS, CS>, depth: u8, model: &mut Model<T>, f: Vis<T>,
) {
    let mut w = Matrix::<T, _, L, RS, CS>::new(MatrixRefMut::new(m));
    match depth {
        1 => f(&mut AccObj(&mut w), model),
        2 => {
            let mut w2 = Matrix::<T, _, L, RS, CS>::new(MatrixRefMut::new(&mut w));
            f(&mut AccObj(&mut w2), model)
        }
        _ => {
            let mut w2 = Matrix::<T, _, L, RS, CS>::new(MatrixRefMut::new(&mut w));
            let mut w3 = Matrix::<T, _, L, RS, CS>::new(MatrixRefMut::new(&mut w2));
            f(&mut AccObj(&mut w3), model)
        }
    }
}
fn go_owned<T: Sc, L: LayoutType, D: DataContainerMut<Item = T>, RS: SizeIdentifier, CS: SizeIdentifier>(
    k: &Kind, mut m: GenericBaseMatrixMut<T, L, D, RS, CS>, init: &dyn Fn(usize) -> T, f: Vis<T>,
) {
    let lay = k.lay.reference(k.dim);
    let n = lay.len();
    for q in 0..n {
        let z = m.get_slice(q, q + 1)[0];
        ensure!(z.same(T::zero_()), "new object is not zero at location {}: {:?}", q, z);
        m.get_slice_mut(q, q + 1)[0] = init(q);
    }
    let mut model = Model { lay, store: (0..n).map(init).collect(), base: 0, window: n };
    if let St::Wrap(d) = k.st {
        go_wrap(&mut m, d, &mut model, f);
        check_obj(&BaseObj(&mut m), &model, "wrapped matrix afterwards");
    } else {
        f(&mut BaseObj(&mut m), &mut model);
        check_obj(&BaseObj(&mut m), &model, "afterwards");
    }
}

macro_rules! with_layout {
    ($k:expr, $l:ident, $RS:ident, $CS:ident, $e:expr) => {
        match $k.lay {
            Lay::RM => { type $RS = Dynamic; type $CS = Dynamic; let $l = RowMajor::new($k.dim); $e }
            Lay::CM => { type $RS = Dynamic; type $CS = Dynamic; let $l = ColumnMajor::new($k.dim); $e }
            Lay::RV => { type $RS = Fixed1; type $CS = Dynamic; let $l = RowVector::new($k.dim.1); $e }
            Lay::CV => { type $RS = Dynamic; type $CS = Fixed1; let $l = ColumnVector::new($k.dim.0); $e }
            Lay::UP => { type $RS = Dynamic; type $CS = Dynamic; let $l = UpperTriangular::new($k.dim.0); $e }
            Lay::ASRM(r, c) => { type $RS = Dynamic; type $CS = Dynamic; let $l = ArbitraryStrideRowMajor::new($k.dim, (r, c)); $e }
            Lay::ASCM(r, c) => { type $RS = Dynamic; type $CS = Dynamic; let $l = ArbitraryStrideColumnMajor::new($k.dim, (r, c)); $e }
            Lay::ASRV(s) => { type $RS = Fixed1; type $CS = Dynamic; let $l = ArbitraryStrideRowVector::new($k.dim.1, s); $e }
            Lay::ASCV(s) => { type $RS = Dynamic; type $CS = Fixed1; let $l = ArbitraryStrideColumnVector::new($k.dim.0, s); $e }
        }
    };
}

/// Builds the object of kind `k` whose storage location q initially holds `init(q)`, hands it to `f`
/// together with its model, and finally compares the whole storage with the model.
pub fn with_kind<T: Sc>(k: &Kind, init: &dyn Fn(usize) -> T, f: Vis<T>) {
    let (m, n) = k.dim;
    match k.st {
        St::Owned | St::Wrap(_) => match k.lay {
            Lay::RM => go_owned(k, MatrixD::<T, RowMajor>::zeros_from_dim(m, n), init, f),
            Lay::CM => go_owned(k, MatrixD::<T, ColumnMajor>::zeros_from_dim(m, n), init, f),
            Lay::RV => go_owned(k, RowVectorD::<T>::zeros_from_length(n), init, f),
            Lay::CV => go_owned(k, ColumnVectorD::<T>::zeros_from_length(m), init, f),
            Lay::UP => go_owned(k, UpperTriangularMatrix::<T>::zeros_from_dim(m, n), init, f),
            _ => unreachable!("{:?}", k),
        },
        St::OwnedDyn => match k.lay {
            Lay::RV => go_owned(k, MatrixD::<T, RowVector>::zeros_from_dim(m, n), init, f),
            Lay::CV => go_owned(k, MatrixD::<T, ColumnVector>::zeros_from_dim(m, n), init, f),
            _ => unreachable!("{:?}", k),
        },
        St::Arr => {
            macro_rules! arr {
                ($L:ident, $R:ident, $C:ident, $N:expr) => {
                    go_owned(k, GenericBaseMatrixMut::<T, $L, ArrayContainer<T, $N>, $R, $C>::zeros_from_dim(), init, f)
                };
            }
            macro_rules! arv {
                ($L:ident, $R:ident, $C:ident, $N:expr) => {
                    go_owned(k, GenericBaseMatrixMut::<T, $L, ArrayContainer<T, $N>, $R, $C>::zeros_from_length(), init, f)
                };
            }
            match (k.lay, k.dim) {
                (Lay::RM, (2, 2)) => go_owned(k, Matrix22::<T, RowMajor>::zeros_from_dim(), init, f),
                (Lay::RM, (3, 3)) => go_owned(k, Matrix33::<T, RowMajor>::zeros_from_dim(), init, f),
                (Lay::RM, (2, 3)) => go_owned(k, Matrix23::<T, RowMajor>::zeros_from_dim(), init, f),
                (Lay::RM, (3, 2)) => go_owned(k, Matrix32::<T, RowMajor>::zeros_from_dim(), init, f),
                (Lay::RM, (1, 2)) => arr!(RowMajor, Fixed1, Fixed2, 2),
                (Lay::RM, (1, 3)) => arr!(RowMajor, Fixed1, Fixed3, 3),
                (Lay::CM, (2, 2)) => go_owned(k, Matrix22::<T, ColumnMajor>::zeros_from_dim(), init, f),
                (Lay::CM, (3, 3)) => go_owned(k, Matrix33::<T, ColumnMajor>::zeros_from_dim(), init, f),
                (Lay::CM, (2, 3)) => go_owned(k, Matrix23::<T, ColumnMajor>::zeros_from_dim(), init, f),
                (Lay::CM, (3, 2)) => go_owned(k, Matrix32::<T, ColumnMajor>::zeros_from_dim(), init, f),
                (Lay::CM, (1, 2)) => arr!(ColumnMajor, Fixed1, Fixed2, 2),
                (Lay::CM, (1, 3)) => arr!(ColumnMajor, Fixed1, Fixed3, 3),
                (Lay::CV, (2, 1)) => arv!(ColumnVector, Fixed2, Fixed1, 2),
                (Lay::CV, (3, 1)) => arv!(ColumnVector, Fixed3, Fixed1, 3),
                (Lay::RV, (1, 2)) => arv!(RowVector, Fixed1, Fixed2, 2),
                (Lay::RV, (1, 3)) => arv!(RowVector, Fixed1, Fixed3, 3),
                _ => unreachable!("{:?}", k),
            }
        }
        St::Slice(_) | St::Mon(_) => with_layout!(k, l, RS, CS, go_guarded::<T, _, RS, CS>(k, l, init, f)),
        St::Ptr => {
            let lay = k.lay.reference(k.dim);
            let span = lay.span() as usize;
            let buf = GuardBuf::new(span, init);
            let mut model = Model { lay, store: buf.snapshot(), base: 0, window: span };
            unsafe {
                match k.lay {
                    Lay::RM => f(&mut BaseObj(&mut SliceMatrixMut::<T, RowMajor, Dynamic, Dynamic>::from_pointer(buf.ptr(), k.dim)), &mut model),
                    Lay::CM => f(&mut BaseObj(&mut SliceMatrixMut::<T, ColumnMajor, Dynamic, Dynamic>::from_pointer(buf.ptr(), k.dim)), &mut model),
                    Lay::ASRM(r, c) => f(
                        &mut BaseObj(&mut SliceMatrixMut::<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_pointer(buf.ptr(), k.dim, (r, c))),
                        &mut model,
                    ),
                    Lay::ASCM(r, c) => f(
                        &mut BaseObj(&mut SliceMatrixMut::<T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::from_pointer(buf.ptr(), k.dim, (r, c))),
                        &mut model,
                    ),
                    _ => unreachable!("{:?}", k),
                }
            }
            finish(&buf, &model);
        }
        St::Block | St::Block2 => {
            let two = k.st == St::Block2;
            let o = if two { 2 } else { 1 };
            let pdim = (m + o + 1, n + o + 2);
            macro_rules! blk {
                ($L:ident, $mk:expr, $order:expr, $ps:expr) => {{
                    let ps: (usize, usize) = $ps;
                    let plen = (pdim.0 - 1) * ps.0 + (pdim.1 - 1) * ps.1 + 1;
                    let buf = GuardBuf::new(plen, init);
                    let lay = RefLayout::strided($order, k.dim, ps);
                    let empty = m * n == 0;
                    let base = if empty { 0 } else { o * ps.0 + o * ps.1 };
                    let mut model = Model { lay, store: buf.snapshot(), base, window: lay.span() as usize };
                    let mut parent = SliceMatrixMut::<T, $L, Dynamic, Dynamic>::from_data(SliceContainerMut::new(unsafe { buf.view() }), $mk);
                    if two {
                        let mut b1 = parent.block_mut((1, 1), (m + 1, n + 2));
                        let mut b2 = b1.block_mut((1, 1), k.dim);
                        f(&mut BaseObj(&mut b2), &mut model);
                    } else {
                        let mut b1 = parent.block_mut((1, 1), k.dim);
                        f(&mut BaseObj(&mut b1), &mut model);
                    }
                    finish(&buf, &model);
                }};
            }
            match k.lay {
                Lay::RM => blk!(RowMajor, RowMajor::new(pdim), Order::Row, (pdim.1, 1)),
                Lay::CM => blk!(ColumnMajor, ColumnMajor::new(pdim), Order::Col, (1, pdim.0)),
                Lay::ASRM(r, c) => blk!(ArbitraryStrideRowMajor, ArbitraryStrideRowMajor::new(pdim, (r, c)), Order::Row, (r, c)),
                Lay::ASCM(r, c) => blk!(ArbitraryStrideColumnMajor, ArbitraryStrideColumnMajor::new(pdim, (r, c)), Order::Col, (r, c)),
                _ => unreachable!("{:?}", k),
            }
        }
        St::Split(q) => {
            let at = [(m, n), (m, 2), (1, n), (1, 2)][q as usize];
            let pdim = [(m + 1, n + 2), (m + 1, n + 2), (m + 1, n + 2), (m + 1, n + 2)][q as usize];
            let buf = GuardBuf::new(pdim.0 * pdim.1, init);
            let lay = RefLayout::strided(Order::Row, k.dim, (pdim.1, 1));
            let org = [(0, 0), (0, 2), (1, 0), (1, 2)][q as usize];
            let base = if m * n == 0 { 0 } else { org.0 * pdim.1 + org.1 };
            let mut model = Model { lay, store: buf.snapshot(), base, window: lay.span() as usize };
            let mut parent = SliceMatrixMut::<T, RowMajor, Dynamic, Dynamic>::from_data(
                SliceContainerMut::new(unsafe { buf.view() }),
                RowMajor::new(pdim),
            );
            {
                let (mut a, mut b, mut c, mut d) = parent.split_in_four_mut(at);
                let x = [&mut a, &mut b, &mut c, &mut d];
                let [a, b, c, d] = x;
                let x = match q {
                    0 => a,
                    1 => b,
                    2 => c,
                    _ => d,
                };
                f(&mut BaseObj(x), &mut model);
            }
            finish(&buf, &model);
        }
    }
}

/// Read-only reference wrapper depth `d` around any library object.
pub fn with_refs<T: Sc, I, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
    m: &Matrix<T, I, L, RS, CS>, depth: usize, f: &mut dyn FnMut(&dyn View<T>),
) where
    I: MatrixTrait<T, L, RS, CS>,
{
    let r1 = Matrix::<T, I, L, RS, CS>::from_ref(m);
    if depth == 1 {
        return f(&r1);
    }
    let r2 = Matrix::<T, _, L, RS, CS>::from_ref(&r1);
    if depth == 2 {
        return f(&r2);
    }
    let r3 = Matrix::<T, _, L, RS, CS>::new(MatrixRef::new(&r2));
    f(&r3)
}

/// Every kind that exists for dimension `dim`; strided kinds with the given strides.
/// One pair of strides for every way in which the strides of a matrix can relate to its dimension: packed,
/// with a gap between rows or columns, between elements only, or both, in either orientation.
pub fn stride_classes(dim: (usize, usize)) -> Vec<(usize, usize)> {
    let (m, n) = dim;
    let mut v = vec![(n, 1), (n + 2, 1), (2 * n, 2), (2 * n + 1, 2), (1, m), (1, m + 1), (3, 3 * m), (2, 2 * m + 3)];
    v.retain(|s| s.0 > 0 && s.1 > 0);
    v.sort();
    v.dedup();
    v
}
pub fn kinds_for(dim: (usize, usize), strides: &[(usize, usize)], vstrides: &[usize]) -> Vec<Kind> {
    let mut v = vec![];
    let mut add = |lay: Lay, st: St| v.push(Kind { lay, dim, st });
    for lay in [Lay::RM, Lay::CM, Lay::RV, Lay::CV, Lay::UP] {
        if !lay.admits(dim) {
            continue;
        }
        for st in [St::Owned, St::Wrap(1), St::Wrap(2), St::Slice(0), St::Mon(0), St::Mon(3), St::Slice(2)] {
            add(lay, st);
        }
        if matches!(lay, Lay::RV | Lay::CV) {
            add(lay, St::OwnedDyn);
        }
        let arr = match lay {
            Lay::RM | Lay::CM => matches!(dim, (2, 2) | (3, 3) | (2, 3) | (3, 2) | (1, 2) | (1, 3)),
            Lay::RV => matches!(dim, (1, 2) | (1, 3)),
            Lay::CV => matches!(dim, (2, 1) | (3, 1)),
            _ => false,
        };
        if arr {
            add(lay, St::Arr);
        }
        if matches!(lay, Lay::RM | Lay::CM) {
            add(lay, St::Ptr);
            add(lay, St::Block);
            add(lay, St::Block2);
        }
        if lay == Lay::RM {
            for q in 0..4 {
                add(lay, St::Split(q));
            }
        }
    }
    for &(r, c) in strides {
        for lay in [Lay::ASRM(r, c), Lay::ASCM(r, c)] {
            if lay.reference(dim).overlapping() {
                continue;
            }
            for st in [St::Slice(0), St::Mon(0), St::Mon(2), St::Ptr] {
                add(lay, st);
            }
            let par = (dim.0 + 4, dim.1 + 5);
            if !lay.reference(par).overlapping() {
                add(lay, St::Block);
                add(lay, St::Block2);
            }
        }
    }
    for &s in vstrides {
        for lay in [Lay::ASRV(s), Lay::ASCV(s)] {
            if lay.admits(dim) && !lay.reference(dim).overlapping() {
                for st in [St::Slice(0), St::Mon(0), St::Mon(2)] {
                    add(lay, st);
                }
            }
        }
    }
    v
}

/// Dimensions beyond every size threshold that fits into memory comfortably (8 and 16 bit counters,
/// blocks of 64 to 65536 elements, large in one or in both directions).
pub fn huge_dims(full: bool) -> Vec<(usize, usize)> {
    let mut v = vec![(1, 70_000), (70_000, 1), (257, 300), (1100, 65), (33, 31), (1, 1021), (1021, 1)];
    if full {
        v.extend([(61, 53), (129, 127), (65, 1100), (2, 40_000), (40_000, 2), (300, 300), (4099, 17), (17, 4099), (1, 131_075), (131_075, 1)]);
    }
    v
}

/// The same for scalar types other than the one explored in full.
pub fn huge_for(primary: bool, full: bool) -> Vec<(usize, usize)> {
    match (primary, full) {
        (true, _) => huge_dims(full),
        (false, true) => huge_dims(false),
        (false, false) => vec![(257, 300), (33, 31), (1, 1021), (1021, 1)],
    }
}

/// Element access outside of `l` is refused and changes nothing.
pub fn must_refuse<R>(what: &str, f: impl FnOnce() -> R) {
    if refused(f).is_ok() {
        fail!("{} was not refused", what);
    }
}
