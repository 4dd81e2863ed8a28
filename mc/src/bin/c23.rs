//! C23: operations on distinct objects do not interfere.
//!
//! The environment of an operation is every other operation a client may execute in the middle of it:
//! inside one of its callbacks, in another thread between any two of its callbacks, in another thread
//! between any two of its machine instructions, or after it was abandoned by a panic.
use householder::addition::Addition;
use householder::matrix_ref::{MatrixRef, MatrixRefMut};
use householder::scalar_mult::ScalarMult;
use householder::types::{c32, c64};
use householder::*;
use mc::*;
use rand::RngCore;
use std::cell::{Cell, UnsafeCell};
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

type Hook<'a> = &'a mut dyn FnMut();
thread_local! {
    static HOOK: Cell<Option<*mut (dyn FnMut() + 'static)>> = const { Cell::new(None) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}
/// A point at which client code runs inside of an operation.
fn tick() {
    if let Some(f) = HOOK.with(|t| t.get()) {
        unsafe { (*f)() }
    }
}
fn hooked<R>(f: Option<Hook>, body: impl FnOnce() -> R) -> R {
    struct Reset(Option<*mut (dyn FnMut() + 'static)>);
    impl Drop for Reset {
        fn drop(&mut self) {
            HOOK.with(|t| t.set(self.0))
        }
    }
    let p: Option<*mut (dyn FnMut() + 'static)> = f.map(|f| unsafe { std::mem::transmute(f) });
    let _r = Reset(HOOK.with(|t| t.replace(p)));
    body()
}

/// Client-supplied storage; every use of it is a point where other operations may run.
struct Tc<T: Sc> {
    data: Vec<T>,
}
impl<T: Sc> DataContainer for Tc<T> {
    type Item = T;
    unsafe fn get_unchecked(&self, index: usize) -> T {
        tick();
        let x = self.data[index];
        tick();
        x
    }
    fn get_pointer(&self) -> *const T {
        tick();
        self.data.as_ptr()
    }
    fn number_of_elements(&self) -> usize {
        tick();
        self.data.len()
    }
}
impl<T: Sc> DataContainerMut for Tc<T> {
    unsafe fn get_unchecked_mut(&mut self, index: usize) -> &mut T {
        tick();
        &mut self.data[index]
    }
    fn get_pointer_mut(&mut self) -> *mut T {
        tick();
        self.data.as_mut_ptr()
    }
}
/// Client-supplied layout around one of the library.
struct Tl<L>(L);
impl<L: LayoutType> LayoutType for Tl<L> {
    type IndexLayout = L::IndexLayout;
    fn stride(&self) -> (usize, usize) {
        tick();
        self.0.stride()
    }
    fn dim(&self) -> (usize, usize) {
        tick();
        self.0.dim()
    }
    fn number_of_elements(&self) -> usize {
        tick();
        self.0.number_of_elements()
    }
    fn convert_1d_2d(&self, index: usize) -> (usize, usize) {
        tick();
        self.0.convert_1d_2d(index)
    }
    fn convert_2d_1d(&self, row: usize, col: usize) -> usize {
        tick();
        self.0.convert_2d_1d(row, col)
    }
    fn convert_1d_raw(&self, index: usize) -> usize {
        tick();
        let x = self.0.convert_1d_raw(index);
        tick();
        x
    }
    fn convert_2d_raw(&self, row: usize, col: usize) -> usize {
        tick();
        self.0.convert_2d_raw(row, col)
    }
    fn index_layout(&self) -> Self::IndexLayout {
        tick();
        self.0.index_layout()
    }
}
impl<L: BaseLayoutType> BaseLayoutType for Tl<L> {
    fn from_dimension(dim: (usize, usize)) -> Self {
        tick();
        Tl(L::from_dimension(dim))
    }
}
impl<L: StridedLayoutType> StridedLayoutType for Tl<L> {}
/// A generator that is client code as well.
struct Trng(u64);
impl RngCore for Trng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        tick();
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = (self.0 ^ (self.0 >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
        tick();
        x ^ (x >> 32)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest {
            *d = self.next_u64() as u8
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

type Dim = (usize, usize);
type Tm<T, L> = GenericBaseMatrix<T, Tl<L>, Tc<T>, Dynamic, Dynamic>;
type Quad<T> = SliceMatrixMut<'static, T, ArbitraryStrideRowMajor, Dynamic, Dynamic>;
fn vals<T: Sc>(n: usize, salt: usize) -> Tc<T> {
    Tc { data: (0..n).map(|q| T::tag(q + 100 * salt)).collect() }
}
fn tm<T: Sc, L: LayoutType>(l: L, salt: usize) -> Tm<T, L> {
    let n = match l.number_of_elements() {
        0 => 0,
        n => (0..n).map(|k| l.convert_1d_raw(k)).max().unwrap() + 1,
    };
    Tm::from_data(vals(n, salt), Tl(l))
}

/// Objects of several operations: four quadrants of one matrix, and two matrices all of them read.
struct World<T: Sc> {
    base: *mut MatrixD<T, RowMajor>,
    split: Dim,
    dims: [Dim; 4],
    quads: [UnsafeCell<Quad<T>>; 4],
    /// Expressions over the shared matrices, and wrappers of them, that all operations read.
    exprs: Rc<Vec<Box<dyn View<T>>>>,
    a: Rc<Tm<T, RowMajor>>,
    b: Rc<Tm<T, ArbitraryStrideRowMajor>>,
    c: Rc<GenericBaseMatrix<T, RowMajor, Tc<T>, Dynamic, Dynamic>>,
    tri: Rc<Tm<T, UpperTriangular>>,
}
unsafe impl<T: Sc> Sync for World<T> {}
impl<T: Sc> Drop for World<T> {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(self.base)) }
    }
}
impl<T: Sc> World<T> {
    fn new(dim: Dim, split: Dim) -> Self {
        let a: Rc<Tm<T, RowMajor>> = Rc::new(tm(RowMajor::new(dim), 7));
        let b: Rc<Tm<T, ArbitraryStrideRowMajor>> = Rc::new(tm(ArbitraryStrideRowMajor::new(dim, (2 * dim.1 + 1, 2)), 8));
        let tri: Rc<Tm<T, UpperTriangular>> = Rc::new(tm(UpperTriangular::new(dim.0), 9));
        // the matrices outlive the expressions, which are declared before them
        let (ra, rb, rt) = unsafe { (&*Rc::as_ptr(&a), &*Rc::as_ptr(&b), &*Rc::as_ptr(&tri)) };
        let refm = || Matrix::<T, _, Tl<RowMajor>, Dynamic, Dynamic>::from_ref(ra);
        let strided = || Matrix::<T, _, Tl<ArbitraryStrideRowMajor>, Dynamic, Dynamic>::from_ref(rb);
        let sum = Matrix::<T, _, RowMajor, Dynamic, Dynamic>::new(Addition::new(refm(), strided()));
        let scaled = Matrix::<T, _, Tl<ArbitraryStrideRowMajor>, Dynamic, Dynamic>::new(ScalarMult::new(strided(), T::of(2.0, 1.0)));
        let deep = Matrix::<T, _, RowMajor, Dynamic, Dynamic>::new(Addition::new(
            Matrix::<T, _, RowMajor, Dynamic, Dynamic>::new(Addition::new(strided(), refm())),
            Matrix::<T, _, Tl<RowMajor>, Dynamic, Dynamic>::new(ScalarMult::new(refm(), T::of(-1.0, 0.5))),
        ));
        let exprs: Vec<Box<dyn View<T>>> = vec![Box::new(sum), Box::new(scaled), Box::new(deep), Box::new(Matrix::<T, _, Tl<UpperTriangular>, Dynamic, Dynamic>::from_ref(rt))];
        let c = Rc::new(GenericBaseMatrix::from_data(vals(dim.0 * dim.1, 10), RowMajor::new(dim)));
        Self::with(dim, split, Rc::new(exprs), a, b, c, tri)
    }
    /// A world with quadrants of its own whose operations share the read-only operands with those of this one.
    /// The counts of `Rc` are only changed while the other thread waits.
    fn sharing(&self) -> Self {
        hooked(None, || Self::with(unsafe { &*self.base }.dim(), self.split, self.exprs.clone(), self.a.clone(), self.b.clone(), self.c.clone(), self.tri.clone()))
    }
    #[allow(clippy::type_complexity)]
    fn with(dim: Dim, split: Dim, exprs: Rc<Vec<Box<dyn View<T>>>>, a: Rc<Tm<T, RowMajor>>, b: Rc<Tm<T, ArbitraryStrideRowMajor>>, c: Rc<GenericBaseMatrix<T, RowMajor, Tc<T>, Dynamic, Dynamic>>, tri: Rc<Tm<T, UpperTriangular>>) -> Self {
        let base = Box::into_raw(Box::new(MatrixD::<T, RowMajor>::zeros_from_dim(dim.0, dim.1)));
        let m = unsafe { &mut *base };
        for q in 0..dim.0 * dim.1 {
            *m.get1d_mut(q) = T::tag(q + 5000);
        }
        let (q0, q1, q2, q3) = unsafe { &mut *base }.split_in_four_mut(split);
        let dims = [q0.dim(), q1.dim(), q2.dim(), q3.dim()];
        World { base, split, dims, quads: [UnsafeCell::new(q0), UnsafeCell::new(q1), UnsafeCell::new(q2), UnsafeCell::new(q3)], exprs, a, b, c, tri }
    }
    #[allow(clippy::mut_from_ref)]
    fn quad(&self, s: usize) -> &mut Quad<T> {
        unsafe { &mut *self.quads[s].get() }
    }
    /// Contents of all quadrants, and of the shared matrices.
    fn contents(&self) -> [Vec<u64>; 5] {
        let m = unsafe { &*self.base };
        let mut r: [Vec<u64>; 5] = Default::default();
        for i in 0..m.dim().0 {
            for j in 0..m.dim().1 {
                let q = (i >= self.split.0) as usize * 2 + (j >= self.split.1) as usize;
                put(&mut r[q], m.get(i, j));
            }
        }
        for x in self.a.get_slice(0, 1).iter().chain(self.b.get_slice(0, 1)) {
            put(&mut r[4], *x);
        }
        for k in 0..self.a.layout().number_of_elements() {
            put(&mut r[4], self.a.get1d(k));
            put(&mut r[4], self.b.get1d(k));
        }
        r
    }
}
fn put<T: Sc>(o: &mut Vec<u64>, x: T) {
    let (a, b) = x.bits();
    o.push(a);
    if T::COMPLEX {
        o.push(b);
    }
}
fn all<T: Sc>(o: &mut Vec<u64>, v: &dyn View<T>) {
    let (m, n) = v.v_dim();
    o.extend([m as u64, n as u64, v.v_n() as u64]);
    for k in 0..v.v_n() {
        put(o, v.v_get1(k));
    }
}
/// A call of the library (stepped instruction by instruction in that mode).
#[inline(always)]
fn lib<R>(f: impl FnOnce() -> R) -> R {
    if !ARMED.with(|a| a.get()) || !STEPPING.load(SeqCst) {
        return f();
    }
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    CALLS.fetch_add(1, SeqCst);
    let r = f();
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    r
}

trait Ops: Sc {
    fn products(w: &World<Self>, s: usize, o: &mut Vec<u64>);
    fn vector_products(w: &World<Self>, s: usize, o: &mut Vec<u64>);
    fn dots(w: &World<Self>, s: usize, o: &mut Vec<u64>);
    fn quadrant_product(w: &World<Self>, s: usize, o: &mut Vec<u64>);
    fn scalars(w: &World<Self>, s: usize, o: &mut Vec<u64>);
    fn fillings(w: &World<Self>, s: usize, o: &mut Vec<u64>);
    fn expressions(w: &World<Self>, s: usize, o: &mut Vec<u64>);
    fn shared(w: &World<Self>, s: usize, o: &mut Vec<u64>);
    fn refusals(w: &World<Self>, s: usize, o: &mut Vec<u64>);
    fn reads(w: &World<Self>, s: usize, o: &mut Vec<u64>);
}
macro_rules! ops {
    ($T:ident) => {
        impl Ops for $T {
            fn products(w: &World<$T>, s: usize, o: &mut Vec<u64>) {
                let (m, n) = w.dims[s];
                let k = s + 1;
                let a = tm::<$T, _>(RowMajor::new((m, k)), s);
                let b = tm::<$T, _>(ArbitraryStrideColumnMajor::new((k, n), (1, k + 1)), s + 4);
                let mut c = tm::<$T, _>(ColumnMajor::new((m, n)), s + 8);
                lib(|| $T::matmul($T::of(2.0, 1.0), &a, &b, $T::of(-1.0, 0.5), &mut c));
                all(o, &c);
                lib(|| $T::matmul($T::of(0.5, 0.0), &a, &b, $T::of(0.0, 0.0), &mut c));
                all(o, &c);
                all(o, &a);
                all(o, &b);
            }
            fn vector_products(w: &World<$T>, s: usize, o: &mut Vec<u64>) {
                let (m, n) = w.dims[s];
                let a = tm::<$T, _>(RowMajor::new((m, n)), s);
                let x = GenericBaseMatrix::<$T, Tl<ColumnVector>, Tc<$T>, Dynamic, Fixed1>::from_data(vals(n, s + 1), Tl(ColumnVector::new(n)));
                let mut y = GenericBaseMatrix::<$T, Tl<ColumnVector>, Tc<$T>, Dynamic, Fixed1>::from_data(vals(m, s + 2), Tl(ColumnVector::new(m)));
                lib(|| $T::matmul($T::of(3.0, 0.0), &a, &x, $T::of(1.0, 0.0), &mut y));
                all(o, &y);
                let u = GenericBaseMatrix::<$T, Tl<ArbitraryStrideRowVector>, Tc<$T>, Fixed1, Dynamic>::from_data(vals(2 * m, s + 3), Tl(ArbitraryStrideRowVector::new(m, 2)));
                let mut v = GenericBaseMatrix::<$T, Tl<RowVector>, Tc<$T>, Fixed1, Dynamic>::from_data(vals(n, s + 5), Tl(RowVector::new(n)));
                lib(|| $T::matmul($T::of(1.0, -1.0), &u, &a, $T::of(0.0, 0.0), &mut v));
                all(o, &v);
                o.extend([v.length() as u64, y.length() as u64]);
            }
            fn dots(w: &World<$T>, s: usize, o: &mut Vec<u64>) {
                // only offered for double precision; other types evaluate instead
                dots_of(w, s, o, PhantomData::<$T>);
            }
            fn quadrant_product(w: &World<$T>, s: usize, o: &mut Vec<u64>) {
                let (m, n) = w.dims[s];
                let k = s % 2 + 1;
                let a = tm::<$T, _>(ColumnMajor::new((m, k)), s + 11);
                if k <= w.c.dim().0 {
                    let b = w.c.block((0, 0), (k, n));
                    let q = w.quad(s);
                    lib(|| $T::matmul($T::of(1.0, 0.5), &a, &b, $T::of(2.0, 0.0), q));
                    all(o, q);
                }
            }
            fn scalars(_: &World<$T>, s: usize, o: &mut Vec<u64>) {
                struct D;
                impl rand_distr::Distribution<f64> for D {
                    fn sample<R: rand::Rng + ?Sized>(&self, r: &mut R) -> f64 {
                        tick();
                        r.next_u64() as f64
                    }
                }
                impl rand_distr::Distribution<f32> for D {
                    fn sample<R: rand::Rng + ?Sized>(&self, r: &mut R) -> f32 {
                        tick();
                        r.next_u64() as f32
                    }
                }
                let mut r = Trng(s as u64);
                for _ in 0..3 {
                    put(o, lib(|| <$T as householder::tools::RandScalar>::random_scalar(&mut r, &D)));
                }
                o.push(r.0);
                for (a, b) in [(1.0, -2.0), (-0.0, -1.0), (s as f64, 3.0)] {
                    o.push(lib(|| householder::types::HScalar::atan2(a, b)).to_bits());
                    tick();
                }
            }
            fn fillings(w: &World<$T>, s: usize, o: &mut Vec<u64>) {
                let mut r = Trng(77 + s as u64);
                let mut a = tm::<$T, _>(RowMajor::new(w.dims[s]), s);
                lib(|| a.fill_from_rand_standard_normal(&mut r));
                all(o, &a);
                let mut a = tm::<$T, _>(UpperTriangular::new(w.dims[s].0 + 1), s);
                lib(|| a.fill_from_rand_standard_normal(&mut r));
                all(o, &a);
                lib(|| w.quad(s).fill_from_rand_standard_normal(&mut r));
                all(o, w.quad(s));
                o.push(r.0);
            }
            fn expressions(w: &World<$T>, s: usize, o: &mut Vec<u64>) {
                let d = w.dims[s];
                let a = tm::<$T, _>(RowMajor::new(d), s);
                let b = tm::<$T, _>(ArbitraryStrideRowMajor::new(d, (2 * d.1, 2)), s + 1);
                let e = lib(|| $T::of(3.0, 1.0) * (&a + &b) + &a * $T::of(0.5, -1.0));
                all(o, &e);
                for i in 0..d.0 {
                    for j in 0..d.1 {
                        put(o, lib(|| e.get(i, j)));
                        put(o, lib(|| unsafe { e.get_unchecked(i, j) }));
                    }
                }
                let r = lib(|| e.eval());
                all(o, &r);
                let r = lib(|| (&e + &e).eval());
                all(o, &r);
                let x = GenericBaseMatrix::<$T, Tl<ColumnVector>, Tc<$T>, Dynamic, Fixed1>::from_data(vals(d.0, s + 1), Tl(ColumnVector::new(d.0)));
                let y = lib(|| &x + $T::of(2.0, 0.0) * &x);
                all(o, &y);
                o.push(y.length() as u64);
            }
            fn shared(w: &World<$T>, s: usize, o: &mut Vec<u64>) {
                let r = lib(|| w.a.eval());
                all(o, &r);
                let r = lib(|| (&*w.a + $T::of(1.0 + s as f64, 0.0) * &*w.b).eval());
                all(o, &r);
                let r = lib(|| w.tri.eval());
                all(o, &r);
                let d = w.a.dim();
                let x = GenericBaseMatrix::<$T, Tl<ColumnVector>, Tc<$T>, Dynamic, Fixed1>::from_data(vals(d.1, s), Tl(ColumnVector::new(d.1)));
                let mut y = GenericBaseMatrix::<$T, Tl<ColumnVector>, Tc<$T>, Dynamic, Fixed1>::from_data(vals(d.0, s), Tl(ColumnVector::new(d.0)));
                lib(|| $T::matmul($T::of(1.0, 0.0), &*w.a, &x, $T::of(1.0, 0.0), &mut y));
                lib(|| $T::matmul($T::of(1.0, 1.0), &*w.b, &x, $T::of(1.0, 0.0), &mut y));
                all(o, &y);
                shared_reads(w, s, o);
            }
            fn refusals(w: &World<$T>, s: usize, o: &mut Vec<u64>) {
                let d = w.dims[s];
                let mut a = tm::<$T, _>(RowMajor::new(d), s);
                let b = tm::<$T, _>(RowMajor::new((d.0 + 1, d.1 + 2)), s + 1);
                let no = |o: &mut Vec<u64>, f: &mut dyn FnMut()| match catch_unwind(AssertUnwindSafe(|| f())) {
                    Ok(()) => o.push(1),
                    Err(e) if e.is::<Stop>() => std::panic::resume_unwind(e),
                    Err(_) => o.push(0),
                };
                no(o, &mut || drop(a.get(d.0, 0)));
                no(o, &mut || *a.get_mut(0, d.1) = $T::sentinel());
                no(o, &mut || drop(a.get1d(d.0 * d.1)));
                no(o, &mut || drop(&a + &b));
                no(o, &mut || $T::matmul($T::of(1.0, 0.0), &b, &b, $T::of(0.0, 0.0), &mut a));
                no(o, &mut || drop(a.get_slice(1, 1)));
                let mut q = MatrixD::<$T, RowMajor>::zeros_from_dim(d.0, d.1);
                no(o, &mut || drop(q.block((0, 1), d)));
                no(o, &mut || drop(q.split_in_four_mut((d.0 + 1, 0))));
                no(o, &mut || drop(w.quad(s).get(d.0, 0)));
                all(o, &a);
                all(o, w.quad(s));
            }
            fn reads(w: &World<$T>, s: usize, o: &mut Vec<u64>) {
                let d = w.dims[s];
                let a = tm::<$T, _>(ColumnMajor::new(d), s);
                let t = tm::<$T, _>(UpperTriangular::new(d.0 + d.1), s);
                let r = Matrix::<$T, _, Tl<UpperTriangular>, Dynamic, Dynamic>::from_ref(&t);
                let rr = Matrix::<$T, _, Tl<UpperTriangular>, Dynamic, Dynamic>::from_ref(&r);
                for i in 0..d.0 + d.1 {
                    for j in i..d.0 + d.1 {
                        put(o, lib(|| t.get(i, j)));
                        put(o, lib(|| rr.get(i, j)));
                    }
                }
                for k in 0..d.0 * d.1 {
                    put(o, lib(|| a.get1d(k)));
                    put(o, lib(|| unsafe { a.get1d_unchecked(k) }));
                    let (i, j) = a.layout().convert_1d_2d(k);
                    put(o, lib(|| a.get(i, j)));
                }
                all(o, &rr);
            }
        }
    };
}
ops!(f32);
ops!(f64);
ops!(c32);
ops!(c64);
fn dots_of<T: Ops>(w: &World<T>, s: usize, o: &mut Vec<u64>, _: PhantomData<T>) {
    let (m, n) = w.dims[s];
    let k = s + 2;
    let a = tm::<f64, _>(RowMajor::new((m, k)), s);
    let b = tm::<f64, _>(ColumnMajor::new((k, n)), s + 2);
    let r = lib(|| a.dot(&b));
    all(o, &r);
    let x = GenericBaseMatrix::<f64, Tl<ColumnVector>, Tc<f64>, Dynamic, Fixed1>::from_data(vals(n, s + 1), Tl(ColumnVector::new(n)));
    let r = lib(|| b.dot(&x));
    all(o, &r);
    let u = GenericBaseMatrix::<f64, Tl<RowVector>, Tc<f64>, Fixed1, Dynamic>::from_data(vals(m, s + 3), Tl(RowVector::new(m)));
    let r = lib(|| u.dot(&a));
    all(o, &r);
}

/// Shared matrices and expressions read element by element, each object in another order.
fn shared_reads<T: Ops>(w: &World<T>, s: usize, o: &mut Vec<u64>) {
    let (m, n) = w.a.dim();
    for e in w.exprs.iter() {
        let r = e.v_dim().0.min(m);
        let tri = e.v_n() < r * e.v_dim().1;
        for step in 0..r {
            // rows upwards, downwards, from the second and from the last but one; each one twice in between others
            let i = [step, r - 1 - step, (step + 1) % r, (2 * r - 2 - step) % r][s];
            for j in if tri { i..r } else { 0..n } {
                put(o, lib(|| e.v_get(i, j)));
            }
            put(o, lib(|| e.v_get(i, if tri { r } else { n } - 1)));
        }
        for k in 0..e.v_n().min(6) {
            put(o, lib(|| unsafe { e.v_getu1((k + s) % e.v_n()) }));
        }
    }
    for k in 0..m.min(n) {
        put(o, lib(|| w.b.get(k, n - 1 - k)));
        put(o, lib(|| w.tri.get1d(k)));
    }
}
struct Stop;
fn evals<T: Ops>(w: &World<T>, s: usize, o: &mut Vec<u64>) {
    let d = w.dims[s];
    let a = tm::<T, _>(RowMajor::new(d), s);
    let r = lib(|| a.eval());
    all(o, &r);
    let a = tm::<T, _>(ArbitraryStrideColumnMajor::new(d, (2, 2 * d.0 + 1)), s + 1);
    let r = lib(|| a.eval());
    all(o, &r);
    let a = tm::<T, _>(UpperTriangular::new(d.0 + 1), s + 2);
    let r = lib(|| a.eval());
    all(o, &r);
    let r = lib(|| w.quad(s).eval());
    all(o, &r);
}
fn passes<T: Ops>(w: &World<T>, s: usize, o: &mut Vec<u64>) {
    let d = w.dims[s];
    let f = |n: &mut usize, x: &mut T| {
        tick();
        *x = x.add_(T::tag(*n));
        *n += 1;
        tick();
    };
    let mut n = 10 * s;
    let mut a = tm::<T, _>(ColumnMajor::new(d), s);
    lib(|| a.for_each(|x| f(&mut n, x)));
    all(o, &a);
    let mut a = tm::<T, _>(UpperTriangular::new(d.1 + 1), s);
    lib(|| a.for_each(|x| f(&mut n, x)));
    all(o, &a);
    let mut a = MatrixD::<T, ColumnMajor>::zeros_from_dim(d.0 + 1, d.1 + 1);
    lib(|| a.block_mut((1, 0), d).for_each(|x| f(&mut n, x)));
    all(o, &a);
    lib(|| w.quad(s).for_each(|x| f(&mut n, x)));
    all(o, w.quad(s));
    let mut a = RowVectorD::<T>::zeros_from_length(d.1 + 1);
    lib(|| a.for_each(|x| f(&mut n, x)));
    all(o, &a);
    o.push(n as u64);
}
fn quadrant<T: Ops>(w: &World<T>, s: usize, o: &mut Vec<u64>) {
    let (m, n) = w.dims[s];
    let q = w.quad(s);
    for i in 0..m {
        for j in 0..n {
            put(o, lib(|| q.get(i, j)));
            tick();
            lib(|| *q.get_mut(i, j) = T::tag(i * n + j + 40 * s));
            tick();
            put(o, lib(|| q.get1d(i * n + j)));
        }
    }
    for k in 0..m * n {
        lib(|| *q.get1d_mut(k) = T::tag(3 * k + s));
        tick();
        put(o, lib(|| unsafe { q.get1d_unchecked(k) }));
        tick();
    }
    if m * n > 0 {
        let mut b = lib(|| q.block_mut((m - 1, 0), (1, n)));
        tick();
        lib(|| *b.get_mut(0, n - 1) = T::tag(900 + s));
        tick();
        put(o, lib(|| b.get(0, 0)));
    }
    all(o, q);
}
fn splits<T: Ops>(w: &World<T>, s: usize, o: &mut Vec<u64>) {
    let d = w.dims[s];
    let mut a = GenericBaseMatrix::<T, RowMajor, Tc<T>, Dynamic, Dynamic>::from_data(vals(d.0 * d.1, s), RowMajor::new(d));
    {
        let (mut x, y, mut z, u) = lib(|| a.split_in_four_mut((d.0 / 2, d.1 / 2)));
        tick();
        lib(|| x.for_each(|v| {
            tick();
            *v = T::tag(5 + s)
        }));
        tick();
        lib(|| z.for_each(|v| {
            tick();
            *v = v.add_(T::tag(1))
        }));
        for v in [&x, &y, &z, &u] {
            all(o, v);
            tick();
        }
    }
    all(o, &a);
    if d.0 * d.1 > 0 {
        let b = lib(|| a.block((d.0 - 1, 0), (1, d.1)));
        tick();
        all(o, &b);
        let mut b = lib(|| a.block_mut((0, d.1 - 1), (d.0, 1)));
        tick();
        lib(|| *b.get_mut(0, 0) = T::tag(17 + s));
        tick();
        all(o, &b);
    }
    all(o, &a);
}
fn windows<T: Ops>(w: &World<T>, s: usize, o: &mut Vec<u64>) {
    let d = w.dims[s];
    let n = d.0 * d.1;
    let mut a = tm::<T, _>(RowMajor::new(d), s);
    for x in lib(|| a.get_slice(n / 2, n)) {
        tick();
        put(o, *x);
    }
    for (k, x) in lib(|| a.get_slice_mut(0, n)).iter_mut().enumerate() {
        tick();
        *x = T::tag(k + 60 * s);
    }
    let p = lib(|| a.get_pointer());
    tick();
    put(o, unsafe { *p.add(n - 1) });
    let p = lib(|| a.get_pointer_mut());
    tick();
    unsafe { *p = T::tag(s) };
    all(o, &a);
    let m = lib(|| unsafe { SliceMatrix::<T, ColumnMajor, Dynamic, Dynamic>::from_pointer(p, d) });
    tick();
    all(o, &m);
}
fn constructors<T: Ops>(w: &World<T>, s: usize, o: &mut Vec<u64>) {
    let d = w.dims[s];
    let mut a = lib(|| MatrixD::<T, Tl<RowMajor>>::zeros_from_dim(d.0, d.1));
    tick();
    all(o, &a);
    *a.get1d_mut(0) = T::sentinel();
    tick();
    let b = lib(|| MatrixD::<T, Tl<ColumnMajor>>::zeros_from_dim(d.0, d.1));
    all(o, &b);
    let b = lib(|| MatrixD::<T, UpperTriangular>::zeros_from_dim(d.0, d.0));
    tick();
    all(o, &b);
    let mut b = lib(|| ColumnVectorD::<T>::zeros_from_length(d.0 + s));
    tick();
    *b.get1d_mut(0) = T::sentinel();
    let c = lib(|| RowVectorD::<T>::zeros_from_dim(1, d.1));
    tick();
    all(o, &b);
    all(o, &c);
    let c = lib(|| Matrix23::<T, RowMajor>::zeros_from_dim());
    all(o, &c);
    let c = lib(|| tm::<T, _>(RowMajor::new(d), s));
    all(o, &c);
    all(o, &a);
}
fn wrappers<T: Ops>(w: &World<T>, s: usize, o: &mut Vec<u64>) {
    let d = w.dims[s];
    let mut a = tm::<T, _>(RowMajor::new(d), s);
    {
        let mut r = lib(|| Matrix::<T, _, Tl<RowMajor>, Dynamic, Dynamic>::new(MatrixRefMut::new(&mut a)));
        tick();
        for k in 0..d.0 * d.1 {
            lib(|| *r.get1d_mut(k) = T::tag(2 * k + s));
            tick();
            put(o, lib(|| r.get1d(k)));
        }
        let mut rr = lib(|| Matrix::<T, _, Tl<RowMajor>, Dynamic, Dynamic>::new(MatrixRefMut::new(&mut r)));
        lib(|| *rr.get_mut(d.0 - 1, 0) = T::tag(321));
        tick();
        all(o, &rr);
    }
    let r = lib(|| Matrix::<T, _, Tl<RowMajor>, Dynamic, Dynamic>::new(MatrixRef::new(&a)));
    all(o, &r);
    let e = lib(|| r.eval());
    all(o, &e);
}
fn layouts<T: Ops>(w: &World<T>, s: usize, o: &mut Vec<u64>) {
    fn look<L: LayoutType>(o: &mut Vec<u64>, l: L) {
        o.extend([l.dim().0 as u64, l.dim().1 as u64, l.number_of_elements() as u64]);
        let x = lib(|| l.index_layout());
        for k in (0..l.number_of_elements()).rev() {
            let (i, j) = lib(|| l.convert_1d_2d(k));
            tick();
            o.extend([i as u64, j as u64, lib(|| l.convert_2d_1d(i, j)) as u64]);
            tick();
            o.extend([lib(|| l.convert_1d_raw(k)) as u64, lib(|| l.convert_2d_raw(i, j)) as u64]);
            tick();
            o.push(x.convert_2d_1d(i, j) as u64);
        }
    }
    let d = w.dims[s];
    look(o, RowMajor::new(d));
    look(o, ColumnMajor::new(d));
    look(o, UpperTriangular::new(d.0 + 1));
    look(o, ArbitraryStrideRowMajor::new(d, (2 * d.1, 1)));
    look(o, ArbitraryStrideColumnMajor::new(d, (1, d.0 + 2)));
    look(o, ArbitraryStrideColumnVector::new(d.0, 3));
    look(o, RowVector::new(d.1));
}
type Op<T> = fn(&World<T>, usize, &mut Vec<u64>);
fn table<T: Ops>() -> Vec<(&'static str, Op<T>)> {
    vec![
        ("evaluations", evals::<T>),
        ("reads", T::reads),
        ("expressions", T::expressions),
        ("apply-to-all", passes::<T>),
        ("fillings", T::fillings),
        ("products", T::products),
        ("vector products", T::vector_products),
        ("allocating products", T::dots),
        ("product into a quadrant", T::quadrant_product),
        ("accesses to a quadrant", quadrant::<T>),
        ("splits and blocks", splits::<T>),
        ("windows", windows::<T>),
        ("constructions", constructors::<T>),
        ("wrappers", wrappers::<T>),
        ("scalar helpers", T::scalars),
        ("layouts", layouts::<T>),
        ("shared operands", T::shared),
        ("reads of shared objects", shared_reads::<T>),
        ("refusals", T::refusals),
    ]
}
/// Result and final contents of the own quadrant.
#[derive(Clone, PartialEq, Debug)]
struct Res {
    out: Vec<u64>,
    quad: Vec<u64>,
}
const WORLDS: [(Dim, Dim); 5] = [((3, 3), (1, 2)), ((2, 4), (1, 2)), ((2, 2), (1, 1)), ((5, 5), (2, 3)), ((34, 40), (17, 20))];
fn world<T: Sc>(k: usize) -> World<T> {
    hooked(None, || World::new(WORLDS[k].0, WORLDS[k].1))
}
fn exec<T: Ops>(op: Op<T>, w: &World<T>, s: usize) -> Vec<u64> {
    let mut o = vec![];
    op(w, s, &mut o);
    o
}
/// What every operation gives alone, in each world and slot.
struct Alone<T: Ops> {
    ops: Vec<(&'static str, Op<T>)>,
    res: Vec<[Res; 4]>,
    ticks: Vec<[usize; 4]>,
    fresh: [Vec<u64>; 5],
    k: usize,
}
/// Executes `f` in a process of its own, forked before this one used the library, and returns what it writes.
fn apart(f: impl FnOnce() -> Vec<u64>) -> Result<Vec<u64>, String> {
    const CAP: usize = 1 << 18;
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), CAP * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u64;
        assert!(p as isize != -1, "mmap failed");
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            if let Ok(v) = catch_unwind(AssertUnwindSafe(f)) {
                let n = v.len().min(CAP - 1);
                *p = n as u64 + 1;
                std::ptr::copy_nonoverlapping(v.as_ptr(), p.add(1), n);
            }
            libc::_exit(0);
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        let n = *p as usize;
        let r = match (status, n) {
            (0, 0) => Err("panics in a process of its own".to_string()),
            (0, n) => Ok(std::slice::from_raw_parts(p.add(1), n - 1).to_vec()),
            (s, _) => Err(format!("ends a process of its own with status {}", s)),
        };
        libc::munmap(p as *mut _, CAP * 8);
        r
    }
}
impl<T: Ops> Alone<T> {
    /// Every operation, each in a process that executes nothing else.
    fn new(k: usize) -> Result<Self, String> {
        let ops = table::<T>();
        let mut fresh: [Vec<u64>; 5] = Default::default();
        let (mut res, mut ticks) = (vec![], vec![]);
        for (name, op) in &ops {
            let mut r: Vec<Res> = vec![];
            let mut t = [0; 4];
            for s in 0..4 {
                let all = apart(|| {
                    let w = world::<T>(k);
                    let mut n = 0;
                    let out = hooked(Some(&mut || n += 1), || exec(*op, &w, s));
                    let mut v = vec![n as u64];
                    for part in std::iter::once(out).chain(w.contents()).chain(world::<T>(k).contents()) {
                        v.push(part.len() as u64);
                        v.extend(part);
                    }
                    v
                })
                .map_err(|e| format!("{} of object {}, {:?} {}, {}", name, s, WORLDS[k], T::NAME, e))?;
                let mut it = all.into_iter();
                t[s] = it.next().unwrap() as usize;
                let mut parts = (0..11).map(|_| {
                    let n = it.next().unwrap() as usize;
                    it.by_ref().take(n).collect::<Vec<u64>>()
                });
                let out = parts.next().unwrap();
                let c: Vec<Vec<u64>> = (0..5).map(|_| parts.next().unwrap()).collect();
                let f: Vec<Vec<u64>> = (0..5).map(|_| parts.next().unwrap()).collect();
                for q in 0..5 {
                    if q != s && c[q] != f[q] {
                        return Err(format!("{} with the objects {} changed the objects {}", name, s, q));
                    }
                    fresh[q] = f[q].clone();
                }
                r.push(Res { out, quad: c[s].clone() });
            }
            res.push([r[0].clone(), r[1].clone(), r[2].clone(), r[3].clone()]);
            ticks.push(t);
        }
        Ok(Alone { ops, res, ticks, fresh, k })
    }
    fn same(&self, x: usize, s: usize, out: &[u64], what: &dyn Fn() -> String) {
        let want = &self.res[x][s].out;
        if want != out {
            let d = want.iter().zip(out).position(|(a, b)| a != b).unwrap_or(want.len().min(out.len()));
            fail!("{} gave a result that differs from the one it gives alone: number {} of {} is {:?} instead of {:?}: {}", self.ops[x].0, d, want.len(), out.get(d), want.get(d), what());
        }
    }
    /// The world after operations on the given slots: their quadrants are as after running alone.
    fn world(&self, w: &World<T>, done: &[(usize, usize)], partial: Option<usize>, what: &dyn Fn() -> String) {
        let c = w.contents();
        for q in 0..5 {
            if partial == Some(q) {
                continue;
            }
            let want = done.iter().find(|d| d.1 == q).map_or(&self.fresh[q], |d| &self.res[d.0][q].quad);
            ensure!(c[q] == *want, "the elements of quadrant {} (4: of the shared operands) differ from those after its own operations alone: {}", q, what());
        }
    }
}

fn endless(n: usize, alone: usize, what: &dyn Fn() -> String) {
    ensure!(n < 4 * alone + 10_000, "an operation does not come to an end: {}", what());
}
/// (a) every operation inside of every callback of every other
fn nested<T: Ops>(run: &mut Run, al: &Alone<T>, x: usize, s: usize, depth: usize) {
    let n = al.ticks[x][s];
    // callbacks of big operations: the first and last ones, and every 37th
    for p in (0..n).filter(|&p| n <= 400 || p < 8 || p + 8 >= n || p % (n / 64) == 0) {
        for y in 0..al.ops.len() {
            for ys in [(s + 1) % 4, (s + 2) % 4] {
                let what = || format!("{} ({}) inside callback {} of {} ({})", al.ops[y].0, ys, p, al.ops[x].0, s);
                run.step(what);
                let w = world::<T>(al.k);
                let (mut at, mut inner) = (0, None);
                let mut deep = vec![];
                let out = hooked(
                    Some(&mut || {
                        at += 1;
                        endless(at, n, &what);
                        if at == p + 1 {
                            if depth == 1 {
                                inner = Some(hooked(None, || exec(al.ops[y].1, &w, ys)));
                            } else {
                                // a third operation at every callback of the second
                                let mut b = 0usize;
                                inner = Some(hooked(
                                    Some(&mut || {
                                        let z = (b + y) % al.ops.len();
                                        b += 1;
                                        endless(b, al.ticks[y][ys], &what);
                                        let w2 = w.sharing();
                                        deep.push((z, hooked(None, || exec(al.ops[z].1, &w2, (s + 3) % 4))));
                                    }),
                                    || exec(al.ops[y].1, &w, ys),
                                ));
                            }
                        }
                    }),
                    || exec(al.ops[x].1, &w, s),
                );
                al.same(x, s, &out, &what);
                al.same(y, ys, &inner.expect("the callback was not reached"), &what);
                for (z, r) in &deep {
                    al.same(*z, (s + 3) % 4, r, &what);
                }
                al.world(&w, &[(x, s), (y, ys)], None, &what);
                run.eval((out.len() + 5) as u64);
                run.transition();
                run.state(hash_of(&(p, y, ys)));
            }
        }
    }
    run.trace();
}
/// (b) abandoned at every callback; then all operations, and the same one again
fn interrupted<T: Ops>(run: &mut Run, al: &Alone<T>, x: usize, s: usize) {
    let n = al.ticks[x][s];
    for p in (0..n).filter(|&p| n <= 400 || p < 8 || p + 8 >= n || p % (n / 64) == 0) {
        run.step(|| format!("{} ({}) abandoned at callback {}", al.ops[x].0, s, p));
        let w = world::<T>(al.k);
        let mut at = 0;
        let r = catch_unwind(AssertUnwindSafe(|| {
            hooked(
                Some(&mut || {
                    at += 1;
                    if at == p + 1 {
                        std::panic::panic_any(Stop)
                    }
                }),
                || exec(al.ops[x].1, &w, s),
            )
        }));
        match r {
            Ok(_) => fail!("a panic in callback {} of {} was swallowed", p, al.ops[x].0),
            Err(e) if e.is::<Stop>() => {}
            Err(e) => std::panic::resume_unwind(e),
        }
        let what = || format!("after {} ({}) was abandoned at callback {}", al.ops[x].0, s, p);
        let first = (s + 1) % 4;
        let out = exec(al.ops[x].1, &w, first);
        al.same(x, first, &out, &what);
        al.world(&w, &[(x, first)], Some(s), &what);
        for y in 0..al.ops.len() {
            let w = world::<T>(al.k);
            let out = exec(al.ops[y].1, &w, s);
            al.same(y, s, &out, &what);
            al.world(&w, &[(y, s)], None, &what);
            run.eval(out.len() as u64 + 5);
            run.transition();
        }
        run.state(p as u64);
    }
    run.trace();
}
/// (c) all sequences of operations
fn sequences<T: Ops>(run: &mut Run, al: &Alone<T>, x: usize, len: usize) {
    let n = al.ops.len();
    for code in 0..n.pow(len as u32 - 1) * 4 {
        let mut ops = vec![x];
        let mut c = code / 4;
        for _ in 1..len {
            ops.push(c % n);
            c /= n;
        }
        let what = || format!("in the sequence {:?} from quadrant {}", ops.iter().map(|&i| al.ops[i].0).collect::<Vec<_>>(), code % 4);
        run.step(what);
        let w = world::<T>(al.k);
        let mut done = vec![];
        for (i, &y) in ops.iter().enumerate() {
            let s = (code % 4 + i) % 4;
            let out = exec(al.ops[y].1, &w, s);
            al.same(y, s, &out, &what);
            done.push((y, s));
            run.eval(out.len() as u64);
            run.transition();
        }
        al.world(&w, &done, None, &what);
        run.state(code as u64);
        run.trace();
    }
}

// ---- two threads --------------------------------------------------------------------------------
fn futex_wait(a: &AtomicU32, v: u32, ms: i64) {
    let t = libc::timespec { tv_sec: ms / 1000, tv_nsec: ms % 1000 * 1_000_000 };
    unsafe { libc::syscall(libc::SYS_futex, a.as_ptr(), libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, v, &t) };
}
fn futex_wake(a: &AtomicU32) {
    unsafe { libc::syscall(libc::SYS_futex, a.as_ptr(), libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1) };
}
type Job = Box<dyn FnOnce() + Send>;
/// A second thread that lives as long as the process.
struct Partner {
    job: Mutex<Option<Job>>,
    /// 0: idle, 1: has a job, 2: finished it
    state: AtomicU32,
}
impl Partner {
    fn new() -> &'static Self {
        let p: &'static Partner = Box::leak(Box::new(Partner { job: Mutex::new(None), state: AtomicU32::new(0) }));
        std::thread::spawn(move || loop {
            p.until(1);
            let j = p.job.lock().unwrap().take().unwrap();
            j();
            p.state.store(2, SeqCst);
            futex_wake(&p.state);
        });
        p
    }
    fn until(&self, v: u32) {
        loop {
            let s = self.state.load(SeqCst);
            if s == v {
                return;
            }
            futex_wait(&self.state, s, 1000);
        }
    }
    fn start<'a>(&self, f: impl FnOnce() + Send + 'a) {
        let f: Box<dyn FnOnce() + Send + 'a> = Box::new(f);
        *self.job.lock().unwrap() = Some(unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + 'a>, Job>(f) });
        self.state.store(1, SeqCst);
        futex_wake(&self.state);
    }
    fn join(&self) {
        self.until(2);
        self.state.store(0, SeqCst);
    }
}
/// Whose turn it is; the running thread passes it on at the chosen steps.
struct Baton {
    turn: AtomicU32,
    done: [AtomicBool; 2],
    step: AtomicU64,
    forced: AtomicBool,
}
impl Baton {
    fn wait(&self, me: u32) {
        for _ in 0..40 {
            // short waits: the other thread may be blocked by a lock this one holds
            let t = self.turn.load(SeqCst);
            if t == me || self.done[1 - me as usize].load(SeqCst) {
                return;
            }
            futex_wait(&self.turn, t, 50);
        }
        self.forced.store(true, SeqCst);
        self.turn.store(me, SeqCst);
    }
    fn pass(&self, me: u32) {
        self.turn.store(1 - me, SeqCst);
        futex_wake(&self.turn);
    }
    fn at_tick(&self, me: u32, switches: &[u64]) {
        let g = self.step.fetch_add(1, SeqCst);
        if switches.contains(&g) && !self.done[1 - me as usize].load(SeqCst) {
            self.pass(me);
            self.wait(me);
        }
    }
    fn finish(&self, me: u32) {
        self.done[me as usize].store(true, SeqCst);
        self.pass(me);
    }
}
fn scheduled<T: Ops>(al: &Alone<T>, pt: &Partner, x: usize, s: usize, y: usize, ys: usize, first: u32, switches: &[u64]) {
    let w = world::<T>(al.k);
    let b = Baton { turn: AtomicU32::new(first), done: [AtomicBool::new(false), AtomicBool::new(false)], step: AtomicU64::new(0), forced: AtomicBool::new(false) };
    let what = || format!("{} ({}) and {} ({}) in two threads, {} first, switching at callbacks {:?}", al.ops[x].0, s, al.ops[y].0, ys, ["the former", "the latter"][first as usize], switches);
    let other = Mutex::new(None::<std::thread::Result<Vec<u64>>>);
    let (wr, br, f, slot) = (&w, &b, al.ops[y].1, &other);
    pt.start(move || {
        br.wait(1);
        let r = catch_unwind(AssertUnwindSafe(|| hooked(Some(&mut || br.at_tick(1, switches)), || exec(f, wr, ys))));
        *slot.lock().unwrap() = Some(r);
        br.finish(1);
    });
    b.wait(0);
    let mine = catch_unwind(AssertUnwindSafe(|| hooked(Some(&mut || b.at_tick(0, switches)), || exec(al.ops[x].1, &w, s))));
    b.finish(0);
    pt.join();
    let other = other.into_inner().unwrap();
    for (op, slot, r) in [(x, s, Some(mine)), (y, ys, other)] {
        match r {
            Some(Ok(o)) => al.same(op, slot, &o, &what),
            Some(Err(_)) => fail!("{} panicked, which it does not alone: {}", al.ops[op].0, what()),
            None => fail!("{} did not finish: {}", al.ops[op].0, what()),
        }
    }
    al.world(&w, &[(x, s), (y, ys)], None, &what);
}
/// All schedules of two operations with up to `c` switches at callbacks.
fn threads<T: Ops>(run: &mut Run, al: &Alone<T>, pt: &Partner, x: usize, s: usize, y: usize, ys: usize, c: usize) {
    let n = (al.ticks[x][s] + al.ticks[y][ys]) as u64;
    let go = |run: &mut Run, first: u32, sw: &[u64]| {
        run.step(|| format!("{} ({}) | {} ({}): {} first, switches at {:?}", al.ops[x].0, s, al.ops[y].0, ys, first, sw));
        scheduled(al, pt, x, s, y, ys, first, sw);
        run.eval((al.res[x][s].out.len() + al.res[y][ys].out.len() + 5) as u64);
        run.transition();
        run.trace();
        run.state(hash_of(&(first, sw)));
    };
    for first in 0..2 {
        go(run, first, &[]);
        for a in 0..n {
            go(run, first, &[a]);
            if c >= 2 {
                for b in a + 1..n {
                    go(run, first, &[a, b]);
                    if c >= 3 {
                        for d in b + 1..n {
                            go(run, first, &[a, b, d]);
                        }
                    }
                }
            }
        }
    }
}

// ---- machine instructions -----------------------------------------------------------------------
extern "C" {
    static __executable_start: u8;
    static etext: u8;
}
static STEPPING: AtomicBool = AtomicBool::new(false);
static EVERY: AtomicBool = AtomicBool::new(false);
static STEPS: AtomicU64 = AtomicU64::new(0);
static TARGET: AtomicU64 = AtomicU64::new(0);
static REQ: AtomicU32 = AtomicU32::new(0);
static DONE: AtomicU32 = AtomicU32::new(0);
/// Addresses (lower halves) and library calls of the instructions of the last execution.
static TRAIL: [AtomicU32; 1 << 16] = [const { AtomicU32::new(0) }; 1 << 16];
/// Number of library calls of the last execution.
static CALLS: AtomicU64 = AtomicU64::new(0);
static TEXT: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
static INJECTED: AtomicU64 = AtomicU64::new(0);
static BLOCKED: AtomicBool = AtomicBool::new(false);
/// What the second thread executes when the first one is stopped.
static INTRUDER: AtomicPtr<&'static (dyn Fn() + Sync)> = AtomicPtr::new(std::ptr::null_mut());

/// Trap after every instruction of a library call: lets the second thread run in between.
unsafe extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = &mut *(ctx as *mut libc::ucontext_t);
    if !STEPPING.load(SeqCst) {
        uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        return;
    }
    let rip = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
    // inside of system libraries locks may be held
    if rip < TEXT[0].load(SeqCst) || rip >= TEXT[1].load(SeqCst) {
        return;
    }
    let n = STEPS.fetch_add(1, SeqCst);
    if let Some(t) = TRAIL.get(n as usize) {
        t.store(rip as u32 ^ (CALLS.load(SeqCst) as u32) << 24, SeqCst);
    }
    let every = EVERY.load(SeqCst);
    if !every && n != TARGET.load(SeqCst) {
        return;
    }
    if !BLOCKED.load(SeqCst) {
        DONE.store(0, SeqCst);
        REQ.store(1, SeqCst);
        futex_wake(&REQ);
        // the second thread may have to wait for the first: then the first goes on
        let mut tries = 0;
        while DONE.load(SeqCst) == 0 && tries < 40 {
            futex_wait(&DONE, 0, 50);
            tries += 1;
        }
        if DONE.load(SeqCst) == 0 {
            BLOCKED.store(true, SeqCst);
        }
        INJECTED.fetch_add(1, SeqCst);
    }
    if !every {
        STEPPING.store(false, SeqCst);
        uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
    }
}
/// The second thread of the instruction mode.
fn intruder() {
    loop {
        futex_wait(&REQ, 0, 1000);
        if REQ.swap(0, SeqCst) == 1 {
            let f = INTRUDER.load(SeqCst);
            if !f.is_null() {
                unsafe { (*f)() }
            }
            DONE.store(1, SeqCst);
            futex_wake(&DONE);
        }
    }
}
fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        TEXT[0].store(&__executable_start as *const u8 as u64, SeqCst);
        TEXT[1].store(&etext as *const u8 as u64, SeqCst);
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_trap as usize;
        a.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
        std::thread::spawn(intruder);
    });
}
/// One execution of an operation, stepped; other operations run in the second thread after instruction `target` (or after every one).
/// Returns the number of instructions and of interruptions.
fn stepped<T: Ops>(al: &Alone<T>, x: usize, s: usize, target: Option<u64>, ys: &[(usize, usize)], what: &(dyn Fn() -> String + Sync)) -> (u64, u64) {
    let w = world::<T>(al.k);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let intrude = || {
        for &(y, q) in ys {
            let own;
            let w2 = if target.is_some() && ys.len() == 1 { &w } else { own = w.sharing(); &own };
            let r = catch_unwind(AssertUnwindSafe(|| {
                let out = exec(al.ops[y].1, w2, q);
                al.same(y, q, &out, what);
            }));
            if let Err(e) = r {
                let m = e.downcast::<Viol>().map(|v| v.0).unwrap_or_else(|_| format!("{} panicked in the second thread: {}", al.ops[y].0, what()));
                bad.lock().unwrap().get_or_insert(m);
            }
        }
    };
    let f: &(dyn Fn() + Sync) = &intrude;
    let mut f: &'static (dyn Fn() + Sync) = unsafe { std::mem::transmute(f) };
    INTRUDER.store(&mut f, SeqCst);
    STEPS.store(0, SeqCst);
    CALLS.store(0, SeqCst);
    INJECTED.store(0, SeqCst);
    BLOCKED.store(false, SeqCst);
    EVERY.store(target.is_none(), SeqCst);
    TARGET.store(target.unwrap_or(0), SeqCst);
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(false));
            STEPPING.store(false, SeqCst);
        }
    }
    let off = Off;
    ARMED.with(|a| a.set(true));
    STEPPING.store(true, SeqCst);
    let out = exec(al.ops[x].1, &w, s);
    drop(off);
    if BLOCKED.load(SeqCst) {
        // the second thread was waiting for this one and goes on now
        for _ in 0..800 {
            if DONE.load(SeqCst) == 1 {
                break;
            }
            futex_wait(&DONE, 0, 50);
        }
        ensure!(DONE.load(SeqCst) == 1, "the second thread is stuck: {}", what());
    }
    INTRUDER.store(std::ptr::null_mut(), SeqCst);
    if let Some(m) = bad.lock().unwrap().take() {
        fail!("{}", m);
    }
    al.same(x, s, &out, what);
    if target.is_some() && ys.len() == 1 && INJECTED.load(SeqCst) > 0 {
        al.world(&w, &[(x, s), ys[0]], None, what);
    } else {
        al.world(&w, &[(x, s)], None, what);
    }
    (STEPS.load(SeqCst), INJECTED.load(SeqCst))
}
fn after_every<T: Ops>(run: &mut Run, al: &Alone<T>, x: usize, s: usize) {
    install();
    let n = al.ops.len();
    let ys = (s + 1) % 4;
    for others in [(0..n).map(|y| (y, ys)).collect::<Vec<_>>(), vec![(x, ys), (x, (s + 2) % 4)]] {
        let what = || format!("{} operations in a second thread after every instruction of {} ({})", others.len(), al.ops[x].0, s);
        run.step(what);
        let (k, i) = stepped(al, x, s, None, &others, &what);
        for _ in 0..i {
            run.transition();
        }
        run.state(hash_of(&(k, others.len())));
        run.eval(i * others.len() as u64);
        run.trace();
    }
}
/// The same operation on other objects, after one instruction.
fn after_one<T: Ops>(run: &mut Run, al: &Alone<T>, x: usize, s: usize, part: u64, parts: u64, times: u32) {
    install();
    let ys = (s + 1) % 4;
    let (len, _) = stepped(al, x, s, Some(u64::MAX), &[(x, ys)], &String::new);
    let trail: Vec<u32> = TRAIL[..(len as usize).min(TRAIL.len())].iter().map(|t| t.load(SeqCst)).collect();
    let mut seen = std::collections::HashMap::new();
    let mut chosen = vec![];
    for (k, t) in trail.iter().enumerate() {
        // in the small exploration an instruction counts once per operation, else once per library call
        let c = seen.entry(if times == 1 { *t & 0xFF_FFFF } else { *t }).or_insert(0);
        *c += 1;
        if *c <= times {
            chosen.push(k as u64);
        }
    }
    for &k in chosen.iter().filter(|&k| k % parts == part) {
        let what = || format!("{} ({}) in a second thread after instruction {} of {} ({})", al.ops[x].0, ys, k, al.ops[x].0, s);
        run.step(what);
        let (_, i) = stepped(al, x, s, Some(k), &[(x, ys)], &what);
        for _ in 0..i {
            run.transition();
        }
        run.eval(al.res[x][s].out.len() as u64 + 5);
        run.state(k);
        run.trace();
    }
}

// ---- which types can be moved to and shared between threads ---------------------------------------
struct Probe<X>(PhantomData<X>);
trait NotSend {
    fn send(&self) -> bool {
        false
    }
}
trait NotSync {
    fn sync(&self) -> bool {
        false
    }
}
impl<X> NotSend for &Probe<X> {}
impl<X> NotSync for &Probe<X> {}
impl<X: Send> Probe<X> {
    fn send(&self) -> bool {
        true
    }
}
impl<X: Sync> Probe<X> {
    fn sync(&self) -> bool {
        true
    }
}
/// Storage of one thread only.
struct Local(Rc<Vec<f64>>);
impl DataContainer for Local {
    type Item = f64;
    unsafe fn get_unchecked(&self, index: usize) -> f64 {
        self.0[index]
    }
    fn get_pointer(&self) -> *const f64 {
        self.0.as_ptr()
    }
    fn number_of_elements(&self) -> usize {
        self.0.len()
    }
}
type Mat<L> = MatrixD<f64, L>;
type Slice<L> = SliceMatrix<'static, f64, L, Dynamic, Dynamic>;
type SliceMut<L> = SliceMatrixMut<'static, f64, L, Dynamic, Dynamic>;
type Bm<L, D> = BaseMatrixOf<L, D>;
type BaseMatrixOf<L, D> = householder::base_matrix::BaseMatrix<f64, D, L, Dynamic, Dynamic>;
type Vc = VectorContainer<f64>;
type LocalMat = GenericBaseMatrix<f64, RowMajor, Local, Dynamic, Dynamic>;
fn types(run: &mut Run) {
    macro_rules! yes { ($($t:ty),* $(,)?) => {$( {
        let p = Probe::<$t>(PhantomData);
        ensure!((&p).send(), "{} cannot be moved to another thread", stringify!($t));
        ensure!((&p).sync(), "{} cannot be shared between threads", stringify!($t));
        run.eval(2);
        run.state(hash_of(stringify!($t)));
    } )*}; }
    macro_rules! no { ($($t:ty),* $(,)?) => {$( {
        let p = Probe::<$t>(PhantomData);
        ensure!(!(&p).send(), "{} can be moved to another thread, its storage cannot", stringify!($t));
        ensure!(!(&p).sync(), "{} can be shared between threads, its storage cannot", stringify!($t));
        run.eval(2);
        run.state(hash_of(stringify!($t)));
    } )*}; }
    yes!(RowMajor, ColumnMajor, RowVector, ColumnVector, UpperTriangular, ArbitraryStrideRowMajor, ArbitraryStrideColumnMajor, ArbitraryStrideRowVector, ArbitraryStrideColumnVector);
    yes!(VectorContainer<f64>, VectorContainer<c32>, ArrayContainer<f32, 4>, SliceContainer<'static, f64>, SliceContainerMut<'static, c64>);
    yes!(Mat<RowMajor>, Mat<ColumnMajor>, Mat<UpperTriangular>, MatrixD<c64, RowMajor>, MatrixD<c32, ColumnMajor>, MatrixD<f32, RowMajor>, RowVectorD<f64>, ColumnVectorD<c64>, Matrix22<f64, RowMajor>, Matrix23<c32, ColumnMajor>);
    yes!(Slice<RowMajor>, Slice<ArbitraryStrideRowMajor>, Slice<ArbitraryStrideColumnMajor>, SliceMut<ColumnMajor>, SliceMut<ArbitraryStrideRowMajor>, SliceMut<ArbitraryStrideColumnMajor>);
    type Ba = Bm<RowMajor, Vc>;
    type R<'a> = MatrixRef<'a, f64, Ba, RowMajor, Dynamic, Dynamic>;
    type S = ScalarMult<f64, Ba, RowMajor, Dynamic, Dynamic>;
    type A = Addition<f64, Ba, R<'static>, RowMajor, RowMajor, RowMajor, Dynamic, Dynamic>;
    yes!(R<'static>, MatrixRefMut<'static, f64, Ba, RowMajor, Dynamic, Dynamic>, S, A);
    yes!(Matrix<f64, R<'static>, RowMajor, Dynamic, Dynamic>, Matrix<f64, S, RowMajor, Dynamic, Dynamic>, Matrix<f64, A, RowMajor, Dynamic, Dynamic>);
    type Lb = Bm<RowMajor, Local>;
    type Lr<'a> = MatrixRef<'a, f64, Lb, RowMajor, Dynamic, Dynamic>;
    no!(LocalMat, Lb, Lr<'static>, ScalarMult<f64, Lb, RowMajor, Dynamic, Dynamic>, Addition<f64, Ba, Lr<'static>, RowMajor, RowMajor, RowMajor, Dynamic, Dynamic>);
    no!(MatrixRefMut<'static, f64, Lb, RowMajor, Dynamic, Dynamic>, Matrix<f64, Lr<'static>, RowMajor, Dynamic, Dynamic>, Addition<f64, Lb, Ba, RowMajor, RowMajor, RowMajor, Dynamic, Dynamic>);
    run.trace();
}

type All<T> = Vec<Result<Alone<T>, String>>;
fn alone<T: Ops>() -> All<T> {
    (0..WORLDS.len()).map(Alone::new).collect()
}
fn of<T: Ops>(al: &All<T>, k: usize) -> &Alone<T> {
    match &al[k] {
        Ok(a) => a,
        Err(e) => fail!("{}", e),
    }
}
fn explore<T: Ops>(cx: &mut Cx, pt: &Partner, al: &All<T>, primary: bool) {
    let n = table::<T>().len();
    let names: Vec<&str> = table::<T>().iter().map(|o| o.0).collect();
    let full = cx.thorough();
    for k in 0..WORLDS.len() {
        if !primary && !full && k != 1 && k != 4 {
            continue;
        }
        let slots: Vec<usize> = if primary || full { vec![0, 1, 2, 3] } else { vec![0, 3] };
        for &s in &slots {
            for x in 0..n {
                if k == 4 && s != 0 && !full {
                    continue;
                }
                cx.case("inside of every callback", || format!("{} {:?} {} of object {}", T::NAME, WORLDS[k], names[x], s), |run| nested(run, of(al, k), x, s, 1));
                cx.case("abandoned at every callback", || format!("{} {:?} {} of object {}", T::NAME, WORLDS[k], names[x], s), |run| interrupted(run, of(al, k), x, s));
                if k < 3 && (primary && s == 0 && k == 1 || full) {
                    cx.case("inside of callbacks inside of callbacks", || format!("{} {:?} {} of object {}", T::NAME, WORLDS[k], names[x], s), |run| nested(run, of(al, k), x, s, 2));
                }
            }
        }
        if k < 4 {
            for x in 0..n {
                let len = if primary && (k == 1 || full) { 3 } else { 2 };
                cx.case("sequences", || format!("{} {:?} from {} length {}", T::NAME, WORLDS[k], names[x], len), |run| sequences(run, of(al, k), x, len));
            }
        }
        if k < 4 {
            for x in 0..n {
                for y in 0..n {
                    let (s, ys) = ((x + y) % 4, (x + y + 1 + k % 3) % 4);
                    let c = match (primary, full) {
                        (true, true) if k == 2 => 2,
                        (true, true) if x == y => 2,
                        (true, false) if k == 2 && x == y && al[k].as_ref().map_or(0, |a| a.ticks[x][s]) < 90 => 2,
                        (false, _) if k != 1 => continue,
                        (true, false) if k == 3 || k == 0 => continue,
                        _ => 1,
                    };
                    cx.case("schedules of two threads", || format!("{} {:?} {} ({}) | {} ({}), {} switches", T::NAME, WORLDS[k], names[x], s, names[y], ys, c), |run| threads(run, of(al, k), pt, x, s, y, ys, c));
                }
            }
        }
    }
}
fn main() {
    let mut cx = Cx::from_args();
    let full = cx.thorough();
    // before anything else uses the library
    let (a64, a32, c64_, c32_) = (alone::<f64>(), alone::<f32>(), alone::<c64>(), alone::<c32>());
    let pt = Partner::new();
    cx.case("types", || "moving to and sharing between threads".into(), types);
    explore::<f64>(&mut cx, pt, &a64, true);
    explore::<c32>(&mut cx, pt, &c32_, false);
    explore::<f32>(&mut cx, pt, &a32, false);
    explore::<c64>(&mut cx, pt, &c64_, false);
    // stepping is slow: the unchecked build has a fraction of the instructions
    if full || !cfg!(debug_assertions) {
        let names: Vec<&str> = table::<f64>().iter().map(|o| o.0).collect();
        let (parts, times) = if full { (16, u32::MAX) } else { (4, 1) };
        for x in 0..names.len() {
            if names[x] == "refusals" {
                continue;
            }
            let at = |t: &str, k: usize| format!("{} {:?} {}", t, WORLDS[k], names[x]);
            for k in [2, 1] {
                cx.case("after every instruction", || at("f64", k), |run| after_every(run, of(&a64, k), x, 0));
            }
            cx.case("after every instruction", || at("c64", 2), |run| after_every(run, of(&c64_, 2), x, 0));
            cx.case("after every instruction", || at("c32", 2), |run| after_every(run, of(&c32_, 2), x, 0));
            cx.case("after every instruction", || at("f32", 2), |run| after_every(run, of(&a32, 2), x, 0));
            for part in 0..parts {
                cx.case("between any two instructions", || format!("f64 {:?} {} part {}", WORLDS[2], names[x], part), |run| after_one(run, of(&a64, 2), x, 0, part, parts, times));
            }
        }
    }
    cx.finish();
}
