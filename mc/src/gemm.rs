//! Operands of matrix products, for the checks of C12 to C15 (included by their binaries).
//!
//! Every operand lives in a buffer with red zones; `Gemm::*` builds the library's view of it and
//! multiplies. Locations that are no element of the operand hold `gap`.
#![allow(dead_code, unused_mut, unused_macros)]
use householder::types::{c32, c64};
use householder::*;
use mc::*;
use std::rc::Rc;

pub type Dim = (usize, usize);
/// How an operand is stored.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Row,
    Col,
    /// gaps between rows and inside of them
    StrRow,
    StrCol,
    /// numbered by rows, but columns are contiguous
    RowTall,
    /// numbered by columns, but rows are contiguous
    ColWide,
    Own,
    Block,
    Block2,
    /// lower right quadrant (targets; factors are then blocks)
    Split,
    /// all rows are the same memory (factors only)
    Broadcast,
    /// strided layouts whose rows (columns) follow each other without a gap, but not their elements
    EvenRow,
    EvenCol,
    /// a strided layout with the strides of a packed one
    FlatRow,
}
pub use Op::*;
pub const FACTORS: [Op; 12] = [Row, Col, StrRow, StrCol, RowTall, ColWide, Own, Block, Block2, EvenRow, EvenCol, FlatRow];
pub const TARGETS: [Op; 13] = [Row, Col, StrRow, StrCol, RowTall, ColWide, Own, Block, Block2, Split, EvenRow, EvenCol, FlatRow];
/// Vectors: own, slice, strided vector layout, strided matrix layout
pub const VECS: [Op; 4] = [Own, Row, StrRow, StrCol];

#[derive(Clone)]
pub struct Opd<T: Sc> {
    pub op: Op,
    pub dim: Dim,
    pub stride: Dim,
    pub off: usize,
    pub pdim: Dim,
    pub buf: Rc<GuardBuf<T>>,
}
impl<T: Sc> Opd<T> {
    pub fn matrix(op: Op, dim: Dim, gap: T, f: impl Fn(usize, usize) -> T) -> Self {
        let (m, n) = dim;
        let (mut pdim, mut off) = (dim, 0);
        let stride = match op {
            Row | Own => (n, 1),
            Col => (1, m),
            StrRow => (2 * n + 1, 2),
            StrCol => (3, 3 * m + 2),
            RowTall => (1, m + 1),
            ColWide => (n + 2, 1),
            Broadcast => (0, 2),
            EvenRow => (2 * n, 2),
            EvenCol => (2, 2 * m),
            FlatRow => (n, 1),
            Block => {
                pdim = (m + 2, n + 3);
                off = pdim.1 + 2;
                (pdim.1, 1)
            }
            Block2 => {
                pdim = (m + 4, n + 3);
                off = 2 + pdim.0;
                (1, pdim.0)
            }
            Split => {
                pdim = (m + 1, n + 2);
                off = pdim.1 + 2;
                (pdim.1, 1)
            }
        };
        let len = match op {
            Block | Block2 | Split => pdim.0 * pdim.1,
            // the library wants as much storage as there are elements
            Broadcast => (2 * n).max(m * n),
            _ if m == 0 || n == 0 => 0,
            _ => (m - 1) * stride.0 + (n - 1) * stride.1 + 1,
        };
        Self::fill(Opd { op, dim, stride, off, pdim, buf: Rc::new(GuardBuf::new(len, |_| gap)) }, f)
    }
    pub fn vector(op: Op, dim: Dim, gap: T, f: impl Fn(usize, usize) -> T) -> Self {
        let n = dim.0 * dim.1;
        let s = match op {
            Own | Row => 1,
            StrRow => 3,
            _ => 2,
        };
        // the stride of the fixed dimension is never used, and deliberately odd
        let stride = if dim.1 == 1 && !(dim.0 == 1 && op == StrCol) { (s, 7) } else { (7, s) };
        let len = if n == 0 { 0 } else { (n - 1) * s + 1 };
        Self::fill(Opd { op, dim, stride, off: 0, pdim: dim, buf: Rc::new(GuardBuf::new(len, |_| gap)) }, f)
    }
    fn fill(self, f: impl Fn(usize, usize) -> T) -> Self {
        if self.dim.1 == 0 {
            return self;
        }
        for i in 0..self.dim.0 {
            for j in 0..self.dim.1 {
                self.set(i, j, f(i, j));
            }
        }
        self
    }
    pub fn raw(&self, i: usize, j: usize) -> usize {
        self.off + i * self.stride.0 + j * self.stride.1
    }
    pub fn at(&self, i: usize, j: usize) -> T {
        self.buf.at(self.raw(i, j))
    }
    pub fn set(&self, i: usize, j: usize, v: T) {
        self.buf.set(self.raw(i, j), v)
    }
    pub fn view<'a>(&self) -> &'a mut [T] {
        unsafe { self.buf.view() }
    }
}
/// Both factors become views that start at the same place of one storage.
pub fn share<T: Sc>(a: &mut Opd<T>, b: &mut Opd<T>, f: impl Fn(usize) -> T) {
    let buf = Rc::new(GuardBuf::new(a.buf.len().max(b.buf.len()), f));
    a.buf = buf.clone();
    b.buf = buf;
}
/// Copies what an owned target holds back into its buffer, also when the product panics.
struct Back<'a, T: Sc, L: LayoutType, R: SizeIdentifier, C: SizeIdentifier>(GenericBaseMatrixMut<T, L, VectorContainer<T>, R, C>, &'a Opd<T>);
impl<'a, T: Sc, L: LayoutType, R: SizeIdentifier, C: SizeIdentifier> Drop for Back<'a, T, L, R, C> {
    fn drop(&mut self) {
        let n = self.1.buf.len();
        if n > 0 {
            for q in 0..n {
                self.1.buf.set(q, unsafe { *self.0.get_pointer().add(q) })
            }
        }
    }
}
fn own<T: Sc>(o: &Opd<T>) -> VectorContainer<T> {
    let mut c = VectorContainer::new(o.buf.len());
    for q in 0..o.buf.len() {
        unsafe { *c.get_unchecked_mut(q) = o.buf.at(q) }
    }
    c
}

/// `c = alpha a b + beta c` by the library: matrices, matrix with column vector, row vector with matrix.
pub trait Gemm: Sc {
    fn mm(alpha: Self, a: &Opd<Self>, b: &Opd<Self>, beta: Self, c: &Opd<Self>);
    fn mv(alpha: Self, a: &Opd<Self>, x: &Opd<Self>, beta: Self, y: &Opd<Self>);
    fn vm(alpha: Self, x: &Opd<Self>, a: &Opd<Self>, beta: Self, y: &Opd<Self>);
    /// Both factors are one and the same object.
    fn mm_self(alpha: Self, a: &Opd<Self>, beta: Self, c: &Opd<Self>);
    fn gemm(shape: Shape, alpha: Self, a: &Opd<Self>, b: &Opd<Self>, beta: Self, c: &Opd<Self>) {
        match shape {
            Shape::MM => Self::mm(alpha, a, b, beta, c),
            Shape::MV => Self::mv(alpha, a, b, beta, c),
            Shape::VM => Self::vm(alpha, a, b, beta, c),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Shape {
    MM,
    MV,
    VM,
}
impl Shape {
    pub fn a<T: Sc>(self, op: Op, d: Dim, gap: T, f: impl Fn(usize, usize) -> T) -> Opd<T> {
        if self == Shape::VM { Opd::vector(op, d, gap, f) } else { Opd::matrix(op, d, gap, f) }
    }
    pub fn b<T: Sc>(self, op: Op, d: Dim, gap: T, f: impl Fn(usize, usize) -> T) -> Opd<T> {
        if self == Shape::MV { Opd::vector(op, d, gap, f) } else { Opd::matrix(op, d, gap, f) }
    }
    pub fn c<T: Sc>(self, op: Op, d: Dim, gap: T, f: impl Fn(usize, usize) -> T) -> Opd<T> {
        if self == Shape::MM { Opd::matrix(op, d, gap, f) } else { Opd::vector(op, d, gap, f) }
    }
    pub fn ops(self) -> (Vec<Op>, Vec<Op>, Vec<Op>) {
        match self {
            Shape::MM => (FACTORS.to_vec(), FACTORS.to_vec(), TARGETS.to_vec()),
            Shape::MV => (FACTORS.to_vec(), VECS.to_vec(), VECS.to_vec()),
            Shape::VM => (VECS.to_vec(), FACTORS.to_vec(), VECS.to_vec()),
        }
    }
    /// Dimensions of the operands for sizes m, k, n.
    pub fn dims(self, m: usize, k: usize, n: usize) -> [Dim; 3] {
        [(m, k), (k, n), (m, n)]
    }
    pub fn admits(self, m: usize, n: usize) -> bool {
        match self {
            Shape::MM => true,
            Shape::MV => n == 1,
            Shape::VM => m == 1,
        }
    }
}

type BM<T, L, D, R, C> = GenericBaseMatrix<T, L, D, R, C>;

/// Hands the factor to `$go`, which sees it as `$x`.
#[macro_export]
macro_rules! with_factor {
    ($T:ty, $o:expr, $x:ident, $go:expr) => {{
        let o: &Opd<$T> = $o;
        let d = o.dim;
        match o.op {
            Op::Row => { let $x = &BM::<$T, RowMajor, _, Dynamic, Dynamic>::from_data(SliceContainer::new(&*o.view()), RowMajor::new(d)); $go }
            Op::Col => { let $x = &BM::<$T, ColumnMajor, _, Dynamic, Dynamic>::from_data(SliceContainer::new(&*o.view()), ColumnMajor::new(d)); $go }
            Op::StrRow | Op::RowTall | Op::Broadcast | Op::EvenRow | Op::FlatRow => {
                let $x = &BM::<$T, ArbitraryStrideRowMajor, _, Dynamic, Dynamic>::from_data(SliceContainer::new(&*o.view()), ArbitraryStrideRowMajor::new(d, o.stride));
                $go
            }
            Op::StrCol | Op::ColWide | Op::EvenCol => {
                let $x = &BM::<$T, ArbitraryStrideColumnMajor, _, Dynamic, Dynamic>::from_data(SliceContainer::new(&*o.view()), ArbitraryStrideColumnMajor::new(d, o.stride));
                $go
            }
            Op::Own => { let back = Back(MatrixD::<$T, RowMajor>::from_data(own(o), RowMajor::new(d)), o); let $x = &back.0; $go }
            Op::Block | Op::Split => {
                let p = BM::<$T, RowMajor, _, Dynamic, Dynamic>::from_data(SliceContainer::new(&*o.view()), RowMajor::new(o.pdim));
                let $x = &p.block((o.off / o.pdim.1, o.off % o.pdim.1), d);
                $go
            }
            Op::Block2 => {
                let p = BM::<$T, ColumnMajor, _, Dynamic, Dynamic>::from_data(SliceContainer::new(&*o.view()), ColumnMajor::new(o.pdim));
                let q = p.block((1, 1), (d.0 + 2, d.1 + 2));
                let $x = &q.block((1, 0), d);
                $go
            }
        }
    }};
}
macro_rules! with_target {
    ($T:ty, $o:expr, $x:ident, $go:expr) => {{
        let o: &Opd<$T> = $o;
        let d = o.dim;
        macro_rules! sl { () => { SliceContainerMut::new(o.view()) }; }
        match o.op {
            Op::Row => { let $x = &mut BM::<$T, RowMajor, _, Dynamic, Dynamic>::from_data(sl!(), RowMajor::new(d)); $go }
            Op::Col => { let $x = &mut BM::<$T, ColumnMajor, _, Dynamic, Dynamic>::from_data(sl!(), ColumnMajor::new(d)); $go }
            Op::StrRow | Op::RowTall | Op::Broadcast | Op::EvenRow | Op::FlatRow => {
                let $x = &mut BM::<$T, ArbitraryStrideRowMajor, _, Dynamic, Dynamic>::from_data(sl!(), ArbitraryStrideRowMajor::new(d, o.stride));
                $go
            }
            Op::StrCol | Op::ColWide | Op::EvenCol => {
                let $x = &mut BM::<$T, ArbitraryStrideColumnMajor, _, Dynamic, Dynamic>::from_data(sl!(), ArbitraryStrideColumnMajor::new(d, o.stride));
                $go
            }
            Op::Own => {
                let mut back = Back(MatrixD::<$T, RowMajor>::from_data(own(o), RowMajor::new(d)), o);
                let $x = &mut back.0;
                $go
            }
            Op::Block => {
                let mut p = BM::<$T, RowMajor, _, Dynamic, Dynamic>::from_data(sl!(), RowMajor::new(o.pdim));
                let $x = &mut p.block_mut((o.off / o.pdim.1, o.off % o.pdim.1), d);
                $go
            }
            Op::Split => {
                let mut p = BM::<$T, RowMajor, _, Dynamic, Dynamic>::from_data(sl!(), RowMajor::new(o.pdim));
                let mut s = p.split_in_four_mut((1, 2));
                let $x = &mut s.3;
                $go
            }
            Op::Block2 => {
                let mut p = BM::<$T, ColumnMajor, _, Dynamic, Dynamic>::from_data(sl!(), ColumnMajor::new(o.pdim));
                let mut q = p.block_mut((1, 1), (d.0 + 2, d.1 + 2));
                let $x = &mut q.block_mut((1, 0), d);
                $go
            }
        }
    }};
}
macro_rules! with_vec {
    ($T:ty, $o:expr, $x:ident, $go:expr, $V:ident, $SV:ident, $SM:ident, $R:ident, $C:ident, $s:tt, $cont:ident, $($r:tt)*) => {{
        let o: &Opd<$T> = $o;
        let n = o.dim.0 * o.dim.1;
        match o.op {
            Op::Own => { let mut back = Back(BM::<$T, $V, VectorContainer<$T>, $R, $C>::from_data(own(o), $V::new(n)), o); let $x = $($r)* back.0; $go }
            Op::Row => { let $x = $($r)* BM::<$T, $V, _, $R, $C>::from_data($cont::new(o.view()), $V::new(n)); $go }
            Op::StrRow => { let $x = $($r)* BM::<$T, $SV, _, $R, $C>::from_data($cont::new(o.view()), $SV::new(n, o.stride.$s)); $go }
            _ => { let $x = $($r)* BM::<$T, $SM, _, $R, $C>::from_data($cont::new(o.view()), $SM::new(o.dim, o.stride)); $go }
        }
    }};
}
macro_rules! gemm {
    ($T:ty, $m:ident) => {
        mod $m {
            use super::*;
            type M<L, D> = BM<$T, L, D, Dynamic, Dynamic>;
            type V<L, D> = BM<$T, L, D, Dynamic, Fixed1>;
            type H<L, D> = BM<$T, L, D, Fixed1, Dynamic>;
            fn mm2<LA: StridedLayoutType, DA: DataContainer<Item = $T>>(al: $T, a: &M<LA, DA>, b: &Opd<$T>, be: $T, c: &Opd<$T>) {
                with_factor!($T, b, y, mm3(al, a, y, be, c))
            }
            fn mm3<LA: StridedLayoutType, DA: DataContainer<Item = $T>, LB: StridedLayoutType, DB: DataContainer<Item = $T>>(
                al: $T, a: &M<LA, DA>, b: &M<LB, DB>, be: $T, c: &Opd<$T>,
            ) {
                with_target!($T, c, z, <$T>::matmul(al, a, b, be, z))
            }
            fn mv2<LA: StridedLayoutType, DA: DataContainer<Item = $T>>(al: $T, a: &M<LA, DA>, b: &Opd<$T>, be: $T, c: &Opd<$T>) {
                with_vec!($T, b, y, mv3(al, a, y, be, c), ColumnVector, ArbitraryStrideColumnVector, ArbitraryStrideColumnMajor, Dynamic, Fixed1, 0, SliceContainerMut, &)
            }
            fn mv3<LA: StridedLayoutType, DA: DataContainer<Item = $T>, LB: StridedLayoutType, DB: DataContainer<Item = $T>>(
                al: $T, a: &M<LA, DA>, b: &V<LB, DB>, be: $T, c: &Opd<$T>,
            ) {
                with_vec!($T, c, z, <$T>::matmul(al, a, b, be, z), ColumnVector, ArbitraryStrideColumnVector, ArbitraryStrideColumnMajor, Dynamic, Fixed1, 0, SliceContainerMut, &mut)
            }
            fn vm2<LA: StridedLayoutType, DA: DataContainer<Item = $T>>(al: $T, a: &H<LA, DA>, b: &Opd<$T>, be: $T, c: &Opd<$T>) {
                with_factor!($T, b, y, vm3(al, a, y, be, c))
            }
            fn vm3<LA: StridedLayoutType, DA: DataContainer<Item = $T>, LB: StridedLayoutType, DB: DataContainer<Item = $T>>(
                al: $T, a: &H<LA, DA>, b: &M<LB, DB>, be: $T, c: &Opd<$T>,
            ) {
                with_vec!($T, c, z, <$T>::matmul(al, a, b, be, z), RowVector, ArbitraryStrideRowVector, ArbitraryStrideRowMajor, Fixed1, Dynamic, 1, SliceContainerMut, &mut)
            }
            impl Gemm for $T {
                fn mm(al: Self, a: &Opd<Self>, b: &Opd<Self>, be: Self, c: &Opd<Self>) {
                    with_factor!($T, a, x, mm2(al, x, b, be, c))
                }
                fn mm_self(al: Self, a: &Opd<Self>, be: Self, c: &Opd<Self>) {
                    with_factor!($T, a, x, mm3(al, x, x, be, c))
                }
                fn mv(al: Self, a: &Opd<Self>, b: &Opd<Self>, be: Self, c: &Opd<Self>) {
                    with_factor!($T, a, x, mv2(al, x, b, be, c))
                }
                fn vm(al: Self, a: &Opd<Self>, b: &Opd<Self>, be: Self, c: &Opd<Self>) {
                    with_vec!($T, a, x, vm2(al, x, b, be, c), RowVector, ArbitraryStrideRowVector, ArbitraryStrideRowMajor, Fixed1, Dynamic, 1, SliceContainerMut, &)
                }
            }
        }
    };
}
gemm!(f64, g64);
gemm!(f32, g32);
gemm!(c64, gc64);
gemm!(c32, gc32);

/// The mathematical value, computed exactly (all values used are small multiples of 1/4).
pub fn math<T: Sc>(alpha: T, a: &dyn Fn(usize) -> T, b: &dyn Fn(usize) -> T, k: usize, beta: T, c: T) -> T {
    let (mut re, mut im) = (0i128, 0i128);
    let fix = |x: T| {
        let p = x.parts();
        ((p.0 * 16.0) as i128, (p.1 * 16.0) as i128)
    };
    let mul = |x: (i128, i128), y: (i128, i128)| (x.0 * y.0 - x.1 * y.1, x.0 * y.1 + x.1 * y.0);
    for p in 0..k {
        let x = mul(fix(a(p)), fix(b(p)));
        re += x.0;
        im += x.1;
    }
    let x = mul(fix(alpha), (re, im));
    let y = mul(fix(beta), fix(c));
    let s = 4096.0;
    T::of((x.0 + 16 * y.0) as f64 / s, (x.1 + 16 * y.1) as f64 / s)
}
/// Equality of numbers: the sign of a zero is not determined by the mathematical value.
pub fn equal<T: Sc>(x: T, y: T) -> bool {
    let (p, q) = (x.parts(), y.parts());
    p.0 == q.0 && p.1 == q.1
}
/// Small values with which all sums of products below are exact.
pub fn val<T: Sc>(salt: usize, i: usize, j: usize) -> T {
    let h = hash_of(&(salt, i, j));
    T::of(((h % 31) as f64) - 15.0, (((h >> 20) % 31) as f64) - 15.0)
}
/// Everything in the buffers but the elements of the target is as before.
pub struct Frame<T: Sc> {
    before: [Vec<T>; 3],
}
impl<T: Sc> Frame<T> {
    pub fn new(ops: [&Opd<T>; 3]) -> Self {
        Frame { before: ops.map(|o| o.buf.snapshot()) }
    }
    pub fn check(&self, ops: [&Opd<T>; 3], target_too: bool) -> u64 {
        let mut n = 0;
        for (x, o) in ops.iter().enumerate() {
            let mut mine = vec![false; o.buf.len()];
            if x == 2 && !target_too && o.dim.1 > 0 {
                for i in 0..o.dim.0 {
                    for j in 0..o.dim.1 {
                        mine[o.raw(i, j)] = true;
                    }
                }
            }
            ensure!(o.buf.guards_ok(), "memory around the storage of operand {} was overwritten", x);
            for (q, v) in self.before[x].iter().enumerate() {
                ensure!(mine[q] || o.buf.at(q).same(*v), "location {} of operand {} ({:?} {:?}) changed from {:?} to {:?}", q, ["A", "B", "C"][x], o.op, o.dim, v, o.buf.at(q));
            }
            n += self.before[x].len() as u64;
        }
        n
    }
}

// The allocating product, which only exists for double precision.
mod dotting {
    use super::*;
    type M<L, D> = BM<f64, L, D, Dynamic, Dynamic>;
    type V<L, D> = BM<f64, L, D, Dynamic, Fixed1>;
    type H<L, D> = BM<f64, L, D, Fixed1, Dynamic>;
    type RM = BM<f64, RowMajor, VectorContainer<f64>, Dynamic, Dynamic>;
    type RV = BM<f64, ColumnVector, VectorContainer<f64>, Dynamic, Fixed1>;
    type RH = BM<f64, RowVector, VectorContainer<f64>, Fixed1, Dynamic>;
    fn mm<LA: StridedLayoutType, DA: DataContainer<Item = f64>>(a: &M<LA, DA>, b: &Opd<f64>) -> RM {
        with_factor!(f64, b, y, a.dot(y))
    }
    fn mv<LA: StridedLayoutType, DA: DataContainer<Item = f64>>(a: &M<LA, DA>, b: &Opd<f64>) -> RV {
        with_vec!(f64, b, y, a.dot(y), ColumnVector, ArbitraryStrideColumnVector, ArbitraryStrideColumnMajor, Dynamic, Fixed1, 0, SliceContainerMut, &)
    }
    fn vm<LA: StridedLayoutType, DA: DataContainer<Item = f64>>(a: &H<LA, DA>, b: &Opd<f64>) -> RH {
        with_factor!(f64, b, y, a.dot(y))
    }
    /// Both factors are one and the same object.
    pub fn dots_self(a: &Opd<f64>, f: &mut dyn FnMut(&mut dyn Obj<f64>)) {
        let mut r = with_factor!(f64, a, x, x.dot(x));
        f(&mut BaseObj(&mut r))
    }
    pub fn dots(shape: Shape, a: &Opd<f64>, b: &Opd<f64>, f: &mut dyn FnMut(&mut dyn Obj<f64>)) {
        match shape {
            Shape::MM => {
                let mut r = with_factor!(f64, a, x, mm(x, b));
                f(&mut BaseObj(&mut r))
            }
            Shape::MV => {
                let mut r = with_factor!(f64, a, x, mv(x, b));
                f(&mut BaseObj(&mut r))
            }
            Shape::VM => {
                let mut r = with_vec!(f64, a, x, vm(x, b), RowVector, ArbitraryStrideRowVector, ArbitraryStrideRowMajor, Fixed1, Dynamic, 1, SliceContainerMut, &);
                f(&mut BaseObj(&mut r))
            }
        }
    }
}
pub use dotting::{dots, dots_self};
