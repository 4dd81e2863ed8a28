//! C11: evaluation produces a faithful, independent copy in logical order.
use householder::types::{c32, c64};
use householder::matrix_ref::MatrixRefMut;
use householder::*;
use mc::*;

/// An owned matrix that came out of an evaluation.
trait Snap<T: Sc> {
    fn with(&mut self, f: &mut dyn FnMut(&mut dyn Obj<T>));
    fn again(&self) -> Box<dyn Snap<T>>;
}
impl<T: Sc, L: BaseLayoutType + LayoutType<IndexLayout = L> + 'static> Snap<T> for MatrixD<T, L> {
    fn with(&mut self, f: &mut dyn FnMut(&mut dyn Obj<T>)) {
        f(&mut BaseObj(self))
    }
    fn again(&self) -> Box<dyn Snap<T>> {
        Box::new(self.eval())
    }
}
/// What is evaluated: the first operand, an expression in both operands, or a block of either.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Src {
    A,
    Ref,
    RefMut,
    Scaled,
    Sum,
    Mixed,
    Block((usize, usize), (usize, usize)),
    BlockMut((usize, usize), (usize, usize)),
    Nested((usize, usize), (usize, usize)),
    SumOfBlocks((usize, usize), (usize, usize)),
}
use Src::*;
fn s1<T: Sc>() -> T {
    T::of(-2.0, 1.0)
}
fn s2<T: Sc>() -> T {
    T::of(0.5, -3.0)
}
/// Two operands over monitored memory.
trait World<T: Sc> {
    fn eval(&mut self, s: Src) -> Box<dyn Snap<T>>;
    fn operand(&mut self, which: usize, f: &mut dyn FnMut(&mut dyn Obj<T>));
}
struct Pair<A, B>(A, B);

macro_rules! world {
    ($T:ty, $A:ty, $B:ty, $($blocks:tt)*) => {
        impl World<$T> for Pair<$A, $B> {
            fn eval(&mut self, s: Src) -> Box<dyn Snap<$T>> {
                let (a, b) = (&mut self.0, &mut self.1);
                match s {
                    A => Box::new(a.eval()),
                    Ref => Box::new(Matrix::from_ref(&*a).eval()),
                    RefMut => Box::new(Matrix::new(MatrixRefMut::new(a)).eval()),
                    Scaled => Box::new((&*a * s1::<$T>()).eval()),
                    Sum => Box::new((&*a + &*b).eval()),
                    Mixed => Box::new(((&*a + &*b * s1::<$T>()) * s2::<$T>() + &*a).eval()),
                    _ => world!(blocks $T, a b s, $($blocks)*),
                }
            }
            fn operand(&mut self, which: usize, f: &mut dyn FnMut(&mut dyn Obj<$T>)) {
                if which == 0 { f(&mut BaseObj(&mut self.0)) } else { f(&mut BaseObj(&mut self.1)) }
            }
        }
    };
    (blocks $T:ty, $a:ident $b:ident $s:ident, none) => { unreachable!() };
    (blocks $T:ty, $a:ident $b:ident $s:ident, blocks) => {
        match $s {
            Block(o, d) => Box::new($a.block(o, d).eval()),
            BlockMut(o, d) => Box::new($a.block_mut(o, d).eval()),
            Nested(o, d) => {
                // a block of a block, whose inner corner is the last element
                let p = $a.block(o, d);
                Box::new(p.block((d.0 - 1, d.1 - 1), (1, 1)).eval())
            }
            SumOfBlocks(o, d) => {
                let (p, q) = ($a.block(o, d), $b.block(o, d));
                Box::new((&p * s1::<$T>() + q).eval())
            }
            _ => unreachable!(),
        }
    };
}
type Own<T, L> = GenericBaseMatrixMut<T, L, VectorContainer<T>, Dynamic, Dynamic>;
type Mon<T, L> = GenericBaseMatrixMut<T, L, MonContainer<T>, Dynamic, Dynamic>;

const WORLDS: [&str; 5] = ["row-major", "column-major", "strided row-major", "strided column-major", "triangular"];
macro_rules! own {
    ($T:ty, $L:ty, $l:expr, $m:expr) => {{
        let n = $m.store.len();
        let mut a = Own::<$T, $L>::from_data(VectorContainer::new(n), $l);
        if n > 0 {
            a.get_slice_mut(0, n).copy_from_slice(&$m.store);
        }
        a
    }};
}
macro_rules! mon {
    ($T:ty, $L:ty, $l:expr, $m:expr) => {{
        let (c, _, _) = MonContainer::<$T>::fresh($m.store.len(), |q| $m.store[q]);
        Mon::<$T, $L>::from_data(c, $l)
    }};
}
trait Worlds: Sc {
    fn world(w: usize, d: (usize, usize)) -> (Box<dyn World<Self>>, [Model<Self>; 2]);
}
macro_rules! worlds {
    ($T:ty) => {
        world!($T, Own<$T, RowMajor>, Mon<$T, ArbitraryStrideRowMajor>, blocks);
        world!($T, Own<$T, ColumnMajor>, Mon<$T, ArbitraryStrideColumnMajor>, blocks);
        world!($T, Mon<$T, ArbitraryStrideRowMajor>, Own<$T, RowMajor>, blocks);
        world!($T, Mon<$T, ArbitraryStrideColumnMajor>, Own<$T, ColumnMajor>, blocks);
        world!($T, Own<$T, UpperTriangular>, Mon<$T, UpperTriangular>, none);
        impl Worlds for $T {
            fn world(w: usize, d: (usize, usize)) -> (Box<dyn World<$T>>, [Model<$T>; 2]) {
                let odd = (d.0 + d.1) % 2;
                let (rs, cs) = ((2 * d.1 + odd, 2), (2, 2 * d.0 + 3 * odd));
                let order = [Order::Row, Order::Col, Order::Row, Order::Col, Order::Upper][w];
                let pk = RefLayout::packed(order, d);
                let st = match w {
                    4 => pk,
                    _ => RefLayout::strided(order, d, if order == Order::Row { rs } else { cs }),
                };
                let lays = if w == 2 || w == 3 { [st, pk] } else { [pk, st] };
                let models = [0, 1].map(|x| {
                    let n = lays[x].span() as usize;
                    Model { lay: lays[x], store: (0..n).map(|q| <$T>::tag(100 * x + q)).collect::<Vec<_>>(), base: 0, window: n }
                });
                let [a, b] = &models;
                let r: Box<dyn World<$T>> = match w {
                    0 => Box::new(Pair(own!($T, RowMajor, RowMajor::new(d), a), mon!($T, ArbitraryStrideRowMajor, ArbitraryStrideRowMajor::new(d, rs), b))),
                    1 => Box::new(Pair(own!($T, ColumnMajor, ColumnMajor::new(d), a), mon!($T, ArbitraryStrideColumnMajor, ArbitraryStrideColumnMajor::new(d, cs), b))),
                    2 => Box::new(Pair(mon!($T, ArbitraryStrideRowMajor, ArbitraryStrideRowMajor::new(d, rs), a), own!($T, RowMajor, RowMajor::new(d), b))),
                    3 => Box::new(Pair(mon!($T, ArbitraryStrideColumnMajor, ArbitraryStrideColumnMajor::new(d, cs), a), own!($T, ColumnMajor, ColumnMajor::new(d), b))),
                    _ => Box::new(Pair(own!($T, UpperTriangular, UpperTriangular::new(d.0), a), mon!($T, UpperTriangular, UpperTriangular::new(d.0), b))),
                };
                (r, models)
            }
        }
    };
}
worlds!(f32);
worlds!(f64);
worlds!(c32);
worlds!(c64);

/// What evaluating `s` must give.
fn expected<T: Sc>(m: &[Model<T>; 2], s: Src) -> Model<T> {
    let (a, b) = (&m[0], &m[1]);
    let (o, d) = match s {
        Block(o, d) | BlockMut(o, d) | SumOfBlocks(o, d) => (o, d),
        Nested(o, d) => ((o.0 + d.0 - 1, o.1 + d.1 - 1), (1, 1)),
        _ => ((0, 0), a.lay.dim),
    };
    let lay = RefLayout::packed(a.lay.order, d);
    let store: Vec<T> = lay.positions().iter().map(|&(i, j)| {
        let (x, y) = (a.at2(o.0 + i, o.1 + j), b.at2(o.0 + i, o.1 + j));
        match s {
            Scaled => x.mul_(s1()),
            Sum => x.add_(y),
            Mixed => x.add_(y.mul_(s1())).mul_(s2()).add_(x),
            SumOfBlocks(..) => x.mul_(s1()).add_(y),
            _ => x,
        }
    }).collect();
    let n = store.len();
    Model { lay, store, base: 0, window: n }
}
fn sources(w: usize, d: (usize, usize)) -> Vec<Src> {
    let mut v = vec![A, Ref, RefMut, Scaled, Sum, Mixed];
    if w < 4 {
        v.push(Block((d.0.min(1), 0), (d.0 - d.0.min(1), d.1)));
        v.push(BlockMut((0, d.1.min(1)), (d.0, d.1 - d.1.min(1))));
        v.push(SumOfBlocks((0, 0), (d.0, d.1 - d.1.min(1))));
        if d.0 > 0 && d.1 > 0 {
            v.push(Nested((0, 0), (d.0, d.1)));
        }
    }
    v
}

struct State<T: Worlds> {
    world: Box<dyn World<T>>,
    models: [Model<T>; 2],
    snaps: Vec<(Box<dyn Snap<T>>, Model<T>)>,
}
impl<T: Worlds> State<T> {
    fn new(w: usize, d: (usize, usize)) -> Self {
        let (world, models) = T::world(w, d);
        State { world, models, snaps: vec![] }
    }
    /// Everything observable is as the models say.
    fn check(&mut self, what: &str) -> u64 {
        let mut n = 0;
        for x in 0..2 {
            let m = &self.models[x];
            self.world.operand(x, &mut |o| n += check_obj(o, m, what));
        }
        for (s, m) in &mut self.snaps {
            s.with(&mut |o| n += check_obj(o, m, what));
        }
        n
    }
}
fn write<T: Sc>(o: &mut dyn Obj<T>, m: &mut Model<T>, k: usize, route: usize, v: T) {
    write_route(o, &m.lay, m.window, route, k, v);
    m.set(k, v);
}
#[derive(Clone, Copy, Debug)]
enum Op {
    WriteOperand(usize, usize),
    Eval(Src),
    EvalResult(usize),
    WriteResult(usize, usize),
    Drop(usize),
}
fn apply<T: Worlds>(st: &mut State<T>, op: Op, step: usize) {
    let v = T::tag(1000 + step);
    match op {
        Op::WriteOperand(x, k) => {
            let m = &mut st.models[x];
            st.world.operand(x, &mut |o| write(o, m, k, (step + k) % 8, v));
        }
        Op::Eval(s) => {
            let r = st.world.eval(s);
            st.snaps.push((r, expected(&st.models, s)));
        }
        Op::EvalResult(i) => {
            let r = st.snaps[i].0.again();
            let m = st.snaps[i].1.clone();
            st.snaps.push((r, m));
        }
        Op::WriteResult(i, k) => {
            let (s, m) = &mut st.snaps[i];
            s.with(&mut |o| write(o, m, k, (step + k + 3) % 8, v));
        }
        Op::Drop(i) => drop(st.snaps.remove(i)),
    }
}
fn ends(n: usize) -> Vec<usize> {
    match n {
        0 => vec![],
        1 => vec![0],
        _ => vec![0, n - 1],
    }
}
/// The operations possible after a history, whose results have these numbers of elements.
fn enabled(n: usize, srcs: &[Src], results: &[usize], max: usize) -> Vec<Op> {
    let mut v = vec![];
    for x in 0..2 {
        v.extend(ends(n).into_iter().map(|k| Op::WriteOperand(x, k)));
    }
    if results.len() < max {
        v.extend(srcs.iter().map(|&s| Op::Eval(s)));
        v.extend((0..results.len()).map(Op::EvalResult));
    }
    for (i, &r) in results.iter().enumerate() {
        v.extend(ends(r).into_iter().map(|k| Op::WriteResult(i, k)));
        v.push(Op::Drop(i));
    }
    v
}
/// All histories of the given length, each executed from scratch and compared at its end.
fn histories<T: Worlds>(run: &mut Run, w: usize, d: (usize, usize), depth: usize, max: usize, first: usize) {
    let n = if w == 4 { d.0 * (d.0 + 1) / 2 } else { d.0 * d.1 };
    let srcs = sources(w, d);
    let m0 = T::world(w, d).1;
    let sizes: Vec<usize> = srcs.iter().map(|&s| expected(&m0, s).store.len()).collect();
    let size = |s: Src| sizes[srcs.iter().position(|&x| x == s).unwrap()];
    let mut stack: Vec<(Vec<Op>, Vec<usize>)> = vec![(vec![], vec![])];
    while let Some((hist, results)) = stack.pop() {
        if !hist.is_empty() {
            let mut st = State::<T>::new(w, d);
            for (q, &op) in hist.iter().enumerate() {
                run.step(|| format!("{:?}", op));
                apply(&mut st, op, q);
            }
            let e = st.check("at the end of the history");
            run.eval(e);
            run.transition();
            run.trace();
            run.state(hash_of(&format!("{:?}", hist)));
        }
        if hist.len() == depth {
            continue;
        }
        for (x, op) in enabled(n, &srcs, &results, max).into_iter().enumerate() {
            if hist.is_empty() && x != first {
                continue;
            }
            let mut r = results.clone();
            match op {
                Op::Eval(s) => r.push(size(s)),
                Op::EvalResult(i) => r.push(r[i]),
                Op::Drop(i) => drop(r.remove(i)),
                _ => {}
            }
            let mut h = hist.clone();
            h.push(op);
            stack.push((h, r));
        }
    }
}
/// Evaluates, then overwrites everything on one side and looks at the other.
fn independent<T: Worlds>(run: &mut Run, w: usize, d: (usize, usize), s: Src) {
    for specials in [false, true] {
        let mut st = State::<T>::new(w, d);
        if specials {
            let vals = [T::of(f64::NAN, -0.0), T::of(-0.0, 0.0), T::of(f64::INFINITY, 1.0), T::of(0.0, f64::NEG_INFINITY), T::of(1e-30, 0.0)];
            for x in 0..2 {
                let m = &mut st.models[x];
                st.world.operand(x, &mut |o| (0..m.lay.len()).for_each(|k| write(o, m, k, k % 4, vals[(k + x) % 5])));
            }
        }
        for q in 0..2 {
            run.step(|| format!("evaluation {} of {:?}", q, s));
            apply(&mut st, Op::Eval(s), q);
            run.transition();
        }
        run.eval(st.check("after evaluating twice"));
        let (r, m) = &mut st.snaps[0];
        r.with(&mut |o| (0..m.lay.len()).for_each(|k| write(o, m, k, k % 6, T::tag(5000 + k))));
        run.eval(st.check("after overwriting the first result"));
        run.transition();
        for x in 0..2 {
            let m = &mut st.models[x];
            st.world.operand(x, &mut |o| (0..m.lay.len()).for_each(|k| write(o, m, k, (k + 1) % 6, T::tag(9000 + k))));
        }
        run.eval(st.check("after overwriting the operands"));
        run.transition();
        apply(&mut st, Op::Eval(s), 9);
        run.eval(st.check("after evaluating once more"));
        run.transition();
        st.world = T::world(w, (1.min(d.0), 1.min(d.0))).0;
        let (_, models) = T::world(w, (1.min(d.0), 1.min(d.0)));
        st.models = models;
        run.eval(st.check("after releasing the operands"));
        run.state(hash_of(&(w, d, format!("{:?}", s), specials)));
        run.trace();
    }
}
fn explore<T: Worlds>(cx: &mut Cx, full: bool, primary: bool) {
    let k = cx.pick(4, 8);
    let mut dims: Vec<(usize, usize)> = (0..=k).flat_map(|m| (0..=k).map(move |n| (m, n))).collect();
    dims.extend(if full { vec![(1, 300), (300, 1), (33, 65), (64, 64), (127, 3)] } else { vec![(1, 40), (40, 1), (17, 9), (16, 16)] });
    for w in 0..5 {
        for &d in &dims {
            if w == 4 && d.0 != d.1 {
                continue;
            }
            for s in sources(w, d) {
                cx.case("independence", || format!("{} {} {:?} {:?}", T::NAME, WORLDS[w], d, s), |run| independent::<T>(run, w, d, s));
            }
            // every block
            if w < 4 && d.0 <= 4 && d.1 <= 4 {
                for (o, b) in all_blocks(d) {
                    cx.case("blocks", || format!("{} {} {:?} block {:?} {:?}", T::NAME, WORLDS[w], d, o, b), |run| {
                        independent::<T>(run, w, d, Block(o, b));
                        independent::<T>(run, w, d, BlockMut(o, b));
                        independent::<T>(run, w, d, SumOfBlocks(o, b));
                        if b.0 > 0 && b.1 > 0 {
                            independent::<T>(run, w, d, Nested(o, b));
                        }
                    });
                }
            }
        }
        // beyond size thresholds
        let mut huge = match (w, primary) {
            (4, _) => vec![(363, 363)],
            (_, true) => vec![(1025, 1), (1, 1025), (1030, 64), (257, 300), (1, 70000), (70000, 1)],
            _ => vec![(1030, 64)],
        };
        if full && w < 4 {
            huge.extend([(64, 1030), (300, 257), (2, 40000), (40000, 2), (4097, 3)]);
        }
        for d in huge {
            let srcs = if w < 4 { vec![A, Mixed, Block((1, 0), (d.0 - 1, d.1)), BlockMut((0, 0), (d.0, d.1))] } else { vec![A, Mixed] };
            for s in srcs {
                cx.case("beyond size thresholds", || format!("{} {} {:?} {:?}", T::NAME, WORLDS[w], d, s), |run| independent::<T>(run, w, d, s));
            }
        }
        let hd: &[((usize, usize), usize)] = match (full, primary) {
            (false, true) => &[((2, 2), 4), ((1, 2), 3), ((3, 3), 3), ((0, 2), 2)],
            (false, false) => &[((2, 2), 3)],
            (true, true) => &[((2, 2), 5), ((1, 2), 4), ((3, 3), 4), ((0, 2), 4), ((2, 3), 4)],
            (true, false) => &[((2, 2), 4), ((2, 1), 4)],
        };
        for &(d, depth) in hd {
            if w == 4 && d.0 != d.1 {
                continue;
            }
            let n = if w == 4 { d.0 * (d.0 + 1) / 2 } else { d.0 * d.1 };
            for first in 0..enabled(n, &sources(w, d), &[], 2).len() {
                cx.case("histories", || format!("{} {} {:?} depth {} first operation {}", T::NAME, WORLDS[w], d, depth, first), |run| {
                    histories::<T>(run, w, d, depth, 2, first)
                });
            }
        }
    }
}
fn main() {
    let mut cx = Cx::from_args();
    let full = cx.thorough();
    explore::<f64>(&mut cx, full, true);
    explore::<c32>(&mut cx, full, false);
    explore::<f32>(&mut cx, full, false);
    explore::<c64>(&mut cx, full, false);
    cx.finish();
}
