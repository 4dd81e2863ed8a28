//! Blocks of blocks, object-safe.
use crate::guard::*;
use crate::kinds::*;
use crate::refm::*;
use crate::scal::Sc;
use householder::*;
use std::rc::Rc;

pub trait Blk<T: Sc>: View<T> {
    fn blk(&self, tl: (usize, usize), d: (usize, usize), f: &mut dyn FnMut(&dyn Blk<T>));
    fn bslice(&self, a: usize, b: usize) -> &[T];
    fn bptr(&self) -> *const T;
    fn as_view(&self) -> &dyn View<T>;
    fn eval_(&self, f: &mut dyn FnMut(&dyn View<T>));
}
pub trait BlkMut<T: Sc>: Obj<T> {
    fn as_blk(&self) -> &dyn Blk<T>;
    fn blk_mut(&mut self, tl: (usize, usize), d: (usize, usize), f: &mut dyn FnMut(&mut dyn BlkMut<T>));
    fn as_obj(&mut self) -> &mut dyn Obj<T>;
    fn as_obj_ref(&self) -> &dyn Obj<T>;
    /// split_in_four_mut, where it exists
    fn split4(&mut self, _at: (usize, usize), _f: &mut dyn FnMut(&mut [&mut dyn BlkMut<T>; 4])) {
        unreachable!()
    }
}
macro_rules! blk {
    ($L:ident, $($split:tt)*) => {
        impl<T: Sc, D: DataContainer<Item = T>> Blk<T> for GenericBaseMatrix<T, $L, D, Dynamic, Dynamic> {
            fn blk(&self, tl: (usize, usize), d: (usize, usize), f: &mut dyn FnMut(&dyn Blk<T>)) {
                let b = self.block(tl, d);
                f(&b)
            }
            fn bslice(&self, a: usize, b: usize) -> &[T] {
                self.get_slice(a, b)
            }
            fn bptr(&self) -> *const T {
                self.get_pointer()
            }
            fn as_view(&self) -> &dyn View<T> {
                self
            }
            fn eval_(&self, f: &mut dyn FnMut(&dyn View<T>)) {
                f(&self.eval())
            }
        }
        impl<'a, T: Sc, D: DataContainerMut<Item = T>> BlkMut<T> for BaseObj<'a, T, $L, D, Dynamic, Dynamic> {
            fn as_blk(&self) -> &dyn Blk<T> {
                &*self.0
            }
            fn blk_mut(&mut self, tl: (usize, usize), d: (usize, usize), f: &mut dyn FnMut(&mut dyn BlkMut<T>)) {
                let mut b = self.0.block_mut(tl, d);
                f(&mut BaseObj(&mut b))
            }
            fn as_obj(&mut self) -> &mut dyn Obj<T> {
                self
            }
            fn as_obj_ref(&self) -> &dyn Obj<T> {
                self
            }
            $($split)*
        }
    };
}
blk!(RowMajor,
    fn split4(&mut self, at: (usize, usize), f: &mut dyn FnMut(&mut [&mut dyn BlkMut<T>; 4])) {
        let (mut a, mut b, mut c, mut d) = self.0.split_in_four_mut(at);
        let (mut a, mut b, mut c, mut d) = (BaseObj(&mut a), BaseObj(&mut b), BaseObj(&mut c), BaseObj(&mut d));
        f(&mut [&mut a, &mut b, &mut c, &mut d])
    }
);
blk!(ColumnMajor,);
blk!(ArbitraryStrideRowMajor,);
blk!(ArbitraryStrideColumnMajor,);

/// The block of an object, in the model.
pub fn block_of<T: Clone>(m: &Model<T>, tl: (usize, usize), d: (usize, usize)) -> Model<T> {
    let s = match m.lay.stride {
        Some(s) => s,
        None => match m.lay.order {
            Order::Row => (m.lay.dim.1, 1),
            Order::Col => (1, m.lay.dim.0),
            Order::Upper => unreachable!(),
        },
    };
    let lay = RefLayout::strided(m.lay.order, d, s);
    let base = if d.0 == 0 || d.1 == 0 { m.base } else { m.base + tl.0 * s.0 + tl.1 * s.1 };
    Model { lay, store: m.store.clone(), base, window: lay.span() as usize }
}
pub fn block_fits(dim: (usize, usize), tl: (usize, usize), d: (usize, usize)) -> bool {
    tl.0 as u128 + d.0 as u128 <= dim.0 as u128 && tl.1 as u128 + d.1 as u128 <= dim.1 as u128
}
/// All blocks inside of a matrix, empty ones included.
pub fn all_blocks(dim: (usize, usize)) -> Vec<((usize, usize), (usize, usize))> {
    let mut v = vec![];
    for r in 0..=dim.0 {
        for c in 0..=dim.1 {
            for p in 0..=dim.0 - r {
                for q in 0..=dim.1 - c {
                    v.push(((r, c), (p, q)));
                }
            }
        }
    }
    v
}
/// Parents that offer blocks: layout and storage.
pub fn block_parents(dim: (usize, usize), strides: &[(usize, usize)]) -> Vec<Kind> {
    let mut v = vec![];
    for lay in [Lay::RM, Lay::CM] {
        for st in [St::Owned, St::Slice(0), St::Mon(2), St::Ptr] {
            v.push(Kind { lay, dim, st });
        }
    }
    for &(r, c) in strides {
        for lay in [Lay::ASRM(r, c), Lay::ASCM(r, c)] {
            if r * c > 0 && !lay.reference(dim).overlapping() {
                for st in [St::Slice(3), St::Mon(0), St::Ptr] {
                    v.push(Kind { lay, dim, st });
                }
            }
        }
    }
    v
}
/// As `with_kind`, for kinds that offer blocks.
pub fn with_parent<T: Sc>(k: &Kind, init: &dyn Fn(usize) -> T, f: &mut dyn FnMut(&mut dyn BlkMut<T>, &mut Model<T>)) {
    let lay = k.lay.reference(k.dim);
    let extra = match k.st {
        St::Slice(e) | St::Mon(e) => e,
        _ => 0,
    };
    let len = lay.span() as usize + extra;
    let buf = Rc::new(GuardBuf::new(len, init));
    let mut model = Model { lay, store: buf.snapshot(), base: 0, window: len };
    macro_rules! go {
        ($L:ident, $mk:expr $(, $s:expr)?) => {
            match k.st {
                St::Owned => {
                    let mut m = GenericBaseMatrixMut::<T, $L, VectorContainer<T>, Dynamic, Dynamic>::from_data(VectorContainer::new(len), $mk);
                    for q in 0..len {
                        m.get_slice_mut(q, q + 1)[0] = init(q);
                    }
                    f(&mut BaseObj(&mut m), &mut model);
                    check_obj(&BaseObj(&mut m), &model, "after release");
                    for q in 0..len {
                        buf.set(q, model.store[q]);
                    }
                }
                St::Slice(_) => {
                    let mut m = GenericBaseMatrixMut::<T, $L, SliceContainerMut<T>, Dynamic, Dynamic>::from_data(SliceContainerMut::new(unsafe { buf.view() }), $mk);
                    f(&mut BaseObj(&mut m), &mut model);
                    check_obj(&BaseObj(&mut m), &model, "after release");
                }
                St::Mon(_) => {
                    let c = MonContainer::new(buf.clone(), MonLog::new(len));
                    let mut m = GenericBaseMatrixMut::<T, $L, MonContainer<T>, Dynamic, Dynamic>::from_data(c, $mk);
                    f(&mut BaseObj(&mut m), &mut model);
                    check_obj(&BaseObj(&mut m), &model, "after release");
                }
                St::Ptr => {
                    let mut m = unsafe { SliceMatrixMut::<T, $L, Dynamic, Dynamic>::from_pointer(buf.ptr(), k.dim $(, $s)?) };
                    f(&mut BaseObj(&mut m), &mut model);
                    check_obj(&BaseObj(&mut m), &model, "after release");
                }
                _ => unreachable!(),
            }
        };
    }
    match k.lay {
        Lay::RM => go!(RowMajor, RowMajor::new(k.dim)),
        Lay::CM => go!(ColumnMajor, ColumnMajor::new(k.dim)),
        Lay::ASRM(r, c) => go!(ArbitraryStrideRowMajor, ArbitraryStrideRowMajor::new(k.dim, (r, c)), (r, c)),
        Lay::ASCM(r, c) => go!(ArbitraryStrideColumnMajor, ArbitraryStrideColumnMajor::new(k.dim, (r, c)), (r, c)),
        _ => unreachable!(),
    }
    finish(&buf, &model);
}
/// Requests that are far outside of any matrix, some of which wrap around when added up.
pub fn far_values(d: usize) -> Vec<usize> {
    let mut v = vec![0, 1, d, d + 1, d + 2, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 62, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, usize::MAX, usize::MAX - 1];
    for k in 0..=d + 1 {
        v.push(usize::MAX - k);
        v.push((1usize << 63) + k);
    }
    v.sort();
    v.dedup();
    v
}
/// Requests (row, column, height, width) built from far values.
pub fn far_requests(d: (usize, usize), all: bool) -> Vec<(usize, usize, usize, usize)> {
    let (rs, cs) = (far_values(d.0), far_values(d.1));
    let mut v = vec![];
    if all {
        for &r in &rs {
            for &h in &rs {
                for &c in &cs {
                    for &w in &cs {
                        v.push((r, c, h, w));
                    }
                }
            }
        }
        return v;
    }
    let few = |d: usize| [(0, d), (d, 0), (1, d), (0, 0), (0, usize::MAX), (usize::MAX, 1), (1 << 63, 1 << 63)];
    for &r in &rs {
        for &h in &rs {
            for (c, w) in few(d.1) {
                v.push((r, c, h, w));
            }
        }
    }
    for &c in &cs {
        for &w in &cs {
            for (r, h) in few(d.0) {
                v.push((r, c, h, w));
            }
        }
    }
    v
}
