#![allow(unused, dead_code)]
//! C09: sums and scalar products evaluate elementwise to plain arithmetic.
use householder::types::{c32, c64};
use householder::*;
use mc::*;

type Elem<'a, T> = &'a dyn Fn(usize, usize) -> T;

/// Storage for a layout; locations that are no element hold a value that would be noticed.
fn buf<T: Sc>(lay: RefLayout, f: Elem<T>) -> Vec<T> {
    let mut v = vec![T::of(1e30, 1e29); lay.span() as usize + 1];
    for k in 0..lay.len() {
        let (i, j) = lay.pos(k);
        v[lay.raw1(k)] = f(i, j);
    }
    v
}
fn check<T: Sc>(run: &mut Run, v: &dyn View<T>, lay: RefLayout, want: &[T], what: &str) {
    let m = Model { lay: RefLayout::packed(lay.order, lay.dim), store: want.to_vec(), base: 0, window: want.len() };
    let e = check_view(v, &m, what);
    for k in 0..want.len() {
        let p = lay.pos(k);
        ensure!(v.v_12(k) == p && v.v_21(p.0, p.1) == k, "{}: numbering at {}", what, k);
        ensure!(v.v_ix12(k) == p && v.v_ix21(p.0, p.1) == k, "{}: numbering of the index layout at {}", what, k);
    }
    ensure!(v.v_ix() == (lay.dim, want.len()), "{}: index layout {:?}", what, v.v_ix());
    run.eval(e + want.len() as u64);
    run.transition();
}
fn fill<T: Sc, L: LayoutType, D: DataContainerMut<Item = T>, R: SizeIdentifier, C: SizeIdentifier>(
    mut m: GenericBaseMatrixMut<T, L, D, R, C>, lay: RefLayout, f: Elem<T>,
) -> GenericBaseMatrixMut<T, L, D, R, C> {
    for k in 0..lay.len() {
        let (i, j) = lay.pos(k);
        *m.get_mut(i, j) = f(i, j);
    }
    m
}

/// Scalars and element values to try.
fn alphabet<T: Sc>(n: usize) -> Vec<T> {
    let f32_ = std::mem::size_of::<T>() == 4 || (T::COMPLEX && std::mem::size_of::<T>() == 8);
    let (max, minp, sub, eps) = if f32_ {
        (f32::MAX as f64, f32::MIN_POSITIVE as f64, 1e-45f32 as f64, f32::EPSILON as f64)
    } else {
        (f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::EPSILON)
    };
    let r = [0.0, -3.0, f64::NAN, -0.0, 1.0 + eps, f64::INFINITY, max, -1.0, 1.0, 2.5, f64::NEG_INFINITY, 0.1, minp, sub, 1.0 / eps, -max, 1e-7, -7.0 * sub];
    if !T::COMPLEX {
        return r[..n.min(r.len())].iter().map(|&x| T::of(x, 0.0)).collect();
    }
    // the units, then pairs along diagonals, so that a prefix already mixes components
    let mut v = vec![(1.0, 0.0), (-1.0, 0.0), (0.0, 1.0)];
    for d in 0..r.len() {
        for i in 0..=d {
            v.push((r[i], r[d - i]));
        }
    }
    v[..n.min(v.len())].iter().map(|&(a, b)| T::of(a, b)).collect()
}
/// Scalars to multiply with: those an implementation may treat specially, then the rest.
fn scalars<T: Sc>(n: usize) -> Vec<T> {
    let mut v: Vec<T> = [(0.0, 0.0), (1.0, 0.0), (-1.0, 0.0), (2.0, 0.0), (-0.0, -0.0), (0.5, 0.0), (0.0, 1.0), (0.0, -1.0)].iter().map(|&(a, b)| T::of(a, b)).collect();
    v.extend(alphabet::<T>(n));
    let mut seen = vec![];
    v.retain(|x| !seen.contains(&x.bits()) && { seen.push(x.bits()); true });
    v
}

mod t1 {
    use super::*;
    type T = f64;
    macro_rules! wide { ($($x:tt)*) => { $($x)* }; }
    include!("../forms_body.rs");
}
/// The other scalar types: the same forms over fewer storage combinations (the code is generic there).
macro_rules! wide {
    ($($x:tt)*) => {};
}
mod t2 {
    use super::*;
    type T = c64;
    include!("../forms_body.rs");
}
mod t3 {
    use super::*;
    type T = f32;
    include!("../forms_body.rs");
}
mod t4 {
    use super::*;
    type T = c32;
    include!("../forms_body.rs");
}
mod all_trees {
    include!("../tree_walk.rs");
}
fn main() {
    let mut cx = Cx::from_args();
    t1::explore(&mut cx);
    t2::explore(&mut cx);
    t3::explore(&mut cx);
    t4::explore(&mut cx);
    all_trees::explore(&mut cx, true);
    cx.finish();
}
