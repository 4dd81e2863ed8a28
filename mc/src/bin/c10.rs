//! C10: expressions are lazy and are evaluated in a single pass.
#![allow(unused, dead_code)]
use householder::types::{c32, c64};
use householder::*;
use mc::*;
use std::cell::Cell;
use std::rc::Rc;

struct Allocs(u64, u64, u64);
impl Allocs {
    fn start() -> Self {
        let a = mc::alloc::counters();
        Allocs(a.0, a.1, 0)
    }
    fn end(&self) -> (u64, u64, u64) {
        let a = mc::alloc::counters();
        (a.0 - self.0, a.1 - self.1, 0)
    }
}
/// The values of an evaluated expression in one-dimensional order, and what evaluating allocated.
struct Evaluated<T> {
    values: Vec<T>,
    allocs: (u64, u64, u64),
}
/// To be called right after the evaluation.
fn probe_values<T: Sc>(r: &dyn View<T>) -> Vec<T> {
    (0..r.v_n()).map(|k| r.v_get1(k)).collect()
}
mod t1 {
    use super::*;
    type T = f64;
    macro_rules! wide { ($($x:tt)*) => { $($x)* }; }
    include!("../lazy_body.rs");
}
/// The other scalar types: fewer storage combinations (the code is generic there).
macro_rules! wide {
    ($($x:tt)*) => {};
}
mod t2 {
    use super::*;
    type T = c64;
    include!("../lazy_body.rs");
}
mod t3 {
    use super::*;
    type T = f32;
    include!("../lazy_body.rs");
}
mod t4 {
    use super::*;
    type T = c32;
    include!("../lazy_body.rs");
}
mod all_trees {
    include!("../tree_walk.rs");
}
fn main() {
    let mut cx = Cx::from_args();
    t1::explore(&mut cx);
    t2::explore(&mut cx);
    t3::explore(&mut cx);
    t4::explore(&mut cx);
    all_trees::explore(&mut cx, false);
    cx.finish();
}
