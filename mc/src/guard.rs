//! Storage with red zones, and a recording storage container that plugs into the real matrices.
use crate::scal::Sc;
use householder::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

const RZ: usize = 48;

/// `len` elements of payload between red zones of sentinel values.
pub struct GuardBuf<T: Sc> {
    base: *mut T,
    len: usize,
}
impl<T: Sc> GuardBuf<T> {
    pub fn new(len: usize, init: impl Fn(usize) -> T) -> Self {
        let mut v = Vec::with_capacity(len + 2 * RZ);
        for i in 0..len + 2 * RZ {
            v.push(if i >= RZ && i < RZ + len { init(i - RZ) } else { T::sentinel() });
        }
        GuardBuf { base: Box::into_raw(v.into_boxed_slice()) as *mut T, len }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn ptr(&self) -> *mut T {
        unsafe { self.base.add(RZ) }
    }
    /// The caller keeps views disjoint in time from other accesses.
    pub unsafe fn view<'a>(&self) -> &'a mut [T] {
        std::slice::from_raw_parts_mut(self.ptr(), self.len)
    }
    pub fn at(&self, i: usize) -> T {
        assert!(i < self.len);
        unsafe { *self.ptr().add(i) }
    }
    pub fn set(&self, i: usize, v: T) {
        assert!(i < self.len);
        unsafe { *self.ptr().add(i) = v }
    }
    pub fn snapshot(&self) -> Vec<T> {
        (0..self.len).map(|i| self.at(i)).collect()
    }
    pub fn guards_ok(&self) -> bool {
        (0..RZ).all(|i| unsafe {
            (*self.base.add(i)).same(T::sentinel())
                && (*self.base.add(RZ + self.len + i)).same(T::sentinel())
        })
    }
}
impl<T: Sc> Drop for GuardBuf<T> {
    fn drop(&mut self) {
        unsafe {
            drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(self.base, self.len + 2 * RZ)))
        }
    }
}

/// What the recording container saw.
pub struct MonLog {
    pub reads: RefCell<Vec<u32>>,
    pub muts: RefCell<Vec<u32>>,
    pub order: RefCell<Vec<usize>>,
    pub pointers: Cell<u32>,
}
impl MonLog {
    pub fn new(len: usize) -> Rc<MonLog> {
        Rc::new(MonLog {
            reads: RefCell::new(vec![0; len]),
            muts: RefCell::new(vec![0; len]),
            order: RefCell::new(Vec::new()),
            pointers: Cell::new(0),
        })
    }
    pub fn clear(&self) {
        self.reads.borrow_mut().iter_mut().for_each(|x| *x = 0);
        self.muts.borrow_mut().iter_mut().for_each(|x| *x = 0);
        self.order.borrow_mut().clear();
        self.pointers.set(0);
    }
    pub fn total(&self) -> u32 {
        self.reads.borrow().iter().sum::<u32>() + self.muts.borrow().iter().sum::<u32>()
    }
    pub fn untouched(&self) -> bool {
        self.total() == 0
    }
}

thread_local! {
    /// Log of the recording container built last by `with_kind`.
    pub static LAST_LOG: RefCell<Option<Rc<MonLog>>> = RefCell::new(None);
}

/// A client-supplied storage container. It refuses (as a violation) any location outside of the
/// storage and records every element access.
pub struct MonContainer<T: Sc> {
    buf: Rc<GuardBuf<T>>,
    log: Rc<MonLog>,
}
impl<T: Sc> MonContainer<T> {
    pub fn new(buf: Rc<GuardBuf<T>>, log: Rc<MonLog>) -> Self {
        MonContainer { buf, log }
    }
    pub fn fresh(len: usize, init: impl Fn(usize) -> T) -> (Self, Rc<GuardBuf<T>>, Rc<MonLog>) {
        let buf = Rc::new(GuardBuf::new(len, init));
        let log = MonLog::new(len);
        (MonContainer { buf: buf.clone(), log: log.clone() }, buf, log)
    }
    fn check(&self, index: usize) {
        if index >= self.buf.len() {
            crate::fail!("access to storage location {} of a container with {} elements", index, self.buf.len());
        }
    }
}
impl<T: Sc> DataContainer for MonContainer<T> {
    type Item = T;
    unsafe fn get_unchecked(&self, index: usize) -> T {
        self.check(index);
        self.log.reads.borrow_mut()[index] += 1;
        self.log.order.borrow_mut().push(index);
        self.buf.at(index)
    }
    fn get_pointer(&self) -> *const T {
        self.log.pointers.set(self.log.pointers.get() + 1);
        self.buf.ptr()
    }
    fn number_of_elements(&self) -> usize {
        self.buf.len()
    }
}
impl<T: Sc> DataContainerMut for MonContainer<T> {
    unsafe fn get_unchecked_mut(&mut self, index: usize) -> &mut T {
        self.check(index);
        self.log.muts.borrow_mut()[index] += 1;
        self.log.order.borrow_mut().push(index);
        &mut *self.buf.ptr().add(index)
    }
    fn get_pointer_mut(&mut self) -> *mut T {
        self.log.pointers.set(self.log.pointers.get() + 1);
        self.buf.ptr()
    }
}
