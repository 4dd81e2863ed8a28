//! Reference model of the storage layouts, written from the documentation only.
//!
//! Positions are computed in 128-bit arithmetic, so that the model itself cannot wrap.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Order {
    /// row by row
    Row,
    /// column by column
    Col,
    /// last row to first, left to right inside a row, diagonal and above only
    Upper,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct RefLayout {
    pub order: Order,
    pub dim: (usize, usize),
    /// storage distance between rows / columns; None: packed in logical order
    pub stride: Option<(usize, usize)>,
}

impl RefLayout {
    pub fn packed(order: Order, dim: (usize, usize)) -> Self {
        RefLayout { order, dim, stride: None }
    }
    pub fn strided(order: Order, dim: (usize, usize), stride: (usize, usize)) -> Self {
        RefLayout { order, dim, stride: Some(stride) }
    }
    pub fn n(&self) -> u128 {
        let (m, n) = (self.dim.0 as u128, self.dim.1 as u128);
        match self.order {
            Order::Upper => m * (m + 1) / 2,
            _ => m * n,
        }
    }
    pub fn len(&self) -> usize {
        self.n() as usize
    }
    pub fn contains(&self, i: usize, j: usize) -> bool {
        i < self.dim.0 && j < self.dim.1 && (self.order != Order::Upper || j >= i)
    }
    /// one-dimensional position -> (row, column)
    pub fn pos(&self, k: usize) -> (usize, usize) {
        match self.order {
            Order::Row => (k / self.dim.1, k % self.dim.1),
            Order::Col => (k % self.dim.0, k / self.dim.0),
            Order::Upper => {
                // the p last rows hold p (p + 1) / 2 elements
                let k = k as u128;
                let (mut lo, mut hi) = (0u128, self.dim.0 as u128);
                while hi - lo > 1 {
                    let mid = (lo + hi) / 2;
                    if mid * (mid + 1) / 2 <= k {
                        lo = mid
                    } else {
                        hi = mid
                    }
                }
                let row = self.dim.0 as u128 - 1 - lo;
                (row as usize, (row + (k - lo * (lo + 1) / 2)) as usize)
            }
        }
    }
    /// (row, column) -> one-dimensional position
    pub fn idx(&self, i: usize, j: usize) -> u128 {
        let (i, j, m, n) = (i as u128, j as u128, self.dim.0 as u128, self.dim.1 as u128);
        match self.order {
            Order::Row => i * n + j,
            Order::Col => j * m + i,
            Order::Upper => {
                let below = m - 1 - i;
                below * (below + 1) / 2 + (j - i)
            }
        }
    }
    /// (row, column) -> storage location
    pub fn raw(&self, i: usize, j: usize) -> u128 {
        match self.stride {
            None => self.idx(i, j),
            Some((r, c)) => i as u128 * r as u128 + j as u128 * c as u128,
        }
    }
    pub fn raw1(&self, k: usize) -> usize {
        let (i, j) = self.pos(k);
        self.raw(i, j) as usize
    }
    /// number of storage locations from location 0 to the last element, inclusive
    pub fn span(&self) -> u128 {
        if self.n() == 0 {
            return 0;
        }
        match self.stride {
            None => self.n(),
            Some(_) => self.raw(self.dim.0 - 1, self.dim.1 - 1) + 1,
        }
    }
    /// true if two different elements share a location
    pub fn overlapping(&self) -> bool {
        match self.stride {
            None => false,
            Some((r, c)) if self.n() > 10_000 && (c > 0 && r / c >= self.dim.1 || r > 0 && c / r >= self.dim.0) => false,
            Some(_) => {
                let mut s = std::collections::HashSet::new();
                (0..self.len()).any(|k| !s.insert(self.raw1(k)))
            }
        }
    }
    pub fn positions(&self) -> Vec<(usize, usize)> {
        (0..self.len()).map(|k| self.pos(k)).collect()
    }
}

/// Reference model of an object: its layout, the storage behind it (a superset of its elements) and
/// where location 0 of the object lies in that storage.
#[derive(Clone)]
pub struct Model<T> {
    pub lay: RefLayout,
    pub store: Vec<T>,
    pub base: usize,
    /// number of locations the object's container exposes
    pub window: usize,
}
impl<T: Copy> Model<T> {
    pub fn at(&self, k: usize) -> T {
        self.store[self.base + self.lay.raw1(k)]
    }
    pub fn at2(&self, i: usize, j: usize) -> T {
        self.store[self.base + self.lay.raw(i, j) as usize]
    }
    pub fn set(&mut self, k: usize, v: T) {
        let r = self.base + self.lay.raw1(k);
        self.store[r] = v
    }
    pub fn values(&self) -> Vec<T> {
        (0..self.lay.len()).map(|k| self.at(k)).collect()
    }
}
