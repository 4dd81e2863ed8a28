//! Object-safe view of a bare layout, and builders for every layout by every constructor.
use crate::kinds::Lay;
use householder::*;

pub trait LV {
    fn dim(&self) -> (usize, usize);
    fn n(&self) -> usize;
    fn t12(&self, k: usize) -> (usize, usize);
    fn t21(&self, i: usize, j: usize) -> usize;
    fn r1(&self, k: usize) -> usize;
    fn r2(&self, i: usize, j: usize) -> usize;
    fn stride(&self) -> (usize, usize);
    fn index(&self, f: &mut dyn FnMut(&dyn LV));
    fn index2(&self, f: &mut dyn FnMut(&dyn LV));
}
impl<L: LayoutType> LV for L {
    fn dim(&self) -> (usize, usize) {
        LayoutType::dim(self)
    }
    fn n(&self) -> usize {
        self.number_of_elements()
    }
    fn t12(&self, k: usize) -> (usize, usize) {
        self.convert_1d_2d(k)
    }
    fn t21(&self, i: usize, j: usize) -> usize {
        self.convert_2d_1d(i, j)
    }
    fn r1(&self, k: usize) -> usize {
        self.convert_1d_raw(k)
    }
    fn r2(&self, i: usize, j: usize) -> usize {
        self.convert_2d_raw(i, j)
    }
    fn stride(&self) -> (usize, usize) {
        LayoutType::stride(self)
    }
    fn index(&self, f: &mut dyn FnMut(&dyn LV)) {
        f(&self.index_layout())
    }
    fn index2(&self, f: &mut dyn FnMut(&dyn LV)) {
        f(&self.index_layout().index_layout())
    }
}

/// Ways to make a layout: new, from_dimension, from_length.
pub fn vias(lay: Lay) -> &'static [u8] {
    match lay {
        Lay::RM | Lay::CM | Lay::UP => &[0, 1],
        Lay::RV | Lay::CV => &[0, 1, 2],
        _ => &[0],
    }
}
pub fn with_lv<R>(lay: Lay, dim: (usize, usize), via: u8, f: impl FnOnce(&dyn LV) -> R) -> R {
    match (lay, via) {
        (Lay::RM, 0) => f(&RowMajor::new(dim)),
        (Lay::RM, _) => f(&RowMajor::from_dimension(dim)),
        (Lay::CM, 0) => f(&ColumnMajor::new(dim)),
        (Lay::CM, _) => f(&ColumnMajor::from_dimension(dim)),
        (Lay::UP, 0) => f(&UpperTriangular::new(dim.0)),
        (Lay::UP, _) => f(&UpperTriangular::from_dimension(dim)),
        (Lay::RV, 0) => f(&RowVector::new(dim.1)),
        (Lay::RV, 1) => f(&RowVector::from_dimension(dim)),
        (Lay::RV, _) => f(&RowVector::from_length(dim.1)),
        (Lay::CV, 0) => f(&ColumnVector::new(dim.0)),
        (Lay::CV, 1) => f(&ColumnVector::from_dimension(dim)),
        (Lay::CV, _) => f(&ColumnVector::from_length(dim.0)),
        (Lay::ASRM(r, c), _) => f(&ArbitraryStrideRowMajor::new(dim, (r, c))),
        (Lay::ASCM(r, c), _) => f(&ArbitraryStrideColumnMajor::new(dim, (r, c))),
        (Lay::ASRV(s), _) => f(&ArbitraryStrideRowVector::new(dim.1, s)),
        (Lay::ASCV(s), _) => f(&ArbitraryStrideColumnVector::new(dim.0, s)),
    }
}
/// All layouts for a dimension with the given strides.
pub fn lays_for(dim: (usize, usize), strides: &[(usize, usize)], vs: &[usize]) -> Vec<Lay> {
    let mut v: Vec<Lay> = vec![Lay::RM, Lay::CM, Lay::RV, Lay::CV, Lay::UP];
    for &(r, c) in strides {
        v.push(Lay::ASRM(r, c));
        v.push(Lay::ASCM(r, c));
    }
    for &s in vs {
        v.push(Lay::ASRV(s));
        v.push(Lay::ASCV(s));
    }
    v.retain(|l| l.admits(dim));
    v
}

/// Boundary dimensions and positions around the powers of two that matter for machine arithmetic.
pub fn big_values() -> Vec<usize> {
    let mut v = vec![1, 2, 3, 5];
    for e in [8u32, 15, 16, 24, 26, 27, 31, 32, 33, 40, 52, 53, 54, 62] {
        let p = 1usize << e;
        v.extend([p - 1, p, p + 1]);
    }
    v.push((1 << 63) - 1);
    v
}
/// Positions worth visiting in 0..n for an m x n object: ends, row and column boundaries, powers of two.
pub fn probe_positions(lay: &crate::refm::RefLayout) -> Vec<usize> {
    use crate::refm::Order;
    let n = lay.n();
    let mut v: Vec<u128> = vec![];
    let near = |v: &mut Vec<u128>, x: u128| {
        for d in 0..=2u128 {
            v.push(x.wrapping_sub(d));
            v.push(x.wrapping_add(d));
        }
    };
    near(&mut v, 0);
    near(&mut v, n);
    near(&mut v, n / 2);
    for e in 0..64 {
        near(&mut v, 1u128 << e);
    }
    match lay.order {
        Order::Upper => {
            let d = lay.dim.0 as u128;
            let mut ps: Vec<u128> = vec![];
            for e in 0..33 {
                for x in [(1u128 << e), (1u128 << e) - 1, (1u128 << e) + 1, d.wrapping_sub(1u128 << e), 3u128 << e >> 1, d >> e] {
                    ps.push(x);
                }
            }
            for p in ps {
                if p < d {
                    near(&mut v, p * (p + 1) / 2);
                }
            }
        }
        _ => {
            let w = if lay.order == Order::Row { lay.dim.1 } else { lay.dim.0 } as u128;
            for q in [1u128, 2, 3, 255, 256, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32] {
                near(&mut v, q * w);
            }
            if w > 0 {
                near(&mut v, (n / w).wrapping_sub(1).wrapping_mul(w));
                near(&mut v, n / w / 2 * w);
            }
        }
    }
    v.retain(|&x| x < n && x < u64::MAX as u128);
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x as usize).collect()
}
