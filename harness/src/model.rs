//! The row-of-rows reference matrix and the coherence relation of C01.
use crate::elem::Elem;
use crate::sup::{Fail, Res};
use crate::{bail, ensure};
use matreex::{Error, Matrix, Order};

pub type V = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ord_ {
    R,
    C,
}
pub const ORDERS: [Ord_; 2] = [Ord_::R, Ord_::C];

impl Ord_ {
    pub fn real(self) -> Order {
        match self {
            Ord_::R => Order::RowMajor,
            Ord_::C => Order::ColMajor,
        }
    }
    pub fn of(o: Order) -> Self {
        match o {
            Order::RowMajor => Ord_::R,
            Order::ColMajor => Ord_::C,
        }
    }
    pub fn flip(self) -> Self {
        match self {
            Ord_::R => Ord_::C,
            Ord_::C => Ord_::R,
        }
    }
}

/// Logical contents as rows of rows, plus the storage order tag.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct M {
    pub order: Ord_,
    pub nr: usize,
    pub nc: usize,
    pub rows: Vec<Vec<V>>,
}

impl M {
    pub fn new(order: Ord_, nr: usize, nc: usize, f: impl Fn(usize, usize) -> V) -> M {
        M { order, nr, nc, rows: (0..nr).map(|r| (0..nc).map(|c| f(r, c)).collect()).collect() }
    }
    /// Distinct values base+1, base+2, ... in row-by-row order.
    pub fn numbered(order: Ord_, nr: usize, nc: usize, base: u32) -> M {
        M::new(order, nr, nc, |r, c| base + (r * nc + c) as u32 + 1)
    }
    pub fn size(&self) -> usize {
        self.nr * self.nc
    }
    pub fn norm<E: Elem>(mut self) -> M {
        for r in &mut self.rows {
            for v in r {
                *v = E::norm(*v);
            }
        }
        self
    }
    /// The memory-order sequence of positions.
    pub fn positions(&self) -> Vec<(usize, usize)> {
        positions(self.order, self.nr, self.nc)
    }
    pub fn seq(&self) -> Vec<V> {
        self.positions().into_iter().map(|(r, c)| self.rows[r][c]).collect()
    }
    pub fn from_seq(order: Ord_, nr: usize, nc: usize, seq: &[V]) -> M {
        assert_eq!(seq.len(), nr * nc);
        let mut m = M::new(order, nr, nc, |_, _| 0);
        for (k, (r, c)) in positions(order, nr, nc).into_iter().enumerate() {
            m.rows[r][c] = seq[k];
        }
        m
    }
    pub fn transposed(&self) -> M {
        M::new(self.order, self.nc, self.nr, |r, c| self.rows[c][r])
    }
    pub fn map(&self, f: impl Fn(V) -> V) -> M {
        M::new(self.order, self.nr, self.nc, |r, c| f(self.rows[r][c]))
    }
    pub fn same_contents(&self, o: &M) -> bool {
        self.nr == o.nr && self.nc == o.nc && self.rows == o.rows
    }
    pub fn short(&self) -> String {
        format!("{:?}{}x{}", self.order, self.nr, self.nc)
    }
    /// Build the real matrix with these contents, through safe constructors.
    pub fn build<E: Elem>(&self) -> Matrix<E> {
        let mut m = Matrix::with_initializer((self.nr, self.nc), |i| E::make(self.rows[i.row][i.col])).expect("build");
        m.set_order(self.order.real());
        m
    }
}

pub fn positions(order: Ord_, nr: usize, nc: usize) -> Vec<(usize, usize)> {
    if nr == 0 || nc == 0 {
        return vec![];
    }
    match order {
        Ord_::R => (0..nr).flat_map(|r| (0..nc).map(move |c| (r, c))).collect(),
        Ord_::C => (0..nc).flat_map(|c| (0..nr).map(move |r| (r, c))).collect(),
    }
}

/// Coherence of C01, independent of expected contents: shape vs. store,
/// every in-bounds position its own element, everything else out of bounds.
pub fn coherent<E>(m: &Matrix<E>) -> Res {
    let (nr, nc) = (m.nrows(), m.ncols());
    ensure!(m.shape().nrows() == nr && m.shape().ncols() == nc, "shape() disagrees with nrows()/ncols()");
    let Some(p) = nr.checked_mul(nc) else { bail!("nrows*ncols overflows: {nr}x{nc}") };
    ensure!(p == m.size(), "nrows*ncols = {nr}*{nc} != size() = {}", m.size());
    ensure!(m.is_empty() == (p == 0), "is_empty() wrong for {nr}x{nc}");
    ensure!(m.capacity() >= m.size(), "capacity() < size()");
    if size_of::<E>() > 0 || p <= 4096 {
        let base = m.iter_elements().next().map_or(0, |e| e as *const E as usize);
        let mut n = 0;
        let o = Ord_::of(m.order());
        let pos = positions(o, nr, nc);
        for (k, e) in m.iter_elements().enumerate() {
            n += 1;
            ensure!(k < p, "iter_elements() yields more than size() elements");
            let a = e as *const E as usize;
            ensure!(a == base + k * size_of::<E>(), "memory-order element {k} is not contiguous");
            ensure!(a % align_of::<E>() == 0, "misaligned element");
            let (r, c) = pos[k];
            match m.get((r, c)) {
                Err(e) => bail!("get(({r}, {c})) = {e:?} in bounds of {nr}x{nc}"),
                Ok(x) => ensure!(x as *const E as usize == a, "get(({r}, {c})) is not memory-order element {k} ({o:?}-major {nr}x{nc})"),
            }
        }
        ensure!(n == p, "iter_elements() yields {n} of {p} elements");
    }
    for (r, c) in [(nr, 0), (0, nc), (nr, nc), (usize::MAX, 0), (0, usize::MAX)] {
        if r >= nr || c >= nc {
            ensure!(m.get((r, c)).err() == Some(Error::IndexOutOfBounds), "get(({r}, {c})) not out of bounds of {nr}x{nc}");
        }
    }
    Ok(())
}

/// Coherent and exactly the reference contents.
pub fn agree<E: Elem>(m: &Matrix<E>, x: &M) -> Res {
    coherent(m)?;
    ensure!(
        m.nrows() == x.nr && m.ncols() == x.nc,
        "shape is {}x{}, reference says {}x{}",
        m.nrows(),
        m.ncols(),
        x.nr,
        x.nc
    );
    ensure!(Ord_::of(m.order()) == x.order, "order is {:?}, reference says {:?}", m.order(), x.order);
    for r in 0..x.nr {
        for c in 0..x.nc {
            let v = m[(r, c)].val();
            ensure!(v == x.rows[r][c], "element ({r}, {c}) is {v}, reference says {} ({})", x.rows[r][c], x.short());
        }
    }
    crate::elem::error().map_err(Fail::from)
}

pub fn contents<E: Elem>(m: &Matrix<E>) -> Result<M, Fail> {
    coherent(m)?;
    Ok(M::new(Ord_::of(m.order()), m.nrows(), m.ncols(), |r, c| m[(r, c)].val()))
}
pub fn ids<E: Elem>(m: &Matrix<E>) -> Vec<Vec<u64>> {
    (0..m.nrows()).map(|r| (0..m.ncols()).map(|c| m[(r, c)].id()).collect()).collect()
}

/// All (order, rows, cols) with dims in 0..=max.
pub fn shapes(max: usize) -> Vec<(Ord_, usize, usize)> {
    let mut v = vec![];
    for s in 0..=2 * max {
        for r in 0..=max.min(s) {
            let c = s - r;
            if c <= max {
                for o in ORDERS {
                    v.push((o, r, c));
                }
            }
        }
    }
    v
}

/// Long and lopsided shapes: places where an implementation might switch to
/// another algorithm or a narrower integer.
pub const BIG: [(usize, usize); 24] = [
    (1, 300),
    (300, 1),
    (2, 150),
    (150, 2),
    (3, 128),
    (128, 3),
    (5, 257),
    (257, 5),
    (16, 16),
    (17, 33),
    (33, 17),
    (32, 32),
    (31, 32),
    (64, 64),
    (64, 65),
    (65, 64),
    (100, 101),
    (128, 128),
    (1, 4097),
    (4097, 1),
    (2, 1025),
    (1025, 2),
    (256, 257),
    (257, 256),
];

/// Very long shapes.
pub const HUGE: [(usize, usize); 6] = [(301, 401), (401, 300), (1, 131_075), (131_075, 1), (1025, 1031), (3, 400_003)];

/// Every shape up to `n` squared that no smaller enumeration (up to `from`)
/// has visited.
pub fn sweep(from: usize, n: usize) -> Vec<(usize, usize)> {
    (0..=n).flat_map(|r| (0..=n).map(move |c| (r, c))).filter(|&(r, c)| r > from || c > from).collect()
}
