//! Conversion between the library's index types and plain vectors.
use aegir::buffers::shapes::Ix;

pub trait IxVec: Ix {
    fn to_vec(&self) -> Vec<usize>;
    fn of(xs: &[usize]) -> Self;
}

impl IxVec for () {
    fn to_vec(&self) -> Vec<usize> { vec![] }
    fn of(_: &[usize]) -> Self {}
}

impl IxVec for usize {
    fn to_vec(&self) -> Vec<usize> { vec![*self] }
    fn of(xs: &[usize]) -> Self { xs[0] }
}

impl<const D: usize> IxVec for [usize; D] {
    fn to_vec(&self) -> Vec<usize> { self[..].to_vec() }
    fn of(xs: &[usize]) -> Self {
        let mut out = [0; D];
        out.copy_from_slice(xs);
        out
    }
}

/// All indices of a box in row-major order (the reference enumeration).
pub fn row_major(dims: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for &d in dims {
        out = out
            .into_iter()
            .flat_map(|p| {
                (0..d).map(move |i| {
                    let mut q = p.clone();
                    q.push(i);
                    q
                })
            })
            .collect();
    }
    out
}
