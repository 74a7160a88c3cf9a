//! Buffers as a user of the library would define them, with nothing but the required methods: tensors of
//! run-time shape, and a matrix of compile-time shape stored by columns. The trait's default methods, and the
//! library's generic code over run-time shapes of every rank, are only reached through buffers like these.
use crate::buf::{volume, Fld, Flat};
use crate::ix::row_major;
use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, Class, Scalar, ZipFold, ZipMap, ZipMut};
use aegir::ids::{P, Q, W};
use aegir::meta::{Prec, Precedence};
use aegir::{Context, Read};

#[derive(Clone, Debug, PartialEq)]
pub struct Tensor<F, const D: usize> {
    pub dims: [usize; D],
    pub xs: Vec<F>,
}

pub struct Tensors;

fn at(dims: &[usize], ix: &[usize]) -> usize { dims.iter().zip(ix).fold(0, |a, (d, i)| a * d + i) }

impl<const D: usize> Class<SDynamic<D>> for Tensors {
    type Buffer<F: Scalar> = Tensor<F, D>;

    fn build<F: Scalar>(shape: SDynamic<D>, f: impl Fn([usize; D]) -> F) -> Tensor<F, D> {
        let fix = |ix: Vec<usize>| std::array::from_fn(|i| ix[i]);
        Tensor { dims: shape.0, xs: row_major(&shape.0).into_iter().map(|ix| f(fix(ix))).collect() }
    }

    fn build_subset<F: Scalar>(shape: SDynamic<D>, base: F, subset: impl Iterator<Item = [usize; D]>, active: impl Fn([usize; D]) -> F) -> Tensor<F, D> {
        let mut xs = vec![base; volume(&shape.0)];
        for ix in subset {
            xs[at(&shape.0, &ix)] = active(ix);
        }
        Tensor { dims: shape.0, xs }
    }
}

impl<F: Scalar, const D: usize> Shaped for Tensor<F, D> {
    type Shape = SDynamic<D>;

    fn shape(&self) -> SDynamic<D> { SDynamic(self.dims) }
}

impl<F: Scalar, const D: usize> Buffer for Tensor<F, D> {
    type Class = Tensors;
    type Field = F;

    fn class() -> Tensors { Tensors }

    fn get_unchecked(&self, ix: [usize; D]) -> F { self.xs[at(&self.dims, &ix)] }

    fn map<A: Scalar, M: Fn(F) -> A>(self, f: M) -> Tensor<A, D> { Tensor { dims: self.dims, xs: self.xs.into_iter().map(f).collect() } }

    fn mutate<M: Fn(F) -> F>(&mut self, f: M) {
        for x in &mut self.xs {
            *x = f(*x);
        }
    }
}

impl<F: Scalar, const D: usize> ZipMap<Tensor<F, D>> for Tensor<F, D> {
    type Output<A: Scalar> = Tensor<A, D>;

    fn zip_map<A: Scalar, M: Fn(F, F) -> A>(self, rhs: &Tensor<F, D>, f: M) -> Result<Tensor<A, D>, IncompatibleShapes<SDynamic<D>>> {
        let s = self.shape().broadcast(rhs.shape())?;
        Ok(Tensor { dims: s.0, xs: self.xs.into_iter().zip(&rhs.xs).map(|(x, y)| f(x, *y)).collect() })
    }

    fn zip_shape(self, r: SDynamic<D>) -> Result<Tensor<F, D>, IncompatibleShapes<SDynamic<D>>> { self.shape().broadcast(r).map(|_| self) }
}

impl<F: Scalar, const D: usize> ZipFold<Tensor<F, D>> for Tensor<F, D> {
    fn zip_fold<A: Scalar, M: Fn(A, (F, F)) -> A>(&self, rhs: &Tensor<F, D>, init: A, f: M) -> Result<A, IncompatibleShapes<SDynamic<D>>> {
        self.shape().broadcast(rhs.shape())?;
        Ok(self.xs.iter().zip(&rhs.xs).fold(init, |a, (x, y)| f(a, (*x, *y))))
    }
}

impl<F: Scalar, const D: usize> ZipMut<Tensor<F, D>> for Tensor<F, D> {
    fn zip_mut<M: Fn(F, F) -> F>(&mut self, rhs: &Tensor<F, D>, f: M) -> Result<(), IncompatibleShapes<SDynamic<D>>> {
        self.shape().broadcast(rhs.shape())?;
        for (x, y) in self.xs.iter_mut().zip(&rhs.xs) {
            *x = f(*x, *y);
        }
        Ok(())
    }
}

macro_rules! scalars {
    ($($F:ty),*) => {$(
        impl<const D: usize> ZipMap<$F> for Tensor<$F, D> {
            type Output<A: Scalar> = Tensor<A, D>;

            fn zip_map<A: Scalar, M: Fn($F, $F) -> A>(self, rhs: &$F, f: M) -> Result<Tensor<A, D>, IncompatibleShapes<SDynamic<D>, S0>> {
                let y = *rhs;
                Ok(self.map(|x| f(x, y)))
            }

            fn zip_shape(self, _: S0) -> Result<Tensor<$F, D>, IncompatibleShapes<SDynamic<D>, S0>> { Ok(self) }
        }

        impl<const D: usize> ZipMap<Tensor<$F, D>> for $F {
            type Output<A: Scalar> = Tensor<A, D>;

            fn zip_map<A: Scalar, M: Fn($F, $F) -> A>(self, rhs: &Tensor<$F, D>, f: M) -> Result<Tensor<A, D>, IncompatibleShapes<S0, SDynamic<D>>> {
                Ok(rhs.clone().map(|y| f(self, y)))
            }

            fn zip_shape(self, s: SDynamic<D>) -> Result<Tensor<$F, D>, IncompatibleShapes<S0, SDynamic<D>>> {
                Ok(Tensor { dims: s.0, xs: vec![self; volume(&s.0)] })
            }
        }
    )*};
}

scalars!(f64, f32, i64, i32, u8);

impl Precedence<Tensors, Tensors> for Prec {
    type Class = Tensors;
}

impl<F: Fld + Flat<F = F>, const D: usize> Flat for Tensor<F, D> {
    type F = F;

    fn flat_push(&self, out: &mut Vec<F>) { out.extend(self.xs.iter().copied()) }

    fn flat_pull(dims: &[usize], it: &mut dyn Iterator<Item = F>) -> Self {
        Tensor { dims: std::array::from_fn(|i| dims[i]), xs: (0..volume(dims)).map(|_| it.next().expect("harness: missing data")).collect() }
    }
}

/// A matrix of N rows and M columns, stored by columns.
#[derive(Clone, Debug, PartialEq)]
pub struct Grid<F, const N: usize, const M: usize>(pub [[F; N]; M]);

pub struct Grids;

impl<const N: usize, const M: usize> Class<S2<N, M>> for Grids {
    type Buffer<F: Scalar> = Grid<F, N, M>;

    fn build<F: Scalar>(_: S2<N, M>, f: impl Fn([usize; 2]) -> F) -> Grid<F, N, M> {
        let rows: [[F; M]; N] = std::array::from_fn(|i| std::array::from_fn(|j| f([i, j])));
        Grid(std::array::from_fn(|j| std::array::from_fn(|i| rows[i][j])))
    }

    fn build_subset<F: Scalar>(_: S2<N, M>, base: F, subset: impl Iterator<Item = [usize; 2]>, active: impl Fn([usize; 2]) -> F) -> Grid<F, N, M> {
        let mut g = Grid([[base; N]; M]);
        for ix in subset {
            g.0[ix[1]][ix[0]] = active(ix);
        }
        g
    }
}

impl<F: Scalar, const N: usize, const M: usize> Shaped for Grid<F, N, M> {
    type Shape = S2<N, M>;

    fn shape(&self) -> S2<N, M> { S2 }
}

impl<F: Scalar, const N: usize, const M: usize> Buffer for Grid<F, N, M> {
    type Class = Grids;
    type Field = F;

    fn class() -> Grids { Grids }

    fn get_unchecked(&self, ix: [usize; 2]) -> F { self.0[ix[1]][ix[0]] }

    // In the order of the indices, which is not that of the storage.
    fn map<A: Scalar, T: Fn(F) -> A>(self, f: T) -> Grid<A, N, M> {
        let rows: [[A; M]; N] = std::array::from_fn(|i| std::array::from_fn(|j| f(self.0[j][i])));
        Grid(std::array::from_fn(|j| std::array::from_fn(|i| rows[i][j])))
    }

    fn mutate<T: Fn(F) -> F>(&mut self, f: T) {
        for i in 0..N {
            for j in 0..M {
                self.0[j][i] = f(self.0[j][i]);
            }
        }
    }
}

impl<F: Scalar, const N: usize, const M: usize> ZipMap<Grid<F, N, M>> for Grid<F, N, M> {
    type Output<A: Scalar> = Grid<A, N, M>;

    fn zip_map<A: Scalar, T: Fn(F, F) -> A>(self, rhs: &Grid<F, N, M>, f: T) -> Result<Grid<A, N, M>, IncompatibleShapes<S2<N, M>>> {
        Ok(Grid(std::array::from_fn(|j| std::array::from_fn(|i| f(self.0[j][i], rhs.0[j][i])))))
    }

    fn zip_shape(self, _: S2<N, M>) -> Result<Grid<F, N, M>, IncompatibleShapes<S2<N, M>>> { Ok(self) }
}

impl<F: Fld + Flat<F = F>, const N: usize, const M: usize> Flat for Grid<F, N, M> {
    type F = F;

    fn flat_push(&self, out: &mut Vec<F>) {
        for i in 0..N {
            for j in 0..M {
                out.push(self.0[j][i]);
            }
        }
    }

    fn flat_pull(_: &[usize], it: &mut dyn Iterator<Item = F>) -> Self {
        let mut g = Grid([[F::zero(); N]; M]);
        for i in 0..N {
            for j in 0..M {
                g.0[j][i] = it.next().expect("harness: missing data");
            }
        }
        g
    }
}

/// A context with a value (or none) for each of `P`, `Q` and `W`.
#[derive(Clone, Debug)]
pub struct Three<A, B, S> {
    pub p: Option<A>,
    pub q: Option<B>,
    pub w: Option<S>,
}

impl<A, B, S> Three<A, B, S> {
    pub fn new(p: A, q: B, w: S) -> Self { Three { p: Some(p), q: Some(q), w: Some(w) } }
}

impl<A, B, S> AsMut<Three<A, B, S>> for Three<A, B, S> {
    fn as_mut(&mut self) -> &mut Self { self }
}

impl<A, B, S> Context for Three<A, B, S> {}

impl<A: Buffer, B, S> Read<P> for Three<A, B, S> {
    type Buffer = A;
    fn read(&self, _: P) -> Option<A> { self.p.clone() }
}

impl<A, B: Buffer, S> Read<Q> for Three<A, B, S> {
    type Buffer = B;
    fn read(&self, _: Q) -> Option<B> { self.q.clone() }
}

impl<A, B, S: Buffer> Read<W> for Three<A, B, S> {
    type Buffer = S;
    fn read(&self, _: W) -> Option<S> { self.w.clone() }
}
