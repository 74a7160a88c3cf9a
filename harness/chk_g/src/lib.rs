//! Jacobians at other extents and ranks than those of the generated families, in closed form.
use aegir::ids::{P, Q, W};
use aegir::buffers::Buffer;
use aegir::{ops, Context, Differentiable, Function, Identifier, Node};
use harness::buf::{volume, Fld, Flat};
use harness::tape::Tape;
use harness::tensor::{Tensor, Three};
use harness::{Case, Stats};
use serde_json::json;

pub type R = Result<(), String>;

fn ints(n: usize, t: &mut Tape) -> Vec<f64> {
    if n > 40 {
        // More than a tape holds.
        let k = t.u() as usize % 1000;
        return (0..n).map(|i| ((i * 7 + i / 11 + k) % 13) as f64 - 6.0).collect();
    }
    (0..n).map(|_| t.int()).collect()
}

/// Fields of the buffers, and their values as reals (small integers throughout).
pub trait Real: Fld + Flat<F = Self> {
    fn real(self) -> f64;
    fn of_real(x: f64) -> Self;
}

macro_rules! reals {
    ($($F:ty),*) => {$(
        impl Real for $F {
            fn real(self) -> f64 { self as f64 }
            fn of_real(x: f64) -> $F { x as $F }
        }
    )*};
}

reals!(f64, f32, i64, i32);

/// A buffer of these values.
fn of<B: Flat>(dims: &[usize], xs: &[f64]) -> B where B::F: Real {
    B::of(dims, &xs.iter().map(|x| B::F::of_real(*x)).collect::<Vec<_>>())
}

fn reals<B: Flat>(b: &B) -> Vec<f64> where B::F: Real { b.flat().into_iter().map(|x| x.real()).collect() }

/// The entries of the identity with a factor.
fn eye(n: usize, a: f64) -> Vec<f64> { (0..n * n).map(|k| if k / n == k % n { a } else { 0.0 }).collect() }

macro_rules! judge {
    ($st:ident, $e:expr, $by:expr, $c:expr, $dims:expr, $want:expr, $show:expr) => {
        judge($st, &$e, &format!("the derivative by {} of {} for {}", $by, stringify!($e), $show), $by, &mut $c, $dims, $want)?
    };
}

fn judge<C, I, N, V>(st: &mut Stats, e: &N, name: &str, by: I, c: &mut C, dims: Vec<usize>, want: Vec<f64>) -> R
where
    C: Context,
    I: Identifier,
    N: Function<C> + Differentiable<I>,
    N::Adjoint: Function<C, Value = V>,
    V: Buffer + Flat<F = <V as Buffer>::Field>,
    <V as Buffer>::Field: Real,
{
    let d = e.adjoint(by);
    let got = d.evaluate(&mut *c).map_err(|e| format!("{} fails: {:?}", name, e))?;
    let spec = d.evaluate_spec(&mut *c).map_err(|e| format!("{}, structurally, fails: {:?}", name, e))?;
    let shape = format!("{:?}", d.evaluate_shape(&mut *c).map_err(|e| format!("the shape of {} fails: {:?}", name, e))?);
    let dual = e.evaluate_dual(by, &mut *c).map_err(|e| format!("{}, dually, fails: {:?}", name, e))?;
    let model = format!("{:?}", of::<V>(&dims, &want).shape());
    if format!("{:?}", got.shape()) != model || shape != model {
        return Err(format!("{} has the shape {:?} (inferred: {}) instead of {}", name, got.shape(), shape, model));
    }
    for (how, x) in [("", reals(&got)), (", structurally,", reals(&spec.unwrap())), (", dually,", reals(&dual.adjoint))] {
        if x.len() != want.len() || x.iter().zip(&want).any(|(a, b)| !((a - b).abs() <= 1e-11 * (1.0 + b.abs()))) {
            return Err(format!("{}{} is {:?} instead of {:?}{:?}", name, how, x, dims, want));
        }
    }
    st.eval();
    st.sample(|| json!({"derivative": name, "expected": want, "shape": dims}));
    if want.len() > 1 && want.iter().any(|x| *x != 0.0) {
        st.nontrivial(&name);
    }
    Ok(())
}

/// Linear forms of one or two buffers, by a buffer of the same type and by one of another type.
macro_rules! linear {
    ($A:ty, $da:expr, $B:ty, $db:expr, $t:ident, $st:ident) => {{
        let (da, db): (Vec<usize>, Vec<usize>) = ($da.to_vec(), $db.to_vec());
        let (n, m) = (volume(&da), volume(&db));
        let (x, y, z) = (ints(n, $t), ints(n, $t), ints(m, $t));
        let mut c = Three { p: Some(of::<$A>(&da, &x)), q: Some(of::<$A>(&da, &y)), w: Some(of::<$B>(&db, &z)) };
        let show = format!("p = {:?}{:?}, q = {:?}, w = {:?}{:?} ({} by {})", da, x, y, db, z, stringify!($A), stringify!($B));
        let (p, q, w) = (P.into_var(), Q.into_var(), W.into_var());
        let aa: Vec<usize> = da.iter().chain(&da).copied().collect();
        let ab: Vec<usize> = da.iter().chain(&db).copied().collect();
        let ba: Vec<usize> = db.iter().chain(&da).copied().collect();
        let none = |k: usize| vec![0.0; k];
        let k = || of::<$A>(&da, &y).into_constant();
        match $t.below(12) {
            0 => judge!($st, p, P, c, aa, eye(n, 1.0), show),
            1 => judge!($st, p, W, c, ab, none(n * m), show),
            2 => judge!($st, w, P, c, ba, none(n * m), show),
            3 => judge!($st, ops::Double(p).sub(q), P, c, aa, eye(n, 2.0), show),
            4 => judge!($st, ops::Double(p).sub(q), Q, c, aa, eye(n, -1.0), show),
            5 => judge!($st, ops::OneSub(ops::Add(p, p)), P, c, aa, eye(n, -2.0), show),
            6 => judge!($st, ops::SubOne(ops::Sub(q, ops::Double(p))), P, c, aa, eye(n, -2.0), show),
            7 => judge!($st, ops::Add(ops::Negate(q), ops::AddOne(p)), Q, c, aa, eye(n, -1.0), show),
            8 => judge!($st, ops::Sub(p, p), P, c, aa, none(n * n), show),
            9 => judge!($st, ops::Add(k(), p), P, c, aa, eye(n, 1.0), show),
            10 => judge!($st, ops::Sub(ops::Double(q), p), W, c, ab, none(n * m), show),
            _ => judge!($st, ops::Negate(k()), W, c, ab, none(n * m), show),
        }
        $st.label(format!("{} by {}", stringify!($A), stringify!($B)));
        Ok(())
    }};
}

/// The linear forms that integers admit.
macro_rules! exact {
    ($A:ty, $da:expr, $B:ty, $db:expr, $t:ident, $st:ident) => {{
        let (da, db): (Vec<usize>, Vec<usize>) = ($da.to_vec(), $db.to_vec());
        let (n, m) = (volume(&da), volume(&db));
        let (x, y, z) = (ints(n, $t), ints(n, $t), ints(m, $t));
        let mut c = Three { p: Some(of::<$A>(&da, &x)), q: Some(of::<$A>(&da, &y)), w: Some(of::<$B>(&db, &z)) };
        let show = format!("p = {:?}{:?}, q = {:?}, w = {:?}{:?} ({} by {})", da, x, y, db, z, stringify!($A), stringify!($B));
        let (p, q, w) = (P.into_var(), Q.into_var(), W.into_var());
        let aa: Vec<usize> = da.iter().chain(&da).copied().collect();
        let ab: Vec<usize> = da.iter().chain(&db).copied().collect();
        let ba: Vec<usize> = db.iter().chain(&da).copied().collect();
        let none = |k: usize| vec![0.0; k];
        let k = || of::<$A>(&da, &y).into_constant();
        match $t.below(9) {
            0 => judge!($st, p, P, c, aa, eye(n, 1.0), show),
            1 => judge!($st, p, W, c, ab, none(n * m), show),
            2 => judge!($st, w, P, c, ba, none(n * m), show),
            3 => judge!($st, ops::Double(p).sub(q), P, c, aa, eye(n, 2.0), show),
            4 => judge!($st, ops::Double(p).sub(q), Q, c, aa, eye(n, -1.0), show),
            5 => judge!($st, ops::SubOne(ops::Sub(q, ops::Double(p))), P, c, aa, eye(n, -2.0), show),
            6 => judge!($st, ops::Sub(p, p), P, c, aa, none(n * n), show),
            7 => judge!($st, ops::Add(k(), p), P, c, aa, eye(n, 1.0), show),
            _ => judge!($st, ops::Sub(ops::Double(q), p), W, c, ab, none(n * m), show),
        }
        $st.label(format!("{} by {}", stringify!($A), stringify!($B)));
        Ok(())
    }};
}

/// Derivatives by buffers that do not occur.
macro_rules! far {
    ($A:ty, $da:expr, $B:ty, $db:expr, $t:ident, $st:ident) => {{
        let (da, db): (Vec<usize>, Vec<usize>) = ($da.to_vec(), $db.to_vec());
        let (n, m) = (volume(&da), volume(&db));
        let (x, y, z) = (ints(n, $t), ints(n, $t), ints(m, $t));
        let mut c = Three { p: Some(of::<$A>(&da, &x)), q: Some(of::<$A>(&da, &y)), w: Some(of::<$B>(&db, &z)) };
        let show = format!("p = {:?}{:?}, q = {:?}, w = {:?}{:?} ({} by {})", da, x, y, db, z, stringify!($A), stringify!($B));
        let (p, q) = (P.into_var(), Q.into_var());
        let ab: Vec<usize> = da.iter().chain(&db).copied().collect();
        let k = || of::<$A>(&da, &y).into_constant();
        let none = || vec![0.0; n * m];
        match $t.below(5) {
            0 => judge!($st, p, W, c, ab, none(), show),
            1 => judge!($st, ops::Double(p).sub(q), W, c, ab, none(), show),
            2 => judge!($st, ops::OneSub(ops::Add(p, p)), W, c, ab, none(), show),
            3 => judge!($st, ops::Add(k(), p), W, c, ab, none(), show),
            _ => judge!($st, ops::Negate(k()), W, c, ab, none(), show),
        }
        $st.label(format!("{} by {}", stringify!($A), stringify!($B)));
        Ok(())
    }};
}

/// Rank-0 tensors are scalars that are written as buffers.
fn rank0(t: &mut Tape, st: &mut Stats) -> R {
    type T0 = Tensor<f64, 0>;
    let (x, y) = (t.int(), 1.0 + t.below(9) as f64);
    let mut c = Three { p: Some(of::<T0>(&[], &[x])), q: Some(of::<T0>(&[], &[y])), w: Some(of::<T0>(&[], &[1.0])) };
    let show = format!("p = {}, q = {}, of rank 0", x, y);
    let (p, q) = (P.into_var(), Q.into_var());
    let e = vec![];
    match t.below(8) {
        0 => judge!(st, ops::Mul(p, q), P, c, e, vec![y], show),
        1 => judge!(st, ops::Mul(p, q), Q, c, e, vec![x], show),
        2 => judge!(st, ops::Mul(p, p), P, c, e, vec![2.0 * x], show),
        3 => judge!(st, ops::Div(p, q), Q, c, e, vec![-x / (y * y)], show),
        4 => judge!(st, ops::Square(ops::Sub(p, q)), Q, c, e, vec![2.0 * (y - x)], show),
        5 => judge!(st, ops::Exp(ops::Div(p, q)), P, c, e, vec![(x / y).exp() / y], show),
        6 => judge!(st, ops::Ln(q), Q, c, e, vec![1.0 / y], show),
        _ => judge!(st, ops::Mul(ops::Sub(q, p), ops::Mul(p, q)), P, c, e, vec![y * y - 2.0 * x * y], show),
    }
    if x != 0.0 {
        st.nontrivial(&show);
    }
    st.label("rank 0");
    Ok(())
}

/// Scalar expressions of the dot product of two vectors, and their products with scalars.
macro_rules! dots {
    ($n:literal, $t:ident, $st:ident) => {{
        const N: usize = $n;
        let (x, y, s) = (ints(N, $t), ints(N, $t), $t.int());
        let mut c = Three { p: Some(of::<[f64; N]>(&[N], &x)), q: Some(of::<[f64; N]>(&[N], &y)), w: Some(s) };
        let show = format!("p = {:?}, q = {:?}, w = {}", x, y, s);
        let (p, q, w) = (P.into_var(), Q.into_var(), W.into_var());
        let d: f64 = x.iter().zip(&y).map(|(a, b)| a * b).sum();
        let by = |f: &dyn Fn(f64, f64) -> f64| x.iter().zip(&y).map(|(a, b)| f(*a, *b)).collect::<Vec<f64>>();
        let v = vec![N];
        let outer: Vec<f64> = (0..N * N).map(|k| s * if k / N == k % N { 1.0 } else { 0.0 }).collect();
        match $t.below(10) {
            0 => judge!($st, p.dot(q), P, c, v, by(&|_, b| b), show),
            1 => judge!($st, p.dot(q), Q, c, v, by(&|a, _| a), show),
            2 => judge!($st, p.dot(p), P, c, v, by(&|a, _| 2.0 * a), show),
            3 => judge!($st, ops::Mul(w, p.dot(q)), P, c, v, by(&|_, b| s * b), show),
            4 => judge!($st, ops::Mul(w, p.dot(q)), W, c, vec![], vec![d], show),
            5 => judge!($st, ops::Square(p.dot(q)), Q, c, v, by(&|a, _| 2.0 * d * a), show),
            6 => judge!($st, ops::Sub(p.dot(q), ops::Mul(p.dot(p), w)), P, c, v, by(&|a, b| b - 2.0 * s * a), show),
            7 => judge!($st, ops::Sub(p, q).dot(ops::Add(p, q)), P, c, v, by(&|a, _| 2.0 * a), show),
            8 => judge!($st, ops::Contract::<0, _, _>(w, p), P, c, vec![N, N], outer, show),
            _ => judge!($st, ops::Contract::<0, _, _>(w, ops::Sub(p, q)), W, c, v, by(&|a, b| a - b), show),
        }
        $st.label(format!("dot products of {}", N));
        Ok(())
    }};
}

macro_rules! table {
    ($t:ident, $st:ident; $($e:expr;)*) => {{
        let fs: Vec<fn(&mut Tape, &mut Stats) -> R> = vec![$(|$t, $st| $e),*];
        let k = $t.below(fs.len());
        fs[k]($t, $st)
    }};
}

fn d(t: &mut Tape) -> usize { t.below(5) }

pub fn run(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    table! { t, st;
        linear!([f64; 1], [1], [f64; 7], [7], t, st);
        linear!([f64; 4], [4], [[f64; 2]; 3], [3, 2], t, st);
        linear!([f64; 5], [5], [[f64; 1]; 4], [4, 1], t, st);
        linear!([f64; 8], [8], [[[f64; 2]; 3]; 2], [2, 3, 2], t, st);
        far!([f64; 3], [3], [[[[f64; 2]; 1]; 2]; 3], [3, 2, 1, 2], t, st);
        linear!([[f64; 4]; 2], [2, 4], [f64; 3], [3], t, st);
        linear!([[f64; 1]; 5], [5, 1], [[f64; 4]; 2], [2, 4], t, st);
        far!([[f64; 5]; 1], [1, 5], [[[f64; 2]; 2]; 2], [2, 2, 2], t, st);
        linear!([[f64; 4]; 4], [4, 4], [[f64; 3]; 3], [3, 3], t, st);
        far!([[[f64; 2]; 3]; 2], [2, 3, 2], [f64; 4], [4], t, st);
        far!([[[f64; 3]; 1]; 2], [2, 1, 3], [[f64; 3]; 2], [2, 3], t, st);
        linear!(Tensor<f64, 0>, [0usize; 0], Tensor<f64, 2>, [d(t), d(t)], t, st);
        linear!(Tensor<f64, 1>, [d(t)], Tensor<f64, 1>, [d(t)], t, st);
        linear!(Tensor<f64, 1>, [d(t)], Tensor<f64, 3>, [d(t), d(t), d(t)], t, st);
        linear!(Tensor<f64, 2>, [d(t), d(t)], Tensor<f64, 0>, [0usize; 0], t, st);
        linear!(Tensor<f64, 2>, [d(t), d(t)], Tensor<f64, 1>, [d(t)], t, st);
        linear!(Tensor<f64, 2>, [d(t), d(t)], Tensor<f64, 2>, [d(t), d(t)], t, st);
        linear!(Tensor<f64, 3>, [d(t), 1 + t.below(2), d(t)], Tensor<f64, 2>, [d(t), d(t)], t, st);
        rank0(t, st);
        dots!(1, t, st);
        dots!(2, t, st);
        dots!(4, t, st);
        dots!(5, t, st);
        dots!(8, t, st);
        dots!(13, t, st);
    }
}

/// Extents beyond those that anyone writes out, and beyond any plausible block size.
pub fn wide(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    table! { t, st;
        linear!([f64; 40], [40], [[f64; 5]; 6], [6, 5], t, st);
        linear!([f64; 65], [65], [f64; 33], [33], t, st);
        linear!([[f64; 17]; 3], [3, 17], [f64; 16], [16], t, st);
        linear!([[f64; 9]; 9], [9, 9], [[f64; 4]; 12], [12, 4], t, st);
        linear!(Tensor<f64, 1>, [60 + t.below(80)], Tensor<f64, 1>, [t.below(40)], t, st);
        linear!(Tensor<f64, 2>, [t.below(20), t.below(9)], Tensor<f64, 2>, [t.below(9), t.below(20)], t, st);
        dots!(16, t, st);
        dots!(17, t, st);
        dots!(33, t, st);
        dots!(64, t, st);
        dots!(100, t, st);
    }
}

/// Other fields than double precision.
pub fn fields(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    table! { t, st;
        linear!([f32; 3], [3], [[f32; 2]; 3], [3, 2], t, st);
        exact!([i64; 4], [4], [i64; 2], [2], t, st);
        exact!([[i32; 2]; 3], [3, 2], [i32; 4], [4], t, st);
        linear!([[f32; 3]; 3], [3, 3], [[f32; 3]; 2], [2, 3], t, st);
        exact!([[i64; 3]; 1], [1, 3], [[i64; 2]; 2], [2, 2], t, st);
        exact!(Tensor<i64, 1>, [d(t)], Tensor<i64, 2>, [d(t), d(t)], t, st);
        linear!(Tensor<f32, 2>, [d(t), d(t)], Tensor<f32, 1>, [d(t)], t, st);
    }
}
