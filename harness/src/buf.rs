//! Reference view of buffers as flat sequences in row-major order, written without the library.
use crate::tape::{any_f64, Tape};
use aegir::buffers::Scalar;

/// Scalar fields under test.
pub trait Fld: Scalar + num_traits::FromPrimitive + std::fmt::Debug + 'static {
    const FLOAT: bool;

    /// Any value of the field.
    fn any(t: &mut Tape) -> Self;
    /// A small integer, such that sums and products of a few dozen of them are exact.
    fn small(k: i64) -> Self;
    fn bits(self) -> u64;
    /// A total function number `k` (never panics, whatever the value).
    fn fun(k: usize, x: Self) -> Self;
    /// A total, non-commutative combination number `k`.
    fn fun2(k: usize, x: Self, y: Self) -> Self;
    /// Two factors at any scale such that the sum of up to `n` of their products is exact (possibly infinite
    /// or NaN, because a factor is), while `n` times a single factor need not be.
    fn factors(n: usize, t: &mut Tape) -> (Self, Self);
    /// The value times a power of two (floating-point fields only), and the largest power there is.
    fn scaled(self, e: i32) -> Self { let _ = e; self }
    fn top() -> i32 { 0 }
    /// A function into another field.
    fn into_i64(k: usize, x: Self) -> i64 { (if x != x { 77 } else { x.bits() as i64 }).wrapping_mul(3).wrapping_add(k as i64) }
}

macro_rules! int_field {
    ($($F:ty),*) => {$(
        impl Fld for $F {
            const FLOAT: bool = false;

            fn any(t: &mut Tape) -> Self {
                match t.below(4) {
                    0 => <$F>::MAX,
                    1 => <$F>::MIN,
                    2 => t.below(5) as $F,
                    _ => ((t.u() as u64) << 32 | t.u() as u64) as $F,
                }
            }
            fn small(k: i64) -> Self { if <$F>::MIN == 0 { k.unsigned_abs() as $F % 3 } else { (k % 3) as $F } }
            fn factors(n: usize, t: &mut Tape) -> (Self, Self) {
                let (low, high) = (<$F>::MIN as i128, <$F>::MAX as i128);
                let x = match t.below(4) {
                    0 => <$F>::small(t.below(9) as i64 - 4) as i128,
                    1 => low + t.below(3) as i128,
                    2 => high - t.below(3) as i128,
                    _ => <$F>::any(t) as i128,
                };
                let limit = high / n.max(1) as i128;
                let most = if x == 0 { high } else { limit / x.abs() };
                let y = match t.below(3) {
                    0 => most,
                    1 => 0,
                    _ => (t.u() as i128) % (most + 1),
                };
                let y = if low < 0 && t.flag() { -y } else { y };
                if t.flag() { (x as $F, y as $F) } else { (y as $F, x as $F) }
            }
            fn bits(self) -> u64 { self as u64 }
            fn fun(k: usize, x: Self) -> Self {
                match k % 5 {
                    0 => x.wrapping_add(1),
                    1 => x.wrapping_mul(3),
                    2 => 7,
                    3 => x,
                    _ => x.wrapping_mul(x),
                }
            }
            fn fun2(k: usize, x: Self, y: Self) -> Self {
                match k % 5 {
                    0 => x.wrapping_sub(y),
                    1 => x.wrapping_mul(3).wrapping_add(y.wrapping_mul(5)),
                    2 => x,
                    3 => y,
                    _ => x.wrapping_mul(x).wrapping_sub(y),
                }
            }
        }
    )*};
}

int_field!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);

macro_rules! float_field {
    ($($F:ty),*) => {$(
        impl Fld for $F {
            const FLOAT: bool = true;

            fn any(t: &mut Tape) -> Self {
                let (u, w) = (t.u(), t.u());
                if u % 17 == 3 { return <$F>::NAN; }
                any_f64(u, w) as $F
            }
            fn small(k: i64) -> Self { (k % 9) as $F }
            fn scaled(self, e: i32) -> Self { self * (2.0 as $F).powi(e / 2) * (2.0 as $F).powi(e - e / 2) }
            fn top() -> i32 { <$F>::MAX_EXP }
            fn factors(n: usize, t: &mut Tape) -> (Self, Self) {
                let mut part = |lo: i32, hi: i32| {
                    let k = t.below(9) as $F - 4.0;
                    let e = lo + t.below((hi - lo) as usize) as i32;
                    // In two steps, for the powers beyond the range of one:
                    let x = k * (2.0 as $F).powi(e / 2) * (2.0 as $F).powi(e - e / 2);
                    (if e >= <$F>::MAX_EXP - 2 { x / 4.0 } else { x }, e)
                };
                let top = <$F>::MAX_EXP;
                let bits = usize::BITS as i32 - n.leading_zeros() as i32;
                let (x, e) = part(-top / 2, top);
                let (y, _) = part((-top / 2 - e).max(4 - top), top - 8 - bits - e.max(0));
                let (x, y) = match t.below(12) {
                    0 => (<$F>::INFINITY, y),
                    1 => (x, <$F>::NAN),
                    2 => (x, <$F>::NEG_INFINITY),
                    _ => (x, y),
                };
                if t.flag() { (x, y) } else { (y, x) }
            }
            fn bits(self) -> u64 { self.to_bits() as u64 }
            fn fun(k: usize, x: Self) -> Self {
                match k % 6 {
                    0 => x + 1.0,
                    1 => -x,
                    2 => 0.5,
                    3 => x,
                    4 => x * x,
                    _ => 1.0 / x,
                }
            }
            fn fun2(k: usize, x: Self, y: Self) -> Self {
                match k % 6 {
                    0 => x - y,
                    1 => x / y,
                    2 => x,
                    3 => y,
                    4 => x * 2.0 + y,
                    _ => if x < y { -x } else { y },
                }
            }
        }
    )*};
}

float_field!(f32, f64);

/// Conversion to and from flat row-major data, by pattern and indexing of the concrete types.
pub trait Flat: Sized {
    type F: Fld;

    fn flat_push(&self, out: &mut Vec<Self::F>);
    fn flat_pull(dims: &[usize], it: &mut dyn Iterator<Item = Self::F>) -> Self;

    fn flat(&self) -> Vec<Self::F> {
        let mut out = Vec::new();
        self.flat_push(&mut out);
        out
    }

    fn of(dims: &[usize], xs: &[Self::F]) -> Self {
        let mut it = xs.iter().copied();
        let out = Self::flat_pull(dims, &mut it);
        assert!(it.next().is_none(), "harness: surplus data");
        out
    }

    fn bits(&self) -> Vec<u64> { self.flat().into_iter().map(|x| x.bits()).collect() }
}

macro_rules! flat_field {
    ($($F:ty),*) => {$(
        impl Flat for $F {
            type F = $F;
            fn flat_push(&self, out: &mut Vec<$F>) { out.push(*self) }
            fn flat_pull(_: &[usize], it: &mut dyn Iterator<Item = $F>) -> Self { it.next().expect("harness: missing data") }
        }
    )*};
}

flat_field!(f32, f64, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);

impl<T: Flat, const N: usize> Flat for [T; N] {
    type F = T::F;

    fn flat_push(&self, out: &mut Vec<T::F>) {
        for i in 0..N {
            self[i].flat_push(out);
        }
    }

    fn flat_pull(dims: &[usize], it: &mut dyn Iterator<Item = T::F>) -> Self {
        assert_eq!(dims[0], N, "harness: dimensions");
        std::array::from_fn(|_| T::flat_pull(&dims[1..], it))
    }
}

impl<T: Fld + Flat<F = T>> Flat for (T, T) {
    type F = T;

    fn flat_push(&self, out: &mut Vec<T>) {
        out.push(self.0);
        out.push(self.1);
    }

    fn flat_pull(_: &[usize], it: &mut dyn Iterator<Item = T>) -> Self {
        let a = it.next().unwrap();
        (a, it.next().unwrap())
    }
}

impl<T: Fld + Flat<F = T>> Flat for Vec<T> {
    type F = T;

    fn flat_push(&self, out: &mut Vec<T>) { out.extend(self.iter().copied()) }

    fn flat_pull(dims: &[usize], it: &mut dyn Iterator<Item = T>) -> Self {
        (0..dims[0]).map(|_| it.next().unwrap()).collect()
    }
}

pub fn volume(dims: &[usize]) -> usize { dims.iter().product() }

/// Equal as data: same bits, except that any two NaNs are equal.
pub fn same<F: Fld>(a: F, b: F) -> bool { a.bits() == b.bits() || (F::FLOAT && a != a && b != b) }

pub fn same_all<F: Fld>(a: &[F], b: &[F]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y))
}

/// Fill with values: bit patterns of every kind, small integers, or a constant.
/// A length of a run-time shape: mostly short, sometimes beyond any plausible block or lane count.
pub fn length(t: &mut Tape) -> usize {
    match t.below(8) {
        0 => 0,
        1 => 1,
        2 => t.below(200),
        3 => match t.below(12) {
            0 => (1 << (6 + t.below(8))) + t.below(5) - 2,
            1 => 1 + t.below(3000),
            _ => t.below(40),
        },
        _ => t.below(12),
    }
}

pub fn data<F: Fld>(n: usize, t: &mut Tape) -> Vec<F> {
    if n > 60 {
        // More than a tape holds: varied entries, with some of the drawn ones.
        let k = t.u() as i64;
        let mut v: Vec<F> = (0..n).map(|i| F::small((i as i64 * 7 + k % 1000) * (k % 2 * 2 - 1) + i as i64 / 9)).collect();
        for _ in 0..t.below(8) {
            let i = t.below(n);
            v[i] = F::any(t);
        }
        return v;
    }
    match t.below(4) {
        0 => (0..n).map(|i| F::small(i as i64 * 7 + 1)).collect(),
        1 => {
            let x = F::any(t);
            vec![x; n]
        },
        _ => (0..n).map(|_| F::any(t)).collect(),
    }
}

pub fn small_data<F: Fld>(n: usize, t: &mut Tape) -> Vec<F> {
    if n > 60 {
        let k = t.u() as i64 % 1000;
        return (0..n).map(|i| F::small((i as i64 * 7 + k) % 9 - 4)).collect();
    }
    (0..n).map(|_| F::small(t.below(9) as i64 - 4)).collect()
}
