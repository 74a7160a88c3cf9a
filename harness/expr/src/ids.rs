//! Identifiers and the context of the generated expressions.
use aegir::buffers::{shapes::Shaped, Buffer, Spec};
use aegir::{Context, Identifier, Read, Write};
use std::fmt;

pub const SLOTS: usize = 4;
/// Offset of the cache identifiers.
pub const CACHE: u8 = 16;

/// Identifier number `self.0` of the variables of kind `K`.
#[derive(Copy, Clone, Eq)]
pub struct Id<const K: u8>(pub u8);

impl<const K: u8> fmt::Debug for Id<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Id({})", self) }
}

impl<const K: u8, const J: u8> PartialEq<Id<J>> for Id<K> {
    fn eq(&self, o: &Id<J>) -> bool { K == J && self.0 == o.0 }
}

impl<const K: u8> fmt::Display for Id<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&Tok { kind: K, idx: self.0 }.name()) }
}

impl<const K: u8> Identifier for Id<K> {}

/// An identifier of any kind, for symbolic queries.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Tok {
    pub kind: u8,
    pub idx: u8,
}

impl Tok {
    pub fn name(&self) -> String {
        const N: [&str; 9] = ["x", "t", "u", "v", "A", "B", "C", "M", "d"];
        if self.kind >= CACHE {
            format!("cache_{}{}", N[(self.kind - CACHE) as usize], self.idx)
        } else {
            format!("{}{}", N[self.kind as usize], self.idx)
        }
    }
}

impl fmt::Display for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.name()) }
}

impl Identifier for Tok {}

impl<const K: u8> PartialEq<Tok> for Id<K> {
    fn eq(&self, o: &Tok) -> bool { K == o.kind && self.0 == o.idx }
}

impl<const K: u8> PartialEq<Id<K>> for Tok {
    fn eq(&self, o: &Id<K>) -> bool { K == self.kind && o.0 == self.idx }
}

/// A slot as seen from outside: how it is stored, its dimensions and its entries' bits.
pub type Seen = Option<(char, Vec<usize>, Vec<u64>)>;

/// Flat views of the buffers used by the expressions.
pub trait Flat64: Buffer<Field = f64> + 'static {
    const KIND: u8;
    fn dims(&self) -> Vec<usize>;
    fn flat(&self) -> Vec<f64>;
    fn shape_dims(s: &<Self as Shaped>::Shape) -> Vec<usize>;
    fn unflat(dims: &[usize], xs: &[f64]) -> Self;
    fn shape_of(dims: &[usize]) -> <Self as Shaped>::Shape;
}

use aegir::buffers::shapes::{SDynamic, S0, S1, S2, S3, S4};

impl Flat64 for f64 {
    const KIND: u8 = 0;
    fn dims(&self) -> Vec<usize> { vec![] }
    fn flat(&self) -> Vec<f64> { vec![*self] }
    fn shape_dims(_: &S0) -> Vec<usize> { vec![] }
    fn unflat(_: &[usize], xs: &[f64]) -> f64 { xs[0] }
    fn shape_of(_: &[usize]) -> S0 { S0 }
}

impl Flat64 for (f64, f64) {
    const KIND: u8 = 1;
    fn dims(&self) -> Vec<usize> { vec![2] }
    fn flat(&self) -> Vec<f64> { vec![self.0, self.1] }
    fn shape_dims(_: &S1<2>) -> Vec<usize> { vec![2] }
    fn unflat(_: &[usize], xs: &[f64]) -> Self { (xs[0], xs[1]) }
    fn shape_of(_: &[usize]) -> S1<2> { S1 }
}

impl<const N: usize> Flat64 for [f64; N] {
    const KIND: u8 = if N == 2 { 2 } else { 3 };
    fn dims(&self) -> Vec<usize> { vec![N] }
    fn flat(&self) -> Vec<f64> { self.to_vec() }
    fn shape_dims(_: &S1<N>) -> Vec<usize> { vec![N] }
    fn unflat(_: &[usize], xs: &[f64]) -> Self { std::array::from_fn(|i| xs[i]) }
    fn shape_of(_: &[usize]) -> S1<N> { S1 }
}

impl<const N: usize, const M: usize> Flat64 for [[f64; M]; N] {
    const KIND: u8 = 4 + (N as u8 - 2) * 2 + (M as u8 - 2);
    fn dims(&self) -> Vec<usize> { vec![N, M] }
    fn flat(&self) -> Vec<f64> { self.iter().flatten().copied().collect() }
    fn shape_dims(_: &S2<N, M>) -> Vec<usize> { vec![N, M] }
    fn unflat(_: &[usize], xs: &[f64]) -> Self { std::array::from_fn(|i| std::array::from_fn(|j| xs[i * M + j])) }
    fn shape_of(_: &[usize]) -> S2<N, M> { S2 }
}

impl<const N: usize, const M: usize, const L: usize> Flat64 for [[[f64; L]; M]; N] {
    const KIND: u8 = 200;
    fn dims(&self) -> Vec<usize> { vec![N, M, L] }
    fn flat(&self) -> Vec<f64> { self.iter().flatten().flatten().copied().collect() }
    fn shape_dims(_: &S3<N, M, L>) -> Vec<usize> { vec![N, M, L] }
    fn unflat(_: &[usize], xs: &[f64]) -> Self {
        std::array::from_fn(|i| std::array::from_fn(|j| std::array::from_fn(|k| xs[(i * M + j) * L + k])))
    }
    fn shape_of(_: &[usize]) -> S3<N, M, L> { S3 }
}

impl<const N: usize, const M: usize, const L: usize, const K: usize> Flat64 for [[[[f64; K]; L]; M]; N] {
    const KIND: u8 = 201;
    fn dims(&self) -> Vec<usize> { vec![N, M, L, K] }
    fn flat(&self) -> Vec<f64> { self.iter().flatten().flatten().flatten().copied().collect() }
    fn shape_dims(_: &S4<N, M, L, K>) -> Vec<usize> { vec![N, M, L, K] }
    fn unflat(_: &[usize], xs: &[f64]) -> Self {
        std::array::from_fn(|i| {
            std::array::from_fn(|j| std::array::from_fn(|k| std::array::from_fn(|l| xs[((i * M + j) * L + k) * K + l])))
        })
    }
    fn shape_of(_: &[usize]) -> S4<N, M, L, K> { S4 }
}

impl Flat64 for Vec<f64> {
    const KIND: u8 = 8;
    fn dims(&self) -> Vec<usize> { vec![self.len()] }
    fn flat(&self) -> Vec<f64> { self.clone() }
    fn shape_dims(s: &SDynamic<1>) -> Vec<usize> { vec![s.0[0]] }
    fn unflat(_: &[usize], xs: &[f64]) -> Self { xs.to_vec() }
    fn shape_of(d: &[usize]) -> SDynamic<1> { SDynamic([d[0]]) }
}

fn seen<B: Flat64>(s: &Option<Spec<B>>) -> Seen {
    s.as_ref().map(|s| {
        let (c, xs, d) = match s {
            Spec::Raw(b) => ('R', b.flat(), b.dims()),
            Spec::Full(sh, v) => ('F', vec![*v], B::shape_dims(sh)),
            Spec::Diagonal(sh, v) => ('D', vec![*v], B::shape_dims(sh)),
            _ => unreachable!(),
        };
        (c, d, xs.iter().map(|x| x.to_bits()).collect())
    })
}

macro_rules! contexts {
    ($($f:ident $k:literal $c:ident $ck:literal $B:ty;)*) => {
        /// A context with four variables and four cache slots of every kind.
        #[derive(Clone, Default)]
        pub struct Ctx {
            $(pub $f: [Option<Spec<$B>>; SLOTS], pub $c: [Option<Spec<$B>>; SLOTS],)*
            /// Number of calls of the reading interface, in all and for the values of single identifiers.
            pub reads: std::cell::Cell<u64>,
            pub hits: [[std::cell::Cell<u32>; SLOTS]; 25],
            pub writes: u64,
        }

        impl Ctx {
            fn hit(&self, k: usize, i: u8) {
                let c = &self.hits[k][i as usize];
                c.set(c.get() + 1);
            }

            pub fn hits(&self, t: Tok) -> u32 { self.hits[t.kind as usize][t.idx as usize].get() }

            pub fn seen(&self, t: Tok) -> Seen {
                let i = t.idx as usize;
                match t.kind {
                    $($k => seen(&self.$f[i]), $ck => seen(&self.$c[i]),)*
                    _ => None,
                }
            }

            pub fn unset(&mut self, t: Tok) {
                let i = t.idx as usize;
                match t.kind {
                    $($k => self.$f[i] = None, $ck => self.$c[i] = None,)*
                    _ => {},
                }
            }

            /// Every slot, for comparing contexts.
            pub fn all(&self) -> Vec<(Tok, Seen)> {
                let mut out = vec![];
                for k in [$($k, $ck),*] {
                    for i in 0..SLOTS {
                        let t = Tok { kind: k, idx: i as u8 };
                        out.push((t, self.seen(t)));
                    }
                }
                out
            }

            pub fn clear_caches(&mut self) { $(self.$c = Default::default();)* }
        }

        $(
            impl Read<Id<$k>> for Ctx {
                type Buffer = $B;
                fn read(&self, i: Id<$k>) -> Option<$B> {
                    self.reads.set(self.reads.get() + 1);
                    self.hit($k, i.0);
                    self.$f[i.0 as usize].clone().map(|s| s.unwrap())
                }
                fn read_spec(&self, i: Id<$k>) -> Option<Spec<$B>> {
                    self.reads.set(self.reads.get() + 1);
                    self.hit($k, i.0);
                    self.$f[i.0 as usize].clone()
                }
                fn read_shape(&self, i: Id<$k>) -> Option<<$B as Shaped>::Shape> {
                    self.reads.set(self.reads.get() + 1);
                    self.$f[i.0 as usize].as_ref().map(|s| s.shape())
                }
            }
            impl Read<Id<$ck>> for Ctx {
                type Buffer = $B;
                fn read(&self, i: Id<$ck>) -> Option<$B> {
                    self.reads.set(self.reads.get() + 1);
                    self.$c[i.0 as usize].clone().map(|s| s.unwrap())
                }
            }
            impl Write<Id<$ck>> for Ctx {
                fn write(&mut self, i: Id<$ck>, v: $B) {
                    self.writes += 1;
                    self.$c[i.0 as usize] = Some(Spec::Raw(v));
                }
            }
        )*
    };
}

contexts! {
    s 0 cs 16 f64;
    t 1 ct 17 (f64, f64);
    v2 2 cv2 18 [f64; 2];
    v3 3 cv3 19 [f64; 3];
    m22 4 cm22 20 [[f64; 2]; 2];
    m23 5 cm23 21 [[f64; 3]; 2];
    m32 6 cm32 22 [[f64; 2]; 3];
    m33 7 cm33 23 [[f64; 3]; 3];
    d 8 cd 24 Vec<f64>;
}

impl AsMut<Ctx> for Ctx {
    fn as_mut(&mut self) -> &mut Ctx { self }
}

impl Context for Ctx {}
