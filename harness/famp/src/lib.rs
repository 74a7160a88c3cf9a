//! Plain evaluation: expressions over every value type.
#![allow(clippy::all)]
use aegir::buffers::Buffer;
use aegir::meta::{Cached, Constant, Variable};
use aegir::ops::{self, special, trig};
use aegir::{Identifier, Node};
use expr::ast::{Ast, Kind, Leaf, Op, Un};
use expr::erase::{Wrap, N0};
use expr::ids::{Flat64, Id};
use std::rc::Rc;

/// A node of any value type.
#[derive(Clone)]
pub enum Any {
    S(N0<f64>),
    T(N0<(f64, f64)>),
    V2(N0<[f64; 2]>),
    V3(N0<[f64; 3]>),
    M22(N0<[[f64; 2]; 2]>),
    M23(N0<[[f64; 3]; 2]>),
    M32(N0<[[f64; 2]; 3]>),
    M33(N0<[[f64; 3]; 3]>),
    D(N0<Vec<f64>>),
}

pub use expr::face::{Dyn, Face, Out, SpecOut};

#[macro_export]
macro_rules! each {
    ($a:expr, $n:ident => $e:expr) => {
        match $a {
            $crate::Any::S($n) => $e,
            $crate::Any::T($n) => $e,
            $crate::Any::V2($n) => $e,
            $crate::Any::V3($n) => $e,
            $crate::Any::M22($n) => $e,
            $crate::Any::M23($n) => $e,
            $crate::Any::M32($n) => $e,
            $crate::Any::M33($n) => $e,
            $crate::Any::D($n) => $e,
        }
    };
}

impl Any {
    pub fn face(self) -> Dyn { each!(self, n => Rc::new(n)) }
}

/// The library's expression, uniformly.
pub fn face(a: &Ast) -> Dyn { build(a).face() }

/// The element-wise operators.
pub fn un<V: Buffer<Field = f64> + 'static>(u: Un, x: N0<V>, meth: bool) -> N0<V> {
    macro_rules! w {
        ($e:expr) => {
            N0::wrap($e)
        };
    }
    match u {
        Un::SubOne => w!(ops::SubOne(x)),
        Un::OneSub => w!(ops::OneSub(x)),
        Un::AddOne => w!(ops::AddOne(x)),
        Un::Square if meth => w!(x.squared()),
        Un::Square => w!(ops::Square(x)),
        Un::Double => w!(ops::Double(x)),
        Un::Negate if meth => w!(x.neg()),
        Un::Negate => w!(ops::Negate(x)),
        Un::Sign => w!(ops::Sign(x)),
        Un::Abs if meth => w!(x.abs()),
        Un::Abs => w!(ops::Abs(x)),
        Un::Ln if meth => w!(x.ln()),
        Un::Ln => w!(ops::Ln(x)),
        Un::XLnX => w!(ops::XLnX(x)),
        Un::Exp => w!(ops::Exp(x)),
        Un::Rabbit => w!(ops::Rabbit(x)),
        Un::Sigmoid if meth => w!(x.sigmoid()),
        Un::Sigmoid => w!(ops::Sigmoid(x)),
        Un::Cos => w!(trig::Cos(x)),
        Un::Sin => w!(trig::Sin(x)),
        Un::Gamma => w!(special::Gamma(x)),
        Un::LogGamma => w!(special::LogGamma(x)),
        Un::Factorial => w!(special::Factorial::factorial(x)),
        Un::Dirac => w!(ops::Dirac(x)),
        Un::Cosh => w!(trig::Cosh(x)),
        Un::ArcCos => w!(trig::ArcCos(x)),
        Un::ArcCosh => w!(trig::ArcCosh(x)),
        Un::Sinh => w!(trig::Sinh(x)),
        Un::ArcSin => w!(trig::ArcSin(x)),
        Un::ArcSinh => w!(trig::ArcSinh(x)),
        Un::Tan => w!(trig::Tan(x)),
        Un::Tanh => w!(trig::Tanh(x)),
        Un::ArcTan => w!(trig::ArcTan(x)),
        Un::ArcTanh => w!(trig::ArcTanh(x)),
        Un::DiGamma => w!(special::DiGamma(x)),
        Un::Erf => w!(special::Erf(x)),
        Un::Erfc if meth => w!(special::Erf(x).complement()),
        Un::Erfc => w!(special::Erfc::erfc(x)),
    }
}

fn constant<V: Flat64>(l: &Leaf, meth: bool) -> N0<V> {
    match (l, meth) {
        (Leaf::Raw(d, xs), true) => N0::wrap(V::unflat(d, xs).into_constant()),
        (Leaf::Raw(d, xs), false) => N0::wrap(Constant(V::unflat(d, xs))),
        (l, _) => N0::wrap(Constant(l.spec::<V>())),
    }
}

/// `$X op $Y -> $Z` arms of the element-wise binary operators.
macro_rules! zip_arms {
    ($op:expr, $l:expr, $r:expr, $m:expr; $($X:ident $Y:ident => $Z:ident),* $(,)?) => {
        match ($op, $l, $r) {
            $(
                (Op::Add, Any::$X(a), Any::$Y(b)) => Any::$Z(if $m { N0::wrap(a.add(b)) } else { N0::wrap(ops::Add(a, b)) }),
                (Op::Sub, Any::$X(a), Any::$Y(b)) => Any::$Z(if $m { N0::wrap(a.sub(b)) } else { N0::wrap(ops::Sub(a, b)) }),
                (Op::Mul, Any::$X(a), Any::$Y(b)) => Any::$Z(if $m { N0::wrap(a.mul(b)) } else { N0::wrap(ops::Mul(a, b)) }),
                (Op::Div, Any::$X(a), Any::$Y(b)) => Any::$Z(if $m { N0::wrap(a.div(b)) } else { N0::wrap(ops::Div(a, b)) }),
            )*
            _ => unreachable!("harness: untyped operands"),
        }
    };
}

macro_rules! dot_arms {
    ($ax:literal, $l:expr, $r:expr, $m:expr; $($X:ident $Y:ident => $Z:ident),* $(,)?) => {
        match ($l, $r) {
            $((Any::$X(a), Any::$Y(b)) => Any::$Z(
                if $m && $ax == 1 { N0::wrap(ops::Contract::<$ax, _, _>::new(a, b)) } else { N0::wrap(ops::Contract::<$ax, _, _>(a, b)) }
            ),)*
            _ => unreachable!("harness: untyped operands"),
        }
    };
}

/// Build the library's expression.
pub fn build(a: &Ast) -> Any {
    let arg = |i: usize| build(&a.args[i]);
    let m = a.meth;
    macro_rules! by_kind {
        ($k:ident => $e:expr) => {
            match a.kind {
                Kind::S => Any::S({ const $k: u8 = 0; $e }),
                Kind::T => Any::T({ const $k: u8 = 1; $e }),
                Kind::V2 => Any::V2({ const $k: u8 = 2; $e }),
                Kind::V3 => Any::V3({ const $k: u8 = 3; $e }),
                Kind::M22 => Any::M22({ const $k: u8 = 4; $e }),
                Kind::M23 => Any::M23({ const $k: u8 = 5; $e }),
                Kind::M32 => Any::M32({ const $k: u8 = 6; $e }),
                Kind::M33 => Any::M33({ const $k: u8 = 7; $e }),
                Kind::D => Any::D({ const $k: u8 = 8; $e }),
            }
        };
    }
    match &a.op {
        Op::Var(i) => by_kind!(K => if m { N0::wrap(Id::<K>(*i).into_var()) } else { N0::wrap(Variable(Id::<K>(*i))) }),
        Op::Const(l) => by_kind!(_K => constant(l, m)),
        Op::Un(u) => match arg(0) {
            Any::S(x) => Any::S(un(*u, x, m)),
            Any::T(x) => Any::T(un(*u, x, m)),
            Any::V2(x) => Any::V2(un(*u, x, m)),
            Any::V3(x) => Any::V3(un(*u, x, m)),
            Any::M22(x) => Any::M22(un(*u, x, m)),
            Any::M23(x) => Any::M23(un(*u, x, m)),
            Any::M32(x) => Any::M32(un(*u, x, m)),
            Any::M33(x) => Any::M33(un(*u, x, m)),
            Any::D(x) => Any::D(un(*u, x, m)),
        },
        Op::Sum => each!(arg(0), x => Any::S(if m { N0::wrap(x.sum()) } else { N0::wrap(ops::Sum(x)) })),
        Op::Cached(i) => {
            macro_rules! c {
                ($($X:ident $k:literal),*) => {
                    match arg(0) {
                        $(Any::$X(x) => Any::$X(if m { N0::wrap(x.cached(Id::<$k>(*i))) } else { N0::wrap(Cached { node: x, ident: Id::<$k>(*i) }) }),)*
                    }
                };
            }
            c!(S 16, T 17, V2 18, V3 19, M22 20, M23 21, M32 22, M33 23, D 24)
        },
        Op::Pow => match (arg(0), arg(1)) {
            (Any::S(x), Any::S(y)) => Any::S(if m { N0::wrap(x.pow(y)) } else { N0::wrap(ops::Power(x, y)) }),
            _ => unreachable!("harness: untyped operands"),
        },
        Op::C0 => dot_arms!(0, arg(0), arg(1), m;
            S S => S, S V2 => V2, S V3 => V3, V2 S => V2, V3 S => V3,
            S M22 => M22, S M23 => M23, S M32 => M32, S M33 => M33,
            M22 S => M22, M23 S => M23, M32 S => M32, M33 S => M33,
            V2 V2 => M22, V2 V3 => M23, V3 V2 => M32, V3 V3 => M33),
        Op::C1 if m => match (arg(0), arg(1)) {
            (Any::S(x), Any::S(y)) => Any::S(N0::wrap(x.dot(y))),
            (Any::V2(x), Any::V2(y)) => Any::S(N0::wrap(x.dot(y))),
            (Any::V3(x), Any::V3(y)) => Any::S(N0::wrap(x.dot(y))),
            (l, r) => dot1(l, r, m),
        },
        Op::C1 => dot1(arg(0), arg(1), m),
        op => zip_arms!(op, arg(0), arg(1), m;
            S S => S, S V2 => V2, S V3 => V3, S M22 => M22, S M23 => M23, S M32 => M32, S M33 => M33, S D => D,
            V2 S => V2, V3 S => V3, M22 S => M22, M23 S => M23, M32 S => M32, M33 S => M33, D S => D,
            V2 V2 => V2, V3 V3 => V3, M22 M22 => M22, M23 M23 => M23, M32 M32 => M32, M33 M33 => M33, D D => D, T T => T),
    }
}

fn dot1(l: Any, r: Any, m: bool) -> Any {
    dot_arms!(1, l, r, m;
        S S => S, V2 V2 => S, V3 V3 => S,
        M22 V2 => V2, M33 V3 => V3,
        V2 M22 => V2, V2 M23 => V3, V3 M32 => V2, V3 M33 => V3,
        M22 M22 => M22, M22 M23 => M23, M23 M32 => M22, M23 M33 => M23,
        M32 M22 => M32, M32 M23 => M33, M33 M32 => M32, M33 M33 => M33)
}
