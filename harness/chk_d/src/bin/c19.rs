//! C19: special functions satisfy their defining identities over their whole domain.
#![allow(clippy::all)]
#[macro_use]
extern crate aegir;
use aegir::buffers::{shapes::{ShapeOf, Shaped}, Buffer, IntoSpec, Scalar, Spec};
use aegir::ops::{self, special, trig};
use aegir::{Context, Function, Identifier, Node, Read};
use chk_d::reference as rf;
use expr::ast::{Un, UNS};
use expr::num::special as sp;
use harness::tape::{any_f64, Tape};
use harness::{main_check, Case, Check, Known, Stats, Sub};
use num_traits::{real::Real, Float, Pow};
use serde_json::json;
use special_fun::FloatSpecial;
use std::fmt::Debug;

type R = Result<(), String>;

ids! { X::x }

// ------------------------------------------------------------------ precisions

trait Fl: Scalar + Float + Real + FloatSpecial + Pow<Self, Output = Self> + Debug + Copy + 'static {
    const NAME: &'static str;
    const SINGLE: bool;
    /// Relative and absolute rounding unit of comparisons.
    const U: f64;
    fn of(x: f64) -> Self;
    fn wide(self) -> f64;
    fn bits(self) -> u64;
    fn next(self) -> Self;
}

impl Fl for f64 {
    const NAME: &'static str = "f64";
    const SINGLE: bool = false;
    const U: f64 = f64::EPSILON;
    fn of(x: f64) -> f64 { x }
    fn wide(self) -> f64 { self }
    fn bits(self) -> u64 { self.to_bits() }
    fn next(self) -> f64 { if self == f64::INFINITY { self } else if self == 0.0 { 5e-324 } else if self > 0.0 { f64::from_bits(self.to_bits() + 1) } else { f64::from_bits(self.to_bits() - 1) } }
}

impl Fl for f32 {
    const NAME: &'static str = "f32";
    const SINGLE: bool = true;
    const U: f64 = f32::EPSILON as f64;
    fn of(x: f64) -> f32 { x as f32 }
    fn wide(self) -> f64 { self as f64 }
    fn bits(self) -> u64 { self.to_bits() as u64 }
    fn next(self) -> f32 { if self == f32::INFINITY { self } else if self == 0.0 { f32::from_bits(1) } else if self > 0.0 { f32::from_bits(self.to_bits() + 1) } else { f32::from_bits(self.to_bits() - 1) } }
}

fn same<F: Fl>(a: F, b: F) -> bool { a.bits() == b.bits() || (a.is_nan() && b.is_nan()) }

// ------------------------------------------------------------------ evaluation

/// A context with one variable.
#[derive(Clone)]
struct One<B: Buffer>(Spec<B>);

impl<B: Buffer> AsMut<One<B>> for One<B> {
    fn as_mut(&mut self) -> &mut One<B> { self }
}

impl<B: Buffer> Context for One<B> {}

impl<B: Buffer + IntoSpec> Read<X> for One<B> {
    type Buffer = B;
    fn read(&self, _: X) -> Option<B> { Some(self.0.clone().unwrap()) }
    fn read_spec(&self, _: X) -> Option<Spec<B>> { Some(self.0.clone()) }
    fn read_shape(&self, _: X) -> Option<ShapeOf<B>> { Some(aegir::buffers::shapes::Shaped::shape(&self.0)) }
}

/// Evaluate an operator on a buffer: its value and its structured value, expanded.
fn apply<F: Fl, B: Buffer<Field = F> + IntoSpec>(u: Un, meth: bool, x: Spec<B>) -> (B, B) {
    let x = &mut One(x);
    let v = X.into_var();
    macro_rules! go {
        ($e:expr) => {{
            let e = $e;
            let value = match e.evaluate(&mut *x) {
                Ok(v) => v,
                Err(e) => unreachable!("harness: {:?}", e),
            };
            let spec = match e.evaluate_spec(&mut *x) {
                Ok(v) => v,
                Err(e) => unreachable!("harness: {:?}", e),
            };
            (value, spec.unwrap())
        }};
    }
    match u {
        Un::SubOne => go!(ops::SubOne(v)),
        Un::OneSub => go!(ops::OneSub(v)),
        Un::AddOne => go!(ops::AddOne(v)),
        Un::Square if meth => go!(v.squared()),
        Un::Square => go!(ops::Square(v)),
        Un::Double => go!(ops::Double(v)),
        Un::Negate if meth => go!(v.neg()),
        Un::Negate => go!(ops::Negate(v)),
        Un::Sign => go!(ops::Sign(v)),
        Un::Abs if meth => go!(v.abs()),
        Un::Abs => go!(ops::Abs(v)),
        Un::Ln if meth => go!(v.ln()),
        Un::Ln => go!(ops::Ln(v)),
        Un::XLnX => go!(ops::XLnX(v)),
        Un::Exp => go!(ops::Exp(v)),
        Un::Rabbit => go!(ops::Rabbit(v)),
        Un::Sigmoid if meth => go!(v.sigmoid()),
        Un::Sigmoid => go!(ops::Sigmoid(v)),
        Un::Cos => go!(trig::Cos(v)),
        Un::Sin => go!(trig::Sin(v)),
        Un::Gamma => go!(special::Gamma(v)),
        Un::LogGamma => go!(special::LogGamma(v)),
        Un::Factorial => go!(special::Factorial::factorial(v)),
        Un::Dirac => go!(ops::Dirac(v)),
        Un::Cosh => go!(trig::Cosh(v)),
        Un::ArcCos => go!(trig::ArcCos(v)),
        Un::ArcCosh => go!(trig::ArcCosh(v)),
        Un::Sinh => go!(trig::Sinh(v)),
        Un::ArcSin => go!(trig::ArcSin(v)),
        Un::ArcSinh => go!(trig::ArcSinh(v)),
        Un::Tan => go!(trig::Tan(v)),
        Un::Tanh => go!(trig::Tanh(v)),
        Un::ArcTan => go!(trig::ArcTan(v)),
        Un::ArcTanh => go!(trig::ArcTanh(v)),
        Un::DiGamma => go!(special::DiGamma(v)),
        Un::Erf => go!(special::Erf(v)),
        Un::Erfc if meth => go!(special::Erf(v).complement()),
        Un::Erfc => go!(special::Erfc::erfc(v)),
    }
}

/// An operator on a scalar.
fn at<F: Fl>(u: Un, x: F) -> F { apply::<F, F>(u, false, Spec::Raw(x)).0 }

// ------------------------------------------------------------------ the functions

/// Arguments that an operator is defined at and this check judges.
fn domain<F: Fl>(u: Un, x: f64) -> bool {
    match u {
        Un::Ln => x >= 0.0,
        Un::XLnX => x >= 0.0,
        Un::ArcCos | Un::ArcSin | Un::ArcTanh => x.abs() <= 1.0,
        Un::ArcCosh => x >= 1.0,
        // The library that the program is linked with loses large arguments (assumption).
        Un::Sin | Un::Cos | Un::Tan => x.abs() <= if F::SINGLE { 8000.0 } else { 1e6 },
        // Known finding exp-edge.
        Un::Exp => !F::SINGLE || (x - 88.725).abs() > 0.005,
        Un::Sinh | Un::Cosh => !F::SINGLE || x.abs() < 88.72 || x.abs() > 89.5,
        // Not at the poles; where the underlying functions are accurate.
        Un::Gamma => (x > 0.0 || (x > -30.0 && x.fract().abs() > 1e-3 && x.fract().abs() < 0.999)) && x.abs() >= 1e-30,
        Un::Factorial => x > -1.0 + 1e-3,
        // Close to its overflow the library gives up early.
        Un::LogGamma => x >= 1e-30 && x <= if F::SINGLE { 1e36 } else { 1e305 },
        Un::DiGamma => (x > 0.0 && x >= 1e-30) || (x > -30.0 && x.fract().abs() > 1e-2 && x.fract().abs() < 0.99),
        _ => true,
    }
}

/// The mathematical function with a bound on the acceptable error.
fn reference<F: Fl>(u: Un, x: f64) -> (f64, f64) {
    let inf = x.is_infinite();
    let v = match u {
        Un::SubOne => x - 1.0,
        Un::OneSub => 1.0 - x,
        Un::AddOne => x + 1.0,
        Un::Square => x * x,
        Un::Double => x + x,
        Un::Negate => -x,
        Un::Sign => if x == 0.0 { 0.0 } else if x > 0.0 { 1.0 } else { -1.0 },
        Un::Abs => if x < 0.0 { -x } else { x },
        Un::Ln => rf::ln(x),
        Un::XLnX => if x == 0.0 { 0.0 } else { x * rf::ln(x) },
        Un::Exp => rf::exp(x),
        Un::Rabbit => x * (1.0 - x),
        Un::Sigmoid => rf::logistic(x),
        Un::Cos => rf::cos(x),
        Un::Sin => rf::sin(x),
        Un::Tan => rf::tan(x),
        Un::Gamma => gamma(x),
        Un::Factorial => gamma(x + 1.0),
        Un::LogGamma => if inf { x } else { sp::lgamma(x) },
        Un::DiGamma => if inf { x } else { sp::digamma(x) },
        Un::Dirac => if x == 0.0 { f64::INFINITY } else { 0.0 },
        Un::Cosh => rf::cosh(x),
        Un::Sinh => rf::sinh(x),
        Un::Tanh => rf::tanh(x),
        Un::ArcCos => rf::acos(x),
        Un::ArcSin => rf::asin(x),
        Un::ArcTan => rf::atan(x),
        Un::ArcCosh => rf::acosh(x),
        Un::ArcSinh => rf::asinh(x),
        Un::ArcTanh => rf::atanh(x),
        Un::Erf => sp::erf(x),
        Un::Erfc => 1.0 - sp::erf(x),
    };
    // Errors relative to the value, in units of rounding, and absolute ones where terms cancel.
    let (rel, abs) = match u {
        Un::Negate | Un::Double | Un::Sign | Un::Abs | Un::Dirac => (0.0, 0.0),
        Un::SubOne | Un::OneSub | Un::AddOne | Un::Square | Un::Rabbit => (4.0, 0.0),
        // The cancellation near one.
        Un::Ln | Un::XLnX => (16.0, 0.0),
        Un::Exp => (16.0 + 2.0 * x.abs(), 0.0),
        Un::Sigmoid => (16.0 + if x < 0.0 { 2.0 * x.abs() } else { 0.0 }, 0.0),
        Un::Sin | Un::Tan if x.abs() < 0.5 => (64.0, 0.0),
        Un::Sin | Un::Cos => (16.0, 16.0 + 4.0 * x.abs()),
        Un::Tan => (32.0 + (16.0 + 4.0 * x.abs()) * (v.abs() + 1.0 / v.abs().max(1e-300)), 0.0),
        Un::Cosh | Un::Sinh => (64.0 + 4.0 * x.abs(), 0.0),
        Un::Tanh | Un::ArcTan | Un::ArcSinh => (64.0, 0.0),
        Un::ArcSin => (64.0, 0.0),
        Un::ArcCos => (64.0, 16.0),
        Un::ArcCosh => (64.0, 64.0 / (x - 1.0).max(1e-30).sqrt().min(1.0)),
        // The standard library's formula is not symmetric.
        Un::ArcTanh if x.abs() < 0.25 => (64.0, 0.0),
        Un::ArcTanh => (64.0, 16.0 / (1.0 - x.abs()).max(1e-300)),
        Un::Gamma => (256.0 + 16.0 * x.abs() * if x < 0.0 { 64.0 } else { 1.0 }, 0.0),
        Un::Factorial => (512.0 + 16.0 * x.abs() + if x < 0.0 { 8.0 / (1.0 + x) } else { 0.0 }, 0.0),
        Un::LogGamma => (64.0, 256.0),
        Un::DiGamma => (64.0, 256.0 + if x < 0.0 { 1e6 } else { 0.0 }),
        Un::Erf => (64.0, 0.0),
        Un::Erfc => (64.0, 64.0),
    };
    // Subnormal results are coarse.
    let tiny = if F::SINGLE { 4.0 * 1.2e-38 * F::U * 8.0 } else { 64.0 * 5e-324 };
    let rel = if rel == 0.0 { 0.0 } else { rel * F::U * v.abs() + tiny };
    (v, rel + abs * F::U)
}

fn gamma(x: f64) -> f64 {
    if x > 172.0 {
        return f64::INFINITY;
    }
    if x < 1e-20 && x > 0.0 {
        return 1.0 / x;
    }
    sp::gamma(x)
}

/// The largest finite value stands for an overflow in the underlying library.
fn huge<F: Fl>(x: f64) -> bool { x.abs() >= <F as Float>::max_value().wide() * (1.0 - 1e-6) }

/// Known finding ends-single: the stand-ins of the linked Cephes library for infinite logarithms in single precision.
fn recorded<F: Fl>(u: Un, x: f64, g: f64) -> bool {
    let stands = |v: f64| (g - v).abs() <= 1e-5 * v.abs();
    F::SINGLE && match u {
        Un::Ln => (x == 0.0 && stands(-103.278_93)) || (x == f64::INFINITY && stands(88.722_84)),
        Un::DiGamma => x == f64::INFINITY && stands(88.722_84),
        Un::ArcSinh => x.is_infinite() && stands(89.415_985_f64.copysign(x)),
        Un::ArcCosh => x == f64::INFINITY && stands(89.415_985),
        _ => false,
    }
}

fn right<F: Fl>(u: Un, x: F, got: F) -> Result<bool, String> {
    let (want, tol) = reference::<F>(u, x.wide());
    let g = got.wide();
    let bad = || format!("{:?}({:?}) is {:?} instead of {:?} (± {:e}) in {}", u, x, got, want, tol, F::NAME);
    if want.is_nan() {
        return Ok(false);
    }
    if g == want {
        return Ok(true);
    }
    if recorded::<F>(u, x.wide(), g) {
        return Ok(false);
    }
    if huge::<F>(want * (1.0 + 256.0 * F::U) ) || huge::<F>(want) {
        // (Almost) out of range: an overflow of the right sign.
        return if huge::<F>(g * (1.0 + 1e-3)) && g.signum() == want.signum() || tol.is_finite() && (g - want).abs() <= tol { Ok(true) } else { Err(bad()) };
    }
    if (g - want).abs() <= tol { Ok(true) } else { Err(bad()) }
}

// ------------------------------------------------------------------ arguments

/// Points near which functions change their character.
const NEAR: [f64; 24] = [
    0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 1.461_632_144_968_362_3, 3.0, -2.0, 709.782_712_893_384, -745.133_219_101_941_1, 88.722_839, -103.972_08, 36.7, -36.7,
    171.624, 35.04, 20.0, 1.570_796_326_794_896_6, 3.141_592_653_589_793, 10.0, 33.0, -708.4, 100.0,
];

fn arg<F: Fl>(t: &mut Tape, u: Un) -> F {
    let m = t.u();
    let w = t.u();
    let x = match m % 8 {
        0 | 1 => any_f64(m / 8, w),
        2 => {
            // Any single-precision bit pattern.
            let x = f32::from_bits(w);
            if x.is_nan() { 0.75 } else { x as f64 }
        },
        3 => NEAR[(m / 8) as usize % NEAR.len()] + (w as f64 / (1u64 << 32) as f64 - 0.5) * 10f64.powi(-((m / 256 % 17) as i32)),
        4 => (w as f64 / (1u64 << 32) as f64 - 0.5) * 2.0,
        5 => (w as f64 / (1u64 << 32) as f64 - 0.5) * 80.0,
        6 => w as f64 / (1u64 << 32) as f64 * 180.0,
        _ => ((w % 61) as f64 - 20.0) / if m / 8 % 2 == 0 { 1.0 } else { 4.0 },
    };
    let mut x = F::of(x);
    if !domain::<F>(u, x.wide()) {
        // Into the domain.
        x = F::of(match u {
            Un::ArcCos | Un::ArcSin | Un::ArcTanh => (w as f64 / (1u64 << 32) as f64 - 0.5) * 2.0,
            Un::ArcCosh => if x.wide() <= -1.0 { -x.wide() } else { 1.0 + x.wide().abs() },
            Un::Sin | Un::Cos | Un::Tan => (w as f64 / (1u64 << 32) as f64 - 0.5) * 1000.0,
            _ => if domain::<F>(u, -x.wide()) { -x.wide() } else { 0.5 + w as f64 / (1u64 << 32) as f64 },
        });
    }
    x
}

fn class<F: Fl>(x: F) -> &'static str {
    let a = Float::abs(x).wide();
    if a == 0.0 {
        if Float::is_sign_negative(x) { "negative zero" } else { "zero" }
    } else if a.is_infinite() {
        "infinite"
    } else if a < <F as Float>::min_positive_value().wide() {
        "subnormal"
    } else if a < 1e-6 {
        "tiny"
    } else if a < 1e3 {
        "ordinary"
    } else {
        "large"
    }
}

/// One operator at four arguments, alone and inside of every buffer.
fn values<F: Fl>(case: &Case, st: &mut Stats) -> R
where
    Vec<F>: Buffer<Field = F> + IntoSpec,
    [F; 4]: Buffer<Field = F> + IntoSpec,
    [[F; 2]; 2]: Buffer<Field = F> + IntoSpec,
    (F, F): Buffer<Field = F> + IntoSpec,
{
    let t = &mut Tape::new(&case.head);
    let u = t.pick(&UNS);
    let meth = t.flag();
    let xs: [F; 4] = [arg(t, u), arg(t, u), arg(t, u), arg(t, u)];

    st.eval();
    st.sample(|| json!({"operator": format!("{:?}", u), "arguments": format!("{:?}", xs), "precision": F::NAME}));
    let mut ys = [F::of(0.0); 4];
    for (i, &x) in xs.iter().enumerate() {
        if !domain::<F>(u, x.wide()) {
            st.label("argument outside of the domain");
        }
        let (y, s) = apply::<F, F>(u, meth, Spec::Raw(x));
        if u == Un::Abs && Float::is_sign_negative(y) {
            return Err(format!("Abs({:?}) is {:?} in {}", x, y, F::NAME));
        }
        if !same(y, s) {
            return Err(format!("{:?}({:?}) is {:?} but structured {:?} in {}", u, x, y, s, F::NAME));
        }
        ys[i] = y;
        if domain::<F>(u, x.wide()) && right(u, x, y)? {
            st.label(format!("{:?} {}", u, class(x)));
            st.nontrivial(&(u as u8, x.bits(), F::SINGLE));
        }
    }
    // The same function in every buffer.
    let each = |what: &str, got: &[F], want: &[F]| -> R {
        for (g, w) in got.iter().zip(want) {
            if !same(*g, *w) {
                return Err(format!("{:?} of {:?} inside {} is {:?} instead of {:?} in {}", u, xs, what, got, want, F::NAME));
            }
        }
        if got.len() != want.len() { Err(format!("{:?} inside {} has {} entries", u, what, got.len())) } else { Ok(()) }
    };
    let (a, b) = apply::<F, [F; 4]>(u, meth, Spec::Raw(xs));
    each("an array", &a, &ys)?;
    each("a structured array", &b, &ys)?;
    let (a, b) = apply::<F, Vec<F>>(u, meth, Spec::Raw(xs.to_vec()));
    each("a vector", &a, &ys)?;
    each("a structured vector", &b, &ys)?;
    let (a, b) = apply::<F, (F, F)>(u, meth, Spec::Raw((xs[1], xs[0])));
    each("a pair", &[a.0, a.1], &[ys[1], ys[0]])?;
    each("a structured pair", &[b.0, b.1], &[ys[1], ys[0]])?;
    let (a, b) = apply::<F, [[F; 2]; 2]>(u, meth, Spec::Raw([[xs[3], xs[1]], [xs[0], xs[2]]]));
    let flat = |m: [[F; 2]; 2]| [m[0][0], m[0][1], m[1][0], m[1][1]];
    each("a matrix", &flat(a), &[ys[3], ys[1], ys[0], ys[2]])?;
    each("a structured matrix", &flat(b), &[ys[3], ys[1], ys[0], ys[2]])?;
    let (a, b) = apply::<F, [F; 4]>(u, meth, Spec::Full(Shaped::shape(&xs), xs[2]));
    each("a uniform array", &a, &[ys[2]; 4])?;
    each("a structured uniform array", &b, &[ys[2]; 4])?;
    if u == Un::Sigmoid {
        for (x, y) in xs.iter().zip(&ys) {
            if !same(ops::sigmoid(*x), *y) {
                return Err(format!("sigmoid({:?}) is {:?} as a function and {:?} as an operator", x, ops::sigmoid(*x), y));
            }
        }
    }
    Ok(())
}

/// The logistic function: range, symmetry, monotonicity.
fn logistic<F: Fl>(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let x: F = arg(t, Un::Sigmoid);
    let y: F = match t.below(3) {
        0 => x.next(),
        1 => arg(t, Un::Sigmoid),
        _ => x + Float::abs(x) * F::of(t.val().abs() * 1e-3),
    };
    let y = if y.is_nan() { x } else { y };
    let (lo, hi) = if x <= y { (x, y) } else { (y, x) };
    st.eval();
    st.nontrivial(&(lo.bits(), hi.bits(), F::SINGLE));
    st.label(format!("{} and {}", class(lo), class(hi)));
    st.sample(|| json!({"lower": format!("{:?}", lo), "upper": format!("{:?}", hi), "precision": F::NAME}));
    let u = F::of(8.0 * F::U);
    for f in [ops::sigmoid::<F> as fn(F) -> F, |x| at(Un::Sigmoid, x)] {
        let (a, b) = (f(lo), f(hi));
        for (x, s) in [(lo, a), (hi, b)] {
            if s.is_nan() || !(s >= F::of(0.0) && s <= F::of(1.0)) {
                return Err(format!("sigmoid({:?}) is {:?} in {}", x, s, F::NAME));
            }
            let m = f(-x);
            if !(Float::abs(s + m - F::of(1.0)) <= u) {
                return Err(format!("sigmoid({:?}) is {:?} but sigmoid({:?}) is {:?} in {}", x, s, -x, m, F::NAME));
            }
        }
        if a > b + u * b {
            return Err(format!("sigmoid({:?}) is {:?} but sigmoid({:?}) is {:?} in {}", lo, a, hi, b, F::NAME));
        }
        if f(F::of(f64::INFINITY)) != F::of(1.0) || f(F::of(f64::NEG_INFINITY)) != F::of(0.0) || f(F::of(0.0)) != F::of(0.5) || f(F::of(-0.0)) != F::of(0.5) {
            return Err(format!("sigmoid at the infinities and zero: {:?} {:?} {:?}", f(F::of(f64::INFINITY)), f(F::of(f64::NEG_INFINITY)), f(F::of(0.0))));
        }
    }
    Ok(())
}

const IDENTITIES: usize = 24;

/// Both sides of an identity, a scale for the comparison, or nothing outside of its domain.
fn identity<F: Fl>(k: usize, t: &mut Tape) -> Option<(&'static str, F, f64, f64, f64)> {
    let f = |u: Un, x: F| at::<F>(u, x).wide();
    let one = F::of(1.0);
    let within = |x: F, lo: f64, hi: f64| (x.wide() >= lo && x.wide() <= hi).then_some(x);
    let m = f64::max;
    Some(match k {
        0 => {
            let x = within(arg::<F>(t, Un::Gamma), 1e-6, if F::SINGLE { 33.0 } else { 169.0 })?;
            let (a, b) = (f(Un::Gamma, x + one), x.wide() * f(Un::Gamma, x));
            ("Γ(x + 1) = x Γ(x)", x, a, b, 4096.0 * b.abs())
        },
        1 => {
            let x = within(arg::<F>(t, Un::LogGamma), 1e-6, 1e6)?;
            let (a, b, c) = (f(Un::LogGamma, x + one), f(Un::LogGamma, x), f(Un::Ln, x));
            ("lnΓ(x + 1) = lnΓ(x) + ln(x)", x, a, b + c, 512.0 * (1.0 + b.abs() + c.abs() + x.wide() * rf::ln(x.wide() + 2.0)))
        },
        2 => {
            let x = within(arg::<F>(t, Un::DiGamma), 1e-6, 1e6)?;
            let (a, b) = (f(Un::DiGamma, x + one), f(Un::DiGamma, x));
            ("ψ(x + 1) = ψ(x) + 1/x", x, a, b + 1.0 / x.wide(), 512.0 * (1.0 + b.abs() + 1.0 / x.wide()))
        },
        3 => {
            let x = within(arg::<F>(t, Un::Gamma), 0.05, 0.95)?;
            let a = f(Un::Gamma, x) * f(Un::Gamma, one - x);
            let b = std::f64::consts::PI / rf::sin(std::f64::consts::PI * x.wide());
            ("Γ(x) Γ(1 - x) = π / sin(πx)", x, a, b, 4096.0 * b)
        },
        4 => {
            let x = within(arg::<F>(t, Un::Gamma), 0.01, if F::SINGLE { 30.0 } else { 160.0 })?;
            let (a, b) = (f(Un::LogGamma, x), rf::ln(f(Un::Gamma, x)));
            ("lnΓ(x) = ln(Γ(x))", x, a, b, 2048.0 * (1.0 + b.abs() + x.wide()))
        },
        5 => {
            let n = t.below(if F::SINGLE { 30 } else { 150 });
            let x = F::of(n as f64);
            let b = (1..=n).map(|i| i as f64).product::<f64>();
            ("n! = 1 2 ... n", x, f(Un::Factorial, x), b, (512.0 + 16.0 * n as f64) * b)
        },
        6 => {
            let x = arg::<F>(t, Un::Erf);
            ("erf(-x) = -erf(x)", x, f(Un::Erf, -x), -f(Un::Erf, x), 4.0 * f(Un::Erf, x).abs())
        },
        7 => {
            let x = arg::<F>(t, Un::Erf);
            ("erf(x) + erfc(x) = 1", x, f(Un::Erf, x) + f(Un::Erfc, x), 1.0, 4.0)
        },
        8 => {
            let x = arg::<F>(t, Un::Sin);
            let (s, c) = (f(Un::Sin, x), f(Un::Cos, x));
            ("sin² + cos² = 1", x, s * s + c * c, 1.0, 64.0)
        },
        9 => {
            let x = arg::<F>(t, Un::Tan);
            let (s, c) = (f(Un::Sin, x), f(Un::Cos, x));
            if c.abs() < 1e-2 {
                return None;
            }
            ("tan = sin / cos", x, f(Un::Tan, x), s / c, (64.0 + 8.0 * x.wide().abs()) / c.powi(2))
        },
        10 => {
            let x = within(arg::<F>(t, Un::Sinh), -8.0, 8.0)?;
            let (s, c) = (f(Un::Sinh, x), f(Un::Cosh, x));
            ("cosh² - sinh² = 1", x, c * c - s * s, 1.0, 512.0 * c * c)
        },
        11 => {
            let x = within(arg::<F>(t, Un::Tanh), -40.0, 40.0)?;
            let (s, c) = (f(Un::Sinh, x), f(Un::Cosh, x));
            ("tanh = sinh / cosh", x, f(Un::Tanh, x), s / c, 512.0 * (s / c).abs())
        },
        12 => {
            let x = arg::<F>(t, Un::ArcSin);
            ("sin(asin(x)) = x", x, f(Un::Sin, at(Un::ArcSin, x)), x.wide(), 64.0)
        },
        13 => {
            let x = arg::<F>(t, Un::ArcCos);
            ("cos(acos(x)) = x", x, f(Un::Cos, at(Un::ArcCos, x)), x.wide(), 64.0)
        },
        14 => {
            let x = within(arg::<F>(t, Un::ArcTan), -1e3, 1e3)?;
            ("tan(atan(x)) = x", x, f(Un::Tan, at(Un::ArcTan, x)), x.wide(), 64.0 * (x.wide().abs() + x.wide().powi(2)))
        },
        15 => {
            let x = arg::<F>(t, Un::ArcSin);
            ("asin(x) + acos(x) = π/2", x, f(Un::ArcSin, x) + f(Un::ArcCos, x), std::f64::consts::FRAC_PI_2, 64.0)
        },
        16 => {
            let x = within(arg::<F>(t, Un::ArcSinh), -1e6, 1e6)?;
            ("sinh(asinh(x)) = x", x, f(Un::Sinh, at(Un::ArcSinh, x)), x.wide(), 1024.0 * x.wide().abs())
        },
        17 => {
            let x = within(arg::<F>(t, Un::ArcCosh), 1.0, 1e6)?;
            ("cosh(acosh(x)) = x", x, f(Un::Cosh, at(Un::ArcCosh, x)), x.wide(), 1024.0 * x.wide())
        },
        18 => {
            let x = within(arg::<F>(t, Un::ArcTanh), -0.999, 0.999)?;
            ("tanh(atanh(x)) = x", x, f(Un::Tanh, at(Un::ArcTanh, x)), x.wide(), 512.0)
        },
        19 => {
            let x = within(arg::<F>(t, Un::Ln), 1e-30, 1e30)?;
            ("exp(ln(x)) = x", x, f(Un::Exp, at(Un::Ln, x)), x.wide(), 512.0 * x.wide())
        },
        20 => {
            let x = within(arg::<F>(t, Un::Exp), -80.0, 80.0)?;
            ("ln(exp(x)) = x", x, f(Un::Ln, at(Un::Exp, x)), x.wide(), 64.0 * (1.0 + x.wide().abs()))
        },
        21 => {
            // x ln(x) near zero: small, negative and vanishing.
            let x = F::of(2f64.powi(-(t.below(if F::SINGLE { 140 } else { 1060 }) as i32)) * (0.5 + t.u() as f64 / (1u64 << 33) as f64));
            let y = f(Un::XLnX, x);
            let bound = 2.0 * x.wide().sqrt();
            ("|x ln(x)| <= 2 √x", x, if y.abs() <= bound { bound } else { y.abs() }, bound, 1.0 * bound)
        },
        22 => {
            let x = arg::<F>(t, Un::Abs);
            ("sgn(x) |x| = x", x, if x.is_infinite() || x.wide() == 0.0 { x.wide() } else { f(Un::Sign, x) * f(Un::Abs, x) }, x.wide(), 0.0)
        },
        _ => {
            let x = within(arg::<F>(t, Un::Sigmoid), -80.0, 80.0)?;
            let s = at(Un::Sigmoid, x);
            ("σ'(x): σ(x) (1 - σ(x)) = rabbit(σ(x))", x, f(Un::Rabbit, s), s.wide() * (1.0 - s.wide()), m(4.0 * s.wide(), 0.0))
        },
    })
}

fn identities<F: Fl>(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let k = t.below(IDENTITIES);
    st.eval();
    let Some((name, x, a, b, units)) = identity::<F>(k, t) else {
        st.label("outside of the identity's domain");
        return Ok(());
    };
    st.label(name);
    st.sample(|| json!({"identity": name, "at": format!("{:?}", x), "sides": [a, b], "precision": F::NAME}));
    if a == b || (a - b).abs() <= units * F::U {
        st.nontrivial(&(k, x.bits(), F::SINGLE));
        return Ok(());
    }
    // Values beyond the range.
    if huge::<F>(a) && huge::<F>(b) {
        return Ok(());
    }
    Err(format!("{} fails at {:?} in {}: {:?} and {:?}", name, x, F::NAME, a, b))
}

/// The last draw decides about the precision.
fn single(case: &Case) -> bool { case.head.last().copied().unwrap_or(0) % 2 == 1 }

fn values_any(c: &Case, st: &mut Stats) -> R { if single(c) { values::<f32>(c, st) } else { values::<f64>(c, st) } }
/// Outside of the domain of a real function there is no value: not a number, never a plausible figure. Neither is there
/// one for what is not a number to begin with.
fn outside<F: Fl>(case: &Case, st: &mut Stats) -> R
where
    [F; 2]: Buffer<Field = F> + IntoSpec,
{
    let t = &mut Tape::new(&case.head);
    let (u, nan) = if t.below(3) == 0 { (t.pick(&UNS), true) } else { (t.pick(&[Un::ArcSin, Un::ArcCos, Un::ArcCosh, Un::ArcTanh]), false) };
    let meth = t.flag();
    let x: F = if nan {
        F::nan()
    } else {
        let w = t.u();
        let far = match t.below(4) {
            0 => F::infinity(),
            1 => F::of(1.0).next(),
            2 => F::of(1.0 + 10f64.powf(w as f64 / (1u64 << 32) as f64 * 60.0 - 30.0)),
            _ => F::of(1.0 + w as f64 / (1u64 << 30) as f64),
        };
        let far = if far > F::of(1.0) { far } else { F::of(1.5) };
        if u == Un::ArcCosh { F::of(2.0) - far } else if t.flag() { -far } else { far }
    };
    st.eval();
    if !nan && domain::<F>(u, x.wide()) {
        return Ok(());
    }
    if nan && matches!(u, Un::Sign | Un::Dirac) {
        return Ok(());
    }
    st.label(format!("{:?} {}", u, if nan { "of NaN" } else { class(x) }));
    st.nontrivial(&(u as u8, x.bits(), F::SINGLE));
    st.sample(|| json!({"operator": format!("{:?}", u), "argument": format!("{:?}", x), "precision": F::NAME}));
    let (a, b) = apply::<F, F>(u, meth, Spec::Raw(x));
    let (c, d) = apply::<F, [F; 2]>(u, meth, Spec::Raw([x, x]));
    for y in [a, b, c[0], d[1]] {
        if !y.is_nan() {
            return Err(format!("{:?}({:?}) is {:?} in {}", u, x, y, F::NAME));
        }
    }
    Ok(())
}

// In double precision: the linked Cephes library has stand-ins for NaN in single precision (assumption).
fn outside_any(c: &Case, st: &mut Stats) -> R { outside::<f64>(c, st) }
fn logistic_any(c: &Case, st: &mut Stats) -> R { if single(c) { logistic::<f32>(c, st) } else { logistic::<f64>(c, st) } }
fn identities_any(c: &Case, st: &mut Stats) -> R { if single(c) { identities::<f32>(c, st) } else { identities::<f64>(c, st) } }

fn main() {
    main_check(Check {
        id: "C19",
        rule: "an evaluation is one case: an operator at four arguments (alone, structured, in an array, vector, pair, matrix and uniform array), a pair of arguments of the logistic function, or an identity at an argument. Distinct non-trivial: distinct (operator or identity, argument bits, precision) whose value was compared with the mathematical function",
        assumptions: vec![
            "reference values come from series written out in the harness (chk_d::reference, expr::num::special), accurate to about 1e-14",
            "arguments are judged inside of each operator's mathematical domain and away from its poles; Γ and ψ of negative arguments down to -30",
            "sine, cosine and tangent are judged up to |x| = 1e6 (f64) and 8000 (f32): known finding trig-large",
            "what inverse functions do outside of their domain is judged in double precision: the linked Cephes library has finite stand-ins in single precision",
            "the largest finite value is accepted as an overflow",
        ],
        subs: vec![
            Sub { name: "values", quick: 3_000_000, thorough: 60_000_000, head: (12, 12), prog: (0, 0), f: values_any },
            Sub { name: "logistic", quick: 2_000_000, thorough: 40_000_000, head: (8, 8), prog: (0, 0), f: logistic_any },
            Sub { name: "identities", quick: 2_000_000, thorough: 40_000_000, head: (6, 6), prog: (0, 0), f: identities_any },
            Sub { name: "outside", quick: 200_000, thorough: 4_000_000, head: (8, 8), prog: (0, 0), f: outside_any },
        ],
        known: vec![
            Known {
                key: "trig-large",
                probe: || {
                    let (s, c, t) = (at(Un::Sin, std::hint::black_box(1e10f64)), at(Un::Cos, std::hint::black_box(1e10f64)), at(Un::Tan, std::hint::black_box(1e10f64)));
                    (s == 0.0 && c == 0.0 && t == 0.0).then(|| format!("Sin, Cos and Tan of 1e10 are {:?}, {:?} and {:?}: the linked Cephes library replaces the system's functions and gives up at large arguments", s, c, t))
                },
            },
            Known {
                key: "ends-single",
                probe: || {
                    let (l, a) = (at(Un::Ln, std::hint::black_box(f32::INFINITY)), at(Un::ArcSinh, std::hint::black_box(f32::INFINITY)));
                    (l.is_finite() && a.is_finite()).then(|| format!("Ln and ArcSinh of infinity in single precision are {:?} and {:?}: the linked Cephes library's logf has no infinities", l, a))
                },
            },
            Known {
                key: "exp-edge",
                probe: || {
                    let (e, c) = (at(Un::Exp, std::hint::black_box(88.722_84f32)), at(Un::Cosh, std::hint::black_box(88.722_84f32)));
                    (e.is_nan() && c.is_nan()).then(|| format!("Exp and Cosh of 88.72284f32 are {:?} and {:?}: the linked Cephes library's expf fails next to its overflow", e, c))
                },
            },
        ],
    })
}
