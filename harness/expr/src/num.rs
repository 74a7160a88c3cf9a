//! Numbers of the reference evaluation: values with an error bound, and truncated Taylor
//! coefficients (nested dual numbers) over them.
use std::fmt::Debug;

/// A value with a bound on the rounding error of a careful floating-point computation of it.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ball {
    pub v: f64,
    pub e: f64,
}

const EPS: f64 = 4e-16;

impl Ball {
    pub fn exact(v: f64) -> Ball { Ball { v, e: 0.0 } }

    fn new(v: f64, e: f64) -> Ball { Ball { v, e: e + EPS * v.abs() } }

    /// Apply a function with derivative bound `d` around the value.
    fn app(self, v: f64, d: f64) -> Ball { Ball::new(v, 1.5 * d.abs() * self.e + 4.0 * EPS * v.abs()) }
}

pub trait Num: Clone + Debug {
    fn cst(v: f64) -> Self;
    fn add(&self, o: &Self) -> Self;
    fn sub(&self, o: &Self) -> Self;
    fn mul(&self, o: &Self) -> Self;
    fn div(&self, o: &Self) -> Self;
    fn neg(&self) -> Self { Self::cst(0.0).sub(self) }
    fn exp(&self) -> Self;
    fn ln(&self) -> Self;
    /// The logistic function; its derivative is taken as s (1 - s), with that formula's cancellation.
    fn sigmoid(&self) -> Self;
    fn sin(&self) -> Self;
    fn cos(&self) -> Self;
    fn gamma(&self) -> Self;
    fn lgamma(&self) -> Self;
    fn digamma(&self) -> Self;
    /// Functions without a derivative in the library: values only.
    fn other(&self, f: fn(f64) -> f64, d: fn(f64) -> f64) -> Self;
    /// The value at the base point.
    fn base(&self) -> f64;
    /// Known to be independent of every target.
    fn is_const(&self) -> bool;
    fn is_zero(&self) -> bool;

    fn powi(&self, n: i32) -> Self {
        let mut out = Self::cst(1.0);
        for _ in 0..n.unsigned_abs() {
            out = out.mul(self);
        }
        if n < 0 { Self::cst(1.0).div(&out) } else { out }
    }
}

impl Num for Ball {
    fn cst(v: f64) -> Ball { Ball::exact(v) }

    fn add(&self, o: &Ball) -> Ball { Ball::new(self.v + o.v, self.e + o.e) }

    fn sub(&self, o: &Ball) -> Ball { Ball::new(self.v - o.v, self.e + o.e) }

    fn mul(&self, o: &Ball) -> Ball { Ball::new(self.v * o.v, self.e * o.v.abs() + o.e * self.v.abs() + self.e * o.e) }

    fn div(&self, o: &Ball) -> Ball {
        let v = self.v / o.v;
        Ball::new(v, 1.1 * (self.e + v.abs() * o.e) / (o.v.abs() - o.e).max(1e-300))
    }

    fn neg(&self) -> Ball { Ball { v: -self.v, e: self.e } }

    fn exp(&self) -> Ball { self.app(self.v.exp(), self.v.exp()) }

    fn ln(&self) -> Ball {
        let b = self.app(self.v.ln(), 1.0 / self.v);
        Ball { v: b.v, e: b.e + EPS }
    }

    fn sigmoid(&self) -> Ball {
        let one = Ball::exact(1.0);
        if self.v >= 0.0 {
            one.div(&one.add(&self.neg().exp()))
        } else {
            let z = self.exp();
            z.div(&one.add(&z))
        }
    }

    fn sin(&self) -> Ball {
        let b = self.app(self.v.sin(), 1.0);
        Ball { v: b.v, e: b.e + EPS }
    }

    fn cos(&self) -> Ball {
        let b = self.app(self.v.cos(), 1.0);
        Ball { v: b.v, e: b.e + EPS }
    }

    fn gamma(&self) -> Ball {
        let g = special::gamma(self.v);
        let b = self.app(g, g * special::digamma(self.v));
        Ball { v: b.v, e: b.e + if self.v > 0.0 { 1e-14 } else { 1e-12 } * g.abs() }
    }

    fn lgamma(&self) -> Ball {
        let b = self.app(special::lgamma(self.v), special::digamma(self.v));
        Ball { v: b.v, e: b.e + if self.v > 0.0 { 1e-14 } else { 1e-12 } }
    }

    fn digamma(&self) -> Ball {
        let b = self.app(special::digamma(self.v), special::trigamma(self.v));
        Ball { v: b.v, e: b.e + if self.v > 0.0 { 1e-14 } else { 1e-11 } }
    }

    fn other(&self, f: fn(f64) -> f64, d: fn(f64) -> f64) -> Ball {
        let b = self.app(f(self.v), d(self.v));
        Ball { v: b.v, e: b.e + 4.0 * EPS }
    }

    fn base(&self) -> f64 { self.v }

    fn is_const(&self) -> bool { self.e == 0.0 }

    fn is_zero(&self) -> bool { self.v == 0.0 && self.e == 0.0 }
}

/// `a + b ε` with `ε² = 0`.
#[derive(Clone, Debug)]
pub struct D<T> {
    pub a: T,
    pub b: T,
}

impl<T: Num> D<T> {
    fn app(&self, v: T, d: T) -> D<T> { D { a: v, b: self.b.mul(&d) } }
}

impl<T: Num> Num for D<T> {
    fn cst(v: f64) -> Self { D { a: T::cst(v), b: T::cst(0.0) } }

    fn add(&self, o: &Self) -> Self { D { a: self.a.add(&o.a), b: self.b.add(&o.b) } }

    fn sub(&self, o: &Self) -> Self { D { a: self.a.sub(&o.a), b: self.b.sub(&o.b) } }

    fn mul(&self, o: &Self) -> Self { D { a: self.a.mul(&o.a), b: self.a.mul(&o.b).add(&self.b.mul(&o.a)) } }

    fn div(&self, o: &Self) -> Self {
        let q = self.a.div(&o.a);
        D { b: self.b.sub(&q.mul(&o.b)).div(&o.a), a: q }
    }

    fn neg(&self) -> Self { D { a: self.a.neg(), b: self.b.neg() } }

    fn exp(&self) -> Self { self.app(self.a.exp(), self.a.exp()) }

    fn ln(&self) -> Self { self.app(self.a.ln(), T::cst(1.0).div(&self.a)) }

    fn sigmoid(&self) -> Self {
        let s = self.a.sigmoid();
        self.app(s.clone(), s.mul(&T::cst(1.0).sub(&s)))
    }

    fn sin(&self) -> Self { self.app(self.a.sin(), self.a.cos()) }

    fn cos(&self) -> Self { self.app(self.a.cos(), self.a.sin().neg()) }

    fn gamma(&self) -> Self { self.app(self.a.gamma(), self.a.gamma().mul(&self.a.digamma())) }

    fn lgamma(&self) -> Self { self.app(self.a.lgamma(), self.a.digamma()) }

    fn digamma(&self) -> Self { unreachable!("harness: second derivative of a gamma function") }

    fn other(&self, _: fn(f64) -> f64, _: fn(f64) -> f64) -> Self { unreachable!("harness: derivative of a non-differentiable operator") }

    fn base(&self) -> f64 { self.a.base() }

    fn is_const(&self) -> bool { self.a.is_const() && self.b.is_zero() }

    fn is_zero(&self) -> bool { self.a.is_zero() && self.b.is_zero() }
}

/// A value with its derivatives in several directions.
#[derive(Clone, Debug)]
pub struct Grad<T = Ball> {
    pub a: T,
    pub b: Vec<T>,
}

impl<T: Num> Grad<T> {
    fn app(&self, v: T, d: T) -> Grad<T> { Grad { a: v, b: self.b.iter().map(|x| x.mul(&d)).collect() } }

    fn lin(&self, o: &Grad<T>, a: T, f: impl Fn(&T, &T) -> T) -> Grad<T> {
        let z = T::cst(0.0);
        let n = self.b.len().max(o.b.len());
        Grad { a, b: (0..n).map(|i| f(self.b.get(i).unwrap_or(&z), o.b.get(i).unwrap_or(&z))).collect() }
    }
}

impl<T: Num> Num for Grad<T> {
    fn cst(v: f64) -> Self { Grad { a: T::cst(v), b: vec![] } }

    fn add(&self, o: &Self) -> Self { self.lin(o, self.a.add(&o.a), |x, y| x.add(y)) }

    fn sub(&self, o: &Self) -> Self { self.lin(o, self.a.sub(&o.a), |x, y| x.sub(y)) }

    fn mul(&self, o: &Self) -> Self { self.lin(o, self.a.mul(&o.a), |x, y| x.mul(&o.a).add(&self.a.mul(y))) }

    fn div(&self, o: &Self) -> Self {
        let q = self.a.div(&o.a);
        self.lin(o, q.clone(), |x, y| x.sub(&q.mul(y)).div(&o.a))
    }

    fn neg(&self) -> Self { Grad { a: self.a.neg(), b: self.b.iter().map(|x| x.neg()).collect() } }

    fn exp(&self) -> Self { self.app(self.a.exp(), self.a.exp()) }

    fn ln(&self) -> Self { self.app(self.a.ln(), T::cst(1.0).div(&self.a)) }

    fn sigmoid(&self) -> Self {
        let s = self.a.sigmoid();
        self.app(s.clone(), s.mul(&T::cst(1.0).sub(&s)))
    }

    fn sin(&self) -> Self { self.app(self.a.sin(), self.a.cos()) }

    fn cos(&self) -> Self { self.app(self.a.cos(), self.a.sin().neg()) }

    fn gamma(&self) -> Self { self.app(self.a.gamma(), self.a.gamma().mul(&self.a.digamma())) }

    fn lgamma(&self) -> Self { self.app(self.a.lgamma(), self.a.digamma()) }

    fn digamma(&self) -> Self { unreachable!("harness: derivative of digamma") }

    fn other(&self, _: fn(f64) -> f64, _: fn(f64) -> f64) -> Self { unreachable!("harness: derivative of a non-differentiable operator") }

    fn base(&self) -> f64 { self.a.base() }

    fn is_const(&self) -> bool { self.a.is_const() && self.b.iter().all(|x| x.is_zero()) }

    fn is_zero(&self) -> bool { self.a.is_zero() && self.b.iter().all(|x| x.is_zero()) }
}

/// The gamma family and the error function, written independently of the library's dependency.
pub mod special {
    /// ln Γ(x) for x > 0: recurrence up to x >= 15, then Stirling's series.
    pub fn lgamma(x: f64) -> f64 {
        if !(x > 0.0) && x > -150.0 {
            return gamma(x).abs().ln();
        }
        if !(x > 0.0) || x.is_infinite() {
            return f64::NAN;
        }
        let mut shift = 0.0;
        let mut y = x;
        if y < 15.0 {
            let mut p = 1.0;
            while y < 15.0 {
                p *= y;
                y += 1.0;
            }
            shift = p.ln();
        }
        stirling(y) - shift
    }

    fn stirling(y: f64) -> f64 {
        let r = 1.0 / (y * y);
        let s = (1.0 / 12.0
            - r * (1.0 / 360.0
                - r * (1.0 / 1260.0
                    - r * (1.0 / 1680.0 - r * (1.0 / 1188.0 - r * (691.0 / 360360.0 - r * (1.0 / 156.0)))))))
            / y;
        (y - 0.5) * y.ln() - y + 0.918_938_533_204_672_7 + s
    }

    /// Γ(x) for any x that is not a pole.
    pub fn gamma(x: f64) -> f64 {
        if !(x > -180.0 && x < 180.0) {
            return f64::NAN;
        }
        if x > 15.0 {
            // Through the nearest argument in [15, 16) by the recurrence, to keep the precision.
            let n = (x - 15.0).floor();
            let mut g = gamma_small(x - n);
            let mut y = x - n;
            for _ in 0..n as usize {
                g *= y;
                y += 1.0;
            }
            return g;
        }
        gamma_small(x)
    }

    fn gamma_small(x: f64) -> f64 {
        let mut y = x;
        let mut p = 1.0;
        while y < 15.0 {
            p *= y;
            y += 1.0;
        }
        stirling(y).exp() / p
    }

    /// ψ(x) for any x that is not a pole.
    pub fn digamma(x: f64) -> f64 {
        if !x.is_finite() {
            return f64::NAN;
        }
        let mut y = x;
        let mut s = 0.0;
        if x < -20.0 {
            let pi = std::f64::consts::PI;
            return digamma(1.0 - x) - pi / (pi * x).tan();
        }
        while y < 15.0 {
            s += 1.0 / y;
            y += 1.0;
        }
        let r = 1.0 / (y * y);
        y.ln() - 0.5 / y
            - r * (1.0 / 12.0
                - r * (1.0 / 120.0
                    - r * (1.0 / 252.0 - r * (1.0 / 240.0 - r * (1.0 / 132.0 - r * (691.0 / 32760.0 - r / 12.0))))))
            - s
    }

    pub fn trigamma(x: f64) -> f64 {
        if !(x > -180.0) || x.is_infinite() {
            return f64::NAN;
        }
        let mut y = x;
        let mut s = 0.0;
        while y < 15.0 {
            s += 1.0 / (y * y);
            y += 1.0;
        }
        let r = 1.0 / (y * y);
        1.0 / y + r / 2.0 + r / y * (1.0 / 6.0 - r * (1.0 / 30.0 - r * (1.0 / 42.0 - r / 30.0))) + s
    }

    /// erf(x), by the Taylor series for small and a continued fraction for large arguments.
    pub fn erf(x: f64) -> f64 {
        if x.is_nan() {
            return x;
        }
        let z = x.abs();
        if z > 6.0 {
            return x.signum();
        }
        if z < 2.5 {
            // 2/√π e^{-x²} Σ 2^n x^{2n+1} / (1·3·5···(2n+1))
            let mut term = z;
            let mut sum = z;
            let mut n = 0.0;
            while term > 1e-18 * sum {
                n += 1.0;
                term *= 2.0 * z * z / (2.0 * n + 1.0);
                sum += term;
                if n > 300.0 {
                    break;
                }
            }
            return x.signum() * 1.128_379_167_095_512_6 * (-z * z).exp() * sum;
        }
        x.signum() * (1.0 - erfc_large(z))
    }

    /// erfc(z) for z >= 2.5.
    pub fn erfc_large(z: f64) -> f64 {
        let mut f = 0.0;
        for k in (1..=120).rev() {
            f = k as f64 / 2.0 / (z + f);
        }
        (-z * z).exp() / (z + f) * 0.564_189_583_547_756_3
    }

    pub fn erfc(x: f64) -> f64 {
        if x > 2.5 {
            erfc_large(x)
        } else {
            1.0 - erf(x)
        }
    }
}

#[cfg(test)]
mod tests {
    use super::special::*;
    #[test]
    fn values() {
        let close = |a: f64, b: f64| assert!((a - b).abs() < 1e-13 * (1.0 + b.abs()), "{} {}", a, b);
        close(gamma(0.5), std::f64::consts::PI.sqrt());
        close(gamma(5.0), 24.0);
        close(gamma(20.0) / 121645100408832000.0, 1.0);
        close(lgamma(0.5), std::f64::consts::PI.sqrt().ln());
        close(digamma(1.0), -0.577_215_664_901_532_9);
        close(digamma(0.5), -1.963_510_026_021_423_5);
        close(trigamma(1.0), 1.644_934_066_848_226_4);
        close(erf(0.5), 0.520_499_877_813_046_5);
        close(erf(2.0), 0.995_322_265_018_952_7);
        close(erf(3.0), 0.999_977_909_503_001_4);
        close(erfc(4.0) * 1e8, 1.541_725_790_028_002);
        close(gamma(-0.5), -3.544_907_701_811_032);
    }
}
