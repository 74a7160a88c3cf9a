//! Reading a printed expression with ordinary operator precedence, and evaluating what it says.
use expr::num::{Ball, Num};
use std::collections::BTreeMap;

/// Extent of the vectors.
pub const N: usize = 2;

#[derive(Clone, Debug)]
pub enum T {
    Num(f64),
    Var(String),
    Neg(Box<T>),
    Bin(char, Box<T>, Box<T>),
    Fun(String, Box<T>),
    Abs(Box<T>),
    Dot(Box<T>, Box<T>),
    Sum(Box<T>),
}

struct P {
    s: Vec<char>,
    at: usize,
}

type Res<X> = Result<X, String>;

impl P {
    fn ws(&mut self) {
        while self.s.get(self.at).is_some_and(|c| c.is_whitespace()) {
            self.at += 1;
        }
    }

    fn peek(&mut self) -> Option<char> {
        self.ws();
        self.s.get(self.at).copied()
    }

    fn eat(&mut self, c: char) -> Res<()> {
        match self.peek() {
            Some(d) if d == c => {
                self.at += 1;
                Ok(())
            },
            o => Err(format!("expected {:?} at character {}, found {:?}", c, self.at, o)),
        }
    }

    fn expr(&mut self) -> Res<T> {
        let mut l = self.term()?;
        while let Some(c @ ('+' | '-')) = self.peek() {
            self.at += 1;
            l = T::Bin(c, Box::new(l), Box::new(self.term()?));
        }
        Ok(l)
    }

    fn term(&mut self) -> Res<T> {
        let mut l = self.unary()?;
        while let Some(c @ ('∘' | '⊗' | '/')) = self.peek() {
            self.at += 1;
            l = T::Bin(if c == '/' { '/' } else { '*' }, Box::new(l), Box::new(self.unary()?));
        }
        Ok(l)
    }

    fn unary(&mut self) -> Res<T> {
        if self.peek() == Some('-') {
            self.at += 1;
            return Ok(T::Neg(Box::new(self.unary()?)));
        }
        let b = self.atom()?;
        if self.peek() == Some('^') {
            self.at += 1;
            return Ok(T::Bin('^', Box::new(b), Box::new(self.unary()?)));
        }
        Ok(b)
    }

    fn atom(&mut self) -> Res<T> {
        let Some(c) = self.peek() else { return Err("the text ends where an operand is expected".into()) };
        match c {
            '(' => {
                self.at += 1;
                let x = self.expr()?;
                self.eat(')')?;
                Ok(x)
            },
            '|' => {
                self.at += 1;
                let x = self.expr()?;
                self.eat('|')?;
                Ok(T::Abs(Box::new(x)))
            },
            '⟨' => {
                self.at += 1;
                let x = self.expr()?;
                self.eat(',')?;
                let y = self.expr()?;
                self.eat('⟩')?;
                Ok(T::Dot(Box::new(x), Box::new(y)))
            },
            'Σ' => {
                self.at += 1;
                for c in ['_', 'i', '('] {
                    self.eat(c)?;
                }
                let x = self.expr()?;
                for c in [')', '_', 'i'] {
                    self.eat(c)?;
                }
                Ok(T::Sum(Box::new(x)))
            },
            '½' => {
                self.at += 1;
                Ok(T::Num(0.5))
            },
            'π' => {
                self.at += 1;
                Ok(T::Num(std::f64::consts::PI))
            },
            '𝑒' => {
                self.at += 1;
                Ok(T::Num(std::f64::consts::E))
            },
            c if c.is_ascii_digit() => {
                let from = self.at;
                while self.s.get(self.at).is_some_and(|c| c.is_ascii_digit() || *c == '.') {
                    self.at += 1;
                }
                // An exponent, as of "1e-7".
                if self.s.get(self.at) == Some(&'e') {
                    self.at += 1;
                    if self.s.get(self.at) == Some(&'-') {
                        self.at += 1;
                    }
                    while self.s.get(self.at).is_some_and(|c| c.is_ascii_digit()) {
                        self.at += 1;
                    }
                }
                let t: String = self.s[from..self.at].iter().collect();
                t.parse().map(T::Num).map_err(|_| format!("malformed number {:?}", t))
            },
            c if c.is_alphabetic() => {
                let from = self.at;
                while self.s.get(self.at).is_some_and(|c| c.is_alphanumeric() || *c == '_') {
                    self.at += 1;
                }
                let name: String = self.s[from..self.at].iter().collect();
                if self.s.get(self.at) == Some(&'(') {
                    self.at += 1;
                    let x = self.expr()?;
                    self.eat(')')?;
                    return Ok(T::Fun(name, Box::new(x)));
                }
                Ok(T::Var(name))
            },
            c => Err(format!("unexpected {:?} at character {}", c, self.at)),
        }
    }
}

pub fn parse(s: &str) -> Res<T> {
    let mut p = P { s: s.chars().collect(), at: 0 };
    let t = p.expr()?;
    match p.peek() {
        None => Ok(t),
        Some(c) => Err(format!("unexpected {:?} at character {}", c, p.at)),
    }
}

/// Scalars (one entry) or vectors (two).
pub type Val = Vec<Ball>;

/// Why a text has no value to compare.
#[derive(Debug)]
pub enum Stop {
    /// Outside of a function's domain, on a discontinuity or too large.
    Undefined,
    /// The text says something that cannot be read.
    Unreadable(String),
}

fn ok(b: Ball) -> Result<Ball, Stop> {
    if b.v.is_finite() && b.e.is_finite() && b.v.abs() < 1e9 && b.e < 1e-6 * (1.0 + b.v.abs()) { Ok(b) } else { Err(Stop::Undefined) }
}

fn zip(l: &Val, r: &Val, f: impl Fn(&Ball, &Ball) -> Result<Ball, Stop>) -> Result<Val, Stop> {
    let n = l.len().max(r.len());
    (0..n).map(|i| ok(f(&l[i % l.len()], &r[i % r.len()])?)).collect()
}

/// The value lies on one side of `c` for sure.
fn apart(b: &Ball, c: f64) -> bool { (b.v - c).abs() > 2.0 * b.e + 1e-12 || (b.v == c && b.e == 0.0) }

fn pow(b: &Ball, e: &Ball) -> Result<Ball, Stop> {
    if e.e == 0.0 && e.v.fract() == 0.0 && e.v.abs() <= 40.0 {
        if e.v <= 0.0 && !(b.v.abs() > 2.0 * b.e + 1e-9) && !(e.v == 0.0) {
            return Err(Stop::Undefined);
        }
        return Ok(b.powi(e.v as i32));
    }
    if b.v == 0.0 && b.e == 0.0 && e.v > 2.0 * e.e {
        return Ok(Ball::exact(0.0));
    }
    if b.v > 1e-6 && b.v > 4.0 * b.e {
        return Ok(e.mul(&b.ln()).exp());
    }
    Err(Stop::Undefined)
}

fn fun(name: &str, x: &Ball) -> Result<Ball, Stop> {
    let need = |c: bool| if c { Ok(()) } else { Err(Stop::Undefined) };
    let v = x.v;
    Ok(match name {
        "ln" => {
            need(v > 1e-9 && v > 4.0 * x.e)?;
            x.ln()
        },
        "σ" => x.sigmoid(),
        "sgn" => {
            need(apart(x, 0.0))?;
            Ball::exact(if v > 0.0 {
                1.0
            } else if v < 0.0 {
                -1.0
            } else {
                0.0
            })
        },
        "δ" => {
            need(v != 0.0 && apart(x, 0.0))?;
            Ball::exact(0.0)
        },
        "sin" => x.sin(),
        "cos" => x.cos(),
        "tan" => x.sin().div(&x.cos()),
        "sinh" => {
            need(v.abs() < 20.0)?;
            x.other(f64::sinh, f64::cosh)
        },
        "cosh" => {
            need(v.abs() < 20.0)?;
            x.other(f64::cosh, f64::sinh)
        },
        "tanh" => x.other(f64::tanh, |_| 1.0),
        "asin" => {
            need(v.abs() < 1.0 - 1e-6 || (v.abs() == 1.0 && x.e == 0.0))?;
            if v.abs() == 1.0 { Ball::exact(v * std::f64::consts::FRAC_PI_2) } else { x.other(f64::asin, |x| 1.0 / (1.0 - x * x).sqrt()) }
        },
        "acos" => {
            need(v.abs() < 1.0 - 1e-6 || (v.abs() == 1.0 && x.e == 0.0))?;
            if v.abs() == 1.0 { Ball::exact(v.acos()) } else { x.other(f64::acos, |x| 1.0 / (1.0 - x * x).sqrt()) }
        },
        "atan" => x.other(f64::atan, |_| 1.0),
        "asinh" => x.other(|x| x.signum() * (x.abs() + (x * x + 1.0).sqrt()).ln(), |_| 1.0),
        "acosh" => {
            need(v > 1.0 + 1e-6)?;
            x.other(|x| (x + ((x - 1.0) * (x + 1.0)).sqrt()).ln(), |x| 1.0 / (x * x - 1.0).sqrt())
        },
        "atanh" => {
            need(v.abs() < 1.0 - 1e-6)?;
            x.other(|x| 0.5 * ((1.0 + x) / (1.0 - x)).ln(), |x| 1.0 / (1.0 - x * x))
        },
        "Γ" => {
            need(v > 0.05 && v < 12.0)?;
            x.gamma()
        },
        "lnΓ" => {
            need(v > 0.05 && v < 1e4)?;
            x.lgamma()
        },
        "ψ" => {
            need(v > 0.05 && v < 1e4)?;
            x.digamma()
        },
        "erf" => x.other(expr::num::special::erf, |_| 1.2),
        _ => return Err(Stop::Unreadable(format!("there is no function {:?}", name))),
    })
}

pub fn eval(t: &T, env: &BTreeMap<String, Vec<f64>>) -> Result<Val, Stop> {
    Ok(match t {
        T::Num(x) => {
            // The named numbers are rounded.
            let e = if x.fract() == 0.0 || x * 4.0 == (x * 4.0).trunc() { 0.0 } else { 1e-16 * x.abs() };
            vec![Ball { v: *x, e }]
        },
        T::Var(n) => match env.get(n) {
            Some(v) => v.iter().map(|x| Ball::exact(*x)).collect(),
            None if n == "inf" || n == "NaN" => return Err(Stop::Undefined),
            None => return Err(Stop::Unreadable(format!("there is no variable {:?}", n))),
        },
        T::Neg(x) => eval(x, env)?.iter().map(|b| b.neg()).collect(),
        T::Bin(c, l, r) => {
            let (l, r) = (eval(l, env)?, eval(r, env)?);
            zip(&l, &r, |a, b| {
                Ok(match c {
                    '+' => a.add(b),
                    '-' => a.sub(b),
                    '*' => a.mul(b),
                    '/' => {
                        if !(b.v.abs() > 4.0 * b.e + 1e-9) {
                            return Err(Stop::Undefined);
                        }
                        a.div(b)
                    },
                    _ => pow(a, b)?,
                })
            })?
        },
        T::Fun(f, x) => {
            let x = eval(x, env)?;
            x.iter().map(|b| ok(fun(f, b)?)).collect::<Result<Val, Stop>>()?
        },
        T::Abs(x) => eval(x, env)?.iter().map(|b| Ball { v: b.v.abs(), e: b.e }).collect(),
        T::Dot(l, r) => {
            let (l, r) = (eval(l, env)?, eval(r, env)?);
            let mut s = Ball::exact(0.0);
            for i in 0..N {
                s = s.add(&l[i % l.len()].mul(&r[i % r.len()]));
            }
            vec![ok(s)?]
        },
        T::Sum(x) => {
            let x = eval(x, env)?;
            let mut s = Ball::exact(0.0);
            for b in &x {
                s = s.add(b);
            }
            vec![ok(s)?]
        },
    })
}
