//! Generated expressions, their reference semantics and their generator.
use crate::ids::{Ctx, Flat64, Id, Tok, CACHE};
use crate::num::{Ball, Num};
use aegir::buffers::Spec;
use std::collections::BTreeMap;
use std::rc::Rc;

/// Value types.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    S,
    T,
    V2,
    V3,
    M22,
    M23,
    M32,
    M33,
    D,
}

use Kind::*;

pub const KINDS: [Kind; 9] = [S, T, V2, V3, M22, M23, M32, M33, D];

impl Kind {
    pub fn of(k: u8) -> Kind { KINDS[k as usize] }

    pub fn dims(self) -> Option<Vec<usize>> {
        Some(match self {
            S => vec![],
            T | V2 => vec![2],
            V3 => vec![3],
            M22 => vec![2, 2],
            M23 => vec![2, 3],
            M32 => vec![3, 2],
            M33 => vec![3, 3],
            D => return None,
        })
    }

    pub fn is_vec(self) -> bool { matches!(self, V2 | V3) }

    pub fn is_mat(self) -> bool { matches!(self, M22 | M23 | M32 | M33) }
}

fn mat(n: usize, m: usize) -> Kind {
    match (n, m) {
        (2, 2) => M22,
        (2, 3) => M23,
        (3, 2) => M32,
        _ => M33,
    }
}

fn vec_kind(n: usize) -> Kind { if n == 2 { V2 } else { V3 } }

/// Element-wise operators.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Un {
    SubOne,
    OneSub,
    AddOne,
    Square,
    Double,
    Negate,
    Sign,
    Abs,
    Ln,
    XLnX,
    Exp,
    Rabbit,
    Sigmoid,
    Cos,
    Sin,
    Gamma,
    LogGamma,
    Factorial,
    // Without a derivative:
    Dirac,
    Cosh,
    ArcCos,
    ArcCosh,
    Sinh,
    ArcSin,
    ArcSinh,
    Tan,
    Tanh,
    ArcTan,
    ArcTanh,
    DiGamma,
    Erf,
    Erfc,
}

use Un::*;

pub const UNS: [Un; 32] = [
    SubOne, OneSub, AddOne, Square, Double, Negate, Sign, Abs, Ln, XLnX, Exp, Rabbit, Sigmoid, Cos, Sin, Gamma, LogGamma, Factorial, Dirac,
    Cosh, ArcCos, ArcCosh, Sinh, ArcSin, ArcSinh, Tan, Tanh, ArcTan, ArcTanh, DiGamma, Erf, Erfc,
];

/// How often differentiable (0: not at all).
pub fn un_order(u: Un) -> u32 {
    match u {
        SubOne | OneSub | AddOne | Square | Double | Negate | Ln | XLnX | Exp | Rabbit | Sigmoid | Cos | Sin => 9,
        Abs => 2,
        Sign | Gamma | LogGamma | Factorial => 1,
        _ => 0,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Leaf {
    Raw(Vec<usize>, Vec<f64>),
    Full(Vec<usize>, f64),
    Diag(Vec<usize>, f64),
}

impl Leaf {
    pub fn dims(&self) -> &Vec<usize> {
        match self {
            Leaf::Raw(d, _) | Leaf::Full(d, _) | Leaf::Diag(d, _) => d,
        }
    }

    pub fn flat(&self) -> Vec<f64> {
        match self {
            Leaf::Raw(_, xs) => xs.clone(),
            Leaf::Full(d, x) => vec![*x; d.iter().product()],
            Leaf::Diag(d, x) => {
                if d.len() < 2 {
                    vec![*x; d.iter().product()]
                } else {
                    (0..d.iter().product::<usize>()).map(|i| if i / d[1] == i % d[1] { *x } else { 0.0 }).collect()
                }
            },
        }
    }

    pub fn spec<B: Flat64>(&self) -> Spec<B> {
        match self {
            Leaf::Raw(d, xs) => Spec::Raw(B::unflat(d, xs)),
            Leaf::Full(d, x) => Spec::Full(B::shape_of(d), *x),
            Leaf::Diag(d, x) => Spec::Diagonal(B::shape_of(d), *x),
        }
    }

    pub fn raw(&self) -> Leaf { Leaf::Raw(self.dims().clone(), self.flat()) }

    pub fn show(&self) -> String {
        match self {
            Leaf::Raw(d, xs) if d.is_empty() => format!("{:?}", xs[0]),
            Leaf::Raw(d, xs) => format!("{:?}{:?}", d, xs),
            Leaf::Full(d, x) => format!("full{:?}({:?})", d, x),
            Leaf::Diag(d, x) => format!("diag{:?}({:?})", d, x),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Var(u8),
    Const(Leaf),
    Un(Un),
    Add,
    Sub,
    Mul,
    Div,
    Pow,
    C0,
    C1,
    Sum,
    Cached(u8),
}

#[derive(Debug)]
pub struct Node {
    pub op: Op,
    pub kind: Kind,
    pub args: Vec<Ast>,
    pub size: usize,
    pub depth: usize,
    /// Build through the node's method instead of the operator's constructor.
    pub meth: bool,
}

pub type Ast = Rc<Node>;

pub fn mk(op: Op, kind: Kind, args: Vec<Ast>, meth: bool) -> Ast {
    let size = 1 + args.iter().map(|a| a.size).sum::<usize>();
    let depth = 1 + args.iter().map(|a| a.depth).max().unwrap_or(0);
    Rc::new(Node { op, kind, args, size, depth, meth })
}

pub fn show(a: &Ast) -> String {
    let bin = |s: &str| format!("({} {} {})", show(&a.args[0]), s, show(&a.args[1]));
    match &a.op {
        Op::Var(i) => Tok { kind: a.kind as u8, idx: *i }.name(),
        Op::Const(l) => l.show(),
        Op::Un(u) => format!("{:?}({})", u, show(&a.args[0])),
        Op::Add => bin("+"),
        Op::Sub => bin("-"),
        Op::Mul => bin("*"),
        Op::Div => bin("/"),
        Op::Pow => bin("^"),
        Op::C0 => bin("(x)"),
        Op::C1 => bin("."),
        Op::Sum => format!("sum({})", show(&a.args[0])),
        Op::Cached(s) => format!("cached[{}]({})", s, show(&a.args[0])),
    }
}

/// Identifiers that occur, including cache names.
pub fn toks(a: &Ast, out: &mut std::collections::BTreeSet<Tok>) {
    match a.op {
        Op::Var(i) => {
            out.insert(Tok { kind: a.kind as u8, idx: i });
        },
        Op::Cached(i) => {
            out.insert(Tok { kind: CACHE + a.kind as u8, idx: i });
        },
        _ => {},
    }
    for x in &a.args {
        toks(x, out);
    }
}

/// Count the operators of the tree.
pub fn census(a: &Ast, f: &mut dyn FnMut(&Ast)) {
    f(a);
    for x in &a.args {
        census(x, f);
    }
}

// ------------------------------------------------------------------ reference semantics

#[derive(Clone, Debug)]
pub struct Val<N> {
    pub dims: Vec<usize>,
    pub xs: Vec<N>,
}

/// An error as the library is to report it.
#[derive(Clone, Debug, PartialEq)]
pub struct RefErr {
    pub dbg: String,
    pub disp: String,
}

impl RefErr {
    fn undefined(t: Tok) -> RefErr {
        let id = format!("Id({})", t.name());
        RefErr { dbg: format!("Undefined({})", id), disp: format!("No variable found with identifier {}.", id) }
    }

    fn shapes(l: &[usize], r: &[usize]) -> RefErr {
        RefErr {
            dbg: format!("IncompatibleShapes {{ left: SDynamic({:?}), right: SDynamic({:?}) }}", l, r),
            disp: format!("Buffer shapes are incompatible: SDynamic({:?}) vs SDynamic({:?}).", l, r),
        }
    }

    pub fn at(self, side: &str) -> RefErr { RefErr { dbg: format!("{}({})", side, self.dbg), disp: self.disp } }
}

/// What the variables and the cache slots hold.
#[derive(Clone, Debug)]
pub struct Env<N> {
    pub vars: BTreeMap<Tok, Val<N>>,
    pub caches: BTreeMap<Tok, Val<N>>,
}

pub fn un_num<N: Num>(u: Un, x: &N) -> N {
    let one = N::cst(1.0);
    match u {
        SubOne => x.sub(&one),
        OneSub => one.sub(x),
        AddOne => x.add(&one),
        Square => x.mul(x),
        Double => x.add(x),
        Negate => x.neg(),
        Sign => N::cst(if x.base() > 0.0 {
            1.0
        } else if x.base() < 0.0 {
            -1.0
        } else {
            0.0
        }),
        Abs => {
            if x.base() < 0.0 {
                x.neg()
            } else {
                x.clone()
            }
        },
        Ln => x.ln(),
        XLnX => {
            if x.base() <= 0.0 {
                N::cst(0.0)
            } else {
                x.mul(&x.ln())
            }
        },
        Exp => x.exp(),
        Rabbit => x.mul(&one.sub(x)),
        Sigmoid => x.sigmoid(),
        Cos => x.cos(),
        Sin => x.sin(),
        Gamma => x.gamma(),
        LogGamma => x.lgamma(),
        Factorial => x.add(&one).gamma(),
        Dirac => x.other(|x| if x == 0.0 { f64::INFINITY } else { 0.0 }, |_| 0.0),
        Cosh => x.other(f64::cosh, f64::sinh),
        ArcCos => x.other(f64::acos, |x| 1.0 / (1.0 - x * x).sqrt()),
        ArcCosh => x.other(|x| (x + ((x - 1.0) * (x + 1.0)).sqrt()).ln(), |x| 1.0 / (x * x - 1.0).sqrt()),
        Sinh => x.other(f64::sinh, f64::cosh),
        ArcSin => x.other(f64::asin, |x| 1.0 / (1.0 - x * x).sqrt()),
        ArcSinh => x.other(|x| x.signum() * (x.abs() + (x * x + 1.0).sqrt()).ln(), |_| 1.0),
        Tan => x.other(|x| x.sin() / x.cos(), |x| 1.0 / x.cos().powi(2)),
        Tanh => x.other(f64::tanh, |_| 1.0),
        ArcTan => x.other(f64::atan, |_| 1.0),
        ArcTanh => x.other(|x| 0.5 * ((1.0 + x) / (1.0 - x)).ln(), |x| 1.0 / (1.0 - x * x)),
        DiGamma => x.digamma(),
        Erf => x.other(crate::num::special::erf, |_| 1.2),
        Erfc => N::cst(1.0).sub(&x.other(crate::num::special::erf, |_| 1.2)),
    }
}

pub fn pow_num<N: Num>(b: &N, e: &N) -> N {
    // Integer constants by repeated multiplication (also for bases of any sign), otherwise by definition.
    let k = e.base();
    if e.is_const() && k.fract() == 0.0 && k.abs() <= 16.0 {
        b.powi(k as i32)
    } else if b.is_const() && b.base() == 0.0 {
        N::cst(0.0)
    } else {
        e.mul(&b.ln()).exp()
    }
}

pub fn zip<N: Num>(x: &Val<N>, y: &Val<N>, f: impl Fn(&N, &N) -> N) -> Result<Val<N>, RefErr> {
    if x.dims.is_empty() {
        return Ok(Val { dims: y.dims.clone(), xs: y.xs.iter().map(|b| f(&x.xs[0], b)).collect() });
    }
    if y.dims.is_empty() {
        return Ok(Val { dims: x.dims.clone(), xs: x.xs.iter().map(|a| f(a, &y.xs[0])).collect() });
    }
    if x.dims != y.dims {
        return Err(RefErr::shapes(&x.dims, &y.dims));
    }
    Ok(Val { dims: x.dims.clone(), xs: x.xs.iter().zip(&y.xs).map(|(a, b)| f(a, b)).collect() })
}

/// Contraction over the last `axes` axes of the left and the first ones of the right operand.
pub fn contract<N: Num>(axes: usize, x: &Val<N>, y: &Val<N>) -> Val<N> {
    let axes = axes.min(x.dims.len()).min(y.dims.len());
    let (ox, sx) = x.dims.split_at(x.dims.len() - axes);
    let (_, oy) = y.dims.split_at(axes);
    let k: usize = sx.iter().product();
    let (n, m): (usize, usize) = (ox.iter().product(), oy.iter().product());
    let mut xs = Vec::with_capacity(n * m);
    for i in 0..n {
        for j in 0..m {
            let mut acc = N::cst(0.0);
            for l in 0..k {
                acc = acc.add(&x.xs[i * k + l].mul(&y.xs[l * m + j]));
            }
            xs.push(acc);
        }
    }
    Val { dims: ox.iter().chain(oy).copied().collect(), xs }
}

/// Evaluation with hooks: `c0` and `c1` compute the contractions (so that another reading can be used).
pub struct Sem<N> {
    pub contract: fn(usize, &Val<N>, &Val<N>) -> Val<N>,
}

impl<N: Num> Default for Sem<N> {
    fn default() -> Self { Sem { contract } }
}

impl<N: Num> Sem<N> {
    pub fn eval(&self, a: &Ast, env: &mut Env<N>) -> Result<Val<N>, RefErr> {
        let bin = |env: &mut Env<N>| -> Result<(Val<N>, Val<N>), RefErr> {
            let x = self.eval(&a.args[0], env).map_err(|e| e.at("Left"))?;
            let y = self.eval(&a.args[1], env).map_err(|e| e.at("Right"))?;
            Ok((x, y))
        };
        match &a.op {
            Op::Var(i) => {
                let t = Tok { kind: a.kind as u8, idx: *i };
                env.vars.get(&t).cloned().ok_or_else(|| RefErr::undefined(t))
            },
            Op::Const(l) => Ok(Val { dims: l.dims().clone(), xs: l.flat().iter().map(|x| N::cst(*x)).collect() }),
            Op::Un(u) => {
                let x = self.eval(&a.args[0], env)?;
                Ok(Val { dims: x.dims, xs: x.xs.iter().map(|x| un_num(*u, x)).collect() })
            },
            Op::Add => bin(env).and_then(|(x, y)| zip(&x, &y, |a, b| a.add(b)).map_err(|e| e.at("Output"))),
            Op::Sub => bin(env).and_then(|(x, y)| zip(&x, &y, |a, b| a.sub(b)).map_err(|e| e.at("Output"))),
            Op::Mul => bin(env).and_then(|(x, y)| zip(&x, &y, |a, b| a.mul(b)).map_err(|e| e.at("Output"))),
            Op::Div => bin(env).and_then(|(x, y)| zip(&x, &y, |a, b| a.div(b)).map_err(|e| e.at("Output"))),
            Op::Pow => bin(env).map(|(x, y)| Val { dims: vec![], xs: vec![pow_num(&x.xs[0], &y.xs[0])] }),
            Op::C0 => bin(env).map(|(x, y)| (self.contract)(0, &x, &y)),
            Op::C1 => bin(env).map(|(x, y)| (self.contract)(1, &x, &y)),
            Op::Sum => {
                let x = self.eval(&a.args[0], env)?;
                Ok(Val { dims: vec![], xs: vec![x.xs.iter().fold(N::cst(0.0), |s, x| s.add(x))] })
            },
            Op::Cached(i) => {
                let t = Tok { kind: CACHE + a.kind as u8, idx: *i };
                if let Some(v) = env.caches.get(&t) {
                    return Ok(v.clone());
                }
                let x = self.eval(&a.args[0], env)?;
                env.caches.insert(t, x.clone());
                Ok(x)
            },
        }
    }
}

pub fn eval<N: Num>(a: &Ast, env: &mut Env<N>) -> Result<Val<N>, RefErr> { Sem::default().eval(a, env) }

// ------------------------------------------------------------------ variables

/// The values of the variables of a case.
#[derive(Clone, Debug, Default)]
pub struct Vars(pub BTreeMap<Tok, Leaf>);

impl Vars {
    pub fn ctx(&self) -> Ctx {
        let mut c = Ctx::default();
        for (t, l) in &self.0 {
            set(&mut c, *t, l);
        }
        c
    }

    pub fn env<N: Num>(&self) -> Env<N> {
        let val = |l: &Leaf| Val { dims: l.dims().clone(), xs: l.flat().iter().map(|x| N::cst(*x)).collect() };
        let part = |slots: bool| self.0.iter().filter(|(t, _)| (t.kind >= CACHE) == slots).map(|(t, l)| (*t, val(l))).collect();
        Env { vars: part(false), caches: part(true) }
    }

    pub fn show(&self) -> String { self.0.iter().map(|(t, l)| format!("{} = {}", t, l.show())).collect::<Vec<_>>().join(", ") }
}

pub fn set(c: &mut Ctx, t: Tok, l: &Leaf) {
    let i = t.idx as usize;
    match t.kind {
        0 => c.s[i] = Some(l.spec()),
        1 => c.t[i] = Some(l.spec()),
        2 => c.v2[i] = Some(l.spec()),
        3 => c.v3[i] = Some(l.spec()),
        4 => c.m22[i] = Some(l.spec()),
        5 => c.m23[i] = Some(l.spec()),
        6 => c.m32[i] = Some(l.spec()),
        7 => c.m33[i] = Some(l.spec()),
        8 => c.d[i] = Some(l.spec()),
        16 => c.cs[i] = Some(l.spec()),
        17 => c.ct[i] = Some(l.spec()),
        18 => c.cv2[i] = Some(l.spec()),
        19 => c.cv3[i] = Some(l.spec()),
        20 => c.cm22[i] = Some(l.spec()),
        21 => c.cm23[i] = Some(l.spec()),
        22 => c.cm32[i] = Some(l.spec()),
        23 => c.cm33[i] = Some(l.spec()),
        24 => c.cd[i] = Some(l.spec()),
        _ => unreachable!(),
    }
}

// ------------------------------------------------------------------ typing

/// Expression families, by what the library's types admit.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Family {
    /// Evaluation only, all kinds.
    P,
    /// Differentiable once with respect to scalars, all kinds but dynamic vectors.
    S1,
    /// Differentiable twice with respect to scalars: scalars, vectors and matrices of extent two.
    S2,
    /// Differentiable three times with respect to scalars: scalars only.
    S3,
    /// Differentiable with respect to vectors or matrices of this kind.
    G(Kind),
    /// Scalars and vectors of this kind, differentiable by scalars and by vectors in either order.
    X(Kind),
}

impl Family {
    pub fn order(self) -> u32 {
        match self {
            Family::P => 0,
            Family::S2 | Family::X(_) => 2,
            Family::S3 => 3,
            _ => 1,
        }
    }

    pub fn kinds(self) -> Vec<Kind> {
        match self {
            Family::P => KINDS.to_vec(),
            Family::S1 => KINDS[..8].to_vec(),
            Family::S2 => vec![S, V2, M22],
            Family::S3 => vec![S],
            Family::G(k) if k.is_vec() => vec![S, V2, V3],
            Family::G(k) => vec![S, V2, k],
            Family::X(k) => vec![S, k],
        }
    }

    /// The kinds of targets.
    pub fn targets(self) -> Vec<Kind> {
        match self {
            Family::P => vec![],
            Family::S1 | Family::S2 | Family::S3 => vec![S],
            Family::G(k) => vec![k],
            Family::X(k) => vec![S, k],
        }
    }

    /// Result kind of an operator, when the library's types admit it.
    pub fn un(self, u: Un, k: Kind) -> Option<Kind> {
        if un_order(u) < self.order() {
            return None;
        }
        match self {
            Family::P | Family::S1 | Family::S2 | Family::S3 => Some(k),
            _ if k == S => Some(S),
            _ if matches!(u, SubOne | OneSub | AddOne | Double | Negate) => Some(k),
            _ => None,
        }
    }

    pub fn bin(self, op: &Op, l: Kind, r: Kind) -> Option<Kind> {
        let out = match op {
            Op::Add | Op::Sub | Op::Mul | Op::Div => match self {
                Family::P | Family::S1 | Family::S2 | Family::S3 => match (l, r) {
                    (T, T) => Some(T),
                    (T, _) | (_, T) => None,
                    (S, k) | (k, S) => Some(k),
                    (a, b) if a == b => Some(a),
                    _ => None,
                },
                _ if l == S && r == S => Some(S),
                _ if l == r && matches!(op, Op::Add | Op::Sub) => Some(l),
                _ => None,
            },
            Op::Pow => (l == S && r == S).then_some(S),
            Op::C0 => match self {
                Family::P | Family::S1 | Family::S2 | Family::S3 => match (l, r) {
                    (S, k) | (k, S) if k != T && k != D => Some(k),
                    (a, b) if a.is_vec() && b.is_vec() => Some(mat(a.dims()?[0], b.dims()?[0])),
                    _ => None,
                },
                Family::G(t) | Family::X(t) => match (l, r) {
                    (S, S) => Some(S),
                    // The gradient of the left factor lands on the first axis: typeable when extents agree.
                    (S, k) if k == t && t.is_vec() => Some(k),
                    (k, S) if k.is_vec() && t.is_vec() => Some(k),
                    _ => None,
                },
            },
            Op::C1 => match self {
                Family::P | Family::S1 | Family::S2 | Family::S3 => match (l, r) {
                    (S, S) => Some(S),
                    (a, b) if a.is_vec() && a == b => Some(S),
                    (a, b) if a.is_mat() && b.is_vec() => {
                        let d = a.dims()?;
                        // Non-square: recorded finding r2-r1.
                        (d[0] == d[1] && d[1] == b.dims()?[0]).then(|| vec_kind(d[0]))
                    },
                    (a, b) if a.is_vec() && b.is_mat() => {
                        let d = b.dims()?;
                        (d[0] == a.dims()?[0]).then(|| vec_kind(d[1]))
                    },
                    (a, b) if a.is_mat() && b.is_mat() => {
                        let (d, e) = (a.dims()?, b.dims()?);
                        (d[1] == e[0]).then(|| mat(d[0], e[1]))
                    },
                    _ => None,
                },
                Family::G(t) | Family::X(t) => match (l, r) {
                    (a, b) if a == t && b == t && t.is_vec() => Some(S),
                    _ => None,
                },
            },
            _ => None,
        };
        out.filter(|k| self.kinds().contains(k))
    }

    pub fn sum(self, k: Kind) -> Option<Kind> {
        match self {
            Family::P => Some(S),
            // The derivative of a sum over an array is a recorded finding (sum).
            _ => (k == S).then_some(S),
        }
    }
}

// ------------------------------------------------------------------ domains

/// May `u` be applied to `x` such that it is smooth and well-conditioned there?
pub fn un_ok(u: Un, x: f64, order: u32) -> bool {
    match u {
        Abs | Sign => order == 0 || x.abs() > 0.05,
        Ln => x > 0.02,
        XLnX => (order == 0 && (x <= 0.0 || x > 1e-6)) || x > 0.02,
        Exp => x < 8.0,
        Cosh | Sinh => x.abs() < 8.0,
        Square => x.abs() < 1e3,
        Gamma => x > 0.1 && x < 9.0,
        LogGamma => x > 0.1 && x < 500.0,
        Factorial => x > -0.9 && x < 8.0,
        DiGamma => x > 0.1,
        Dirac => true,
        ArcCos | ArcSin | ArcTanh => x.abs() < 0.97,
        ArcCosh => x > 1.05,
        Tan => x.cos().abs() > 0.1 && x.abs() < 100.0,
        Cos | Sin => x.abs() < 1e3,
        _ => true,
    }
}

/// As `un_ok`, but over (nearly) the whole domain, for the tests of extreme magnitudes.
pub fn un_ok_wide(u: Un, b: &Ball, order: u32) -> bool {
    let x = b.v;
    // Clear of the point where the operator is not smooth.
    let off = |p: f64| (x - p).abs() > 1000.0 * b.e && (b.e == 0.0 || (x - p).abs() > 1e-9 * p.abs());
    let pole = |x: f64| x <= 0.5 && (x - x.round()).abs() < 1e-3;
    match u {
        Abs => order == 0 || (x != 0.0 && off(0.0)),
        Sign => b.e == 0.0 && (order == 0 || x != 0.0) || off(0.0),
        Dirac => b.e == 0.0 || off(0.0),
        Ln | XLnX => x > 1e-290 && off(0.0),
        Exp => x < 200.0,
        Cosh | Sinh => x.abs() < 200.0,
        Square => x.abs() < 1e50,
        Gamma | LogGamma => x > -12.0 && x < 60.0 && !pole(x),
        Factorial => x > -12.0 && x < 60.0 && !pole(x + 1.0),
        DiGamma => x > -12.0 && !pole(x),
        _ => un_ok(u, x, order),
    }
}

/// A value of any magnitude, often an ordinary one.
pub fn wide_val(u: u32) -> f64 {
    let k = u >> 4;
    match u & 15 {
        0..=5 => val(k),
        i => {
            let m = 1.0 + (k >> 8) as f64 / (1u64 << 20) as f64;
            let e = match i {
                6..=9 => -1 - (k % 14) as i32,
                10..=12 => (k % 14) as i32,
                13 | 14 => (k % 5) as i32 - 2,
                _ => (k % 36) as i32 - 18,
            };
            let x = m * 10f64.powi(e);
            if k & 128 == 0 { x } else { -x }
        },
    }
}

/// Operators with a jump need to be away from it, or exactly on it.
pub fn steady(u: Un, b: &Ball) -> bool { !matches!(u, Dirac | Sign) || b.e == 0.0 || b.v.abs() > 1e-6 + 1000.0 * b.e }

/// How a power's exponent is written decides where it is smooth.
pub fn pow_ok(b: f64, e_ast: &Ast, e: f64, order: u32) -> bool {
    let lit = matches!(e_ast.op, Op::Const(_));
    let int = e.fract() == 0.0;
    if e.abs() > 6.0 {
        return false;
    }
    if b > 0.05 {
        return true;
    }
    if b < -0.05 {
        return lit && int;
    }
    // Near or at zero: only natural literal exponents, and at order n only from n upwards.
    match order {
        0 => (lit && int && e >= 0.0) || (b == 0.0 && e > 0.05),
        1 => lit && int && e >= 1.0 && b == 0.0,
        _ => false,
    }
}

// ------------------------------------------------------------------ generation

pub struct Reg {
    pub ast: Ast,
    pub val: Val<Ball>,
}

pub struct Gen {
    pub family: Family,
    /// The kinds to use.
    pub kinds: Vec<Kind>,
    pub max_size: usize,
    pub limit: f64,
    pub vars: Vars,
    pub regs: Vec<Reg>,
    pub leaves: usize,
    pub caches: [u8; 9],
    pub use_caches: bool,
    /// Operands may have mismatched dynamic lengths (the value is then unknown).
    pub loose: bool,
    /// Values of any magnitude.
    pub wide: bool,
}

use harness::tape::{val, Tape};

/// A leaf of the given kind. Structured forms are frequent.
pub fn leaf(k: Kind, t: &mut Tape, len: usize) -> Leaf {
    let dims = k.dims().unwrap_or_else(|| vec![len]);
    let n: usize = dims.iter().product();
    let mode = t.below(8);
    match mode {
        1 => Leaf::Full(dims, t.pick(&[0.0, 1.0, -1.0, 2.0, 0.5])),
        2 if k != S => Leaf::Full(dims, t.val()),
        3 if dims.len() == 2 => Leaf::Diag(dims, t.val()),
        4 if dims.len() == 2 || t.below(3) == 0 => Leaf::Diag(dims, t.pick(&[1.0, 2.0, -1.0, 0.0])),
        5 if k != S => {
            // Dense, but with the entries of a structured value.
            let x = t.pick(&[0.0, 1.0, 3.0]);
            Leaf::Raw(dims, vec![x; n])
        },
        _ => Leaf::Raw(dims, (0..n).map(|_| t.val()).collect()),
    }
}

impl Gen {
    pub fn new(family: Family, max_size: usize, limit: f64) -> Gen {
        Gen {
            family,
            kinds: family.kinds(),
            max_size,
            limit,
            vars: Vars::default(),
            regs: vec![],
            leaves: 0,
            caches: [0; 9],
            use_caches: false,
            loose: false,
            wide: false,
        }
    }

    /// Declare variable `idx` of kind `k` and make it a register.
    pub fn var(&mut self, k: Kind, idx: u8, l: Leaf) {
        self.vars.0.insert(Tok { kind: k as u8, idx }, l.clone());
        self.regs.push(Reg {
            ast: mk(Op::Var(idx), k, vec![], false),
            val: Val { dims: l.dims().clone(), xs: l.flat().iter().map(|x| Ball::exact(*x)).collect() },
        });
        self.leaves = self.regs.len();
    }

    pub fn constant(&mut self, k: Kind, l: Leaf) {
        let l = self.as_constant(l);
        let val = Val { dims: l.dims().clone(), xs: l.flat().iter().map(|x| Ball::exact(*x)).collect() };
        self.regs.push(Reg { ast: mk(Op::Const(l), k, vec![], false), val });
        self.leaves = self.regs.len();
    }

    /// Structured constants cannot be differentiated.
    fn as_constant(&self, l: Leaf) -> Leaf { if self.family == Family::P { l } else { l.raw() } }

    /// The standard pool of leaves: `ns` scalars, `nv` variables and one constant of every other kind.
    pub fn pool(&mut self, t: &mut Tape, ns: u8, nv: u8) {
        let len = 1 + t.below(4);
        for k in self.kinds.clone() {
            let n = if k == S { ns } else { nv };
            for i in 0..n {
                let l = self.widen(leaf(k, t, len), t);
                self.var(k, i, l);
            }
            for _ in 0..if k == S { 2 } else { 1 } {
                let l = self.widen(leaf(k, t, len), t);
                self.constant(k, l);
            }
        }
    }

    fn widen(&self, l: Leaf, t: &mut Tape) -> Leaf {
        if !self.wide {
            return l;
        }
        match l {
            Leaf::Raw(d, xs) => Leaf::Raw(d, xs.into_iter().map(|_| wide_val(t.u())).collect()),
            Leaf::Full(d, _) => Leaf::Full(d, wide_val(t.u())),
            Leaf::Diag(d, _) => Leaf::Diag(d, wide_val(t.u())),
        }
    }

    fn fits(&self, u: Un, b: &Ball) -> bool {
        if self.wide { un_ok_wide(u, b, self.family.order()) } else { un_ok(u, b.v, self.family.order()) && steady(u, b) }
    }

    /// Make registers of every kind depend on the targets.
    pub fn mix(&mut self, t: &mut Tape) {
        let target = match self.family {
            Family::G(k) | Family::X(k) => k,
            _ => S,
        };
        if target.is_vec() {
            for _ in 0..2 {
                let from: Vec<usize> = (0..self.regs.len()).filter(|r| self.regs[*r].ast.kind == target).collect();
                let (a, b) = (t.pick(&from), t.pick(&from));
                self.apply(&Op::C1, a, b);
            }
        }
        for k in self.kinds.clone() {
            if k == S || k == T || (target != S && k != target && !target.is_vec()) {
                continue;
            }
            let from: Vec<usize> = (0..self.regs.len()).filter(|r| self.regs[*r].ast.kind == k).collect();
            let scalars: Vec<usize> =
                (0..self.regs.len()).filter(|r| self.regs[*r].ast.kind == S && !matches!(self.regs[*r].ast.op, Op::Const(_))).collect();
            if scalars.is_empty() {
                continue;
            }
            let (a, s) = (t.pick(&from), t.pick(&scalars));
            let op = t.pick(&[Op::C0, Op::Mul, Op::C0, Op::Add, Op::Div]);
            let (l, r) = if t.flag() { (a, s) } else { (s, a) };
            if !self.apply(&op, l, r) && !self.apply(&Op::C0, l, r) {
                self.apply(&Op::C0, r, l);
            }
        }
    }

    /// Apply a binary operator to two registers, if admitted.
    pub fn apply(&mut self, op: &Op, l: usize, r: usize) -> bool {
        let (la, ra) = (self.regs[l].ast.kind, self.regs[r].ast.kind);
        if self.bin(op, la, ra).is_none() {
            return false;
        }
        self.combine(op, l, r, &[0; 6], false, self.family.order())
    }

    fn bin(&self, op: &Op, l: Kind, r: Kind) -> Option<Kind> { self.family.bin(op, l, r).filter(|k| self.kinds.contains(k)) }

    fn pick(&self, x: u16, from: &[usize]) -> Option<usize> {
        if from.is_empty() {
            return None;
        }
        // Recent registers are preferred, so that trees become deep.
        let n = from.len();
        let i = (x >> 2) as usize;
        Some(match x & 3 {
            0 | 1 => from[n - 1 - i % n.min(3)],
            _ => from[i % n],
        })
    }

    fn ok(&self, v: &Val<Ball>) -> bool {
        if self.wide {
            return v.xs.iter().all(|b| b.v.is_finite() && b.v.abs() <= self.limit && b.e <= 1e-9 * b.v.abs() && (b.v == 0.0 || b.v.abs() >= 1.0 / self.limit));
        }
        v.xs.iter().all(|b| b.v.is_finite() && b.v.abs() <= self.limit && b.e <= 1e-7 * (1.0 + b.v.abs()))
    }

    fn push(&mut self, ast: Ast, val: Val<Ball>) -> bool {
        if ast.size > self.max_size || !(self.loose || self.ok(&val)) {
            return false;
        }
        self.regs.push(Reg { ast, val });
        true
    }

    fn try_un(&mut self, u: Un, r: usize, meth: bool) -> bool {
        let (k, ast, val) = (self.regs[r].ast.kind, self.regs[r].ast.clone(), self.regs[r].val.clone());
        let Some(k2) = self.family.un(u, k) else { return false };
        if !self.loose && !val.xs.iter().all(|b| self.fits(u, b)) {
            return false;
        }
        let v = Val { dims: val.dims, xs: val.xs.iter().map(|b| un_num(u, b)).collect() };
        self.push(mk(Op::Un(u), k2, vec![ast], meth), v)
    }

    /// Execute an instruction; instructions that are not applicable fall back to others.
    pub fn step(&mut self, ins: &[u16; 6]) {
        let all: Vec<usize> = (0..self.regs.len()).collect();
        let Some(a) = self.pick(ins[1], &all) else { return };
        let meth = ins[4] & 1 == 1;
        let order = self.family.order();
        let what = ins[0] % 32;
        let uns: Vec<Un> = UNS.iter().copied().filter(|u| self.family.un(*u, self.regs[a].ast.kind).is_some()).collect();
        let mut done = false;

        if what < 10 && !uns.is_empty() {
            let u = uns[ins[3] as usize % uns.len()];
            done = self.try_un(u, a, meth);
            if !done {
                // Bring the operand into the domain first.
                let n = self.regs.len();
                for fix in [Sigmoid, Exp, Square, AddOne] {
                    if self.try_un(fix, a, meth) {
                        let top = self.regs.len() - 1;
                        if self.try_un(u, top, meth) {
                            done = true;
                            break;
                        }
                        self.regs.truncate(n);
                    }
                }
            }
        } else if what < 26 {
            let op = match what {
                10..=12 => Op::Add,
                13..=15 => Op::Sub,
                16..=18 => Op::Mul,
                19 | 20 => Op::Div,
                21 => Op::Pow,
                22 | 23 => Op::C0,
                _ => Op::C1,
            };
            done = self.try_bin(&op, a, ins, meth, order);
            if !done {
                let fallback = [Op::Mul, Op::Add, Op::C1, Op::Sub];
                for k in 0..4 {
                    if self.try_bin(&fallback[(ins[3] as usize + k) % 4].clone(), a, ins, meth, order) {
                        done = true;
                        break;
                    }
                }
            }
        } else if what < 28 {
            let (k, ast, val) = (self.regs[a].ast.kind, self.regs[a].ast.clone(), self.regs[a].val.clone());
            if let Some(k2) = self.family.sum(k) {
                let v = Val { dims: vec![], xs: vec![val.xs.iter().fold(Ball::exact(0.0), |s, x| s.add(x))] };
                done = self.push(mk(Op::Sum, k2, vec![ast], meth), v);
            }
        } else if what < 30 && self.use_caches {
            let (k, ast, val) = (self.regs[a].ast.kind, self.regs[a].ast.clone(), self.regs[a].val.clone());
            let slot = self.caches[k as usize];
            if (slot as usize) < crate::ids::SLOTS {
                self.caches[k as usize] += 1;
                done = self.push(mk(Op::Cached(slot), k, vec![ast], meth), val);
            }
        } else {
            // A constant, then used by later instructions.
            if let Some(k) = self.kinds.clone().get(ins[3] as usize % self.kinds.len()) {
                let draws: Vec<u32> = (0..12).map(|i| (ins[2] as u32 ^ (i * 7919)) | (ins[5] as u32) << 16).collect();
                let len = self.regs.iter().find(|r| r.ast.kind == D).map(|r| r.val.dims[0]).unwrap_or(2);
                let l = if *k == S && ins[4] & 2 == 2 {
                    Leaf::Raw(vec![], vec![(ins[5] % 7) as f64 - 2.0])
                } else {
                    self.as_constant(leaf(*k, &mut Tape::new(&draws), len))
                };
                let val = Val { dims: l.dims().clone(), xs: l.flat().iter().map(|x| Ball::exact(*x)).collect() };
                self.push(mk(Op::Const(l), *k, vec![], false), val);
                done = true;
            }
        }

        if !done {
            for k in 0..4 {
                let u = [AddOne, Negate, SubOne, Double][(ins[5] as usize + k) % 4];
                if self.try_un(u, a, meth) {
                    break;
                }
            }
        }
    }

    fn try_bin(&mut self, op: &Op, a: usize, ins: &[u16; 6], meth: bool, order: u32) -> bool {
        // Which side the first operand takes is drawn too.
        let flip = ins[4] & 4 == 4;
        let ka = self.regs[a].ast.kind;
        let from: Vec<usize> = (0..self.regs.len())
            .filter(|r| {
                let kb = self.regs[*r].ast.kind;
                if flip { self.bin(op, kb, ka) } else { self.bin(op, ka, kb) }.is_some()
            })
            .collect();
        let Some(b) = self.pick(ins[2], &from) else { return false };
        let (l, r) = if flip { (b, a) } else { (a, b) };
        self.combine(op, l, r, ins, meth, order)
    }

    fn combine(&mut self, op: &Op, l: usize, r: usize, ins: &[u16; 6], meth: bool, order: u32) -> bool {
        let (la, ra) = (self.regs[l].ast.clone(), self.regs[r].ast.clone());
        let (lv, rv) = (self.regs[l].val.clone(), self.regs[r].val.clone());
        let k = self.bin(op, la.kind, ra.kind).unwrap();
        if let (Family::X(t), Op::C0) = (self.family, op) {
            // A scalar factor that depends on the vector would make the vector's Jacobian asymmetric, where
            // contractions are a recorded finding (contract-left).
            let mut ids = Default::default();
            toks(if la.kind == S { &la } else { &ra }, &mut ids);
            if k == t && ids.iter().any(|i| i.kind == t as u8) {
                return false;
            }
        }
        let v = match op {
            Op::Add => zip(&lv, &rv, |a, b| a.add(b)),
            Op::Sub => zip(&lv, &rv, |a, b| a.sub(b)),
            Op::Mul => zip(&lv, &rv, |a, b| a.mul(b)),
            Op::Div => {
                if !self.loose && !rv.xs.iter().all(|b| b.v.abs() > if self.wide { 1e-50 } else { 0.02 }) {
                    return false;
                }
                zip(&lv, &rv, |a, b| a.div(b))
            },
            Op::Pow => {
                // Literal exponents are the common case: take a fresh one often.
                let (b, mut e) = (lv.xs[0], rv.xs[0]);
                let mut ra = ra.clone();
                if ins[5] & 1 == 1 {
                    let k = ((ins[5] >> 1) % 7) as f64 - 2.0;
                    ra = mk(Op::Const(Leaf::Raw(vec![], vec![k])), S, vec![], false);
                    e = Ball::exact(k);
                }
                let fine = if self.wide && b.v != 0.0 { pow_ok(if b.v > 0.0 { 1.0 } else { -1.0 }, &ra, e.v, order) } else { pow_ok(b.v, &ra, e.v, order) };
                if !self.loose && (!fine || (!self.wide && b.v.abs() < 0.05 && b.e > 0.0)) {
                    return false;
                }
                let ev = if matches!(ra.op, Op::Const(_)) { e } else { Ball { v: e.v, e: e.e.max(1e-300) } };
                let v = Val { dims: vec![], xs: vec![pow_num(&b, &ev)] };
                return self.push(mk(Op::Pow, S, vec![la, ra], meth), v);
            },
            Op::C0 => Ok(contract(0, &lv, &rv)),
            Op::C1 => Ok(contract(1, &lv, &rv)),
            _ => unreachable!(),
        };
        let v = match v {
            Ok(v) => v,
            Err(_) if self.loose => lv,
            Err(_) => return false,
        };
        self.push(mk(op.clone(), k, vec![la, ra], meth), v)
    }

    /// The largest of the last computed registers of an admitted kind.
    pub fn root(&self, f: impl Fn(Kind) -> bool) -> Option<usize> {
        let mut last: Vec<usize> = (0..self.regs.len()).rev().filter(|r| f(self.regs[*r].ast.kind)).take(4).collect();
        last.sort_by_key(|r| self.regs[*r].ast.size);
        last.pop()
    }
}

/// A small draw-based value away from the points that operators avoid.
pub fn nice(u: u32) -> f64 {
    let x = val(u);
    if x.abs() < 0.06 { x + 0.4 } else { x }
}

/// As `close`, but relative to the value alone.
pub fn close_rel(got: f64, want: Ball) -> Option<bool> {
    if got == want.v {
        return Some(true);
    }
    if !want.v.is_finite() || !want.e.is_finite() || want.e > 1e-5 * want.v.abs() || want.v.abs() > 1e250 || (want.v != 0.0 && want.v.abs() < 1e-250) {
        return None;
    }
    Some((got - want.v).abs() <= 1e-9 * want.v.abs() + 1000.0 * want.e)
}

/// Is `got` the reference value, within the conditioning of the computation? `None`: too
/// ill-conditioned to judge.
pub fn close(got: f64, want: Ball) -> Option<bool> {
    if got == want.v {
        return Some(true);
    }
    if !want.v.is_finite() || !want.e.is_finite() || want.e > 1e-5 * (1.0 + want.v.abs()) {
        return None;
    }
    Some((got - want.v).abs() <= 1e-9 * (1.0 + want.v.abs()) + 1000.0 * want.e)
}

#[allow(dead_code)]
fn _ids(i: Id<0>) -> Id<0> { i }
