//! Expressions over other fields than double precision (single precision, signed and unsigned integers), and
//! over user-defined buffers (run-time shaped tensors of ranks 0, 2 and 3, and a strided matrix). Every leaf is
//! dense, uniform, diagonal, or dense data that happens to be structured. All values are small integers, so that
//! the reference is exact, whatever the order of the operations.
use aegir::buffers::shapes::Shaped;
use aegir::buffers::{Buffer, Spec};
use aegir::{Contains, Function, Node};
use expr::erase::{Wrap, N0};
use expr::ids::{Ctx, Tok};
use harness::buf::{volume, Fld, Flat};
use harness::ix::row_major;
use harness::tape::Tape;
use harness::{Case, Stats};
use serde_json::json;
use std::rc::Rc;

pub type R = Result<(), String>;

/// Which result of an expression is judged.
#[derive(Copy, Clone, PartialEq)]
pub enum What {
    Value,
    Structure,
    Shape,
    /// Errors of evaluation and of shape inference, where run-time shapes disagree.
    Error,
    /// Every entry point, repeatedly, on copies, with owned and borrowed contexts.
    Entries,
}

/// A leaf with a given structure.
#[derive(Clone)]
struct Lit<B: Buffer>(Spec<B>);

impl<B: Buffer> Node for Lit<B> {}
impl<B: Buffer> Contains<Tok> for Lit<B> {
    fn contains(&self, _: Tok) -> bool { false }
}
impl<B: Buffer> Function<Ctx> for Lit<B> {
    type Value = B;
    type Error = aegir::errors::NoError;

    fn evaluate<CR: AsMut<Ctx>>(&self, _: CR) -> Result<B, Self::Error> { Ok(self.0.clone().unwrap()) }

    fn evaluate_spec<CR: AsMut<Ctx>>(&self, _: CR) -> Result<Spec<B>, Self::Error> { Ok(self.0.clone()) }
}

/// The reference value of a register.
#[derive(Clone)]
struct Ref {
    dims: Vec<usize>,
    xs: Vec<i64>,
    show: Rc<String>,
    structured: bool,
    divides: bool,
    top: i64,
    ops: usize,
    /// The error of evaluation, and of shape inference, if any.
    err: Option<String>,
    shape_err: Option<String>,
}

const LIMIT: i64 = 100_000;

struct Field {
    unsigned: bool,
    limit: i64,
}

impl Ref {
    fn new(dims: Vec<usize>, xs: Vec<i64>, show: String, from: &[&Ref], divides: bool) -> Ref {
        let top = xs.iter().map(|x| x.abs()).max().unwrap_or(0);
        Ref {
            dims,
            xs,
            show: Rc::new(show),
            structured: from.iter().any(|r| r.structured),
            divides: divides || from.iter().any(|r| r.divides),
            top: from.iter().fold(top, |a, r| a.max(r.top)),
            ops: 1 + from.iter().map(|r| r.ops).sum::<usize>(),
            err: Ref::first(from, |r| &r.err),
            shape_err: Ref::first(from, |r| &r.shape_err),
        }
    }

    /// The first operand's error.
    fn first(from: &[&Ref], f: impl Fn(&Ref) -> &Option<String>) -> Option<String> {
        match from {
            [a] => f(a).clone(),
            [a, b] => match (f(a), f(b)) {
                (Some(e), _) => Some(format!("Left({})", e)),
                (_, Some(e)) => Some(format!("Right({})", e)),
                _ => None,
            },
            _ => None,
        }
    }

    /// The result of a binary operator on operands of different run-time shapes.
    fn mismatch(k: usize, a: &Ref, b: &Ref) -> Option<Ref> {
        let e = format!("Output(IncompatibleShapes {{ left: SDynamic({:?}), right: SDynamic({:?}) }})", a.dims, b.dims);
        let mut r = Ref::new(a.dims.clone(), vec![1; a.xs.len()], format!("({} {} {})", a.show, ["+", "-", "*", "/"][k], b.show), &[a, b], false);
        r.err.get_or_insert(e.clone());
        r.shape_err.get_or_insert(e);
        (r.show.len() < 600).then_some(r)
    }

    fn fits(self, f: &Field) -> Option<Ref> {
        let ok = self.xs.iter().all(|x| x.abs() <= f.limit && (!f.unsigned || *x >= 0));
        (ok && self.show.len() < 600).then_some(self)
    }

    fn binary(k: usize, a: &Ref, b: &Ref, f: &Field) -> Option<Ref> {
        let (n, dims) = if a.dims.is_empty() && !b.dims.is_empty() { (b.xs.len(), &b.dims) } else { (a.xs.len(), &a.dims) };
        let pick = |r: &Ref, i: usize| if r.dims.is_empty() { r.xs[0] } else { r.xs[i] };
        let mut xs = vec![];
        for i in 0..n {
            let (x, y) = (pick(a, i), pick(b, i));
            xs.push(match k {
                0 => x + y,
                1 => x - y,
                2 => x * y,
                _ if y == 0 || x % y != 0 => return None,
                _ => x / y,
            });
        }
        Ref::new(dims.clone(), xs, format!("({} {} {})", a.show, ["+", "-", "*", "/"][k], b.show), &[a, b], k == 3).fits(f)
    }

    fn unary(k: usize, a: &Ref, f: &Field) -> Option<Ref> {
        let (name, g): (&str, fn(i64) -> i64) = match k {
            0 => ("AddOne", |x| x + 1),
            1 => ("SubOne", |x| x - 1),
            2 => ("OneSub", |x| 1 - x),
            3 => ("Double", |x| 2 * x),
            4 => ("Negate", |x| -x),
            5 => ("Square", |x| x * x),
            6 => ("Abs", |x| x.abs()),
            _ => ("Sign", |x| x.signum()),
        };
        Ref::new(a.dims.clone(), a.xs.iter().map(|x| g(*x)).collect(), format!("{}({})", name, a.show), &[a], false).fits(f)
    }

    fn sum(a: &Ref, f: &Field) -> Option<Ref> {
        (a.xs.iter().map(|x| x.abs()).sum::<i64>() <= f.limit).then_some(())?;
        let mut r = Ref::new(vec![], vec![a.xs.iter().sum()], format!("Sum({})", a.show), &[a], false);
        r.shape_err = None;
        r.fits(f)
    }

    fn contract(k: usize, a: &Ref, b: &Ref, f: &Field) -> Option<Ref> {
        let l: usize = b.dims[..k].iter().product();
        (a.dims[a.dims.len() - k..] == b.dims[..k]).then_some(())?;
        let (n, m) = (a.xs.len() / l, b.xs.len() / l);
        let most = |r: &Ref| r.xs.iter().map(|x| x.abs()).max().unwrap_or(0).max(1);
        if l as i64 * most(a) * most(b) > f.limit {
            return None; // in whatever order the factors are multiplied
        }
        let mut xs = vec![];
        for i in 0..n {
            for j in 0..m {
                let terms: Vec<i64> = (0..l).map(|z| a.xs[i * l + z] * b.xs[z * m + j]).collect();
                if terms.iter().map(|t| t.abs()).sum::<i64>() > f.limit {
                    return None;
                }
                xs.push(terms.iter().sum());
            }
        }
        let dims = a.dims[..a.dims.len() - k].iter().chain(&b.dims[k..]).copied().collect();
        Ref::new(dims, xs, format!("contract<{}>({}, {})", k, a.show, b.show), &[a, b], false).fits(f)
    }
}

/// A value of the field.
trait Num: Fld + Flat<F = Self> {
    fn put(k: i64) -> Self;
    fn off(self, want: i64, tolerance: f64) -> bool;
}

macro_rules! num {
    ($($F:ty),*) => {$(
        impl Num for $F {
            fn put(k: i64) -> $F { k as $F }
            fn off(self, want: i64, tolerance: f64) -> bool { !((self as f64 - want as f64).abs() <= tolerance) }
        }
    )*};
}

num!(f64, f32, i32, i64, u8);

fn leaf<F: Num, B>(dims: &[usize], t: &mut Tape, f: &Field) -> (Spec<B>, Ref)
where
    B: Buffer<Field = F> + Flat<F = F>,
{
    let n = volume(dims);
    let draw = |t: &mut Tape| {
        let k = t.below(9) as i64;
        if f.unsigned { k % 5 } else { k - 4 }
    };
    let of = |xs: &[i64]| B::of(dims, &xs.iter().map(|x| F::put(*x)).collect::<Vec<F>>());
    let shape = of(&vec![0; n]).shape();
    let v = match t.below(6) {
        0 => 0,
        1 => 1,
        _ => draw(t),
    };
    let diag = || row_major(dims).iter().map(|ix| if ix.iter().all(|i| *i == ix[0]) { v } else { 0 }).collect::<Vec<i64>>();
    let k = t.below(9);
    // A diagonal without zeroes is still mapped at zero, where an unsigned subtraction overflows.
    let k = if f.unsigned && n < 2 && (k == 2 || k == 3) { 0 } else { k };
    let (spec, xs, name) = match k {
        0 | 1 => (Spec::Full(shape, F::put(v)), vec![v; n], "full"),
        2 | 3 => (Spec::Diagonal(shape, F::put(v)), diag(), "diagonal"),
        4 => (Spec::Raw(of(&diag())), diag(), "dense"),
        5 => (Spec::Raw(of(&vec![v; n])), vec![v; n], "dense"),
        _ => {
            let xs: Vec<i64> = (0..n).map(|_| draw(t)).collect();
            (Spec::Raw(of(&xs)), xs, "dense")
        },
    };
    let show = format!("{}{:?}{:?}", name, dims, xs);
    let mut r = Ref::new(dims.to_vec(), xs, show, &[], false);
    r.structured = name != "dense";
    (spec, r)
}

fn judge<F: Num, B>(node: &N0<B>, r: &Ref, what: What, st: &mut Stats) -> R
where
    B: Buffer<Field = F> + Flat<F = F> + std::fmt::Debug,
{
    let wrong = |name: &str, got: &dyn std::fmt::Debug| Err(format!("{} of {} over {} is {:?} instead of {:?}{:?}", name, r.show, std::any::type_name::<B>(), got, r.dims, r.xs));
    let tolerance = if r.divides && F::FLOAT { 1e-4 * (1 + r.top) as f64 } else { 0.0 };
    let want = B::of(&r.dims, &r.xs.iter().map(|x| F::put(*x)).collect::<Vec<F>>());
    let shape = format!("{:?}", want.shape());
    let same = |b: &B| {
        let got = b.flat();
        format!("{:?}", b.shape()) == shape && got.len() == r.xs.len() && !got.iter().zip(&r.xs).any(|(g, w)| g.off(*w, tolerance))
    };
    let mut c = Ctx::default();
    st.eval();
    if what == What::Error {
        let fails = |how: &str, got: Result<String, String>, want: &Option<String>| match (got, want) {
            (Ok(_), None) => Ok(()),
            (Err(e), Some(w)) if e == *w => Ok(()),
            (got, want) => Err(format!("{} of {} over {} is {:?} instead of {:?}", how, r.show, std::any::type_name::<B>(), got, want)),
        };
        fails("the value", node.evaluate(&mut c).map(|b| format!("{:?}", b)).map_err(|e| e.dbg), &r.err)?;
        fails("the structured value", node.evaluate_spec(&mut c).map(|b| format!("{:?}", b.unwrap())).map_err(|e| e.dbg), &r.err)?;
        fails("the shape", node.evaluate_shape(&mut c).map(|b| format!("{:?}", b)).map_err(|e| e.dbg), &r.shape_err)?;
        st.label(if r.err.is_some() { "fails" } else { "succeeds" });
        if r.err.is_some() && r.ops >= 4 {
            st.nontrivial(&(std::any::type_name::<B>(), &*r.show));
        }
        st.sample(|| json!({"expression": &*r.show, "type": std::any::type_name::<B>(), "error": &r.err}));
        return Ok(());
    }
    match what {
        What::Value => match node.evaluate(&mut c) {
            Ok(b) if same(&b) => {},
            got => return wrong("the value", &got),
        },
        What::Structure => match node.evaluate_spec(&mut c) {
            Ok(s) if format!("{:?}", s.shape()) == shape && same(&s.clone().unwrap()) => {
                st.label(match s {
                    Spec::Raw(_) => "dense result",
                    Spec::Full(..) => "uniform result",
                    _ => "diagonal result",
                });
            },
            got => return wrong("the structured value", &got.map(|s| s.unwrap())),
        },
        What::Shape => match node.evaluate_shape(&mut c) {
            Ok(s) if format!("{:?}", s) == shape => {},
            got => return wrong("the shape", &got),
        },
        What::Error => {},
        What::Entries => {
            let copy = node.clone();
            for (name, n) in [("the value", node), ("the value, again,", node), ("the value by a copy", &copy)] {
                match n.evaluate(&mut c) {
                    Ok(b) if same(&b) => {},
                    got => return wrong(name, &got),
                }
                match n.evaluate_spec(&mut c) {
                    Ok(s) if format!("{:?}", s.shape()) == shape && same(&s.clone().unwrap()) => {},
                    got => return wrong("the structured value", &got.map(|s| s.unwrap())),
                }
            }
            match copy.evaluate(Ctx::default()) {
                Ok(b) if same(&b) => {},
                got => return wrong("the value with an owned context", &got),
            }
            drop(copy);
            match node.evaluate_spec(Ctx::default()) {
                Ok(s) if same(&s.clone().unwrap()) => {},
                got => return wrong("the structured value with an owned context", &got.map(|s| s.unwrap())),
            }
            match node.evaluate_shape(&mut c) {
                Ok(s) if format!("{:?}", s) == shape => {},
                got => return wrong("the shape", &got),
            }
            if c.all() != Ctx::default().all() || c.writes != 0 {
                return Err(format!("evaluating {} has changed the context", r.show));
            }
            st.evals(8);
        },
    }
    if r.ops >= 4 && r.xs.iter().any(|x| *x != 0) && (what == What::Value || what == What::Entries || r.structured) {
        st.nontrivial(&(std::any::type_name::<B>(), &*r.show));
    }
    st.sample(|| json!({"expression": &*r.show, "type": std::any::type_name::<B>(), "result": &r.xs}));
    Ok(())
}


macro_rules! subtract {
    (unsigned; $x:expr, $y:expr) => { return None };
    ($kind:ident; $x:expr, $y:expr) => { N0::wrap(Sub($x, $y)) };
}

macro_rules! binary {
    ($kind:ident; $k:ident, $K:ident, $x:ident, $y:ident) => {{
        let (x, y) = ($x.clone(), $y.clone());
        Some($K(match $k {
            0 => N0::wrap(Add(x, y)),
            1 => subtract!($kind; x, y),
            2 => N0::wrap(Mul(x, y)),
            _ => N0::wrap(Div(x, y)),
        }))
    }};
}

macro_rules! unary {
    (real; $k:ident, $K:ident, $x:ident) => {{
        let x = $x.clone();
        Some($K(match $k {
            0 => N0::wrap(AddOne(x)),
            1 => N0::wrap(SubOne(x)),
            2 => N0::wrap(OneSub(x)),
            3 => N0::wrap(Double(x)),
            4 => N0::wrap(Negate(x)),
            5 => N0::wrap(Square(x)),
            6 => N0::wrap(Abs(x)),
            _ => N0::wrap(Sign(x)),
        }))
    }};
    ($kind:ident; $k:ident, $K:ident, $x:ident) => {{
        let x = $x.clone();
        Some($K(match $k {
            0 => N0::wrap(AddOne(x)),
            1 => N0::wrap(SubOne(x)),
            2 => N0::wrap(OneSub(x)),
            3 => N0::wrap(Double(x)),
            _ => return None,
        }))
    }};
}

/// Expressions over one field.
macro_rules! field {
    ($m:ident, $F:ty, $kind:ident, $limit:expr) => {
        pub mod $m {
            use super::*;
            use harness::tensor::{Grid, Tensor};
            #[allow(unused_imports)]
            use aegir::ops::{Abs, Add, AddOne, Contract, Div, Double, Mul, Negate, OneSub, Sign, Square, Sub, SubOne, Sum};

            type F = $F;

            #[derive(Clone)]
            enum Val {
                S(N0<F>),
                V(N0<[F; 4]>),
                W(N0<[F; 2]>),
                M(N0<[[F; 4]; 4]>),
                N(N0<[[F; 2]; 4]>),
                D(N0<Vec<F>>),
                T0(N0<Tensor<F, 0>>),
                T2(N0<Tensor<F, 2>>),
                T3(N0<Tensor<F, 3>>),
                G(N0<Grid<F, 3, 2>>),
            }
            use Val::*;

            fn apply2(k: usize, a: &Val, b: &Val) -> Option<Val> {
                match (a, b) {
                    (S(x), S(y)) => binary!($kind; k, S, x, y),
                    (V(x), V(y)) => binary!($kind; k, V, x, y),
                    (V(x), S(y)) => binary!($kind; k, V, x, y),
                    (S(x), V(y)) => binary!($kind; k, V, x, y),
                    (W(x), W(y)) => binary!($kind; k, W, x, y),
                    (W(x), S(y)) => binary!($kind; k, W, x, y),
                    (S(x), W(y)) => binary!($kind; k, W, x, y),
                    (M(x), M(y)) => binary!($kind; k, M, x, y),
                    (M(x), S(y)) => binary!($kind; k, M, x, y),
                    (S(x), M(y)) => binary!($kind; k, M, x, y),
                    (N(x), N(y)) => binary!($kind; k, N, x, y),
                    (N(x), S(y)) => binary!($kind; k, N, x, y),
                    (S(x), N(y)) => binary!($kind; k, N, x, y),
                    (D(x), D(y)) => binary!($kind; k, D, x, y),
                    (D(x), S(y)) => binary!($kind; k, D, x, y),
                    (S(x), D(y)) => binary!($kind; k, D, x, y),
                    (T0(x), T0(y)) => binary!($kind; k, T0, x, y),
                    (T2(x), T2(y)) => binary!($kind; k, T2, x, y),
                    (T2(x), S(y)) => binary!($kind; k, T2, x, y),
                    (S(x), T2(y)) => binary!($kind; k, T2, x, y),
                    (T3(x), T3(y)) => binary!($kind; k, T3, x, y),
                    (T3(x), S(y)) => binary!($kind; k, T3, x, y),
                    (S(x), T3(y)) => binary!($kind; k, T3, x, y),
                    (G(x), G(y)) => binary!($kind; k, G, x, y),
                    _ => None,
                }
            }

            fn apply1(k: usize, a: &Val) -> Option<Val> {
                match a {
                    S(x) => unary!($kind; k, S, x),
                    V(x) => unary!($kind; k, V, x),
                    W(x) => unary!($kind; k, W, x),
                    M(x) => unary!($kind; k, M, x),
                    N(x) => unary!($kind; k, N, x),
                    D(x) => unary!($kind; k, D, x),
                    T0(x) => unary!($kind; k, T0, x),
                    T2(x) => unary!($kind; k, T2, x),
                    T3(x) => unary!($kind; k, T3, x),
                    G(x) => unary!($kind; k, G, x),
                }
            }

            fn total(a: &Val) -> Val {
                S(match a {
                    S(x) => N0::wrap(Sum(x.clone())),
                    V(x) => N0::wrap(Sum(x.clone())),
                    W(x) => N0::wrap(Sum(x.clone())),
                    M(x) => N0::wrap(Sum(x.clone())),
                    N(x) => N0::wrap(Sum(x.clone())),
                    D(x) => N0::wrap(Sum(x.clone())),
                    T0(x) => N0::wrap(Sum(x.clone())),
                    T2(x) => N0::wrap(Sum(x.clone())),
                    T3(x) => N0::wrap(Sum(x.clone())),
                    G(x) => N0::wrap(Sum(x.clone())),
                })
            }

            fn contract(k: usize, a: &Val, b: &Val) -> Option<Val> {
                Some(match (k, a, b) {
                    (0, S(x), S(y)) => S(N0::wrap(Contract::<0, _, _>(x.clone(), y.clone()))),
                    (0, S(x), V(y)) => V(N0::wrap(Contract::<0, _, _>(x.clone(), y.clone()))),
                    (0, V(x), S(y)) => V(N0::wrap(Contract::<0, _, _>(x.clone(), y.clone()))),
                    (0, M(x), S(y)) => M(N0::wrap(Contract::<0, _, _>(x.clone(), y.clone()))),
                    (0, S(x), M(y)) => M(N0::wrap(Contract::<0, _, _>(x.clone(), y.clone()))),
                    (0, V(x), W(y)) => N(N0::wrap(Contract::<0, _, _>(x.clone(), y.clone()))),
                    (0, V(x), V(y)) => M(N0::wrap(Contract::<0, _, _>(x.clone(), y.clone()))),
                    (1, V(x), V(y)) => S(N0::wrap(Contract::<1, _, _>(x.clone(), y.clone()))),
                    (1, W(x), W(y)) => S(N0::wrap(Contract::<1, _, _>(x.clone(), y.clone()))),
                    (1, M(x), V(y)) => V(N0::wrap(Contract::<1, _, _>(x.clone(), y.clone()))),
                    (1, V(x), M(y)) => V(N0::wrap(Contract::<1, _, _>(x.clone(), y.clone()))),
                    (1, V(x), N(y)) => W(N0::wrap(Contract::<1, _, _>(x.clone(), y.clone()))),
                    (1, M(x), M(y)) => M(N0::wrap(Contract::<1, _, _>(x.clone(), y.clone()))),
                    (1, M(x), N(y)) => N(N0::wrap(Contract::<1, _, _>(x.clone(), y.clone()))),
                    _ => return None,
                })
            }

            fn leaves(t: &mut Tape, f: &Field, kinds: &[usize]) -> Vec<(Val, Ref)> {
                // The value of a uniform empty buffer is computed with, and can overflow: no empty ones over integers.
                let some = |n: usize| if F::FLOAT { n } else { n.max(1) };
                let (n, d2) = (some(t.below(6)), [1 + t.below(4), some(t.below(4))]);
                let d3 = [1 + t.below(3), 1 + t.below(3), 1 + t.below(3)];
                macro_rules! of { ($K:ident, $dims:expr) => {{ let (s, r) = leaf(&$dims, t, f); ($K(N0::wrap(Lit(s))), r) }}; }
                let mut out = vec![];
                for k in kinds {
                    for _ in 0..2 {
                        out.push(match k {
                            0 => of!(S, []),
                            1 => of!(V, [4]),
                            2 => of!(W, [2]),
                            3 => of!(M, [4, 4]),
                            4 => of!(N, [4, 2]),
                            5 => of!(D, [n]),
                            6 => of!(T0, []),
                            7 => of!(T2, d2),
                            8 => of!(T3, d3),
                            _ => of!(G, [3, 2]),
                        });
                    }
                }
                out
            }

            pub fn run(t: &mut Tape, case: &Case, st: &mut Stats, what: What, user: bool) -> R {
                let f = Field { unsigned: <F>::MIN == (0 as F), limit: $limit };
                let kinds: &[usize] = match t.below(5) {
                    _ if what == What::Error && user => [&[0, 7][..], &[0, 8], &[6, 7], &[7], &[8]][t.below(5)],
                    _ if what == What::Error => [&[0, 5][..], &[5]][t.below(2)],
                    _ if user => [[0, 7], [0, 8], [6, 7], [7, 9], [0, 9]][t.below(5)].as_slice(),
                    0 => &[0, 1, 3],
                    1 => &[0, 5],
                    2 => &[1, 2, 4],
                    3 => &[0, 1, 3, 4],
                    _ => &[0, 1, 2],
                };
                let mut regs = leaves(t, &f, kinds);
                if what == What::Error {
                    // Other extents.
                    regs.extend(leaves(t, &f, kinds));
                    regs.extend(leaves(t, &f, kinds));
                }
                for ins in &case.prog {
                    let n = regs.len();
                    // Prefer recent registers, so that expressions grow deep.
                    let at = |u: u16| if u % 2 == 0 { n - 1 - (u as usize / 2) % n.min(3) } else { (u as usize / 2) % n };
                    let (a, b) = (regs[at(ins[1])].clone(), regs[at(ins[2])].clone());
                    let k = ins[3] as usize;
                    let next = match ins[0] % 9 {
                        0..=3 => {
                            // The other operand of the same or scalar type, if there is one.
                            let fit = |v: &Val| apply2(0, &a.0, v).is_some();
                            let b = if fit(&b.0) { Some(b) } else { regs.iter().rev().find(|r| fit(&r.0)).cloned() };
                            b.and_then(|b| {
                                let (a, b) = if ins[4] % 2 == 0 { (a, b) } else { (b, a) };
                                let dims = a.1.dims == b.1.dims || matches!(a.0, S(_)) || matches!(b.0, S(_));
                                if what == What::Error && !dims {
                                    return Ref::mismatch(k % 4, &a.1, &b.1).and_then(|r| apply2(k % 4, &a.0, &b.0).map(|v| (v, r)));
                                }
                                dims.then(|| Ref::binary(k % 4, &a.1, &b.1, &f)).flatten().and_then(|r| apply2(k % 4, &a.0, &b.0).map(|v| (v, r)))
                            })
                        },
                        4 | 5 => Ref::unary(k % 8, &a.1, &f).and_then(|r| apply1(k % 8, &a.0).map(|v| (v, r))),
                        6 => Ref::sum(&a.1, &f).map(|r| (total(&a.0), r)),
                        _ => contract(k % 2, &a.0, &b.0).and_then(|v| Ref::contract(k % 2, &a.1, &b.1, &f).map(|r| (v, r))),
                    };
                    if let Some(x) = next {
                        regs.push(x);
                    }
                }
                let (v, r) = regs.pop().unwrap();
                match &v {
                    S(x) => judge(x, &r, what, st)?,
                    V(x) => judge(x, &r, what, st)?,
                    W(x) => judge(x, &r, what, st)?,
                    M(x) => judge(x, &r, what, st)?,
                    N(x) => judge(x, &r, what, st)?,
                    D(x) => judge(x, &r, what, st)?,
                    T0(x) => judge(x, &r, what, st)?,
                    T2(x) => judge(x, &r, what, st)?,
                    T3(x) => judge(x, &r, what, st)?,
                    G(x) => judge(x, &r, what, st)?,
                }
                st.label(concat!("over ", stringify!($F)));
                Ok(())
            }
        }
    };
}

field!(f64s, f64, real, LIMIT);
field!(f32s, f32, real, LIMIT);
field!(i64s, i64, signed, LIMIT);
field!(i32s, i32, signed, LIMIT);
field!(u8s, u8, unsigned, 200);

pub fn fields(case: &Case, st: &mut Stats, what: What) -> R {
    let t = &mut Tape::new(&case.head);
    match t.below(4) {
        0 => f32s::run(t, case, st, what, false),
        1 => i64s::run(t, case, st, what, false),
        2 => i32s::run(t, case, st, what, false),
        _ => u8s::run(t, case, st, what, false),
    }
}

/// Run-time shapes that may disagree.
pub fn mismatches(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    match t.below(6) {
        0 => f64s::run(t, case, st, What::Error, true),
        1 => f32s::run(t, case, st, What::Error, true),
        2 => i64s::run(t, case, st, What::Error, true),
        3 => f64s::run(t, case, st, What::Error, false),
        4 => i32s::run(t, case, st, What::Error, false),
        _ => u8s::run(t, case, st, What::Error, true),
    }
}

pub fn tensors(case: &Case, st: &mut Stats, what: What) -> R {
    let t = &mut Tape::new(&case.head);
    match t.below(4) {
        0 => f64s::run(t, case, st, what, true),
        1 => f32s::run(t, case, st, what, true),
        2 => i64s::run(t, case, st, what, true),
        _ => u8s::run(t, case, st, what, true),
    }
}
