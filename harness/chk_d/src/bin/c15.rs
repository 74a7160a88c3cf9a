//! C15: the printed form of an expression denotes the expression.
#![allow(clippy::all)]
#![recursion_limit = "256"]
use aegir::buffers::{Buffer, Spec};
use aegir::fmt::{Expr, ToExpr};
use aegir::ops::{self, special, trig};
use aegir::{Differentiable, Function, Identifier, Node};
use chk_d::text::{self, Stop, N};
use expr::ast::Un;
use expr::erase::EErr;
use expr::ids::{Ctx, Id, Tok};
use harness::tape::Tape;
use harness::{main_check, Case, Check, Known, Stats, Sub};
use serde_json::json;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::rc::Rc;

type R = Result<(), String>;
type V = [f64; N];
type X = Id<0>;

thread_local! {
    /// A vector operand was rendered as "1".
    static ONES: Cell<bool> = const { Cell::new(false) };
}

// ------------------------------------------------------------------ erased nodes

/// A node that can be evaluated and printed.
trait O0<B: Buffer> {
    fn ev(&self, c: &mut Ctx) -> Result<B, EErr>;
    fn text(&self) -> Expr;
    fn disp(&self) -> String;
}

impl<B: Buffer, Z: Function<Ctx, Value = B> + ToExpr + fmt::Display> O0<B> for Z {
    fn ev(&self, c: &mut Ctx) -> Result<B, EErr> { self.evaluate(c).map_err(EErr::new) }
    fn text(&self) -> Expr { self.to_expr() }
    fn disp(&self) -> String { self.to_string() }
}

trait Wrap<Z> {
    fn wrap(z: Z) -> Self;
}

macro_rules! common {
    ([$($g:tt)*] $N:ty, $B:ident, $mk:expr) => {
        impl<$($g)*> Node for $N {}
        impl<$($g)*> Clone for $N {
            fn clone(&self) -> Self { $mk(self.0.clone()) }
        }
        impl<$($g)*> Function<Ctx> for $N {
            type Error = EErr;
            type Value = $B;
            fn evaluate<CR: AsMut<Ctx>>(&self, mut c: CR) -> Result<$B, EErr> { self.0.ev(c.as_mut()) }
        }
        impl<$($g)*> ToExpr for $N {
            fn to_expr(&self) -> Expr {
                let e = self.0.text();
                if std::mem::size_of::<$B>() != 8 && matches!(e, Expr::One) {
                    ONES.with(|o| o.set(true));
                }
                e
            }
        }
        impl<$($g)*> fmt::Display for $N {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0.disp()) }
        }
    };
}

struct P0<B>(Rc<dyn O0<B>>);
common!([B: Buffer] P0<B>, B, P0);

impl<B: Buffer, Z: O0<B> + 'static> Wrap<Z> for P0<B> {
    fn wrap(z: Z) -> Self { P0(Rc::new(z)) }
}

/// A node that can also be differentiated by a scalar, giving a `W`.
trait O1<B: Buffer, W>: O0<B> {
    fn adj(&self, t: X) -> W;
}

impl<B: Buffer, W: Wrap<Z::Adjoint>, Z: O0<B> + Differentiable<X>> O1<B, W> for Z {
    fn adj(&self, t: X) -> W { W::wrap(self.adjoint(t)) }
}

struct P<B, W>(Rc<dyn O1<B, W>>);
common!([B: Buffer, W] P<B, W>, B, P);

impl<B: Buffer, W, Z: O1<B, W> + 'static> Wrap<Z> for P<B, W> {
    fn wrap(z: Z) -> Self { P(Rc::new(z)) }
}

impl<B: Buffer, W: Node> Differentiable<X> for P<B, W> {
    type Adjoint = W;
    fn adjoint(&self, t: X) -> W { self.0.adj(t) }
}

type S0 = P0<f64>;
type S1 = P<f64, S0>;
type S2 = P<f64, S1>;
type V0 = P0<V>;
type V1 = P<V, V0>;
type V2 = P<V, V1>;

#[derive(Clone)]
enum Any {
    S0(S0),
    S1(S1),
    S2(S2),
    V0(V0),
    V1(V1),
    V2(V2),
}
use Any::*;

impl Any {
    fn level(&self) -> u32 {
        match self {
            S0(_) | V0(_) => 0,
            S1(_) | V1(_) => 1,
            S2(_) | V2(_) => 2,
        }
    }

    fn scalar(&self) -> bool { matches!(self, S0(_) | S1(_) | S2(_)) }

    fn lower(&self, l: u32) -> Any {
        if self.level() <= l {
            return self.clone();
        }
        match self.clone() {
            S2(x) => S1(Wrap::wrap(x)),
            S1(x) => S0(Wrap::wrap(x)),
            V2(x) => V1(Wrap::wrap(x)),
            V1(x) => V0(Wrap::wrap(x)),
            x => x,
        }
        .lower(l)
    }

    fn expr(&self) -> Expr {
        match self {
            S0(x) => x.to_expr(),
            S1(x) => x.to_expr(),
            S2(x) => x.to_expr(),
            V0(x) => x.to_expr(),
            V1(x) => x.to_expr(),
            V2(x) => x.to_expr(),
        }
    }

    fn disp(&self) -> String {
        match self {
            S0(x) => x.to_string(),
            S1(x) => x.to_string(),
            S2(x) => x.to_string(),
            V0(x) => x.to_string(),
            V1(x) => x.to_string(),
            V2(x) => x.to_string(),
        }
    }

    fn value(&self, c: &mut Ctx) -> Result<f64, String> {
        match self {
            S0(x) => x.evaluate(c),
            S1(x) => x.evaluate(c),
            S2(x) => x.evaluate(c),
            _ => unreachable!("harness: not a scalar"),
        }
        .map_err(|e| format!("{:?}", e))
    }

    fn adj(&self, t: X) -> Any {
        match self {
            S1(x) => S0(x.adjoint(t)),
            S2(x) => S1(x.adjoint(t)),
            _ => unreachable!("harness: not a differentiable scalar"),
        }
    }

    fn ones(&self) -> bool {
        ONES.with(|o| o.set(false));
        self.expr();
        ONES.with(|o| o.get())
    }
}

macro_rules! unary {
    (@smooth $u:expr, $x:expr, $else:expr) => {
        match $u {
            Un::SubOne => Wrap::wrap(ops::SubOne($x)),
            Un::OneSub => Wrap::wrap(ops::OneSub($x)),
            Un::AddOne => Wrap::wrap(ops::AddOne($x)),
            Un::Double => Wrap::wrap(ops::Double($x)),
            Un::Negate => Wrap::wrap(ops::Negate($x)),
            Un::Square => Wrap::wrap(ops::Square($x)),
            Un::Ln => Wrap::wrap(ops::Ln($x)),
            Un::XLnX => Wrap::wrap(ops::XLnX($x)),
            Un::Exp => Wrap::wrap(ops::Exp($x)),
            Un::Rabbit => Wrap::wrap(ops::Rabbit($x)),
            Un::Sigmoid => Wrap::wrap(ops::Sigmoid($x)),
            Un::Cos => Wrap::wrap(trig::Cos($x)),
            Un::Sin => Wrap::wrap(trig::Sin($x)),
            Un::Abs => Wrap::wrap(ops::Abs($x)),
            _ => $else,
        }
    };
    (@once $u:expr, $x:expr, $else:expr) => {
        match $u {
            Un::Sign => Wrap::wrap(ops::Sign($x)),
            Un::Gamma => Wrap::wrap(special::Gamma($x)),
            Un::LogGamma => Wrap::wrap(special::LogGamma($x)),
            Un::Factorial => Wrap::wrap(special::Factorial::factorial($x)),
            _ => $else,
        }
    };
    (@value $u:expr, $x:expr) => {
        match $u {
            Un::Dirac => Wrap::wrap(ops::Dirac($x)),
            Un::Cosh => Wrap::wrap(trig::Cosh($x)),
            Un::ArcCos => Wrap::wrap(trig::ArcCos($x)),
            Un::ArcCosh => Wrap::wrap(trig::ArcCosh($x)),
            Un::Sinh => Wrap::wrap(trig::Sinh($x)),
            Un::ArcSin => Wrap::wrap(trig::ArcSin($x)),
            Un::ArcSinh => Wrap::wrap(trig::ArcSinh($x)),
            Un::Tan => Wrap::wrap(trig::Tan($x)),
            Un::Tanh => Wrap::wrap(trig::Tanh($x)),
            Un::ArcTan => Wrap::wrap(trig::ArcTan($x)),
            Un::ArcTanh => Wrap::wrap(trig::ArcTanh($x)),
            Un::DiGamma => Wrap::wrap(special::DiGamma($x)),
            Un::Erf => Wrap::wrap(special::Erf($x)),
            Un::Erfc => Wrap::wrap(special::Erfc::erfc($x)),
            u => unreachable!("harness: {:?}", u),
        }
    };
}

fn order(u: Un) -> u32 { expr::ast::un_order(u).min(2) }

fn unary(u: Un, x: &Any) -> Any {
    match x.lower(order(u)) {
        S2(x) => S2(unary!(@smooth u, x, unreachable!())),
        V2(x) => V2(unary!(@smooth u, x, unreachable!())),
        S1(x) => S1(unary!(@smooth u, x, unary!(@once u, x, unreachable!()))),
        V1(x) => V1(unary!(@smooth u, x, unary!(@once u, x, unreachable!()))),
        S0(x) => S0(unary!(@smooth u, x, unary!(@once u, x, unary!(@value u, x)))),
        V0(x) => V0(unary!(@smooth u, x, unary!(@once u, x, unary!(@value u, x)))),
    }
}

#[derive(Copy, Clone, Debug, PartialEq)]
enum Bin {
    Add,
    Sub,
    Mul,
    Div,
    Pow,
    Outer,
    Dot,
}

const BINS: [Bin; 7] = [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div, Bin::Pow, Bin::Outer, Bin::Dot];

macro_rules! zips {
    ($b:expr, $x:expr, $y:expr, $out:ident, $rest:expr) => {
        match $b {
            Bin::Add => $out(Wrap::wrap(ops::Add($x, $y))),
            Bin::Sub => $out(Wrap::wrap(ops::Sub($x, $y))),
            Bin::Mul => $out(Wrap::wrap(ops::Mul($x, $y))),
            Bin::Div => $out(Wrap::wrap(ops::Div($x, $y))),
            _ => $rest,
        }
    };
}

macro_rules! level {
    ($b:expr, $l:expr, $r:expr, $S:ident, $V:ident, $else:expr) => {
        match ($l, $r) {
            ($S(x), $S(y)) => zips!($b, x, y, $S, match $b {
                Bin::Pow => $S(Wrap::wrap(ops::Power(x, y))),
                _ => $S(Wrap::wrap(ops::Contract::<0, _, _>(x, y))),
            }),
            ($S(x), $V(y)) => zips!($b, x, y, $V, $V(Wrap::wrap(ops::Contract::<0, _, _>(x, y)))),
            ($V(x), $S(y)) => zips!($b, x, y, $V, $V(Wrap::wrap(ops::Contract::<0, _, _>(x, y)))),
            ($V(x), $V(y)) => zips!($b, x, y, $V, $S(Wrap::wrap(ops::Contract::<1, _, _>(x, y)))),
            _ => $else,
        }
    };
}

/// `None`: operands of kinds that the operator does not take.
fn binary(b: Bin, l: &Any, r: &Any) -> Option<Any> {
    match (b, l.scalar(), r.scalar()) {
        (Bin::Pow, true, true) | (Bin::Dot, false, false) => {},
        (Bin::Pow | Bin::Dot, ..) | (Bin::Outer, false, false) => return None,
        _ => {},
    }
    let n = l.level().min(r.level());
    Some(level!(b, l.lower(n), r.lower(n), S2, V2, level!(b, l.lower(n), r.lower(n), S1, V1, level!(b, l.lower(n), r.lower(n), S0, V0, unreachable!()))))
}

fn constant(x: f64, single: bool) -> Any {
    // Constants print as their buffer does.
    let _ = single;
    S2(Wrap::wrap(x.into_constant()))
}

fn var(i: u8) -> Any { S2(Wrap::wrap(Id::<0>(i).into_var())) }

fn vector(i: u8) -> Any { V2(Wrap::wrap(Id::<2>(i).into_var())) }

// ------------------------------------------------------------------ points

struct Point {
    ctx: Ctx,
    env: BTreeMap<String, Vec<f64>>,
}

fn point(t: &mut Tape) -> Point {
    let mut ctx = Ctx::default();
    let mut env = BTreeMap::new();
    for i in 0..3u8 {
        let x = t.val();
        ctx.s[i as usize] = Some(Spec::Raw(x));
        env.insert(Tok { kind: 0, idx: i }.name(), vec![x]);
    }
    for i in 0..2u8 {
        let v = [t.val(), t.val()];
        ctx.v2[i as usize] = Some(Spec::Raw(v));
        env.insert(Tok { kind: 2, idx: i }.name(), v.to_vec());
    }
    Point { ctx, env }
}

/// The verdict on one text at one point.
#[derive(PartialEq, Debug)]
enum Seen {
    Agree,
    Undefined,
}

/// Symbols for numbers that are no reals.
fn singular(s: &str) -> bool { s.contains('∞') || s.contains('\u{1D456}') || s.contains("inf") || s.contains("NaN") }

fn judge(s: &str, tree: &text::T, p: &Point, got: f64) -> Result<Seen, String> {
    let want = match text::eval(tree, &p.env) {
        Ok(v) => v,
        Err(Stop::Undefined) => return Ok(Seen::Undefined),
        Err(Stop::Unreadable(m)) => return Err(format!("the text {:?} cannot be read: {}", s, m)),
    };
    // Vectors of equal entries are written as scalars; a scalar is never written as a vector.
    if want.len() != 1 {
        return Err(format!("the scalar expression prints as {:?}, which is a vector", s));
    }
    let w = want[0];
    if !got.is_finite() {
        // At the edge of a domain, where a simplified text is defined and the expression is not.
        return Ok(Seen::Undefined);
    }
    if (got - w.v).abs() > 1e-8 * (1.0 + w.v.abs()) + 1000.0 * w.e {
        return Err(format!("{:?} says {:?} (± {:e}) but the value is {:?} at {:?}", s, w.v, w.e, got, p.env));
    }
    Ok(Seen::Agree)
}

/// Compare every printed form of a scalar expression with its value at the points.
fn check(st: &mut Stats, a: &Any, pts: &mut [Point], what: &str) -> Result<bool, String> {
    let ones = a.ones();
    let texts = [a.disp(), a.expr().to_string()];
    if texts[0] != texts[1] {
        st.label("Display and to_expr print differently");
    }
    let mut judged = false;
    for (k, s) in texts.iter().enumerate() {
        if k == 1 && texts[0] == texts[1] {
            break;
        }
        if singular(s) {
            st.label("text with infinite or complex constants");
            // When that is all it says, the value is not finite either.
            if s == "∞" || s == "-∞" {
                for p in pts.iter_mut() {
                    let v = a.value(&mut p.ctx).map_err(|e| format!("{} fails: {}", what, e))?;
                    if v.abs() < 1e300 {
                        return Err(format!("{} prints as {:?} but its value is {:?} at {:?}", what, s, v, p.env));
                    }
                }
            }
            continue;
        }
        let tree = text::parse(s).map_err(|m| format!("{}: the text {:?} cannot be read: {}", what, s, m))?;
        for p in pts.iter_mut() {
            let got = a.value(&mut p.ctx).map_err(|e| format!("{} fails: {}", what, e))?;
            match judge(s, &tree, p, got) {
                Ok(Seen::Agree) => {
                    judged = true;
                    st.label("point judged");
                },
                Ok(Seen::Undefined) => st.label("point undefined"),
                // Recorded finding dot-ones: in a contraction, a vector of ones is taken for the identity.
                Err(_) if ones && what.contains("Dot") => st.label("recorded finding dot-ones"),
                Err(e) => return Err(format!("{}: {}", what, e)),
            }
        }
    }
    Ok(judged)
}

// ------------------------------------------------------------------ generation

struct Reg {
    any: Any,
    size: usize,
    show: String,
}

const UNS: [Un; 32] = expr::ast::UNS;

fn const_of(u: u16) -> f64 {
    const C: [f64; 16] = [2.0, 1.0, 0.0, -1.0, 0.5, 3.0, -2.0, 10.0, -0.25, 1.5, 0.1, 100.0, -3.0, 4.0, 1e-7, 0.75];
    // Any number of binary digits after the point, and of decimal digits.
    match u % 8 {
        0 => f64::from((u >> 6) as i16 - 512) / f64::powi(2.0, i32::from(u >> 3 & 7)),
        1 => f64::from((u >> 6) as i16 - 512) / f64::powi(10.0, i32::from(u >> 3 & 7)),
        _ => C[(u >> 3 & 15) as usize],
    }
}

/// Operators and leaves; derivative steps compose derivatives into larger expressions.
fn build(prog: &[[u16; 6]], max: usize, st: &mut Stats) -> Vec<Reg> {
    let mut regs: Vec<Reg> = vec![];
    for i in 0..2 {
        regs.push(Reg { any: var(i), size: 1, show: Tok { kind: 0, idx: i }.name() });
    }
    for ins in prog {
        let pick = |k: usize| {
            // Mostly recent registers.
            let n = regs.len();
            let u = ins[k] as usize;
            if u % 3 == 0 { (u / 3) % n } else { n - 1 - (u / 3) % n.min(4) }
        };
        let (a, b) = (pick(1), pick(2));
        let made = match ins[0] % 16 {
            0 => {
                let i = (ins[3] % 3) as u8;
                Some((var(i), 1, Tok { kind: 0, idx: i }.name(), "leaf"))
            },
            1 => {
                let c = const_of(ins[3]);
                Some((constant(c, false), 1, format!("{:?}", c), "leaf"))
            },
            2 => {
                let i = (ins[3] % 2) as u8;
                Some((vector(i), 1, Tok { kind: 2, idx: i }.name(), "leaf"))
            },
            3 | 4 => {
                // A derivative as an operand.
                let r = &regs[a];
                let i = (ins[3] % 3) as u8;
                (r.any.scalar() && r.any.level() > 0)
                    .then(|| (r.any.adj(Id(i)), r.size + 1, format!("D[{}]({})", Tok { kind: 0, idx: i }.name(), r.show), "derivative"))
            },
            5..=9 => {
                let u = UNS[ins[3] as usize % UNS.len()];
                let r = &regs[a];
                Some((unary(u, &r.any), r.size + 1, format!("{:?}({})", u, r.show), "unary"))
            },
            _ => {
                let b_op = BINS[ins[3] as usize % BINS.len()];
                let (l, r) = (&regs[a], &regs[b]);
                binary(b_op, &l.any, &r.any).map(|x| (x, l.size + r.size + 1, format!("{:?}({}, {})", b_op, l.show, r.show), "binary"))
            },
        };
        let Some((any, size, show, kind)) = made else { continue };
        // Vectors that no longer print as vectors are left out, as are huge trees.
        if size > max || (!any.scalar() && !matches!(any.expr(), Expr::Text(_))) {
            continue;
        }
        let len = match any.expr() {
            Expr::Text(t) => t.text.len(),
            e => {
                st.label(format!("{} printed as {}", kind, e));
                1
            },
        };
        if len > 20_000 {
            continue;
        }
        regs.push(Reg { any, size, show });
    }
    regs
}

fn points(case: &Case, n: usize) -> Vec<Point> {
    let t = &mut Tape::new(&case.head);
    (0..n).map(|_| point(t)).collect()
}

/// The last expression of a program, its derivative and its sum.
fn tree(case: &Case, st: &mut Stats) -> R {
    let mut pts = points(case, 3);
    let mut regs = build(&case.prog, 60, st);
    let Some(i) = (0..regs.len()).rev().find(|&i| regs[i].any.scalar()) else { return Ok(()) };
    let Reg { any, size, show } = regs.swap_remove(i);

    st.eval();
    st.sample(|| json!({"expression": show, "printed": any.disp(), "point": pts[0].env}));
    let mut judged = check(st, &any, &mut pts, &show)?;
    st.label(format!("level {}", any.level()));
    for op in ["Dot", "Pow", "Outer", "D["] {
        if show.contains(op) {
            st.label(format!("contains {}", op));
        }
    }
    if any.level() > 0 {
        let d = any.adj(Id(case.head.last().copied().unwrap_or(0) as u8 % 3));
        st.evals(1);
        judged |= check(st, &d, &mut pts, &format!("the derivative of {}", show))?;
        if d.level() > 0 {
            st.evals(1);
            check(st, &d.adj(Id(0)), &mut pts, &format!("the second derivative of {}", show))?;
        }
    }
    if judged && size >= 3 {
        st.nontrivial(&any.disp());
    }
    Ok(())
}

/// The sum over a vector.
fn sums(case: &Case, st: &mut Stats) -> R {
    let mut pts = points(case, 3);
    let mut prog = vec![[2, 0, 0, 0, 0, 0], [2, 0, 0, 1, 0, 0]];
    prog.extend_from_slice(&case.prog);
    let regs = build(&prog, 40, st);
    let r = regs.iter().rev().find(|r| !r.any.scalar()).unwrap();
    let ones = r.any.ones();
    let V0(v) = r.any.lower(0) else { unreachable!() };
    let sum = ops::Sum(v);
    let s = sum.to_string();

    st.eval();
    st.sample(|| json!({"expression": format!("Sum({})", r.show), "printed": s, "point": pts[0].env}));
    if singular(&s) {
        st.label("text with infinite or complex constants");
        return Ok(());
    }
    let tree = text::parse(&s).map_err(|m| format!("Sum({}): the text {:?} cannot be read: {}", r.show, s, m))?;
    for p in pts.iter_mut() {
        let got = sum.evaluate(&mut p.ctx).map_err(|e| format!("Sum({}) fails: {:?}", r.show, e))?;
        match judge(&s, &tree, p, got) {
            Ok(Seen::Agree) => {
                st.label("point judged");
                st.nontrivial(&s);
            },
            Ok(Seen::Undefined) => st.label("point undefined"),
            Err(_) if ones && r.show.contains("Dot") => st.label("recorded finding dot-ones"),
            Err(e) => return Err(format!("Sum({}): {}", r.show, e)),
        }
    }
    Ok(())
}

/// Many small expressions: those that print alike have the same value.
fn alike(case: &Case, st: &mut Stats) -> R {
    let mut pts = points(case, 2);
    let leaves: Vec<(Any, String)> = vec![
        (var(0), "x0".into()),
        (var(1), "x1".into()),
        (var(0).adj(Id(1)), "0".into()),
        (var(0).adj(Id(0)), "1".into()),
        (constant(2.0, false), "2c".into()),
        (constant(-1.0, false), "-1c".into()),
        (vector(0), "v".into()),
    ];
    let mut pool = leaves.clone();
    for ins in &case.prog {
        let n = pool.len();
        let pick = |k: usize| {
            let u = ins[k] as usize;
            if u % 2 == 0 { pool[(u / 2) % leaves.len()].clone() } else { pool[(u / 2) % n].clone() }
        };
        let (l, r) = (pick(1), pick(2));
        let next = if ins[0] % 3 == 0 {
            let u = UNS[ins[3] as usize % UNS.len()];
            Some((unary(u, &l.0), format!("{:?}({})", u, l.1)))
        } else {
            let b = BINS[ins[3] as usize % BINS.len()];
            binary(b, &l.0, &r.0).map(|x| (x, format!("{:?}({}, {})", b, l.1, r.1)))
        };
        if let Some((x, s)) = next {
            if s.len() < 120 && (x.scalar() || matches!(x.expr(), Expr::Text(_))) {
                pool.push((x, s));
            }
        }
    }
    let mut seen: HashMap<String, (Vec<f64>, String)> = HashMap::new();
    st.eval();
    for (x, show) in pool.iter().filter(|x| x.0.scalar()) {
        st.evals(1);
        if check(st, x, &mut pts, show)? {
            st.nontrivial(show);
        }
        let s = x.disp();
        if singular(&s) || x.ones() {
            continue;
        }
        let vals = pts.iter_mut().map(|p| x.value(&mut p.ctx)).collect::<Result<Vec<f64>, _>>().map_err(|e| format!("{} fails: {}", show, e))?;
        if let Some((other, o_show)) = seen.get(&s) {
            st.label("expressions printed alike");
            for (a, b) in vals.iter().zip(other) {
                if a.is_finite() && b.is_finite() && (a - b).abs() > 1e-6 * (1.0 + a.abs()) && a.abs() < 1e6 {
                    return Err(format!("{} and {} both print as {:?}, with values {:?} and {:?} at {:?}", show, o_show, s, vals, other, pts.iter().map(|p| &p.env).collect::<Vec<_>>()));
                }
            }
        } else {
            seen.insert(s, (vals, show.clone()));
        }
    }
    Ok(())
}

/// Double contractions, which exist as text only: an operand in every position and an enclosing operator are bracketed as needed.
fn double(case: &Case, st: &mut Stats) -> R {
    let regs = build(&case.prog, 12, st);
    let t = &mut Tape::new(&case.head);
    let mut pick = |t: &mut Tape| {
        let r = &regs[t.below(regs.len())];
        (r.any.lower(0), r.show.clone())
    };
    let ((l, ls), (r, rs)) = (pick(t), pick(t));
    let name = format!("Contract<2>({}, {})", ls, rs);
    let q = var(2).lower(0);
    let hole = q.disp();
    if l.disp().contains(&hole) || r.disp().contains(&hole) {
        return Ok(());
    }
    // One operand as it has to be read: bracketed, unless it is a single name or function application.
    let part = |e: Expr, d: String| match e {
        Expr::Text(p) => {
            let n = d.chars().all(|c| c.is_alphanumeric() || c == '.');
            (vec![format!("({})", p.text), if n || !p.needs_wrap { p.text.clone() } else { format!("({})", p.text) }], false, false)
        },
        Expr::Zero => (vec!["(0)".into(), "0".into()], true, false),
        Expr::One => (vec!["(1)".into(), "1".into()], false, true),
    };
    let ((lp, l0, l1), (rp, r0, r1)) = (part(l.expr(), l.disp()), part(r.expr(), r.disp()));
    let forms = |a: &[String], b: &[String]| -> Vec<String> { a.iter().flat_map(|x| b.iter().map(move |y| format!("{} : {}", x, y))).collect() };

    fn texts<Z: ToExpr + fmt::Display>(z: Z) -> [String; 2] { [z.to_string(), z.to_expr().to_string()] }
    macro_rules! operands { ($m:ident) => {
        match (l.clone(), r.clone()) {
            (S0(x), S0(y)) => $m!(x, y),
            (S0(x), V0(y)) => $m!(x, y),
            (V0(x), S0(y)) => $m!(x, y),
            (V0(x), V0(y)) => $m!(x, y),
            _ => unreachable!("harness: lowered"),
        }
    } }
    macro_rules! plain { ($x:ident, $y:ident) => { { let z = ops::TensorDoubleDot::new($x, $y); [z.to_string(), z.to_expr().to_string()] } } }
    st.eval();
    let got: [String; 2] = operands!(plain);
    let mut want = forms(&lp, &rp);
    if l0 || r0 {
        want.push("0".into());
    } else if l1 && r1 {
        want.push("1".into());
    } else if l1 {
        want.extend(rp.iter().cloned());
        want.push(r.disp());
    } else if r1 {
        want.extend(lp.iter().cloned());
        want.push(l.disp());
    }
    for s in &got {
        if !want.contains(s) {
            return Err(format!("{} prints as {:?}, which is none of {:?}", name, s, want));
        }
    }
    st.sample(|| json!({"expression": name, "printed": got}));
    if l0 || r0 || l1 || r1 {
        st.label("a factor of zero or one");
        return Ok(());
    }

    // Enclosed by another operator, it reads as one operand.
    let S0(qv) = q else { unreachable!() };
    let k = t.below(12);
    macro_rules! enclosed { ($z:expr, $w:expr) => {
        match k {
            0 => texts(ops::Negate($z)),
            1 => texts(ops::AddOne($z)),
            2 => texts(ops::OneSub($z)),
            3 => texts(ops::Square($z)),
            4 => texts(ops::Double($z)),
            5 => texts(ops::Exp($z)),
            6 => texts(ops::Add($w, $z)),
            7 => texts(ops::Sub($w, $z)),
            8 => texts(ops::Mul($z, $w)),
            9 => texts(ops::Div($w, $z)),
            10 => texts(ops::Power($z, $w)),
            _ => texts(ops::Power($w, $z)),
        }
    } }
    let S0(w) = var(0).lower(0) else { unreachable!() };
    let template = enclosed!(qv.clone(), w.clone());
    macro_rules! around { ($x:ident, $y:ident) => { enclosed!(ops::TensorDoubleDot::new($x.clone(), $y.clone()), w.clone()) } }
    let got: [String; 2] = operands!(around);
    for (s, t) in got.iter().zip(&template) {
        let at = t.find(&hole).ok_or_else(|| format!("harness: {:?} without {:?}", t, hole))?;
        let (a, b) = (&t[..at], &t[at + hole.len()..]);
        // As the whole argument of brackets that are there already, too.
        let inside = (a.ends_with('(') && b.starts_with(')')) || (a.ends_with('|') && b.starts_with('|'));
        let whole = a.is_empty() && b.is_empty();
        let ok = forms(&lp, &rp).iter().any(|f| *s == format!("{}({}){}", a, f, b) || ((inside || whole) && *s == format!("{}{}{}", a, f, b)));
        if !ok {
            return Err(format!("{} inside of {:?} prints as {:?}", name, t, s));
        }
    }
    st.label(format!("inside of {}", template[0]));
    st.nontrivial(&got[0]);
    Ok(())
}

/// Known finding: in a contraction, a vector of ones is printed as if it were the identity.
fn dot_ones() -> Option<String> {
    let e = binary(Bin::Dot, &binary(Bin::Add, &vector(0), &var(0)).unwrap(), &vector(1)).unwrap();
    let s = e.adj(Id(0)).disp();
    let w = Tok { kind: 2, idx: 1 }.name();
    (s == w).then(|| format!("the derivative of {} by x0 prints as {:?}, a vector, instead of the sum of its entries", e.disp(), s))
}

fn main() {
    main_check(Check {
        id: "C15",
        rule: "random expressions over every printable operator (scalars, and vectors inside contractions and sums), with \
               derivatives composed into them as operands, and their first and second derivatives; the printed text is read by an \
               independent parser with ordinary precedence and the value of what it says is compared with the evaluated value at \
               three points. Small expressions are also grouped by their text: equal texts, equal values. Non-trivial: at least \
               three nodes and a point at which the text is defined and well-conditioned; distinct by text.",
        assumptions: vec![
            "texts with ∞ or the imaginary unit stand for no real number: only checked to have no finite value when that is all they say",
            "a text is not judged at points where a function in it is undefined, discontinuous or ill-conditioned",
            "vectors are printed inside of contractions and sums only; a vector of equal entries may be written as that entry",
        ],
        subs: vec![
            Sub { name: "tree", quick: 1_000_000, thorough: 40_000_000, head: (22, 22), prog: (1, 20), f: tree },
            Sub { name: "sum", quick: 100_000, thorough: 3_000_000, head: (22, 22), prog: (1, 12), f: sums },
            Sub { name: "double", quick: 100_000, thorough: 2_000_000, head: (12, 12), prog: (1, 12), f: double },
            Sub { name: "alike", quick: 6_000, thorough: 300_000, head: (15, 15), prog: (50, 300), f: alike },
        ],
        known: vec![Known { key: "dot-ones", probe: dot_ones }],
    })
}
