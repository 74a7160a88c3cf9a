//! C18: dual-number arithmetic is exact first-order calculus.
#[macro_use]
extern crate aegir;
use aegir::buffers::shapes::{Shaped, S1};
use aegir::buffers::{Buffer, Class, Scalar};
use aegir::Dual;
use chk_all::face;
use expr::ast::*;
use expr::check::{agree, expected};
use expr::face::{Dyn, Out};
use expr::ids::Tok;
use harness::buf::{data, same, same_all, small_data, volume, Flat, Fld};
use harness::tape::Tape;
use harness::{main_check, Case, Check, Stats, Sub};
use serde_json::json;
use std::collections::BTreeMap;
use std::ops::{Add, Mul, Neg, Sub as Minus};

type R = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !$c { return Err(format!($($a)+)); } };
}

// ------------------------------------------------------------------ a buffer with arithmetic of its own

/// Three entries with element-wise arithmetic.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct W<F>(pub [F; 3]);

pub struct Ws;

impl Class<S1<3>> for Ws {
    type Buffer<F: Scalar> = W<F>;

    fn build<F: Scalar>(_: S1<3>, f: impl Fn(usize) -> F) -> W<F> { W([f(0), f(1), f(2)]) }

    fn build_subset<F: Scalar>(_: S1<3>, base: F, subset: impl Iterator<Item = usize>, active: impl Fn(usize) -> F) -> W<F> {
        let mut w = W([base; 3]);
        for i in subset {
            w.0[i] = active(i);
        }
        w
    }
}

impl<F: Scalar> Shaped for W<F> {
    type Shape = S1<3>;

    fn shape(&self) -> S1<3> { S1 }
}

impl<F: Scalar> Buffer for W<F> {
    type Class = Ws;
    type Field = F;

    fn class() -> Ws { Ws }

    fn get_unchecked(&self, ix: usize) -> F { self.0[ix] }

    fn map<A: Scalar, M: Fn(F) -> A>(self, f: M) -> W<A> { W(self.0.map(f)) }

    fn mutate<M: Fn(F) -> F>(&mut self, f: M) { self.0 = self.0.map(f) }
}

macro_rules! elementwise {
    ($($Op:ident $op:ident),*) => {$(
        impl<F: Scalar> $Op<W<F>> for W<F> {
            type Output = W<F>;
            fn $op(self, r: W<F>) -> W<F> { W([0, 1, 2].map(|i| self.0[i].$op(r.0[i]))) }
        }
        impl<'a, F: Scalar> $Op<&'a W<F>> for W<F> {
            type Output = W<F>;
            fn $op(self, r: &'a W<F>) -> W<F> { W([0, 1, 2].map(|i| self.0[i].$op(r.0[i]))) }
        }
    )*};
}

elementwise!(Add add, Minus sub, Mul mul);

impl<F: Scalar + Neg<Output = F>> Neg for W<F> {
    type Output = W<F>;
    fn neg(self) -> W<F> { W(self.0.map(|x| -x)) }
}

macro_rules! gradient {
    ($($F:ty),*) => {$(
        impl Mul<$F> for W<$F> {
            type Output = W<$F>;
            fn mul(self, r: $F) -> W<$F> { W(self.0.map(|x| x * r)) }
        }
        impl<'a> Mul<&'a $F> for W<$F> {
            type Output = W<$F>;
            fn mul(self, r: &'a $F) -> W<$F> { W(self.0.map(|x| x * r)) }
        }
        impl<'a> Mul<&'a W<$F>> for $F {
            type Output = W<$F>;
            fn mul(self, r: &'a W<$F>) -> W<$F> { W(r.0.map(|x| self * x)) }
        }
    )*};
}

gradient!(f64, f32, i64);

impl<F: Fld + Flat<F = F>> Flat for W<F> {
    type F = F;
    fn flat_push(&self, out: &mut Vec<F>) { out.extend(self.0) }
    fn flat_pull(_: &[usize], it: &mut dyn Iterator<Item = F>) -> Self { W([it.next().unwrap(), it.next().unwrap(), it.next().unwrap()]) }
}

// ------------------------------------------------------------------ single operations

fn fails<V: std::fmt::Debug, A: std::fmt::Debug>(what: &str, got: &Dual<V, A>, v: &dyn std::fmt::Debug, a: &dyn std::fmt::Debug) -> String {
    format!("{} is {:?} instead of {:?} with the adjoint {:?}", what, got, v, a)
}

/// Equal as numbers (zeroes of both signs are equal, any two NaNs are).
fn num<F: Fld>(x: F, y: F) -> bool { same(x, y) || x == y }

fn nums<F: Fld>(x: &[F], y: &[F]) -> bool { x.len() == y.len() && x.iter().zip(y).all(|(x, y)| num(*x, *y)) }

/// All forms of every operation on small numbers, where the arithmetic is exact: value and adjoint entry by entry
/// (`n` entries of the adjoint per entry of the value).
macro_rules! forms {
    ($name:expr, $V:ty, $A:ty, $t:ident, $st:ident) => {{
        type F = <$V as Flat>::F;
        let (nv, na) = (<$V as Flat>::of(&[3], &[F::small(0); 3][..lens::<$V>()]).flat().len(), lens::<$A>());
        let (av, aa, bv, ba) = (small_data::<F>(nv, $t), small_data::<F>(na, $t), small_data::<F>(nv, $t), small_data::<F>(na, $t));
        let (v, w) = (<$V as Flat>::of(&[3], &av), <$V as Flat>::of(&[3], &bv));
        let (a, b) = (<$A as Flat>::of(&[3], &aa), <$A as Flat>::of(&[3], &ba));
        let x = || Dual { value: v.clone(), adjoint: a.clone() };
        let y = || Dual { value: w.clone(), adjoint: b.clone() };
        let at = |xs: &[F], i: usize| xs[i % xs.len()];
        let zip = |f: &dyn Fn(F, F) -> F| -> Vec<F> { (0..nv).map(|i| f(av[i], bv[i])).collect() };
        // The adjoint's entry by both values and adjoints at its place.
        let adj = |f: &dyn Fn(F, F, F, F) -> F| -> Vec<F> { (0..na).map(|i| f(at(&av, i), aa[i], at(&bv, i), ba[i])).collect() };
        macro_rules! judge {
            ($what:expr, $got:expr, $v:expr, $a:expr) => {{
                let (got, v, a): (_, Vec<F>, Vec<F>) = ($got, $v, $a);
                $st.eval();
                ensure!(nums(&got.value.flat(), &v) && nums(&got.adjoint.flat(), &a), "{}", fails(&format!("{} of {:?} and {:?} in {}", $what, x(), y(), $name), &got, &v, &a));
            }};
        }
        judge!("sum", x() + y(), zip(&|p, q| p + q), adj(&|_, a, _, b| a + b));
        judge!("sum by reference", x() + &y(), zip(&|p, q| p + q), adj(&|_, a, _, b| a + b));
        judge!("sum with the plain value", x() + w.clone(), zip(&|p, q| p + q), aa.clone());
        judge!("sum with the plain value by reference", x() + &w, zip(&|p, q| p + q), aa.clone());
        judge!("difference", x() - y(), zip(&|p, q| p - q), adj(&|_, a, _, b| a - b));
        judge!("difference by reference", x() - &y(), zip(&|p, q| p - q), adj(&|_, a, _, b| a - b));
        judge!("difference with the plain value", x() - w.clone(), zip(&|p, q| p - q), aa.clone());
        judge!("difference with the plain value by reference", x() - &w, zip(&|p, q| p - q), aa.clone());
        judge!("product", x() * y(), zip(&|p, q| p * q), adj(&|p, a, q, b| a * q + p * b));
        judge!("product by reference", x() * &y(), zip(&|p, q| p * q), adj(&|p, a, q, b| a * q + p * b));
        judge!("product with the plain value", x() * w.clone(), zip(&|p, q| p * q), adj(&|_, a, q, _| a * q));
        judge!("product with the plain value by reference", x() * &w, zip(&|p, q| p * q), adj(&|_, a, q, _| a * q));
        judge!("square", x() * x(), av.iter().map(|p| *p * *p).collect(), adj(&|p, a, _, _| a * p + p * a));
        judge!("negation", -x(), av.iter().map(|p| -*p).collect(), aa.iter().map(|p| -*p).collect());
        judge!("conjugate", x().conj(), av.clone(), aa.iter().map(|p| -*p).collect());
        judge!("conjugate of the conjugate", x().conj().conj(), av.clone(), aa.clone());
        judge!("pair", Dual::from((v.clone(), a.clone())), av.clone(), aa.clone());
        judge!("dual!", dual!(v.clone(), a.clone()), av.clone(), aa.clone());
        let zeroes = vec![F::small(0); nv];
        let ones = vec![F::small(1); nv];
        judge!("constant", Dual::constant(v.clone()), av.clone(), zeroes.clone());
        judge!("dual! of one value", dual!(v.clone()), av.clone(), zeroes);
        judge!("variable", Dual::variable(v.clone()), av.clone(), ones);
        Ok(())
    }};
}

fn lens<B: Flat>() -> usize { if std::any::type_name::<B>().contains('W') { 3 } else { 1 } }

fn ops(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let k = t.below(8);
    let names = ["f64", "f32", "i64", "i32", "three f64", "f64 with gradient", "i64 with gradient", "three f32"];
    st.label(names[k]);
    st.nontrivial(&(k, &case.head));
    st.sample(|| json!({"type": names[k], "draws": case.head}));
    match k {
        0 => forms!(names[k], f64, f64, t, st),
        1 => forms!(names[k], f32, f32, t, st),
        2 => forms!(names[k], i64, i64, t, st),
        3 => forms!(names[k], i32, i32, t, st),
        4 => forms!(names[k], W<f64>, W<f64>, t, st),
        5 => forms!(names[k], f64, W<f64>, t, st),
        6 => forms!(names[k], i64, W<i64>, t, st),
        _ => forms!(names[k], W<f32>, W<f32>, t, st),
    }
}

/// Any floating-point numbers: values as the scalar type computes them, adjoints within rounding.
fn extremes(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let xs: Vec<f64> = (0..4).map(|_| <f64 as Fld>::any(t)).collect();
    let (p, a, q, b) = (xs[0], xs[1], xs[2], xs[3]);
    let (x, y) = (dual!(p, a), dual!(q, b));
    st.sample(|| json!({"left": [p, a], "right": [q, b]}));
    if xs.iter().all(|x| x.is_finite()) {
        st.nontrivial(&xs.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
        st.label("finite");
    }
    let mut judge = |what: &str, got: Dual<f64>, v: f64, a: f64, tol: f64| -> R {
        st.eval();
        let near = num(got.adjoint, a) || (tol > 0.0 && tol.is_finite() && (got.adjoint - a).abs() <= tol) || (tol != 0.0 && !tol.is_finite());
        ensure!(num(got.value, v) && near, "{}", fails(&format!("{} of {:?} and {:?}", what, x, y), &got, &v, &a));
        Ok(())
    };
    let tol = 1e-15 * ((a * q).abs() + (p * b).abs()) + 1e-320;
    judge("sum", x + y, p + q, a + b, 0.0)?;
    judge("sum by reference", x + &y, p + q, a + b, 0.0)?;
    judge("sum with a plain value", x + q, p + q, a, 0.0)?;
    judge("sum with a plain value by reference", x + &q, p + q, a, 0.0)?;
    judge("difference", x - y, p - q, a - b, 0.0)?;
    judge("difference by reference", x - &y, p - q, a - b, 0.0)?;
    judge("difference with a plain value", x - q, p - q, a, 0.0)?;
    judge("difference with a plain value by reference", x - &q, p - q, a, 0.0)?;
    judge("product", x * y, p * q, a * q + p * b, tol)?;
    judge("product by reference", x * &y, p * q, a * q + p * b, tol)?;
    judge("product with a plain value", x * q, p * q, a * q, 0.0)?;
    judge("product with a plain value by reference", x * &q, p * q, a * q, 0.0)?;
    judge("negation", -x, -p, -a, 0.0)?;
    judge("conjugate", x.conj(), p, -a, 0.0)
}

// ------------------------------------------------------------------ seeds and conjugates of every buffer

fn seeds(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    fn go<B>(dims: &[usize], t: &mut Tape, st: &mut Stats) -> R
    where
        B: Buffer<Field = <B as Flat>::F> + Flat + std::fmt::Debug,
        <B as Flat>::F: Neg<Output = <B as Flat>::F>,
    {
        let n = volume(dims);
        let (xs, ys): (Vec<<B as Flat>::F>, Vec<<B as Flat>::F>) = (data(n, t), data(n, t));
        let name = std::any::type_name::<B>();
        let b = || B::of(dims, &xs);
        let (c, v) = (Dual::<B>::constant(b()), Dual::<B>::variable(b()));
        let fill = |k: i64| vec![<<B as Flat>::F as Fld>::small(k); n];
        ensure!(same_all(&c.value.flat(), &xs) && nums(&c.adjoint.flat(), &fill(0)), "the constant of {} {:?} is {:?}", name, xs, c);
        ensure!(same_all(&v.value.flat(), &xs) && nums(&v.adjoint.flat(), &fill(1)), "the variable of {} {:?} is {:?}", name, xs, v);
        ensure!(c.adjoint.shape().cardinality() == n && v.adjoint.shape().cardinality() == n, "the adjoint of {} {:?} has another shape", name, xs);
        // The value of a conjugate may be anything.
        let neg: Vec<_> = ys.iter().map(|y| -*y).collect();
        let d = Dual { value: b(), adjoint: B::of(dims, &ys) }.conj();
        ensure!(same_all(&d.value.flat(), &xs) && same_all(&d.adjoint.flat(), &neg), "the conjugate of {} {:?} with {:?} is {:?}", name, xs, ys, d);
        let p = <B as Flat>::F::any(t);
        let d = Dual { value: p, adjoint: B::of(dims, &ys) };
        let d2 = Dual { value: p, adjoint: B::of(dims, &ys) }.conj();
        ensure!(same(d2.value, p) && same_all(&d2.adjoint.flat(), &neg), "the conjugate of {:?} with {} {:?} is {:?}", p, name, ys, d2);
        // Plain values on the right leave any adjoint alone.
        let q = <<B as Flat>::F as Fld>::small(t.below(9) as i64);
        let p = <<B as Flat>::F as Fld>::small(t.below(9) as i64);
        let d = Dual { value: p, ..d } + q;
        ensure!(num(d.value, p + q) && same_all(&d.adjoint.flat(), &ys), "{:?} + {:?} changes the adjoint {:?} of {} to {:?}", p, q, ys, name, d);
        let d = Dual { value: p, ..d } - q;
        ensure!(num(d.value, p - q) && same_all(&d.adjoint.flat(), &ys), "{:?} - {:?} changes the adjoint {:?} of {} to {:?}", p, q, ys, name, d);
        let e = Dual::from((xs.clone(), ys.clone()));
        ensure!(same_all(&e.value, &xs) && same_all(&e.adjoint, &ys), "the dual of {:?} and {:?} is {:?}", xs, ys, e);
        st.evals(8);
        st.label(name);
        if n > 1 {
            st.nontrivial(&(name, xs.iter().map(|x| x.bits()).collect::<Vec<_>>(), ys.iter().map(|x| x.bits()).collect::<Vec<_>>()));
        }
        st.sample(|| json!({"type": name, "entries": n}));
        Ok(())
    }
    use aegir::buffers::shapes::Shape;
    let len = t.below(8);
    match t.below(14) {
        0 => go::<f64>(&[], t, st),
        1 => go::<f32>(&[], t, st),
        2 => go::<(f64, f64)>(&[2], t, st),
        3 => go::<Vec<f64>>(&[len], t, st),
        4 => go::<[f64; 3]>(&[3], t, st),
        5 => go::<[f64; 7]>(&[7], t, st),
        6 => go::<[f32; 2]>(&[2], t, st),
        7 => go::<[[f64; 3]; 2]>(&[2, 3], t, st),
        8 => go::<[[f64; 2]; 3]>(&[3, 2], t, st),
        9 => go::<[[[f64; 2]; 3]; 2]>(&[2, 3, 2], t, st),
        10 => go::<[[[[f64; 2]; 1]; 2]; 2]>(&[2, 2, 1, 2], t, st),
        11 => go::<W<f64>>(&[3], t, st),
        12 => go::<W<f32>>(&[3], t, st),
        _ => go::<Vec<f32>>(&[len], t, st),
    }
}

// ------------------------------------------------------------------ polynomials

/// A polynomial in three variables: exponents and coefficients.
type Poly = BTreeMap<[u8; 3], i128>;

fn plus(p: &Poly, q: &Poly, s: i128) -> Poly {
    let mut r = p.clone();
    for (e, c) in q {
        *r.entry(*e).or_insert(0) += s * c;
    }
    r
}

fn times(p: &Poly, q: &Poly) -> Poly {
    let mut r = Poly::new();
    for (e, c) in p {
        for (f, d) in q {
            *r.entry([e[0] + f[0], e[1] + f[1], e[2] + f[2]]).or_insert(0) += c * d;
        }
    }
    r
}

fn derive(p: &Poly, i: usize) -> Poly {
    let mut r = Poly::new();
    for (e, c) in p {
        if e[i] > 0 {
            let mut f = *e;
            f[i] -= 1;
            *r.entry(f).or_insert(0) += c * e[i] as i128;
        }
    }
    r
}

fn at(p: &Poly, x: &[i64; 3]) -> i128 { p.iter().map(|(e, c)| c * (0..3).map(|i| (x[i] as i128).pow(e[i] as u32)).product::<i128>()).sum() }

/// A step on registers: number of the operation, operands, literal, and how it is written.
#[derive(Clone, Debug)]
struct Step {
    op: usize,
    l: usize,
    r: usize,
    k: i64,
    form: usize,
}

const OPS: [&str; 9] = ["+", "-", "*", "+ plain", "- plain", "* plain", "neg", "square", "constant"];

/// The registers' duals: variables first. One text for every kind of dual number.
macro_rules! run_duals {
    ($start:expr, $steps:expr, $lit:expr, $cst:expr) => {{
        let mut regs = $start;
        for s in $steps.iter() {
            let (x, y, k) = (regs[s.l].clone(), regs[s.r].clone(), $lit(s.k));
            let z = match (s.op, s.form % 2) {
                (0, 0) => x + y,
                (0, _) => x + &y,
                (1, 0) => x - y,
                (1, _) => x - &y,
                (2, 0) => x * y,
                (2, _) => x * &y,
                (3, 0) => x + k,
                (3, _) => x + &k,
                (4, 0) => x - k,
                (4, _) => x - &k,
                (5, 0) => x * k,
                (5, _) => x * &k,
                (6, _) => -x,
                (7, 0) => x.clone() * x,
                (7, _) => x.clone() * &x,
                _ => $cst(k),
            };
            regs.push(z);
        }
        regs
    }};
}

struct Program {
    steps: Vec<Step>,
    polys: Vec<Poly>,
    x: [i64; 3],
}

/// A program whose values and derivatives, at every step, are integers below the bound.
fn program(case: &Case, bound: f64) -> Program {
    let t = &mut Tape::new(&case.head);
    let small = |t: &mut Tape| t.int() as i64 % 8;
    let x = [small(t), small(t), small(t)];
    let mut polys: Vec<Poly> = (0..3)
        .map(|i| {
            let mut e = [0; 3];
            e[i] = 1;
            Poly::from([(e, 1)])
        })
        .collect();
    // Bounds of the value, of its derivatives, and of the degree.
    let mut mags: Vec<(f64, f64, u32)> = x.iter().map(|x| (x.abs() as f64, 1.0, 1)).collect();
    let mut steps = vec![];
    for ins in &case.prog {
        let n = polys.len();
        let pick = |u: u16| if u % 3 == 0 { (u / 3) as usize % n } else { n - 1 - (u / 3) as usize % n.min(3) };
        let mut s = Step { op: ins[0] as usize % 9, l: pick(ins[1]), r: pick(ins[2]), k: ins[3] as i64 % 15 - 7, form: ins[4] as usize };
        let (mx, my, k) = (mags[s.l], mags[s.r], (s.k.abs() as f64, 0.0, 0));
        let prod = |a: (f64, f64, u32), b: (f64, f64, u32)| (a.0 * b.0, a.1 * b.0 + a.0 * b.1, a.2 + b.2);
        let add = |a: (f64, f64, u32), b: (f64, f64, u32)| (a.0 + b.0, a.1 + b.1, a.2.max(b.2));
        let mag = |op: usize| match op {
            0 | 1 => add(mx, my),
            2 => prod(mx, my),
            3 | 4 => add(mx, k),
            5 => prod(mx, k),
            6 => mx,
            7 => prod(mx, mx),
            _ => k,
        };
        let fits = |m: (f64, f64, u32)| m.0 < bound && m.1 < bound && m.2 <= 12;
        if !fits(mag(s.op)) {
            s.op = if fits(mag(1)) { 1 } else { 6 };
        }
        let (p, q, c) = (&polys[s.l], &polys[s.r], Poly::from([([0; 3], s.k as i128)]));
        let r = match s.op {
            0 => plus(p, q, 1),
            1 => plus(p, q, -1),
            2 => times(p, q),
            3 => plus(p, &c, 1),
            4 => plus(p, &c, -1),
            5 => times(p, &c),
            6 => plus(&Poly::new(), p, -1),
            7 => times(p, p),
            _ => c,
        };
        mags.push(mag(s.op));
        polys.push(r);
        steps.push(s);
    }
    Program { steps, polys, x }
}

/// The library's expression of a register.
fn expression(steps: &[Step], form: usize) -> Vec<Ast> {
    let s = Kind::S;
    let mut regs: Vec<Ast> = (0..3).map(|i| mk(Op::Var(i), s, vec![], form % 2 == 0)).collect();
    for st in steps {
        let (x, y) = (regs[st.l].clone(), regs[st.r].clone());
        let m = (form + st.form) % 3 == 0;
        let k = mk(Op::Const(Leaf::Raw(vec![], vec![st.k as f64])), s, vec![], m);
        regs.push(match st.op {
            0 => mk(Op::Add, s, vec![x, y], m),
            1 => mk(Op::Sub, s, vec![x, y], m),
            2 => mk(Op::Mul, s, vec![x, y], m),
            3 if st.k == 1 && m => mk(Op::Un(Un::AddOne), s, vec![x], m),
            3 => mk(Op::Add, s, vec![x, k], m),
            4 if st.k == 1 && m => mk(Op::Un(Un::SubOne), s, vec![x], m),
            4 => mk(Op::Sub, s, vec![x, k], m),
            5 if st.k == 2 && m => mk(Op::Un(Un::Double), s, vec![x], m),
            5 => mk(Op::Mul, s, vec![x, k], m),
            6 => mk(Op::Un(Un::Negate), s, vec![x], m),
            7 => mk(Op::Un(Un::Square), s, vec![x], m),
            _ => k,
        });
    }
    regs
}

fn text(p: &Program) -> String {
    let mut s = format!("r0 = {}, r1 = {}, r2 = {}", p.x[0], p.x[1], p.x[2]);
    for (i, t) in p.steps.iter().enumerate() {
        s += &match t.op {
            0..=2 => format!("; r{} = r{} {} r{}{}", i + 3, t.l, OPS[t.op], t.r, if t.form % 2 == 1 { " by reference" } else { "" }),
            3..=5 => format!("; r{} = r{} {} {}{}", i + 3, t.l, OPS[t.op], t.k, if t.form % 2 == 1 { " by reference" } else { "" }),
            8 => format!("; r{} = {}", i + 3, t.k),
            _ => format!("; r{} = {} r{}", i + 3, OPS[t.op], t.l),
        };
    }
    s
}

fn polynomials(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head[case.head.len() / 2..]);
    let kind = t.below(7);
    let bound = match kind { 1 => 1.6e7, 6 => 2e9, _ => 9e15 };
    let p = program(case, bound);
    let wants: Vec<(i128, [i128; 3])> = p.polys.iter().map(|q| (at(q, &p.x), [0, 1, 2].map(|i| at(&derive(q, i), &p.x)))).collect();
    let n = wants.len();
    st.label(["f64", "f32", "i64", "f64 with gradient", "three f64 at once", "i64 with gradient", "i32"][kind]);
    for s in &p.steps {
        st.label(format!("operation {}", OPS[s.op]));
    }
    st.sample(|| json!({"program": text(&p)}));
    if p.steps.len() > 2 && p.polys.last().unwrap().keys().any(|e| e.iter().sum::<u8>() > 1) {
        st.nontrivial(&(kind, text(&p)));
    }
    macro_rules! single {
        ($F:ty) => {{
            let tok = t.below(3);
            let start: Vec<Dual<$F>> = (0..3)
                .map(|i| {
                    let x = p.x[i] as $F;
                    match (i == tok, t.flag()) {
                        (true, true) => Dual::variable(x),
                        (true, _) => dual!(x, 1 as $F),
                        (_, true) => Dual::constant(x),
                        _ => dual!(x),
                    }
                })
                .collect();
            let regs = run_duals!(start, p.steps, |k: i64| k as $F, |k: $F| if tok % 2 == 0 { dual!(k) } else { Dual::constant(k) });
            for (i, r) in regs.iter().enumerate() {
                st.eval();
                let (v, a) = (wants[i].0 as $F, wants[i].1[tok] as $F);
                ensure!(r.value == v && r.adjoint == a, "{} (by r{}, for {})", fails(&format!("r{} in {}", i, stringify!($F)), r, &v, &a), tok, text(&p));
            }
        }};
    }
    macro_rules! gradient {
        ($F:ty) => {{
            let unit = |i: usize| W([0, 1, 2].map(|j| (i == j) as i64 as $F));
            let start: Vec<Dual<$F, W<$F>>> = (0..3).map(|i| Dual { value: p.x[i] as $F, adjoint: unit(i) }).collect();
            let regs = run_duals!(start, p.steps, |k: i64| k as $F, |k: $F| Dual { value: k, adjoint: W([0 as $F; 3]) });
            for (i, r) in regs.iter().enumerate() {
                st.eval();
                let (v, a) = (wants[i].0 as $F, wants[i].1.map(|a| a as $F));
                ensure!(r.value == v && r.adjoint.0 == a, "{} (for {})", fails(&format!("r{} with its gradient", i), r, &v, &a), text(&p));
            }
        }};
    }
    match kind {
        0 => {
            single!(f64);
        },
        1 => single!(f32),
        2 => single!(i64),
        6 => single!(i32),
        3 => gradient!(f64),
        5 => gradient!(i64),
        _ => {
            // Three points at once, which differ in one variable.
            let tok = t.below(3);
            let xs = [0, 1, 2].map(|j| {
                let mut x = p.x;
                if x[tok] != 0 {
                    // Magnitudes stay.
                    x[tok] = [x[tok], -x[tok], x[tok].signum()][j];
                }
                x
            });
            let start: Vec<Dual<W<f64>>> = (0..3)
                .map(|i| {
                    let w = W([0, 1, 2].map(|j| xs[j][i] as f64));
                    if i == tok { Dual::variable(w) } else { Dual::constant(w) }
                })
                .collect();
            let regs = run_duals!(start, p.steps, |k: i64| W([k as f64; 3]), |k: W<f64>| Dual::constant(k));
            for (i, r) in regs.iter().enumerate() {
                st.eval();
                let v = xs.map(|x| at(&p.polys[i], &x) as f64);
                let a = xs.map(|x| at(&derive(&p.polys[i], tok), &x) as f64);
                ensure!(r.value.0 == v && r.adjoint.0 == a, "{} (by r{}, for {})", fails(&format!("r{} at three points", i), r, &v, &a), tok, text(&p));
            }
        },
    }
    // The expression interface, on the last registers.
    if bound > 1e15 && t.below(4) == 0 {
        let asts = expression(&p.steps, t.below(6));
        let mut vars = Vars::default();
        for i in 0..3 {
            vars.0.insert(Tok { kind: 0, idx: i as u8 }, Leaf::Raw(vec![], vec![p.x[i] as f64]));
        }
        for (k, a) in asts.iter().enumerate().skip(3.max(n - (n - 2).min(2))) {
            if a.size > 200 {
                st.label("expression too large");
                continue;
            }
            let node: Dyn = face(Family::S1, a);
            let mut c = vars.ctx();
            let one = |x: f64| Out { dims: vec![], xs: vec![x] };
            let is = |o: &Out, x: i128| o.eq(&one(x as f64));
            let v = node.ev(&mut c).map_err(|e| format!("{} fails with {:?}", show(a), e))?;
            ensure!(is(&v, wants[k].0), "{} is {:?}, the dual's value {} (for {})", show(a), v, wants[k].0, text(&p));
            for i in 0..3 {
                let tok = Tok { kind: 0, idx: i as u8 };
                let want = wants[k].1[i];
                let d = node.ev_adj(tok, &mut c).unwrap().map_err(|e| format!("the derivative of {} fails with {:?}", show(a), e))?;
                let (dv, da) = node.ev_dual(tok, &mut c).unwrap().map_err(|e| format!("the dual of {} fails with {:?}", show(a), e))?;
                st.evals(2);
                st.label("against the expression interface");
                ensure!(is(&d, want) && is(&dv, wants[k].0) && is(&da, want), "d/d{} of {} is {:?} ({:?} by its dual), the dual's adjoint {} (for {})", tok, show(a), d, (dv, da), want, text(&p));
            }
        }
    }
    Ok(())
}

/// Real numbers: duals and expressions against the evaluator with error bounds.
fn reals(case: &Case, st: &mut Stats) -> R {
    let mut case = case.clone();
    for ins in &mut case.prog {
        // Literals are scaled below.
        ins[3] %= 15;
    }
    let p = program(&case, 1e12);
    let t = &mut Tape::new(&case.head[case.head.len() / 2..]);
    let xs = [t.val() / 2.0, t.val() / 2.0, t.val() / 2.0];
    let asts = expression(&p.steps, t.below(6));
    let a = asts.last().unwrap();
    if a.size > 200 {
        st.label("expression too large");
        return Ok(());
    }
    let mut vars = Vars::default();
    for i in 0..3 {
        vars.0.insert(Tok { kind: 0, idx: i as u8 }, Leaf::Raw(vec![], vec![xs[i]]));
    }
    let node = face(Family::S1, a);
    st.sample(|| json!({"expression": show(a), "for": vars.show()}));
    if a.size > 3 {
        st.nontrivial(&(show(a), vars.show()));
    }
    let mut c = vars.ctx();
    let out = |x: f64| Ok(Out { dims: vec![], xs: vec![x] });
    for tok in 0..3 {
        let by = Tok { kind: 0, idx: tok as u8 };
        let start: Vec<Dual<f64>> = (0..3).map(|i| if i == tok { Dual::variable(xs[i]) } else { Dual::constant(xs[i]) }).collect();
        let regs = run_duals!(start, p.steps, |k: i64| k as f64, |k: f64| dual!(k));
        let r = regs.last().unwrap();
        let Ok((dims, v)) = expected(a, &vars, &[]) else { return Err("harness: no reference".into()) };
        let Ok((_, d)) = expected(a, &vars, &[by]) else { return Err("harness: no reference".into()) };
        let what = |x: &str| format!("{} of {} by {} for {}", x, show(a), by, vars.show());
        agree(st, out(r.value), &dims, &v, &|| what("the dual's value"))?;
        agree(st, out(r.adjoint), &dims, &d, &|| what("the dual's adjoint"))?;
        agree(st, node.ev(&mut c), &dims, &v, &|| what("the expression's value"))?;
        agree(st, node.ev_adj(by, &mut c).unwrap(), &dims, &d, &|| what("the expression's derivative"))?;
        let dual = node.ev_dual(by, &mut c).unwrap().map_err(|e| format!("{} fails with {:?}", what("the dual"), e))?;
        agree(st, Ok(dual.0), &dims, &v, &|| what("the value of the expression's dual"))?;
        agree(st, Ok(dual.1), &dims, &d, &|| what("the adjoint of the expression's dual"))?;
        st.evals(6);
    }
    Ok(())
}

fn main() {
    main_check(Check {
        id: "C18",
        rule: "every operation in every form (dual or plain value on the right, by value or by reference) on exact small numbers of four scalar \
               types, on a buffer with element-wise arithmetic and on scalars with gradient buffers, and on arbitrary bit patterns; seeds and \
               conjugates of fourteen buffer types; random programs of dual operations in three variables (seven kinds of dual number) against \
               exact symbolic polynomials and their formal derivatives, and against the expression interface; the same over reals against an \
               evaluator with error bounds. Non-trivial: finite data / more than one entry / programs of degree two and more; distinct by data.",
        assumptions: vec![
            "integers stay below the range in which the scalar type is exact (steps that would exceed it are replaced)",
            "products of arbitrary bit patterns may be rounded differently in the adjoint (relative 1e-15 of the terms)",
        ],
        subs: vec![
            Sub { name: "ops", quick: 800_000, thorough: 10_000_000, head: (20, 40), prog: (0, 1), f: ops },
            Sub { name: "extremes", quick: 800_000, thorough: 10_000_000, head: (12, 16), prog: (0, 1), f: extremes },
            Sub { name: "seeds", quick: 800_000, thorough: 10_000_000, head: (20, 60), prog: (0, 1), f: seeds },
            Sub { name: "polynomials", quick: 400_000, thorough: 12_000_000, head: (12, 30), prog: (1, 16), f: polynomials },
            Sub { name: "reals", quick: 160_000, thorough: 4_000_000, head: (12, 30), prog: (1, 14), f: reals },
        ],
        known: vec![],
    })
}
