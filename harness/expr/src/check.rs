//! Steps shared by the checks on generated expressions.
use crate::ast::*;
use crate::erase::EErr;
use crate::face::Out;
use crate::ids::Tok;
use crate::num::{Ball, Num, D};
use harness::Stats;

/// Compare a result with the reference: the number of judged entries.
pub fn agree(st: &mut Stats, got: Result<Out, EErr>, dims: &[usize], want: &[Ball], what: &dyn Fn() -> String) -> Result<usize, String> {
    agree_by(close, st, got, dims, want, what)
}

pub fn agree_by(close: fn(f64, Ball) -> Option<bool>, st: &mut Stats, got: Result<Out, EErr>, dims: &[usize], want: &[Ball], what: &dyn Fn() -> String) -> Result<usize, String> {
    let got = got.map_err(|e| format!("{} fails with {:?}", what(), e))?;
    if got.dims != dims || got.xs.len() != want.len() {
        return Err(format!("{} has dimensions {:?} instead of {:?}", what(), got.dims, dims));
    }
    let mut judged = 0;
    for (i, (x, w)) in got.xs.iter().zip(want).enumerate() {
        match close(*x, *w) {
            Some(true) => judged += 1,
            None => st.label("entry too ill-conditioned to judge"),
            Some(false) => return Err(format!("entry {} of {} is {:?} instead of {:?} (± {:e})", i, what(), x, w.v, w.e)),
        }
    }
    Ok(judged)
}

/// Run a case's program: the generated expression.
pub fn generate(g: &mut Gen, prog: &[[u16; 6]], kinds: impl Fn(Kind) -> bool) -> Ast {
    for ins in prog {
        g.step(ins);
    }
    let r = g.root(kinds).expect("harness: no root");
    g.regs[r].ast.clone()
}

/// Seed a variable's derivative.
pub fn seed<T: Num>(env: &mut Env<D<T>>, t: Tok) {
    if let Some(v) = env.vars.get_mut(&t) {
        for x in &mut v.xs {
            x.b = T::cst(1.0);
        }
    }
}

pub fn describe(st: &mut Stats, ast: &Ast) {
    st.label(format!("value {:?}", ast.kind));
    st.label(format!("size {}", match ast.size { 0..=2 => "1-2", 3..=7 => "3-7", 8..=20 => "8-20", 21..=60 => "21-60", _ => "61-" }));
    census(ast, &mut |a| match &a.op {
        Op::Un(u) => st.label(format!("operator {:?}", u)),
        Op::Var(_) | Op::Const(_) => {},
        o => st.label(format!("operator {} {:?}", match o { Op::Cached(_) => "Cached".into(), o => format!("{:?}", o) }, a.args.iter().map(|x| x.kind).collect::<Vec<_>>())),
    });
}

/// The identifiers of an expression.
pub fn ids(a: &Ast) -> std::collections::BTreeSet<Tok> {
    let mut out = Default::default();
    toks(a, &mut out);
    out
}

use crate::num::Grad;

/// Seed the derivatives by every entry of a variable.
pub fn seed_all<T: Num>(env: &mut Env<Grad<T>>, t: Tok) {
    if let Some(v) = env.vars.get_mut(&t) {
        let n = v.xs.len();
        for (i, x) in v.xs.iter_mut().enumerate() {
            x.b = (0..n).map(|j| T::cst(if i == j { 1.0 } else { 0.0 })).collect();
        }
    }
}

/// The entries of a Jacobian, in row-major order over the value's and then the target's indices.
pub fn jacobian<T: Num>(v: &Val<Grad<T>>, n: usize) -> Vec<T> {
    v.xs.iter().flat_map(|x| (0..n).map(|i| x.b.get(i).cloned().unwrap_or(T::cst(0.0)))).collect()
}

/// Contraction whose derivative is read the way the library computes it (recorded finding contract-left): the
/// Jacobian of the left factor is contracted over its last axis, which is the target's, not the value's.
pub fn contract_left(axes: usize, x: &Val<Grad<Ball>>, y: &Val<Grad<Ball>>) -> Val<Grad<Ball>> {
    let mut out = contract(axes, x, y);
    let n = x.xs.iter().chain(&y.xs).map(|g| g.b.len()).max().unwrap_or(0);
    if n == 0 {
        return out;
    }
    let strip = |v: &Val<Grad<Ball>>| Val { dims: v.dims.clone(), xs: v.xs.iter().map(|g| Grad { a: g.a, b: vec![] }).collect::<Vec<Grad<Ball>>>() };
    // value(x) * J(y)
    let right = contract(axes, &strip(x), y);
    // J(x) * value(y)
    let mut dims = x.dims.clone();
    dims.push(n);
    let jx = Val { dims, xs: jacobian(x, n) };
    let vy = Val { dims: y.dims.clone(), xs: y.xs.iter().map(|g| g.a).collect::<Vec<Ball>>() };
    // A scalar has no axis to contract over.
    let left = contract(if x.dims.is_empty() || y.dims.is_empty() { 0 } else { axes }, &jx, &vy);
    for (i, o) in out.xs.iter_mut().enumerate() {
        o.b = (0..n)
            .map(|j| {
                let r = right.xs[i].b.get(j).copied().unwrap_or(Ball::exact(0.0));
                r.add(&left.xs[i * n + j])
            })
            .collect();
    }
    out
}

/// The reference derivative by the given variables (none: the value), its dimensions those of the value and
/// then of the array variables. At most three variables, of which one may be an array.
pub fn expected(ast: &Ast, vars: &Vars, by: &[Tok]) -> Result<(Vec<usize>, Vec<Ball>), RefErr> {
    let arrays: Vec<Tok> = by.iter().copied().filter(|t| t.kind != 0).collect();
    let scalars: Vec<Tok> = by.iter().copied().filter(|t| t.kind == 0).collect();
    let tdims: Vec<usize> = arrays.iter().flat_map(|t| Kind::of(t.kind).dims().unwrap()).collect();
    let n: usize = tdims.iter().product();
    let one = |env: &mut BTreeMap<Tok, Val<D<Ball>>>, t: Tok| {
        for x in &mut env.get_mut(&t).unwrap().xs {
            x.b = Ball::exact(1.0);
        }
    };
    let with = |dims: Vec<usize>| dims.into_iter().chain(tdims.clone()).collect::<Vec<usize>>();
    Ok(match (scalars.len(), arrays.len()) {
        (0, 0) => {
            let v = eval(ast, &mut vars.env::<Ball>())?;
            (v.dims, v.xs)
        },
        (1, 0) => {
            let mut env = vars.env::<D<Ball>>();
            one(&mut env.vars, scalars[0]);
            let v = eval(ast, &mut env)?;
            (v.dims, v.xs.iter().map(|x| x.b).collect())
        },
        (0, 1) => {
            let mut env = vars.env::<Grad<Ball>>();
            seed_all(&mut env, arrays[0]);
            let v = eval(ast, &mut env)?;
            (with(v.dims.clone()), jacobian(&v, n))
        },
        (2, 0) => {
            let mut env = vars.env::<D<D<Ball>>>();
            seed(&mut env, scalars[0]);
            for x in &mut env.vars.get_mut(&scalars[1]).unwrap().xs {
                x.a.b = Ball::exact(1.0);
            }
            let v = eval(ast, &mut env)?;
            (v.dims, v.xs.iter().map(|x| x.b.b).collect())
        },
        (1, 1) => {
            let mut env = vars.env::<Grad<D<Ball>>>();
            seed_all(&mut env, arrays[0]);
            for x in &mut env.vars.get_mut(&scalars[0]).unwrap().xs {
                x.a.b = Ball::exact(1.0);
            }
            let v = eval(ast, &mut env)?;
            (with(v.dims.clone()), jacobian(&v, n).into_iter().map(|x| x.b).collect())
        },
        (3, 0) => {
            let mut env = vars.env::<D<D<D<Ball>>>>();
            seed(&mut env, scalars[0]);
            for x in &mut env.vars.get_mut(&scalars[1]).unwrap().xs {
                x.a.b = D::cst(1.0);
            }
            for x in &mut env.vars.get_mut(&scalars[2]).unwrap().xs {
                x.a.a.b = Ball::exact(1.0);
            }
            let v = eval(ast, &mut env)?;
            (v.dims, v.xs.iter().map(|x| x.b.b.b).collect())
        },
        _ => unreachable!("harness: derivative outside of the families"),
    })
}

use std::collections::BTreeMap;

/// Two results of the library for the same quantity: equal up to rounding, as amplified by the computation's
/// conditioning. `None`: too ill-conditioned to judge.
pub fn alike(a: &Out, b: &Out, reference: impl FnOnce() -> Option<Vec<Ball>>) -> Option<bool> {
    if a.near(b, 1e-10) {
        return Some(true);
    }
    if a.dims != b.dims || a.xs.len() != b.xs.len() {
        return Some(false);
    }
    let Some(balls) = reference() else { return Some(false) };
    let mut sure = true;
    for ((x, y), w) in a.xs.iter().zip(&b.xs).zip(&balls) {
        if x == y || (x.is_nan() && y.is_nan()) {
            continue;
        }
        if !w.v.is_finite() || !w.e.is_finite() || w.e > 1e-5 * (1.0 + w.v.abs()) {
            sure = false;
            continue;
        }
        // Written so that NaN differs.
        let near = (x - y).abs() <= 1e-9 * (1.0 + w.v.abs()) + 2000.0 * w.e;
        if !near {
            return Some(false);
        }
    }
    if sure { Some(true) } else { None }
}
