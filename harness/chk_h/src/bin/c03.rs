//! C03: higher-order and mixed derivatives are exact, in any order of the variables.
#[macro_use]
extern crate aegir;

use expr::ast::*;
use expr::check::*;
use expr::face::Dyn;
use expr::ids::Tok;
use expr::num::{Ball, Grad, Num, D};
use harness::tape::Tape;
use harness::{main_check, Case, Check, Stats, Sub};
use serde_json::json;

type R = Result<(), String>;

fn var(idx: u8) -> Tok { Tok { kind: 0, idx } }

/// The derivative by the given variables, the first one taken first.
fn chain(node: &Dyn, by: &[Tok]) -> Dyn {
    let mut n = node.adj(by[0]).expect("harness: target");
    for t in &by[1..] {
        n = n.adj(*t).expect("harness: target");
    }
    n
}

fn orders(by: &[Tok]) -> Vec<Vec<Tok>> {
    if by.len() == 1 {
        return vec![by.to_vec()];
    }
    let mut out: Vec<Vec<Tok>> = vec![];
    for i in 0..by.len() {
        let mut rest = by.to_vec();
        let f = rest.remove(i);
        for mut p in orders(&rest) {
            p.insert(0, f);
            if !out.contains(&p) {
                out.push(p);
            }
        }
    }
    out
}

/// A variable of a kind: usually one that occurs in the expression.
fn choose(t: &mut Tape, ast: &Ast, kind: u8, n: u8) -> Tok {
    let present: Vec<Tok> = ids(ast).into_iter().filter(|i| i.kind == kind).collect();
    if present.is_empty() || t.below(6) == 0 { Tok { kind, idx: t.below(n as usize) as u8 } } else { t.pick(&present) }
}

fn show_by(by: &[Tok]) -> String { by.iter().map(|t| t.name()).collect::<Vec<_>>().join(", then ") }

/// Evaluate the derivative in every order of the variables and compare with the reference.
fn judge(close: fn(f64, Ball) -> Option<bool>, st: &mut Stats, node: &Dyn, ast: &Ast, vars: &Vars, by: &[Tok], dims: &[usize], want: &[Ball]) -> R {
    let ids = ids(ast);
    let all = by.iter().all(|t| ids.contains(t));
    let mut judged = 0;
    let perms = orders(by);
    for p in &perms {
        let what = || format!("the derivative by {} of {} for {}", show_by(p), show(ast), vars.show());
        st.eval();
        judged += agree_by(close, st, chain(node, p).ev(&mut vars.ctx()), dims, want, &what)?;
    }
    let nz = want.iter().any(|b| b.v != 0.0);
    st.sample(|| json!({"expression": show(ast), "by": show_by(by), "orders": perms.len(), "variables": vars.show(), "derivative": want.iter().map(|b| b.v).collect::<Vec<_>>()}));
    st.label(format!("order {}, {} order(s) of the variables, {}", by.len(), perms.len(), match (all, nz) {
        (false, _) => "a variable absent",
        (true, false) => "zero",
        (true, true) => "non-zero",
    }));
    if judged > 0 && all && nz && ast.size >= 3 {
        st.nontrivial(&(show(ast), vars.show(), show_by(by)));
    }
    Ok(())
}

fn third(case: &Case, st: &mut Stats) -> R { third_by(case, st, false) }
fn third_wide(case: &Case, st: &mut Stats) -> R { third_by(case, st, true) }

fn third_by(case: &Case, st: &mut Stats, wide: bool) -> R {
    let t = &mut Tape::new(&case.head);
    let mut g = if wide { Gen::new(Family::S3, 12, 1e18) } else { Gen::new(Family::S3, 60, 1e3) };
    g.wide = wide;
    let rel = if wide { close_rel } else { close };
    g.use_caches = t.below(6) == 0;
    g.pool(t, 2, 1);
    let ast = generate(&mut g, &case.prog, |_| true);
    let node = fams::face3(&ast);
    describe(st, &ast);
    for _ in 0..2 {
        let by: Vec<Tok> = (0..3).map(|_| choose(t, &ast, 0, 3)).collect();
        if by.contains(&var(2)) && !g.vars.0.contains_key(&var(2)) {
            let l = leaf(Kind::S, t, 0);
            g.vars.0.insert(var(2), l);
        }
        let mut env = g.vars.env::<D<D<D<Ball>>>>();
        seed(&mut env, by[0]);
        for x in &mut env.vars.get_mut(&by[1]).unwrap().xs {
            x.a.b = Num::cst(1.0);
        }
        for x in &mut env.vars.get_mut(&by[2]).unwrap().xs {
            x.a.a.b = Ball::exact(1.0);
        }
        let want = eval(&ast, &mut env).map_err(|e| format!("harness: {:?}", e))?;
        let d: Vec<Ball> = want.xs.iter().map(|x| x.b.b.b).collect();
        judge(rel, st, &node, &ast, &g.vars, &by, &want.dims, &d)?;
        // The second derivative on the way.
        let d: Vec<Ball> = want.xs.iter().map(|x| x.b.b.a).collect();
        judge(rel, st, &node, &ast, &g.vars, &by[..2], &want.dims, &d)?;
    }
    Ok(())
}

fn second(case: &Case, st: &mut Stats) -> R { second_by(case, st, false) }
fn second_wide(case: &Case, st: &mut Stats) -> R { second_by(case, st, true) }

fn second_by(case: &Case, st: &mut Stats, wide: bool) -> R {
    let t = &mut Tape::new(&case.head);
    let mut g = if wide { Gen::new(Family::S2, 12, 1e30) } else { Gen::new(Family::S2, 80, 1e3) };
    g.wide = wide;
    let rel = if wide { close_rel } else { close };
    if t.below(3) == 0 {
        g.kinds = vec![Kind::S];
    }
    g.use_caches = t.below(6) == 0;
    g.pool(t, 3, 1);
    g.mix(t);
    let ast = generate(&mut g, &case.prog, |_| true);
    let node = fams::face2(&ast);
    describe(st, &ast);
    for _ in 0..3 {
        let by = [choose(t, &ast, 0, 3), choose(t, &ast, 0, 3)];
        let mut env = g.vars.env::<D<D<Ball>>>();
        seed(&mut env, by[0]);
        for x in &mut env.vars.get_mut(&by[1]).unwrap().xs {
            x.a.b = Ball::exact(1.0);
        }
        let want = eval(&ast, &mut env).map_err(|e| format!("harness: {:?}", e))?;
        let d: Vec<Ball> = want.xs.iter().map(|x| x.b.b).collect();
        judge(rel, st, &node, &ast, &g.vars, &by, &want.dims, &d)?;
    }
    Ok(())
}

/// A scalar and a vector variable, in both orders.
fn mixed(case: &Case, st: &mut Stats, t: &mut Tape, kind: Kind, face: fn(&Ast) -> Dyn) -> R {
    let rel = close;
    let mut g = Gen::new(Family::X(kind), 80, 1e3);
    g.use_caches = t.below(6) == 0;
    g.pool(t, 2, 2);
    g.mix(t);
    let ast = generate(&mut g, &case.prog, |_| true);
    let node = face(&ast);
    let n = kind.dims().unwrap()[0];
    describe(st, &ast);
    for _ in 0..3 {
        let by = [choose(t, &ast, 0, 2), choose(t, &ast, kind as u8, 2)];
        let mut env = g.vars.env::<Grad<D<Ball>>>();
        seed_all(&mut env, by[1]);
        for x in &mut env.vars.get_mut(&by[0]).unwrap().xs {
            x.a.b = Ball::exact(1.0);
        }
        let want = eval(&ast, &mut env).map_err(|e| format!("harness: {:?}", e))?;
        let d: Vec<Ball> = jacobian(&want, n).into_iter().map(|x| x.b).collect();
        let dims: Vec<usize> = want.dims.iter().copied().chain([n]).collect();
        judge(rel, st, &node, &ast, &g.vars, &by, &dims, &d)?;
    }
    Ok(())
}

fn mixed2(case: &Case, st: &mut Stats) -> R { mixed(case, st, &mut Tape::new(&case.head), Kind::V2, famx::face_v2) }
fn mixed3(case: &Case, st: &mut Stats) -> R { mixed(case, st, &mut Tape::new(&case.head), Kind::V3, famx::face_v3) }

/// Closed forms at arguments of any magnitude, where rounding, underflow and overflow of what the library computes on the way show.
mod extremes {
    use super::R;
    use harness::tape::Tape;
    use harness::{Case, Stats};

    mod double {
        type F = f64;
        const FIELD: &str = "f64";
        const TOL: F = 1e-13;
        const LO: F = 1e50;
        const THIRD: F = 1e20;
        const MID: F = 600.0;
        include!("../parts/extremes.rs");
    }
    mod single {
        type F = f32;
        const FIELD: &str = "f32";
        const TOL: F = 1e-5;
        const LO: F = 1e6;
        const THIRD: F = 1e3;
        const MID: F = 70.0;
        include!("../parts/extremes.rs");
    }

    pub fn run(case: &Case, st: &mut Stats) -> R {
        let t = &mut Tape::new(&case.head);
        if t.below(3) == 0 { single::run(t, st) } else { double::run(t, st) }
    }
}

fn main() {
    main_check(Check {
        id: "C03",
        rule: "random expressions; their second and third derivatives by scalar variables (repeated or different, in every order) and \
               their mixed derivatives by a scalar and a vector variable (in both orders) are built by repeated differentiation, \
               evaluated, and compared entry by entry with nested forward-mode differentiation of an independent reference \
               evaluation; extremes compares second and third derivatives of small expressions with their closed forms at arguments of \
               any magnitude (down to subnormal and up to overflow) in both precisions. Non-trivial: at least three nodes, every variable occurs, and a well-conditioned non-zero derivative; \
               distinct by expression, data and variables.",
        assumptions: vec![
            "operators whose derivatives the library can differentiate again (second order adds Abs)",
            "smooth points: operands stay away from kinks, poles and domain ends; magnitudes below 1e3",
            "second derivatives by two vector variables cannot be typed in the library",
            "mixed expressions avoid the recorded finding contract-left of C02",
        ],
        subs: vec![
            Sub { name: "third", quick: 40_000, thorough: 1_500_000, head: (20, 60), prog: (2, 12), f: third },
            Sub { name: "second", quick: 60_000, thorough: 2_000_000, head: (60, 100), prog: (2, 16), f: second },
            Sub { name: "third-wide", quick: 40_000, thorough: 1_500_000, head: (20, 60), prog: (1, 5), f: third_wide },
            Sub { name: "second-wide", quick: 40_000, thorough: 1_500_000, head: (40, 80), prog: (1, 5), f: second_wide },
            Sub { name: "mixed2", quick: 40_000, thorough: 1_500_000, head: (60, 100), prog: (2, 14), f: mixed2 },
            Sub { name: "extremes", quick: 300_000, thorough: 10_000_000, head: (12, 12), prog: (0, 0), f: extremes::run },
            Sub { name: "mixed3", quick: 40_000, thorough: 1_500_000, head: (60, 100), prog: (2, 14), f: mixed3 },
        ],
        known: vec![],
    })
}
