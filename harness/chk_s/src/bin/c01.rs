//! C01: derivatives with respect to scalar variables are the true derivatives.
#[macro_use]
extern crate aegir;
use expr::ast::*;
use expr::check::*;
use expr::face::Dyn;
use expr::ids::Tok;
use expr::num::{Ball, D};
use harness::tape::Tape;
use harness::{main_check, Case, Check, Known, Stats, Sub};
use serde_json::json;

type R = Result<(), String>;

fn run(case: &Case, st: &mut Stats, family: Family, face: fn(&Ast) -> Dyn, only: &[Kind], max: usize, caches: bool, wide: bool) -> R {
    let t = &mut Tape::new(&case.head);
    let mut g = Gen::new(family, max, if wide { 1e60 } else { 1e4 });
    g.wide = wide;
    g.use_caches = caches;
    if !only.is_empty() {
        g.kinds = only.to_vec();
    }
    g.pool(t, 2, 1);
    g.mix(t);
    // A variable that the expression does not use.
    let l = leaf(Kind::S, t, 0);
    g.vars.0.insert(Tok { kind: 0, idx: 2 }, l);
    let ast = generate(&mut g, &case.prog, |_| true);
    let node = face(&ast);
    let ids = ids(&ast);

    describe(st, &ast);
    for idx in 0..if t.below(4) == 0 { 3 } else { 2 } {
        let target = Tok { kind: 0, idx };
        let mut env = g.vars.env::<D<Ball>>();
        seed(&mut env, target);
        let want = eval(&ast, &mut env).map_err(|e| format!("harness: {:?}", e))?;
        let d: Vec<Ball> = want.xs.iter().map(|x| x.b).collect();
        let what = || format!("the derivative by {} of {} for {}", target, show(&ast), g.vars.show());

        st.eval();
        st.sample(|| json!({"expression": show(&ast), "target": target.name(), "variables": g.vars.show(), "derivative": d.iter().map(|b| b.v).collect::<Vec<_>>()}));
        let got = node.adj(target).expect("harness: target").ev(&mut g.vars.ctx());
        let judged = agree_by(if wide { close_rel } else { close }, st, got, &want.dims, &d, &what)?;

        st.label(if !ids.contains(&target) { "target absent" } else if d.iter().all(|x| x.v == 0.0) { "target present, derivative zero" } else { "target present, derivative non-zero" });
        if judged > 0 && ast.size >= 3 && ids.contains(&target) && d.iter().any(|x| x.v != 0.0) {
            st.nontrivial(&(show(&ast), g.vars.show(), idx));
        }
    }
    Ok(())
}

use Kind::*;
fn any(case: &Case, st: &mut Stats) -> R { run(case, st, Family::S1, fams::face1, &[], 60, false, false) }
fn scalar(case: &Case, st: &mut Stats) -> R { run(case, st, Family::S1, fams::face1, &[S], 150, false, false) }
fn vector(case: &Case, st: &mut Stats) -> R { run(case, st, Family::S1, fams::face1, &[S, V3, M33], 100, false, false) }
fn mixed(case: &Case, st: &mut Stats) -> R { run(case, st, Family::S1, fams::face1, &[S, V2, V3, M23, M32], 100, false, false) }
fn pair(case: &Case, st: &mut Stats) -> R { run(case, st, Family::S1, fams::face1, &[S, T], 60, false, false) }
fn cached(case: &Case, st: &mut Stats) -> R { run(case, st, Family::S1, fams::face1, &[S, V2, M22], 60, true, false) }

fn wide(case: &Case, st: &mut Stats) -> R { run(case, st, Family::S1, fams::face1, &[S, V2], 14, false, true) }
fn wide_scalar(case: &Case, st: &mut Stats) -> R { run(case, st, Family::S1, fams::face1, &[S], 14, false, true) }

fn probe_sum() -> Option<String> {
    use aegir::{ids::{X, Y}, Differentiable, Function, Identifier, Node};
    #[allow(unused_imports)]
    use aegir::Read;
    let f = X.into_var().mul(Y.into_var()).sum();
    let got = format!("{:?}", f.adjoint(Y).evaluate(ctx! {X = [1.0f64, 2.0], Y = 3.0f64}).unwrap());
    (got != "3.0").then(|| format!("the derivative by y of the sum of x * y at x = [1, 2] is {} instead of 3.0", got))
}

fn main() {
    main_check(Check {
        id: "C01",
        rule: "random expression trees over all differentiable operators with scalar, pair, vector and matrix values, over three scalar \
               variables and variables of every other kind; the derivative expression by each scalar variable is evaluated and compared \
               entry by entry with forward-mode differentiation of an independent reference evaluation (with an error bound); sub-check symbols: identifiers that \
               print alike are told apart. \
               Non-trivial: at least three nodes, the target occurs, and a well-conditioned derivative with a non-zero entry; \
               distinct by expression, data and target.",
        assumptions: vec![
            "operands are kept at smooth points inside each operator's domain, magnitudes below 1e4",
            "the derivative of Sum over an array is a recorded finding (sum): Sum occurs over scalars only",
            "matrix-vector products are square (recorded finding r2-r1 of C14)",
        ],
        subs: vec![
            Sub { name: "any", quick: 100_000, thorough: 1_500_000, head: (90, 140), prog: (1, 14), f: any },
            Sub { name: "scalar", quick: 60_000, thorough: 2_000_000, head: (20, 60), prog: (2, 20), f: scalar },
            Sub { name: "vector", quick: 60_000, thorough: 2_000_000, head: (60, 100), prog: (2, 14), f: vector },
            Sub { name: "mixed", quick: 60_000, thorough: 2_000_000, head: (60, 120), prog: (2, 14), f: mixed },
            Sub { name: "pair", quick: 5_000, thorough: 100_000, head: (20, 60), prog: (2, 12), f: pair },
            Sub { name: "cached", quick: 30_000, thorough: 1_000_000, head: (60, 120), prog: (2, 14), f: cached },
            Sub { name: "wide", quick: 100_000, thorough: 3_000_000, head: (30, 60), prog: (1, 6), f: wide },
            Sub { name: "wide-scalar", quick: 80_000, thorough: 3_000_000, head: (10, 30), prog: (1, 5), f: wide_scalar },
            Sub { name: "symbols", quick: 4_000, thorough: 100_000, head: (12, 20), prog: (0, 0), f: harness::twins::run },
        ],
        known: vec![Known { key: "sum", probe: probe_sum }],
    })
}
