//! C02: gradients and Jacobians with respect to arrays have the right shape and entries.
#[macro_use]
extern crate aegir;
use aegir::{ids::X, Differentiable, Function, Identifier, Node};
use expr::ast::*;
use expr::check::*;
use expr::face::Dyn;
use expr::ids::Tok;
use expr::num::{Ball, Grad};
use harness::tape::Tape;
use harness::{main_check, Case, Check, Known, Stats, Sub};
use serde_json::json;

type R = Result<(), String>;

fn run(case: &Case, st: &mut Stats, tape: &mut Tape, target: Kind, face: fn(&Ast) -> Dyn, max: usize) -> R {
    let t = tape;
    let mut g = Gen::new(Family::G(target), max, 1e4);
    g.use_caches = t.below(4) == 0;
    g.pool(t, 1, 2);
    g.mix(t);
    let l = leaf(target, t, 0);
    g.vars.0.insert(Tok { kind: target as u8, idx: 2 }, l);
    let ast = generate(&mut g, &case.prog, |_| true);
    let node = face(&ast);
    let ids = ids(&ast);
    let tdims = target.dims().unwrap();
    let n: usize = tdims.iter().product();

    describe(st, &ast);
    for idx in 0..if t.below(4) == 0 { 3 } else { 2 } {
        let tok = Tok { kind: target as u8, idx };
        let mut env = g.vars.env::<Grad<Ball>>();
        seed_all(&mut env, tok);
        let want = eval(&ast, &mut env.clone()).map_err(|e| format!("harness: {:?}", e))?;
        let dims: Vec<usize> = want.dims.iter().chain(&tdims).copied().collect();
        let d = jacobian(&want, n);
        let what = || format!("the derivative by {} of {} for {}", tok, show(&ast), g.vars.show());

        st.eval();
        st.sample(|| json!({"expression": show(&ast), "target": tok.name(), "variables": g.vars.show(), "derivative": d.iter().map(|b| b.v).collect::<Vec<_>>(), "shape": dims}));
        let got = node.adj(tok).expect("harness: target").ev(&mut g.vars.ctx());
        let judged = match agree(st, got.clone(), &dims, &d, &what) {
            Ok(j) => j,
            Err(e) if target.is_vec() => {
                // The one reading that is a recorded finding, where it differs.
                let other = Sem { contract: contract_left }.eval(&ast, &mut env).map_err(|e| format!("harness: {:?}", e))?;
                let o = jacobian(&other, n);
                if o.iter().zip(&d).all(|(a, b)| close(a.v, *b) == Some(true)) {
                    return Err(e);
                }
                agree(st, got, &dims, &o, &what).map_err(|_| e)?;
                st.label("differs as recorded (contract-left)");
                0
            },
            Err(e) => return Err(e),
        };

        st.label(if !ids.contains(&tok) { "target absent" } else if d.iter().all(|x| x.v == 0.0) { "target present, derivative zero" } else { "target present, derivative non-zero" });
        if judged > 0 && ast.size >= 3 && ids.contains(&tok) && d.iter().any(|x| x.v != 0.0) {
            st.nontrivial(&(show(&ast), g.vars.show(), idx));
        }
    }
    Ok(())
}

fn v2(case: &Case, st: &mut Stats) -> R { run(case, st, &mut Tape::new(&case.head), Kind::V2, famg::face_v2, 80) }
fn v3(case: &Case, st: &mut Stats) -> R { run(case, st, &mut Tape::new(&case.head), Kind::V3, famg::face_v3, 80) }
fn matrix(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    match t.below(4) {
        0 => run(case, st, t, Kind::M22, famg::face_m22, 40),
        1 => run(case, st, t, Kind::M23, famg::face_m23, 40),
        2 => run(case, st, t, Kind::M32, famg::face_m32, 40),
        _ => run(case, st, t, Kind::M33, famg::face_m33, 40),
    }
}

fn probe_contract_left() -> Option<String> {
    // s(x) x with s(x) = <x, w>: its Jacobian is s I + x w'.
    use aegir::ops::Contract;
    #[allow(unused_imports)]
    use aegir::{buffers::Buffer, Read};
    let w = [3.0f64, 5.0];
    let s = X.into_var().dot(w.into_constant());
    let f = Contract::<0, _, _>(s, X.into_var());
    let got = format!("{:?}", f.adjoint(X).evaluate(ctx! {X = [1.0f64, 2.0]}).unwrap());
    let want = "[[16.0, 5.0], [6.0, 23.0]]";
    (got != want).then(|| format!("the Jacobian of <x, [3, 5]> x at [1, 2] is {} instead of {}", got, want))
}

fn probe_sum() -> Option<String> {
    #[allow(unused_imports)]
    use aegir::Read;
    let got = format!("{:?}", X.into_var().sum().adjoint(X).evaluate(ctx! {X = [1.0f64, 2.0]}).unwrap());
    (got != "[1.0, 1.0]").then(|| format!("the gradient of the sum of x at [1, 2] is {} instead of [1.0, 1.0]", got))
}

fn main() {
    main_check(Check {
        id: "C02",
        rule: "random expressions whose value is a scalar, vector or matrix, over vector and matrix variables; the derivative \
               expression by each of two variables of the target's kind and by one that does not occur is evaluated, its shape \
               compared with the value's followed by the target's, and its entries with vector forward-mode differentiation of an \
               independent reference evaluation; sub-check extents compares linear forms, dot products and rank-0 expressions over \
               targets of other extents, of ranks 0 to 4 and of run-time shape with closed forms, wide the same at large extents, and fields linear forms over
               single-precision and integer buffers; symbols: identifiers that print alike are told apart. Non-trivial: at least three nodes, the target occurs, and a well-conditioned \
               Jacobian with a non-zero entry; distinct by expression, data and target.",
        assumptions: vec![
            "operators that the library's types admit: any scalar operator, linear operators on vectors and matrices, scaling and \
             dot products of vectors",
            "where the left factor of a contraction has an asymmetric Jacobian, the transposed result is a recorded finding \
             (contract-left): there the library must agree with exactly that reading or with the true derivative",
            "the derivative of Sum over an array is a recorded finding (sum)",
        ],
        subs: vec![
            Sub { name: "v2", quick: 100_000, thorough: 3_000_000, head: (60, 100), prog: (1, 18), f: v2 },
            Sub { name: "v3", quick: 100_000, thorough: 3_000_000, head: (60, 100), prog: (1, 18), f: v3 },
            Sub { name: "matrix", quick: 40_000, thorough: 1_000_000, head: (60, 140), prog: (1, 12), f: matrix },
            Sub { name: "extents", quick: 100_000, thorough: 3_000_000, head: (4, 120), prog: (0, 0), f: chk_g::run },
            Sub { name: "wide", quick: 20_000, thorough: 1_000_000, head: (4, 60), prog: (0, 0), f: chk_g::wide },
            Sub { name: "fields", quick: 40_000, thorough: 1_000_000, head: (4, 60), prog: (0, 0), f: chk_g::fields },
            Sub { name: "symbols", quick: 4_000, thorough: 100_000, head: (12, 20), prog: (0, 0), f: harness::twins::run },
        ],
        known: vec![
            Known { key: "contract-left", probe: probe_contract_left },
            Known { key: "sum", probe: probe_sum },
        ],
    })
}
