//! C06: shape inference agrees with the evaluated value.
#[macro_use]
extern crate aegir;

use chk_all::*;
use expr::ast::*;
use expr::check::*;
use expr::ids::{Tok, CACHE};
use harness::runner::panics;
use harness::tape::Tape;
use harness::{main_check, Case, Check, Stats, Sub};
use serde_json::json;

type R = Result<(), String>;

fn run(case: &Case, st: &mut Stats, t: &mut Tape, family: Family, max: usize, broken: bool) -> R {
    let mut w = world(family, &case.prog, t, max);
    if broken {
        let n = 1 + t.below(2);
        disturb(&mut w.vars, t, n);
    }
    describe(st, &w.ast);
    let before = w.vars.ctx();
    for (by, node) in forms(&w, t, 4) {
        let name = || format!("{} for {}", title(&w, &by), w.vars.show());
        st.eval();
        let fail = |what: &str, e: String| format!("{} of {} {}", what, name(), e);
        let ev = panics(|| node.ev(&mut before.clone())).map_err(|e| fail("the evaluation", e))?;
        let spec = panics(|| node.ev_spec(&mut before.clone())).map_err(|e| fail("the structured evaluation", e))?;
        let mut c = before.clone();
        let shape = panics(|| node.ev_shape(&mut c)).map_err(|e| fail("the shape", e))?;
        let again = node.ev_shape(&mut before.clone());

        match (&shape, &ev, &spec) {
            (Ok(s), Ok(v), Ok(x)) => {
                if *s != v.dims {
                    return Err(format!("the inferred shape of {} is {:?}, the value's {:?}", name(), s, v.dims));
                }
                if x.shape != *s || x.out.dims != *s {
                    return Err(format!("the inferred shape of {} is {:?}, the structured value's {:?}, expanded {:?}", name(), s, x.shape, x.out.dims));
                }
                if let Ok(e) = expected(&w.ast, &w.vars, &by) {
                    if e.0 != *s {
                        return Err(format!("the shape of {} is {:?} instead of {:?}", name(), s, e.0));
                    }
                }
            },
            (Err(e), Ok(v), _) => return Err(format!("inferring the shape of {} fails with {:?}, but the value is {:?}", name(), e, v)),
            (Err(e), _, Ok(v)) => return Err(format!("inferring the shape of {} fails with {:?}, but the structured value is {:?}", name(), e, v)),
            (Err(_), Err(_), Err(_)) => {},
            (Ok(_), Err(_), Err(_)) => {},
            (_, a, b) => return Err(format!("evaluating {} gives {:?}, structurally {:?}", name(), a, b)),
        }
        let text = |r: &Result<Vec<usize>, expr::erase::EErr>| format!("{:?}", r);
        if text(&shape) != text(&again) {
            return Err(format!("the shape of {} is {:?}, then {:?}", name(), shape, again));
        }
        // After evaluation (when caches are filled), too.
        let mut c = before.clone();
        let v = node.ev(&mut c);
        let s = node.ev_shape(&mut c);
        if let (Ok(v), Ok(s)) = (&v, &s) {
            if v.dims != *s {
                return Err(format!("the shape of {} after its evaluation is {:?}, the value's {:?}", name(), s, v.dims));
            }
        }
        st.label(format!(
            "order {}, {}",
            by.len(),
            match (&shape, &ev) {
                (Ok(s), Ok(_)) => format!("rank {}", s.len()),
                (Ok(_), Err(_)) => "evaluation fails, the shape does not".into(),
                _ => "both fail".into(),
            }
        ));
        st.sample(|| json!({"expression": title(&w, &by), "variables": w.vars.show(), "shape": text(&shape)}));
        if w.ast.size >= 3 && (shape.is_err() || ev.as_ref().map(|v| !v.dims.is_empty()).unwrap_or(false)) {
            st.nontrivial(&(title(&w, &by), w.vars.0.iter().map(|(k, l)| (*k, l.dims().clone())).collect::<Vec<(Tok, Vec<usize>)>>()));
        }
    }
    Ok(())
}

fn plain(case: &Case, st: &mut Stats) -> R { run(case, st, &mut Tape::new(&case.head), Family::P, 60, false) }
fn broken(case: &Case, st: &mut Stats) -> R { run(case, st, &mut Tape::new(&case.head), Family::P, 30, true) }
fn derivatives(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let f = t.pick(&DIFF);
    let b = t.below(4) == 0;
    run(case, st, t, f, 50, b)
}
fn matrix(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let f = t.pick(&MATRIX);
    let b = t.below(4) == 0;
    run(case, st, t, f, 25, b)
}
/// Dynamic vectors of any lengths, structured and not.
fn dynamic(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let mut g = Gen::new(Family::P, 40, 1e4);
    g.kinds = vec![Kind::S, Kind::D];
    g.loose = true;
    g.use_caches = t.below(4) == 0;
    let n = t.below(4);
    for i in 0..3 {
        let l = leaf(Kind::S, t, 0);
        g.var(Kind::S, i, l);
        let len = if t.below(3) == 0 { t.below(5) } else { n };
        let l = leaf(Kind::D, t, len);
        g.var(Kind::D, i, l);
        let len = if t.below(3) == 0 { t.below(5) } else { n };
        let l = leaf(Kind::D, t, len);
        g.constant(Kind::D, l);
    }
    let mut w = finish(g, &case.prog, t);
    // Slots that hold something already, of another length than the cached expression would have:
    let slots: Vec<Tok> = ids(&w.ast).into_iter().filter(|k| k.kind >= CACHE).collect();
    for s in slots {
        if t.flag() {
            let len = t.below(5);
            w.vars.0.insert(s, leaf(Kind::of(s.kind - CACHE), t, len).raw());
            st.label("a filled slot");
        }
    }
    let w2 = World { family: w.family, ast: w.ast.clone(), vars: w.vars.clone(), node: w.node.clone(), targets: vec![] };
    check_dynamic(&w2, st)
}

fn check_dynamic(w: &World, st: &mut Stats) -> R {
    let before = w.vars.ctx();
    let name = || format!("{} for {}", show(&w.ast), w.vars.show());
    let want = eval(&w.ast, &mut w.vars.env::<expr::num::Ball>());
    let shape = w.node.ev_shape(&mut before.clone());
    let ev = w.node.ev(&mut before.clone());
    let spec = w.node.ev_spec(&mut before.clone());
    st.eval();
    st.sample(|| json!({"expression": show(&w.ast), "variables": w.vars.show(), "shape": format!("{:?}", shape)}));
    st.label(if want.is_ok() { "shapes agree" } else { "shapes disagree" });
    match (&want, &ev, &spec) {
        (Ok(v), Ok(a), Ok(b)) => {
            let s = shape.map_err(|e| format!("inferring the shape of {} fails with {:?}", name(), e))?;
            if s != v.dims || a.dims != s || b.shape != s || b.out.dims != s {
                return Err(format!("the inferred shape of {} is {:?}, the value's {:?}, the structured value's {:?} / {:?}, expected {:?}", name(), s, a.dims, b.shape, b.out.dims, v.dims));
            }
        },
        (Err(_), Err(_), Err(_)) => {},
        (w, a, b) => return Err(format!("{} evaluates to {:?}, structurally {:?}, expected {:?}", name(), a, b, w)),
    }
    if w.ast.size >= 3 {
        st.nontrivial(&(name(),));
    }
    Ok(())
}

fn fields(case: &Case, st: &mut Stats) -> R { fama::fields(case, st, fama::What::Shape) }
fn tensors(case: &Case, st: &mut Stats) -> R { fama::tensors(case, st, fama::What::Shape) }

/// Contexts generated by the macros, whose slots are empty or hold buffers of any length.
mod declared {
    use super::R;
    use aegir::buffers::shapes::{Shape, Shaped};
    use aegir::buffers::Spec;
    use aegir::ids::{W, X, Y, Z};
    use aegir::{ops, Context, Differentiable, Function, Identifier, Node};
    use harness::buf::Flat;
    use harness::ix::IxVec;
    use harness::tape::Tape;
    use harness::{Case, Stats};
    use serde_json::json;

    ctx_type!(Some4 { x: X, cache y: Y, z: Z, cache w: W });
    ctx_type!(Swapped { cache w: W, cache y: Y, z: Z, x: X });

    #[derive(Context)]
    struct Derived {
        #[id(Z)]
        z: Vec<f64>,
        #[id(W)]
        #[cache]
        w: Option<Vec<f64>>,
        #[id(X)]
        x: Vec<f64>,
        #[cache]
        #[id(Y)]
        y: Option<Vec<f64>>,
    }

    #[derive(Context)]
    struct Generic<A: Clone + aegir::buffers::Buffer, B: Clone + aegir::buffers::Buffer> {
        #[cache]
        #[id(Y)]
        y: Option<B>,
        #[id(X)]
        x: A,
        #[cache]
        #[id(W)]
        w: Option<B>,
        #[id(Z)]
        z: A,
    }

    type Dims = Option<Vec<usize>>;

    fn same(a: Dims, b: Dims) -> Dims { if a.is_some() && a == b { a } else { None } }
    /// Of operands one of which may be a scalar.
    fn zip(a: Dims, b: Dims) -> Dims {
        match (a, b) {
            (Some(a), Some(b)) if a.is_empty() || a == b => Some(b),
            (Some(a), Some(b)) if b.is_empty() => Some(a),
            _ => None,
        }
    }

    /// Read off the indices (of a vector, when there are none).
    fn dims<S: Shape>(s: &S) -> Vec<usize>
    where
        S::Index: IxVec,
    {
        match s.indices().last() {
            None => vec![0],
            Some(ix) => ix.to_vec().iter().map(|i| i + 1).collect(),
        }
    }

    macro_rules! look { ($st:ident, $mk:expr, $what:expr, $show:expr, $e:expr, $want:expr) => {{
        let e = $e;
        let want: Dims = $want;
        let mut last = None;
        // New, then after the evaluation, when slots are filled.
        for round in 0..2 {
            let mut c = $mk;
            if round == 1 {
                let _ = e.evaluate(&mut c);
            }
            let shape = e.evaluate_shape(&mut c).map(|s| dims(&s)).ok();
            let ev = { let mut c = $mk; if round == 1 { let _ = e.evaluate(&mut c); } e.evaluate(&mut c).map(|v| (dims(&v.shape()), v.flat().len())).ok() };
            let spec: Option<(Vec<usize>, Vec<usize>)> = e.evaluate_spec(&mut c).map(|s: Spec<_>| { let d = dims(&s.shape()); (d, dims(&s.unwrap().shape())) }).ok();
            let fail = |m: String| format!("{} for {}{}: {}", $what, $show, if round == 0 { "" } else { " after an evaluation" }, m);
            match (&shape, &ev, &spec) {
                (Some(s), Some((v, n)), Some((a, b))) => {
                    if s != v || a != s || b != s || s.iter().product::<usize>() != *n {
                        return Err(fail(format!("the inferred shape is {:?}, the value's {:?} with {} entries, the structured value's {:?}, expanded {:?}", s, v, n, a, b)));
                    }
                },
                (_, None, None) => {},
                _ => return Err(fail(format!("the inferred shape is {:?}, the value's {:?}, the structured value's {:?}", shape, ev, spec))),
            }
            if ev.as_ref().map(|e| &e.0) != want.as_ref() {
                return Err(fail(format!("the value has the shape {:?} instead of {:?}", ev, want)));
            }
            $st.eval();
            last = shape;
        }
        $st.label(format!("{}: {}", $what, match &last { None => "fails".into(), Some(s) if s.iter().product::<usize>() == 0 => "empty".to_string(), Some(s) => format!("rank {}", s.len()) }));
        $st.nontrivial(&($what, &$show));
        $st.sample(|| json!({"expression": $what, "context": $show, "shape": format!("{:?}", last)}));
    }} }

    macro_rules! table {
        ($t:ident; $($e:expr;)*) => {{
            let mut k = 0usize;
            $( let _ = stringify!($e); k += 1; )*
            let pick = $t.below(k);
            let mut k = 0usize;
            $( if k == pick { $e; } k += 1; )*
            let _ = k;
        }};
    }

    /// Everything of one buffer type.
    macro_rules! alike { ($t:ident, $st:ident, $name:literal, $mk:expr, $show:expr, $x:expr, $y:expr, $z:expr, $w:expr) => {{
        let (dx, dy, dz, dw): (Dims, Dims, Dims, Dims) = ($x, $y, $z, $w);
        let show = format!("{} of {}", $name, $show);
        let (x, y, z, w) = (|| X.into_var(), || Y.into_var(), || Z.into_var(), || W.into_var());
        let or = |a: &Dims, b: Dims| if a.is_some() { a.clone() } else { b };
        table! { $t;
            look!($st, $mk, "x", show, x(), dx.clone());
            look!($st, $mk, "y, a slot", show, y(), dy.clone());
            look!($st, $mk, "z", show, z(), dz.clone());
            look!($st, $mk, "w, a slot", show, w(), dw.clone());
            look!($st, $mk, "x cached in y", show, x().cached(Y), or(&dy, dx.clone()));
            look!($st, $mk, "z cached in w", show, z().cached(W), or(&dw, dz.clone()));
            look!($st, $mk, "x + z cached in w", show, x().add(z()).cached(W), or(&dw, same(dx.clone(), dz.clone())));
            look!($st, $mk, "x cached in y + z", show, x().cached(Y).add(z()), same(or(&dy, dx.clone()), dz.clone()));
            look!($st, $mk, "x cached in y, cached in w", show, x().cached(Y).cached(W), or(&dw, or(&dy, dx.clone())));
            look!($st, $mk, "y - w", show, y().sub(w()), same(dy.clone(), dw.clone()));
            look!($st, $mk, "x * y", show, x().mul(y()), same(dx.clone(), dy.clone()));
            look!($st, $mk, "z / w", show, z().div(w()), same(dz.clone(), dw.clone()));
            look!($st, $mk, "exp y", show, ops::Exp(y()), dy.clone());
            look!($st, $mk, "-w", show, w().neg(), dw.clone());
            look!($st, $mk, "|x|", show, x().abs(), dx.clone());
            look!($st, $mk, "the sum of y", show, y().sum(), dy.clone().map(|_| vec![]));
            look!($st, $mk, "w times the sum of x", show, w().mul(x().sum()), dw.clone().and_then(|w| dx.clone().map(|_| w)));
        }
    }} }

    fn len(t: &mut Tape) -> usize { [0usize, 1, 2, 3, 4, 5, 17, 64, 300, 1000][if t.below(3) == 0 { t.below(10) } else { t.below(4) }] }
    fn slot(t: &mut Tape) -> Option<usize> { if t.below(3) == 0 { None } else { Some(len(t)) } }

    fn data(n: usize) -> Vec<f64> { (0..n).map(|i| i as f64 * 0.25 - 0.5).collect() }

    pub fn run(case: &Case, st: &mut Stats) -> R {
        let t = &mut Tape::new(&case.head);
        let same_len = t.flag();
        let n = len(t);
        let mut l = |t: &mut Tape| if same_len && t.below(4) > 0 { n } else { len(t) };
        let (x, z) = (l(t), l(t));
        let mut s = |t: &mut Tape| slot(t).map(|k| if same_len && t.below(4) > 0 { n } else { k });
        let (y, w) = (s(t), s(t));
        let d = |n: usize| Some(vec![n]);
        let (dx, dy, dz, dw) = (d(x), y.and_then(d), d(z), w.and_then(d));
        let show = format!("vectors of lengths x = {}, y = {:?}, z = {}, w = {:?}", x, y, z, w);
        match t.below(8) {
            0 | 1 => alike!(t, st, "ctx_type", Some4 { x: data(x), y: y.map(data), z: data(z), w: w.map(data) }, show, dx, dy, dz, dw),
            2 => alike!(t, st, "ctx_type, slots first", Swapped { x: data(x), y: y.map(data), z: data(z), w: w.map(data) }, show, dx, dy, dz, dw),
            3 => alike!(t, st, "derive", Derived { x: data(x), y: y.map(data), z: data(z), w: w.map(data) }, show, dx, dy, dz, dw),
            4 => alike!(t, st, "derive, generic", Generic { x: data(x), y: y.map(data), z: data(z), w: w.map(data) }, show, dx, dy, dz, dw),
            5 => {
                let f = |n: Option<usize>| n.map(|n| [n as f64, 1.0, -2.0]);
                let d = |n: Option<usize>| n.map(|_| vec![3]);
                let show = format!("[f64; 3], slots y {}, w {}", y.is_some(), w.is_some());
                alike!(t, st, "ctx_type", Some4 { x: f(Some(x)).unwrap(), y: f(y), z: f(Some(z)).unwrap(), w: f(w) }, show, d(Some(x)), d(y), d(Some(z)), d(w))
            },
            6 => {
                let f = |n: Option<usize>| n.map(|n| n as f64);
                let d = |n: Option<usize>| n.map(|_| vec![]);
                let show = format!("f64, slots y {}, w {}", y.is_some(), w.is_some());
                alike!(t, st, "derive, generic", Generic { x: f(Some(x)).unwrap(), y: f(y), z: f(Some(z)).unwrap(), w: f(w) }, show, d(Some(x)), d(y), d(Some(z)), d(w))
            },
            // A scalar, vectors, and an array in a slot.
            _ => {
                let mk = || Some4 { x: 1.5f64, y: y.map(data), z: data(z), w: w.map(|n| [[n as f64, 2.0], [3.0, 4.0], [5.0, 6.0]]) };
                let ds: Dims = Some(vec![]);
                let dw: Dims = w.map(|_| vec![3, 2]);
                let show = format!("a scalar x, vectors of lengths y = {:?}, z = {}, a 3 by 2 array w {}", y, z, w.is_some());
                table! { t;
                    look!(st, mk(), "x", show, X.into_var(), ds.clone());
                    look!(st, mk(), "w, a slot", show, W.into_var(), dw.clone());
                    look!(st, mk(), "x * y", show, X.into_var().mul(Y.into_var()), zip(ds.clone(), dy.clone()));
                    look!(st, mk(), "y + x", show, Y.into_var().add(X.into_var()), zip(dy.clone(), ds.clone()));
                    look!(st, mk(), "x / w", show, X.into_var().div(W.into_var()), zip(ds.clone(), dw.clone()));
                    look!(st, mk(), "w - x", show, W.into_var().sub(X.into_var()), zip(dw.clone(), ds.clone()));
                    look!(st, mk(), "x z cached in y", show, X.into_var().mul(Z.into_var()).cached(Y), dy.clone().or(zip(ds.clone(), dz.clone())));
                    look!(st, mk(), "the sum of w", show, W.into_var().sum(), dw.clone().map(|_| vec![]));
                    look!(st, mk(), "the derivative of x w by x", show, X.into_var().mul(W.into_var()).adjoint(X), dw.clone());
                    look!(st, mk(), "the derivative of x² by x", show, X.into_var().squared().adjoint(X), ds.clone());
                    look!(st, mk(), "the derivative of w by x", show, W.into_var().adjoint(X), dw.clone());
                    look!(st, mk(), "the derivative of 2w by w", show, ops::Double(W.into_var()).adjoint(W), dw.clone().map(|_| vec![3, 2, 3, 2]));
                    look!(st, mk(), "the derivative of w - -w by w", show, W.into_var().sub(W.into_var().neg()).adjoint(W), dw.clone().map(|_| vec![3, 2, 3, 2]));
                }
            },
        }
        Ok(())
    }
}

fn main() {
    main_check(Check {
        id: "C06",
        rule: "random expressions of every family and their derivative expressions, with all variables defined, with some undefined, \
               with dynamic vectors of any (also disagreeing or zero) lengths, over other fields and user-defined buffers, \
               and over contexts declared with ctx_type! and derive(Context) whose slots are empty or hold buffers of any length: the inferred shape is compared with the shape of the \
               value, of the structured value, of its expansion, and of the reference evaluation; where inference fails, evaluation has \
               to fail. Non-trivial: at least three nodes and an array value or a failure; distinct by expression and operand shapes.",
        assumptions: vec!["a shape may be inferred where evaluation fails (the statement does not forbid it)"],
        subs: vec![
            Sub { name: "plain", quick: 60_000, thorough: 2_000_000, head: (60, 140), prog: (1, 12), f: plain },
            Sub { name: "broken", quick: 60_000, thorough: 2_000_000, head: (60, 140), prog: (1, 10), f: broken },
            Sub { name: "derivatives", quick: 60_000, thorough: 2_000_000, head: (60, 140), prog: (1, 10), f: derivatives },
            Sub { name: "matrix", quick: 20_000, thorough: 500_000, head: (60, 140), prog: (1, 8), f: matrix },
            Sub { name: "dynamic", quick: 100_000, thorough: 3_000_000, head: (20, 60), prog: (1, 10), f: dynamic },
            Sub { name: "declared", quick: 60_000, thorough: 2_000_000, head: (12, 12), prog: (0, 0), f: declared::run },
            Sub { name: "fields", quick: 60_000, thorough: 2_000_000, head: (4, 100), prog: (1, 12), f: fields },
            Sub { name: "tensors", quick: 60_000, thorough: 2_000_000, head: (4, 140), prog: (1, 12), f: tensors },
        ],
        known: vec![],
    })
}
