//! C20: all evaluation entry points agree, and evaluation has no side effects.
#[macro_use]
extern crate aegir;
use chk_all::*;
use expr::ast::*;
use expr::check::*;
use expr::erase::EErr;
use expr::face::{Dyn, Out, SpecOut};
use expr::ids::{Ctx, Tok};
use harness::tape::Tape;
use harness::{main_check, Case, Check, Stats, Sub};
use serde_json::json;

type R = Result<(), String>;

fn same(a: &Result<Out, EErr>, b: &Result<Out, EErr>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x.same(y),
        (Err(x), Err(y)) => x.dbg == y.dbg && x.disp == y.disp,
        _ => false,
    }
}

fn same_spec(a: &Result<SpecOut, EErr>, b: &Result<SpecOut, EErr>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x.out.same(&y.out) && x.form == y.form && x.shape == y.shape,
        (Err(x), Err(y)) => x.dbg == y.dbg && x.disp == y.disp,
        _ => false,
    }
}

/// Are these results of two entry points the same, up to rounding?
fn agree2(a: &Result<Out, EErr>, b: &Result<Out, EErr>, balls: impl FnOnce() -> Option<Vec<expr::num::Ball>>) -> Option<bool> {
    match (a, b) {
        (Ok(x), Ok(y)) => alike(x, y, balls),
        (Err(_), Err(_)) => Some(true),
        _ => Some(false),
    }
}

/// Every entry point of one expression against plain evaluation, in one context that must not change.
fn entries(w: &World, by: &[Tok], node: &Dyn, c: &mut Ctx, st: &mut Stats) -> R {
    let name = || format!("{} for {}", title(w, by), w.vars.show());
    let balls = |by: &[Tok]| expected(&w.ast, &w.vars, by).ok().map(|e| e.1);
    let before = c.all();
    let writes = c.writes;
    let v = node.ev(c);
    let mut calls = 1;
    for _ in 0..2 {
        let r = node.ev(c);
        calls += 1;
        if !same(&r, &v) {
            return Err(format!("{} is {:?} and, evaluated again in the same context, {:?}", name(), v, r));
        }
    }
    let r = node.ev_owned(c.clone());
    if !same(&r, &v) {
        return Err(format!("{} is {:?} with a borrowed context and {:?} with an owned one", name(), v, r));
    }
    let s = node.ev_spec(c);
    let r = s.clone().map(|s| s.out);
    match agree2(&v, &r, || balls(by)) {
        Some(true) => {},
        Some(false) => return Err(format!("{} is {:?}, but its structured value {:?}", name(), v, r)),
        None => st.label("too ill-conditioned to compare value and structured value"),
    }
    let s2 = node.ev_spec(c);
    if !same_spec(&s, &s2) {
        return Err(format!("the structured value of {} is {:?} and then {:?}", name(), s, s2));
    }
    let shape = node.ev_shape(c);
    if let (Ok(a), Ok(b)) = (&shape, &v) {
        if *a != b.dims {
            return Err(format!("{} has the shape {:?}, but the value {:?}", name(), a, b));
        }
    }
    calls += 4;
    for t in &w.targets {
        let Some(d) = node.adj(*t) else { continue };
        let want = d.ev(c);
        let mut by2 = by.to_vec();
        by2.push(*t);
        let known = by2.len() <= 3 && by2.iter().filter(|t| t.kind != 0).count() <= 1;
        let balls = || if known { balls(&by2) } else { None };
        let direct = node.ev_adj(*t, c).unwrap();
        calls += 4;
        if !same(&direct, &want) {
            return Err(format!("evaluating the derivative of {} by {} gives {:?} directly and {:?} by its expression", name(), t, direct, want));
        }
        let again = node.adj(*t).unwrap().ev(c);
        if !same(&again, &want) {
            return Err(format!("the derivative of {} by {} is {:?} and, built again, {:?}", name(), t, want, again));
        }
        for owned in [false, true] {
            let dual = if owned { node.ev_dual_owned(*t, c.clone()) } else { node.ev_dual(*t, c) }.unwrap();
            match dual {
                Ok((a, b)) => {
                    let (a, b) = (Ok(a), Ok(b));
                    for (what, got, want, is_value) in [("value", &a, &v, true), ("adjoint", &b, &want, false)] {
                        let ok = if same(got, want) { Some(true) } else { agree2(got, want, || if is_value { expected(&w.ast, &w.vars, by).ok().map(|e| e.1) } else { balls() }) };
                        if ok == Some(false) {
                            return Err(format!("the dual of {} by {} has the {} {:?} instead of {:?}", name(), t, what, got, want));
                        }
                    }
                },
                Err(e) => {
                    if v.is_ok() && want.is_ok() {
                        return Err(format!("the dual of {} by {} fails with {:?}, but value and derivative are {:?} and {:?}", name(), t, e, v, want));
                    }
                },
            }
        }
        let r = node.ev(c);
        if !same(&r, &v) {
            return Err(format!("{} is {:?}, but {:?} after its derivative by {} was built and evaluated", name(), v, r, t));
        }
    }
    st.evals(calls);
    if c.writes != writes || c.all() != before {
        let changed: Vec<Tok> = c.all().iter().zip(&before).filter(|(a, b)| a != b).map(|(a, _)| a.0).collect();
        return Err(format!("evaluating {} has changed the context: {} writes, values of {:?}", name(), c.writes - writes, changed));
    }
    if v.is_err() {
        st.label("failing evaluation");
    }
    Ok(())
}

fn run(case: &Case, st: &mut Stats, t: &mut Tape, family: Family, max: usize) -> R {
    let mut g = start(family, t, max);
    g.pool(t, 2, if g.kinds.len() > 4 { 1 } else { 2 });
    g.mix(t);
    let mut w = finish(g, &case.prog, t);
    w.targets.retain(|k| k.idx < 2);
    describe(st, &w.ast);
    let all = forms(&w, t, 3);
    let mut c = w.vars.ctx();
    let first: Vec<Result<Out, EErr>> = all.iter().map(|(_, n)| n.ev(&mut c)).collect();
    for (by, n) in &all {
        entries(&w, by, n, &mut c, st)?;
        st.label(format!("order {}", by.len()));
    }
    // Copies.
    let copies: Vec<Dyn> = all.iter().map(|(_, n)| n.copy()).collect();
    for ((by, n), k) in all.iter().zip(&copies) {
        let (a, b) = (n.ev(&mut c), k.ev(&mut c));
        if !same(&a, &b) {
            return Err(format!("{} is {:?}, its copy {:?}, for {}", title(&w, by), a, b, w.vars.show()));
        }
    }
    // A history of assignments: results depend on the current values only.
    let toks: Vec<Tok> = w.vars.0.keys().copied().collect();
    let original = w.vars.clone();
    let mut vars = original.clone();
    let steps = 1 + t.below(4);
    for _ in 0..steps {
        for _ in 0..1 + t.below(2) {
            let tok = t.pick(&toks);
            if t.below(6) == 0 {
                vars.0.remove(&tok);
                c.unset(tok);
            } else {
                let len = original.0[&tok].dims().first().copied().unwrap_or(1);
                let l = leaf(Kind::of(tok.kind), t, len);
                set(&mut c, tok, &l);
                vars.0.insert(tok, l);
            }
        }
        for (i, (by, n)) in all.iter().enumerate() {
            let n = if t.flag() { n } else { &copies[i] };
            let fresh = &mut vars.ctx();
            let (a, b) = (n.ev(&mut c), n.ev(fresh));
            st.eval();
            if !same(&a, &b) {
                return Err(format!("{} is {:?} after a history, but {:?} in a new context with the same values {}", title(&w, by), a, b, vars.show()));
            }
            let (a, b) = (n.ev_spec(&mut c), n.ev_spec(fresh));
            if !same_spec(&a, &b) {
                return Err(format!("the structured value of {} is {:?} after a history, but {:?} in a new context with the same values {}", title(&w, by), a, b, vars.show()));
            }
        }
        // Every entry point with the current values, missing ones included.
        if t.below(2) == 0 {
            let keep = std::mem::replace(&mut w.vars, vars.clone());
            w.targets.retain(|k| vars.0.contains_key(k));
            let (by, n) = t.pick(&all);
            entries(&w, &by, &n, &mut c, st)?;
            w.vars = keep;
        }
    }
    // Back to the first values.
    for (tok, l) in &original.0 {
        set(&mut c, *tok, l);
    }
    for ((by, n), v) in all.iter().zip(&first) {
        let r = n.ev(&mut c);
        if !same(&r, v) {
            return Err(format!("{} is {:?} and, after a history, with the first values again, {:?}, for {}", title(&w, by), v, r, w.vars.show()));
        }
    }
    if w.ast.size >= 3 && first[0].is_ok() {
        st.nontrivial(&(show(&w.ast), w.vars.show()));
    }
    st.sample(|| json!({"expression": show(&w.ast), "variables": w.vars.show(), "forms": all.iter().map(|(b, _)| b.len()).collect::<Vec<_>>()}));
    Ok(())
}

/// What was evaluated before must not matter: the same evaluation after that of a distant and of a very similar
/// state of the variables (an ulp away, rounded to single precision, negated, permuted, exchanged).
fn memory(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let family = if t.below(3) == 0 { Family::P } else { t.pick(&DIFF) };
    let mut g = start(family, t, 20);
    g.pool(t, 2, 1);
    g.mix(t);
    let w = finish(g, &case.prog, t);
    let all = forms(&w, t, 2);
    let toks: Vec<Tok> = ids(&w.ast).into_iter().collect();
    if toks.is_empty() {
        return Ok(());
    }
    let far = |vars: &Vars, t: &mut Tape| {
        let mut v = vars.clone();
        for k in &toks {
            let len = v.0[k].dims().first().copied().unwrap_or(1);
            v.0.insert(*k, leaf(Kind::of(k.kind), t, len));
        }
        v
    };
    let b = far(&w.vars, t);
    let mut like = w.vars.clone();
    let how = t.below(9);
    let only = if t.flag() { None } else { Some(t.pick(&toks)) };
    let k = t.below(52);
    for tok in toks.iter().filter(|k| only.map_or(true, |o| o == **k)) {
        let l = like.0[tok].clone();
        let near = |x: f64| match how {
            0 => f64::from_bits(x.to_bits() ^ 1),
            1 => f64::from_bits(x.to_bits() ^ (1 << k)),
            2 => x as f32 as f64,
            3 => -x,
            4 => x + x.abs() * 1e-9,
            5 => x.round(),
            6 => x + 1e-7,
            7 => x + 4294967296.0,
            _ => x,
        };
        let l = match l {
            Leaf::Raw(d, mut xs) => {
                if how == 8 {
                    xs.reverse();
                }
                Leaf::Raw(d, xs.into_iter().map(near).collect())
            },
            Leaf::Full(d, x) => Leaf::Full(d, near(x)),
            Leaf::Diag(d, x) => Leaf::Diag(d, near(x)),
        };
        like.0.insert(*tok, l);
    }
    if how == 8 && toks.len() > 1 {
        let (i, j) = (t.pick(&toks), t.pick(&toks));
        if i.kind == j.kind {
            let (x, y) = (w.vars.0[&i].clone(), w.vars.0[&j].clone());
            like.0.insert(i, y);
            like.0.insert(j, x);
        }
    }
    let text = |v: &Vars| v.show();
    if text(&like) == text(&w.vars) {
        return Ok(());
    }
    for (by, n) in &all {
        let what = || format!("{} for {}", title(&w, by), like.show());
        let see = |before: &Vars| {
            let c = &mut before.ctx();
            let _ = (n.ev(c), n.ev_spec(c), n.ev_shape(c));
            let c = &mut like.ctx();
            (n.ev(c), n.ev_spec(c), format!("{:?}", n.ev_shape(c)))
        };
        let x = see(&b);
        let y = see(&w.vars);
        let again = n.ev(&mut w.vars.ctx());
        let z = n.ev(&mut like.ctx());
        st.eval();
        if !same(&x.0, &y.0) || !same_spec(&x.1, &y.1) || x.2 != y.2 || !same(&x.0, &z) {
            return Err(format!(
                "{} is {:?} (structured {:?}) after an evaluation for {}, but {:?} (structured {:?}) after one for {}",
                what(), x.0, x.1.map(|s| s.out), b.show(), y.0, y.1.map(|s| s.out), w.vars.show()
            ));
        }
        for tok in w.targets.iter().take(2) {
            let one = |v: &Vars| n.ev_dual(*tok, &mut v.ctx());
            let (_, x, _, y) = (one(&b), one(&like), one(&w.vars), one(&like));
            st.eval();
            let part = |r: &Option<Result<(Out, Out), EErr>>, k: usize| r.clone().map(|r| r.map(|o| if k == 0 { o.0 } else { o.1 }));
            for k in 0..2 {
                let ok = match (part(&x, k), part(&y, k)) {
                    (Some(a), Some(b)) => same(&a, &b),
                    (None, None) => true,
                    _ => false,
                };
                if !ok {
                    return Err(format!("the dual of {} by {} is {:?} after one for {}, but {:?} after one for {}", what(), tok, x, b.show(), y, w.vars.show()));
                }
            }
        }
        if !same(&again, &z) {
            st.label(format!("difference {} shows", how));
            st.nontrivial(&(what(), how));
        }
    }
    st.sample(|| json!({"expression": show(&w.ast), "variables": like.show(), "before": w.vars.show()}));
    Ok(())
}

fn plain(case: &Case, st: &mut Stats) -> R { run(case, st, &mut Tape::new(&case.head), Family::P, 60) }
fn derivatives(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let f = t.pick(&DIFF);
    run(case, st, t, f, if f.order() > 1 { 20 } else { 40 })
}
fn matrix(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let f = t.pick(&MATRIX);
    run(case, st, t, f, 20)
}

fn fields(case: &Case, st: &mut Stats) -> R { fama::fields(case, st, fama::What::Entries) }
fn tensors(case: &Case, st: &mut Stats) -> R { fama::tensors(case, st, fama::What::Entries) }

/// With caches whose slots the expression also reads as variables: every entry point against plain evaluations in
/// the same context, with the same results, errors and slots afterwards.
mod slots {
    use super::R;
    use aegir::ids::{W, X, Y, Z};
    use aegir::{Differentiable, Function, Identifier, Node};
    use harness::buf::Flat;
    use harness::tape::Tape;
    use harness::{Case, Stats};
    use serde_json::json;

    ctx_type!(Ctx { x: X, cache z: Z, y: Y, cache w: W });

    fn bits(v: &[f64]) -> Vec<u64> { v.iter().map(|x| x.to_bits()).collect() }
    fn opt<V: Flat<F = f64>>(v: &Option<V>) -> Option<Vec<u64>> { v.as_ref().map(|v| bits(&v.flat())) }

    macro_rules! look { ($st:ident, $T:ty, $vals:expr, $show:expr, $what:expr, $e:expr; $($t:ident),*) => {{
        let e = $e;
        let vals: (_, Option<_>, _, Option<_>) = $vals;
        let vals: ($T, Option<$T>, $T, Option<$T>) = vals;
        let new = || Ctx { x: vals.0.clone(), z: vals.1.clone(), y: vals.2.clone(), w: vals.3.clone() };
        macro_rules! seen { ($c:expr) => { (bits(&$c.x.flat()), opt(&$c.z), bits(&$c.y.flat()), opt(&$c.w)) }; }
        macro_rules! check { ($way:expr, $got:expr, $want:expr) => {{
            let (got, want) = ($got, $want);
            $st.eval();
            if got != want {
                return Err(format!("{} for {}: {} gives {:?} instead of {:?} (a result with the variables and slots afterwards, all as bits)", $what, $show, $way, got, want));
            }
        }}; }
        let mut a = new();
        let v = e.evaluate(&mut a);
        let plain = v.as_ref().map(|v| bits(&v.flat())).map_err(|e| format!("{:?}", e));
        let after = seen!(a);
        {
            let mut c = new();
            let r = e.evaluate_spec(&mut c).map(|s| bits(&s.unwrap().flat())).map_err(|e| format!("{:?}", e));
            check!("the structured value", (r, seen!(c)), (plain.clone(), after.clone()));
            let r = e.evaluate(new()).map(|v| bits(&v.flat())).map_err(|e| format!("{:?}", e));
            check!("the value with an owned context", r, plain.clone());
            let f = e.clone();
            let mut c = new();
            let r = f.evaluate(&mut c).map(|v| bits(&v.flat())).map_err(|e| format!("{:?}", e));
            check!("a copy's value", (r, seen!(c)), (plain.clone(), after.clone()));
            check!("an unused variable or slot", (bits(&a.x.flat()), bits(&a.y.flat())), (bits(&vals.0.flat()), bits(&vals.2.flat())));
        }
        $( {
            // The derivative alone, called directly or built first:
            let mut b = new();
            let d = e.adjoint($t).evaluate(&mut b).map(|v| bits(&v.flat())).map_err(|e| format!("{:?}", e));
            let mut c = new();
            let r = e.evaluate_adjoint($t, &mut c).map(|v| bits(&v.flat())).map_err(|e| format!("{:?}", e));
            check!(concat!("the direct derivative by ", stringify!($t)), (r, seen!(c)), (d.clone(), seen!(b)));
            check!(concat!("the direct derivative (owned context) by ", stringify!($t)), e.evaluate_adjoint($t, new()).map(|v| bits(&v.flat())).map_err(|e| format!("{:?}", e)), d.clone());
            // The dual, against the value and the derivative in the same context:
            let mut b = new();
            let v = e.evaluate(&mut b);
            let want = match v {
                Err(_) => {
                    let e: Result<(), _> = v.map(|_| ()).map_err(|e| format!("Left({:?})", e));
                    e.map(|_| (vec![], vec![]))
                },
                Ok(v) => e.evaluate_adjoint($t, &mut b).map(|d| (bits(&v.flat()), bits(&d.flat()))).map_err(|e| format!("Right({:?})", e)),
            };
            macro_rules! dual { ($c:expr) => { e.evaluate_dual($t, $c).map(|d| (bits(&d.value.flat()), bits(&d.adjoint.flat()))).map_err(|e| format!("{:?}", e)) }; }
            let mut c = new();
            let r = dual!(&mut c);
            check!(concat!("the dual by ", stringify!($t)), (r, seen!(c)), (want.clone(), seen!(b)));
            check!(concat!("the dual (owned context) by ", stringify!($t)), dual!(new()), want.clone());
            // Again, in the context that is left:
            let mut b = Ctx { x: c.x.clone(), z: c.z.clone(), y: c.y.clone(), w: c.w.clone() };
            let again = e.evaluate(&mut b).and_then(|v| Ok((v, e.evaluate_adjoint($t, &mut b).ok()))).ok().and_then(|(v, d)| d.map(|d| (bits(&v.flat()), bits(&d.flat()))));
            check!(concat!("the dual by ", stringify!($t), " again"), dual!(&mut c).ok(), again);
            $st.label(format!("{} {}", if want.is_ok() { "evaluates" } else { "fails" }, if after.1 != opt(&vals.1) || after.3 != opt(&vals.3) { "and fills a slot" } else { "and fills nothing" }));
        } )*
        if plain.is_ok() {
            $st.nontrivial(&($what, format!("{:?}", $show)));
        }
    }}; }

    pub fn run(case: &Case, st: &mut Stats) -> R {
        let t = &mut Tape::new(&case.head);
        let (x, y, z, w) = (X.into_var(), Y.into_var(), Z.into_var(), W.into_var());
        let k = t.below(16);
        let form = t.below(5) % 4;
        let fill = (t.flag(), t.below(3) == 0);
        let mut num = || t.int() as f64 + if t.below(3) == 0 { 0.5 } else { 0.0 };
        macro_rules! scalar { ($T:ty, $vals:expr) => {{
            let vals = $vals;
            let show = format!("x = {:?}, slot z = {:?}, y = {:?}, slot w = {:?}", vals.0, vals.1, vals.2, vals.3);
            st.sample(|| json!({"expression": k, "context": show}));
            match k {
                0 => look!(st, $T, vals, show, "cached_z(x * x) * z", x.mul(x).cached(Z).mul(z); X, Y),
                1 => look!(st, $T, vals, show, "(cached_z(x) + cached_w(y)) * w", x.cached(Z).add(y.cached(W)).mul(w); X, Y),
                2 => look!(st, $T, vals, show, "cached_z(x * w) + z", x.mul(w).cached(Z).add(z); X, Y),
                3 => look!(st, $T, vals, show, "cached_z(x + y) * cached_z(x - y)", x.add(y).cached(Z).mul(x.sub(y).cached(Z)); X, Y),
                4 => look!(st, $T, vals, show, "z * w", z.mul(w); X, Y),
                5 => look!(st, $T, vals, show, "cached_w(x * y) * (w + cached_z(w))", x.mul(y).cached(W).mul(w.add(w.cached(Z))); X, Y),
                6 => look!(st, $T, vals, show, "square(cached_z(-x)) - w", x.neg().cached(Z).squared().sub(w); X, Y),
                7 => look!(st, $T, vals, show, "cached_z(x * y)", x.mul(y).cached(Z); X, Y),
                8 => look!(st, $T, vals, show, "x * y - x", x.mul(y).sub(x); X, Y),
                9 => look!(st, $T, vals, show, "cached_z(cached_w(x) * w) * z", x.cached(W).mul(w).cached(Z).mul(z); X, Y),
                10 => look!(st, $T, vals, show, "x * z + cached_z(y)", x.mul(z).add(y.cached(Z)); X, Y),
                11 => look!(st, $T, vals, show, "cached_w(y) - x * w", y.cached(W).sub(x.mul(w)); X, Y),
                _ => look!(st, $T, vals, show, "square(z + cached_w(x * x))", z.add(x.mul(x).cached(W)).squared(); X, Y),
            }
        }}; }
        macro_rules! exprs { ($T:ty, $vals:expr) => {{
            let vals = $vals;
            let show = format!("x = {:?}, slot z = {:?}, y = {:?}, slot w = {:?}", vals.0, vals.1, vals.2, vals.3);
            st.sample(|| json!({"expression": k, "context": show}));
            match k % 6 {
                0 => look!(st, $T, vals, show, "z + cached_z(x)", z.add(x.cached(Z)); X, Y),
                1 => look!(st, $T, vals, show, "cached_w(cached_z(x + x) - z)", x.add(x).cached(Z).sub(z).cached(W); X, Y),
                2 => look!(st, $T, vals, show, "cached_z(z + x)", z.add(x).cached(Z); X, Y),
                3 => look!(st, $T, vals, show, "(cached_z(x) + cached_w(y)) - w", x.cached(Z).add(y.cached(W)).sub(w); X, Y),
                4 => look!(st, $T, vals, show, "cached_z(x - w) + cached_w(y)", x.sub(w).cached(Z).add(y.cached(W)); X, Y),
                _ => look!(st, $T, vals, show, "-(cached_z(x + y) + cached_z(x - y))", x.add(y).cached(Z).add(x.sub(y).cached(Z)).neg(); X, Y),
            }
        }}; }
        match form {
            0 => scalar!(f64, (num(), fill.0.then(&mut num), num(), fill.1.then(&mut num))),
            1 => exprs!(f64, (num(), fill.0.then(&mut num), num(), fill.1.then(&mut num))),
            2 => {
                let mut v = || [num(), num()];
                exprs!([f64; 2], (v(), fill.0.then(&mut v), v(), fill.1.then(&mut v)))
            },
            _ => {
                let mut v = || [[num(), num(), num()], [num(), num(), num()]];
                exprs!([[f64; 3]; 2], (v(), fill.0.then(&mut v), v(), fill.1.then(&mut v)))
            },
        }
        Ok(())
    }
}

fn main() {
    main_check(Check {
        id: "C20",
        rule: "random expressions of every family and their derivatives (also in single precision, over integers and over user-defined buffers of \
               run-time shape), without caches: value, owned-context value, repeated value, structured \
               value, direct derivative, derivative expression and dual (both ways of passing the context) are compared with each other \
               (bit for bit; structured values and duals up to conditioned rounding), the whole context is compared before and after, copies and \
               originals are compared, and a history of assignments and removals in one context is compared with new contexts. Nineteen expressions over a \
               context whose cache slots they also read as variables: structured value, direct derivative and dual leave the results, errors and \
               slots that the value and the derivative expression leave. The same evaluation after that of a distant and of a very similar state \
               (one bit away, rounded, negated, permuted, exchanged). Non-trivial: \
               at least three nodes and evaluation succeeds; distinct by expression and data.",
        assumptions: vec!["a structured value may be rounded differently from the plain value: the bound is that of the reference evaluator"],
        subs: vec![
            Sub { name: "plain", quick: 60_000, thorough: 2_000_000, head: (60, 240), prog: (1, 12), f: plain },
            Sub { name: "derivatives", quick: 60_000, thorough: 2_000_000, head: (60, 240), prog: (1, 10), f: derivatives },
            Sub { name: "matrix", quick: 15_000, thorough: 500_000, head: (60, 240), prog: (1, 8), f: matrix },
            Sub { name: "fields", quick: 60_000, thorough: 2_000_000, head: (4, 100), prog: (1, 12), f: fields },
            Sub { name: "tensors", quick: 60_000, thorough: 2_000_000, head: (4, 140), prog: (1, 12), f: tensors },
            Sub { name: "memory", quick: 60_000, thorough: 2_000_000, head: (60, 200), prog: (1, 10), f: memory },
            Sub { name: "slots", quick: 60_000, thorough: 1_500_000, head: (40, 40), prog: (0, 0), f: slots::run },
        ],
        known: vec![],
    })
}
