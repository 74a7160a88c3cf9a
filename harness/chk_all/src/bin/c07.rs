//! C07: undefined variables and mismatched shapes are reported as errors, never panics.
use chk_all::*;
use expr::ast::*;
use expr::check::*;
use expr::erase::EErr;
use expr::ids::Tok;
use expr::num::Ball;
use harness::runner::panics;
use harness::tape::Tape;
use harness::{main_check, Case, Check, Stats, Sub};
use serde_json::json;

type R = Result<(), String>;

fn same(what: &str, name: &dyn Fn() -> String, got: Result<(), EErr>, want: &Result<Vec<usize>, RefErr>, wrap: &str) -> R {
    match (got, want) {
        (Ok(()), Ok(_)) => Ok(()),
        (Err(e), Err(w)) => {
            let dbg = if wrap.is_empty() { w.dbg.clone() } else { format!("{}({})", wrap, w.dbg) };
            if e.dbg != dbg {
                Err(format!("{} of {} fails with {} instead of {}", what, name(), e.dbg, dbg))
            } else if e.disp != w.disp {
                Err(format!("{} of {} reports \"{}\" instead of \"{}\"", what, name(), e.disp, w.disp))
            } else {
                Ok(())
            }
        },
        (Ok(()), Err(w)) => Err(format!("{} of {} returns data although it has to fail with {}", what, name(), w.dbg)),
        (Err(e), Ok(_)) => Err(format!("{} of {} fails with {:?} although nothing is wrong", what, name(), e)),
    }
}

fn value(w: &World, st: &mut Stats) -> R {
    let name = || format!("{} for {}", show(&w.ast), w.vars.show());
    let before = w.vars.ctx();
    let want = eval(&w.ast, &mut w.vars.env::<Ball>()).map(|v| v.dims);
    let n = &w.node;
    st.eval();
    st.sample(|| json!({"expression": show(&w.ast), "variables": w.vars.show(), "error": want.as_ref().err().map(|e| e.dbg.clone())}));

    let p = |what: &str, e: String| format!("{} of {} {}", what, name(), e);
    let r = panics(|| n.ev(&mut before.clone())).map_err(|e| p("the evaluation", e))?;
    if let (Ok(o), Ok(d)) = (&r, &want) {
        if o.dims != *d {
            return Err(format!("the evaluation of {} has dimensions {:?} instead of {:?}", name(), o.dims, d));
        }
    }
    same("the evaluation", &name, r.map(|_| ()), &want, "")?;
    let r = panics(|| n.ev_owned(before.clone())).map_err(|e| p("the evaluation (context by value)", e))?;
    same("the evaluation (context by value)", &name, r.map(|_| ()), &want, "")?;
    let r = panics(|| n.ev_spec(&mut before.clone())).map_err(|e| p("the structured evaluation", e))?;
    same("the structured evaluation", &name, r.map(|_| ()), &want, "")?;
    panics(|| n.ev_shape(&mut before.clone())).map_err(|e| p("the shape", e))?.ok();

    for t in &w.targets {
        // The value is computed first.
        if let Err(e) = &want {
            let r = panics(|| n.ev_dual(*t, &mut before.clone())).map_err(|e| p("the dual", e))?;
            same("the dual", &name, r.unwrap().map(|_| ()), &Err(e.clone()), "Left")?;
            let r = panics(|| n.ev_dual_owned(*t, before.clone())).map_err(|e| p("the dual", e))?;
            same("the dual (context by value)", &name, r.unwrap().map(|_| ()), &Err(e.clone()), "Left")?;
        }
    }

    let depth = |s: &str| s.matches("Left(").count() + s.matches("Right(").count() + s.matches("Output(").count();
    st.label(match &want {
        Ok(_) => "succeeds".into(),
        Err(e) => format!("{} at depth {}", if e.dbg.contains("Undefined") { "undefined variable" } else { "mismatched shapes" }, match depth(&e.dbg) { 0 => "0", 1 => "1", 2 => "2", 3 => "3", _ => "4 or more" }),
    });
    if let Err(e) = &want {
        if depth(&e.dbg) > 0 {
            st.nontrivial(&(name(), &e.dbg));
        }
    }
    Ok(())
}

fn derivatives(w: &World, all: &Vars, t: &mut Tape, st: &mut Stats) -> R {
    let before = w.vars.ctx();
    for (by, node) in forms(w, t, 4) {
        let name = || format!("{} for {}", title(w, &by), w.vars.show());
        let p = |what: &str, e: String| format!("{} of {} {}", what, name(), e);
        st.eval();
        let ev = panics(|| node.ev(&mut before.clone())).map_err(|e| p("the evaluation", e))?;
        let spec = panics(|| node.ev_spec(&mut before.clone())).map_err(|e| p("the structured evaluation", e))?;
        let shape = panics(|| node.ev_shape(&mut before.clone())).map_err(|e| p("the shape", e))?;

        // All variables of the family that it contains, without a value:
        let mut missing: Vec<Tok> = vec![];
        for k in w.family.kinds() {
            for idx in 0..4 {
                let tok = Tok { kind: k as u8, idx };
                if !w.vars.0.contains_key(&tok) && node.has(tok) {
                    missing.push(tok);
                }
            }
        }
        // The error for each of them alone; the one reached first is the one to report for all of them.
        // (The path of operands decides: "Left" comes before "Right" in the alphabet as well.)
        let mut alone: [Vec<String>; 3] = Default::default();
        if missing.len() > 1 && missing.iter().all(|m| all.0.contains_key(m)) {
            for m in &missing {
                let mut vars = Vars(w.vars.0.clone());
                for k in &missing {
                    if k != m {
                        vars.0.insert(*k, all.0[k].clone());
                    }
                }
                let c = vars.ctx();
                let errs = [
                    panics(|| node.ev(&mut c.clone()).err()).map_err(|e| p("the evaluation", e))?,
                    panics(|| node.ev_spec(&mut c.clone()).err()).map_err(|e| p("the structured evaluation", e))?,
                    panics(|| node.ev_shape(&mut c.clone()).err()).map_err(|e| p("the shape", e))?,
                ];
                for (k, e) in errs.into_iter().enumerate() {
                    alone[k].extend(e.map(|e| e.dbg));
                }
            }
        }
        for (k, (what, r)) in [("the evaluation", ev.map(|_| ())), ("the structured evaluation", spec.map(|_| ())), ("the shape", shape.map(|_| ()))].into_iter().enumerate() {
            if let Some(first) = alone[k].iter().min() {
                match &r {
                    Err(e) if e.dbg == *first => {},
                    _ => return Err(format!("{} of {} gives {:?} instead of {}, the first of {:?}", what, name(), r, first, alone[k])),
                }
                st.label(format!("{}: the first of several errors", what));
            }
            match r {
                Ok(()) if !missing.is_empty() && what != "the shape" => {
                    return Err(format!("{} of {} returns data although {} has no value", what, name(), missing[0]));
                },
                Ok(()) => {},
                Err(e) => {
                    let Some(m) = missing.iter().find(|m| e.dbg.contains(&format!("Undefined(Id({}))", m.name()))) else {
                        return Err(format!("{} of {} fails with {:?}, which names none of the variables without a value: {:?}", what, name(), e, missing));
                    };
                    if e.disp != format!("No variable found with identifier Id({}).", m.name()) {
                        return Err(format!("{} of {} fails with {:?}, but reports \"{}\"", what, name(), e, e.disp));
                    }
                },
            }
        }
        st.label(format!("derivative of order {}, {}", by.len(), if missing.is_empty() { "succeeds" } else { "undefined variable" }));
        if !by.is_empty() && !missing.is_empty() && w.ast.size > 2 {
            st.nontrivial(&(name(),));
        }
    }
    Ok(())
}

fn missing(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let mut w = world(Family::P, &case.prog, t, 40);
    let n = t.below(4);
    disturb(&mut w.vars, t, n);
    value(&w, st)
}

fn duals(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let f = t.pick(&FAMILIES[1..]);
    let mut w = world(f, &case.prog, t, 40);
    let n = 1 + t.below(3);
    let all = Vars(w.vars.0.clone());
    disturb(&mut w.vars, t, n);
    value(&w, st)?;
    derivatives(&w, &all, t, st)
}

/// Dynamic vectors of any lengths, anything undefined, any nesting.
fn dynamic(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let mut g = Gen::new(Family::P, 40, 1e4);
    g.kinds = vec![Kind::S, Kind::D];
    g.loose = true;
    g.use_caches = t.below(4) == 0;
    let n = t.below(4);
    for i in 0..3 {
        let l = leaf(Kind::S, t, 0);
        g.var(Kind::S, i, l);
        let len = if t.below(3) == 0 { t.below(6) } else { n };
        let l = leaf(Kind::D, t, len);
        g.var(Kind::D, i, l);
        let len = if t.below(3) == 0 { t.below(6) } else { n };
        let l = leaf(Kind::D, t, len);
        g.constant(Kind::D, l);
    }
    let k = [0, 0, 0, 1, 2][t.below(5)];
    let mut w = finish(g, &case.prog, t);
    disturb(&mut w.vars, t, k);
    value(&w, st)
}

/// Everything loose: operands far outside of the operators' domains as well.
fn loose(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let mut g = start(Family::P, t, 40);
    g.loose = true;
    g.use_caches = t.below(4) == 0;
    g.pool(t, 2, 1);
    for v in g.vars.0.values_mut() {
        if let Leaf::Raw(_, xs) = v {
            if t.below(4) == 0 {
                let x = harness::tape::any_f64(t.u(), t.u());
                let i = t.below(xs.len());
                if let Some(y) = xs.get_mut(i) {
                    *y = x;
                }
            }
        }
    }
    let k = t.below(3);
    let mut w = finish(g, &case.prog, t);
    disturb(&mut w.vars, t, k);
    value(&w, st)
}

/// The report of incompatible shapes of every pair of kinds, as built and reversed.
fn texts(case: &Case, st: &mut Stats) -> R {
    use aegir::buffers::shapes::{IncompatibleShapes, SDynamic, Shape, S0, S1, S2, S3, S4};
    use aegir::errors::{BinaryError, UnaryError};
    let t = &mut Tape::new(&case.head);
    let (a, b, c) = (t.below(9), t.below(100), t.below(9));

    fn numbers(s: &str) -> Vec<usize> {
        s.split(|c: char| !c.is_ascii_digit()).filter(|w| !w.is_empty()).map(|w| w.parse().unwrap()).collect()
    }
    /// What a shape is to be recognised by: its extents, in order.
    fn one<S: Shape>(s: S, dims: &[usize]) -> Result<String, String> {
        let text = s.to_string();
        // (The scalar shape and the run-time shapes print their names.)
        let seen = numbers(text.trim_start_matches("S0"));
        if seen != dims {
            return Err(format!("a shape of extents {:?} prints as {:?}", dims, text));
        }
        Ok(text)
    }
    fn pair<L: Shape, R_: Shape>(st: &mut Stats, l: (L, &[usize]), r: (R_, &[usize])) -> R {
        let (x, y) = (one(l.0, l.1)?, one(r.0, r.1)?);
        let e = IncompatibleShapes { left: l.0, right: r.0 };
        let check = |text: String, x: &str, y: &str| -> R {
            let (Some(i), Some(j)) = (text.find(x), text.rfind(y)) else {
                return Err(format!("the report {:?} does not name the shapes {:?} and {:?}", text, x, y));
            };
            if i + x.len() > j {
                return Err(format!("the report {:?} does not name the shapes {:?} and {:?} in this order", text, x, y));
            }
            Ok(())
        };
        check(e.to_string(), &x, &y)?;
        check(e.reverse().to_string(), &y, &x)?;
        check(e.reverse().reverse().to_string(), &x, &y)?;
        // Wrapped, the report is that of the cause.
        for s in [
            BinaryError::<_, String, String>::Left(e).to_string(),
            BinaryError::<String, _, String>::Right(e).to_string(),
            BinaryError::<String, String, _>::Output(e).to_string(),
            UnaryError::<_, String>::Inner(e).to_string(),
            UnaryError::<String, _>::Output(e).to_string(),
        ] {
            if s != e.to_string() {
                return Err(format!("an error in an operand is reported as {:?} instead of {:?}", s, e.to_string()));
            }
        }
        st.eval();
        st.label(format!("ranks {} and {}", l.1.len(), r.1.len()));
        st.nontrivial(&(&x, &y));
        st.sample(|| json!({"report": e.to_string()}));
        Ok(())
    }
    macro_rules! second { ($l:expr, $ld:expr) => {
        match t.below(9) {
            0 => pair(st, ($l, $ld), (S0, &[])),
            1 => pair(st, ($l, $ld), (S1::<4>, &[4])),
            2 => pair(st, ($l, $ld), (S2::<5, 1>, &[5, 1])),
            3 => pair(st, ($l, $ld), (S3::<2, 10, 3>, &[2, 10, 3])),
            4 => pair(st, ($l, $ld), (S4::<6, 2, 1, 7>, &[6, 2, 1, 7])),
            5 => pair(st, ($l, $ld), (SDynamic([b]), &[b])),
            6 => pair(st, ($l, $ld), (SDynamic([b, c]), &[b, c])),
            7 => pair(st, ($l, $ld), (SDynamic([c, a, b]), &[c, a, b])),
            _ => pair(st, ($l, $ld), (S2::<12, 11>, &[12, 11])),
        }
    } }
    match t.below(9) {
        0 => second!(S0, &[]),
        1 => second!(S1::<0>, &[0]),
        2 => second!(S1::<13>, &[13]),
        3 => second!(S2::<2, 3>, &[2, 3]),
        4 => second!(S2::<3, 2>, &[3, 2]),
        5 => second!(S3::<1, 2, 3>, &[1, 2, 3]),
        6 => second!(S4::<4, 3, 2, 1>, &[4, 3, 2, 1]),
        7 => second!(SDynamic([a]), &[a]),
        _ => second!(SDynamic([a, b]), &[a, b]),
    }
}

fn main() {
    main_check(Check {
        id: "C07",
        rule: "random expressions of every family in contexts where variables are undefined and dynamic vectors (or tensors of run-time shape) have disagreeing extents \
               (operands may also lie outside of the operators' domains): the error (its variant, its path of operands, the identifier or \
               the two shapes, and its message) is compared with a reference evaluation that evaluates left before right; no entry point \
               may panic. For derivative expressions: evaluation fails exactly when a contained variable is undefined, naming one. \
               The reports of incompatible shapes name the extents of both in order, for every kind of shape. \
               Non-trivial: the failure lies below at least one operator; distinct by expression, data and error.",
        assumptions: vec![
            "fixed-size arrays cannot have incompatible shapes (they would not compile), so shape errors come from dynamic vectors and user-defined tensors",
            "shape inference of Power and Sum never fails, by definition",
        ],
        subs: vec![
            Sub { name: "missing", quick: 100_000, thorough: 3_000_000, head: (60, 140), prog: (1, 12), f: missing },
            Sub { name: "dynamic", quick: 150_000, thorough: 4_000_000, head: (30, 60), prog: (1, 12), f: dynamic },
            Sub { name: "loose", quick: 60_000, thorough: 2_000_000, head: (60, 180), prog: (1, 12), f: loose },
            Sub { name: "derivatives", quick: 60_000, thorough: 2_000_000, head: (60, 160), prog: (1, 10), f: duals },
            Sub { name: "texts", quick: 20_000, thorough: 200_000, head: (8, 8), prog: (0, 0), f: texts },
            Sub { name: "tensors", quick: 150_000, thorough: 5_000_000, head: (4, 140), prog: (1, 12), f: fama::mismatches },
        ],
        known: vec![],
    })
}
