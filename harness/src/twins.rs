//! Identifiers that cannot be told apart by what they print: the same expressions over identifiers
//! that share one symbol and over ones with three symbols behave in the same way.
use crate::tape::Tape;
use crate::{Case, Stats};
use aegir::*;
use serde_json::json;

type R = Result<(), String>;

mod same {
    ids!(P::s, Q::s, T::"s");
    #[derive(Context)]
    pub struct Ctx<A, B, C> {
        #[id(P)]
        pub p: A,
        #[id(Q)]
        pub q: B,
        #[cache]
        #[id(T)]
        pub t: Option<C>,
    }
}
mod apart {
    ids!(P::p, Q::q, T::t);
    #[derive(Context)]
    pub struct Ctx<A, B, C> {
        #[id(P)]
        pub p: A,
        #[id(Q)]
        pub q: B,
        #[cache]
        #[id(T)]
        pub t: Option<C>,
    }
}

fn text<T: std::fmt::Debug, E: std::fmt::Debug>(r: Result<T, E>) -> String {
    match r {
        Ok(x) => format!("{:?}", x),
        Err(_) => "an error".to_string(),
    }
}

/// What is asked of one expression; each gives the same in both worlds.
macro_rules! ask {
    ($m:ident, $f:expr, $v:expr, $out:ident) => {{
        use $m::*;
        let f = $f;
        macro_rules! ev { ($e:expr) => {{
            let (p, q, t) = $v;
            text($e.evaluate(Ctx { p, q, t: Some(t) }))
        }}; }
        $out.push(("the value", ev!(f.clone())));
        $out.push(("the derivative by P", ev!(f.clone().adjoint(P))));
        $out.push(("the derivative by Q", ev!(f.clone().adjoint(Q))));
        $out.push(("the derivative by T", ev!(f.clone().adjoint(T))));
        $out.push(("containment of P", format!("{}", f.contains(P))));
        $out.push(("containment of Q", format!("{}", f.contains(Q))));
        $out.push(("containment of T", format!("{}", f.contains(T))));
        let (d, e) = (f.clone().adjoint(P), f.clone().adjoint(T));
        $out.push(("containment of P in the derivative by P", format!("{}", d.contains(P))));
        $out.push(("containment of Q in the derivative by P", format!("{}", d.contains(Q))));
        $out.push(("containment of P in the derivative by T", format!("{}", e.contains(P))));
        $out.push(("containment of T in the derivative by T", format!("{}", e.contains(T))));
    }};
}
macro_rules! second {
    ($m:ident, $f:expr, $v:expr, $out:ident) => {{
        use $m::*;
        let f = $f;
        macro_rules! ev { ($e:expr) => {{
            let (p, q, t) = $v;
            text($e.evaluate(Ctx { p, q, t: Some(t) }))
        }}; }
        $out.push(("the derivative by P and P", ev!(f.clone().adjoint(P).adjoint(P))));
        $out.push(("the derivative by P and Q", ev!(f.clone().adjoint(P).adjoint(Q))));
        $out.push(("the derivative by Q and T", ev!(f.clone().adjoint(Q).adjoint(T))));
        let (dual_p, dual_q) = ((f.clone().evaluate_dual(P, {
            let (p, q, t) = $v;
            Ctx { p, q, t: Some(t) }
        })), (f.clone().evaluate_dual(Q, {
            let (p, q, t) = $v;
            Ctx { p, q, t: Some(t) }
        })));
        $out.push(("the dual number by P", text(dual_p)));
        $out.push(("the dual number by Q", text(dual_q)));
    }};
}

macro_rules! both {
    ($st:ident, $v:ident, $(second $s:tt,)? $name:literal, |$p:ident, $q:ident, $t:ident| $f:expr) => {{
        let (mut a, mut b) = (vec![], vec![]);
        {
            let ($p, $q, $t) = (same::P.into_var(), same::Q.into_var(), same::T.into_var());
            ask!(same, $f, $v, a);
        }
        {
            let ($p, $q, $t) = (apart::P.into_var(), apart::Q.into_var(), apart::T.into_var());
            ask!(apart, $f, $v, b);
        }
        $(
            let _ = $s;
            {
                let ($p, $q, $t) = (same::P.into_var(), same::Q.into_var(), same::T.into_var());
                second!(same, $f, $v, a);
            }
            {
                let ($p, $q, $t) = (apart::P.into_var(), apart::Q.into_var(), apart::T.into_var());
                second!(apart, $f, $v, b);
            }
        )?
        let shown = format!("{} for P, Q, T = {:?}", $name, $v);
        for ((what, x), (_, y)) in a.iter().zip(&b) {
            $st.eval();
            if x != y {
                return Err(format!("{} of {} is {} if the identifiers print as one symbol, and {} if they do not", what, shown, x, y));
            }
        }
        $st.label($name);
        $st.nontrivial(&shown);
        $st.sample(|| json!({"expression": $name, "values": format!("{:?}", $v), "derivatives": [a[1].1, a[2].1, a[3].1]}));
        Ok(())
    }};
}

/// A scalar that is exact in few bits.
fn num(t: &mut Tape) -> f64 { (t.int() + 0.5) / 4.0 }

pub fn run(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let k = t.below(16);
    let s = (num(t), num(t), num(t));
    let v = ([num(t), num(t)], [num(t), num(t)], [num(t), num(t)]);
    match k {
        0 => both!(st, s, second 0, "P", |p, _q, _t| p.add(aegir::buffers::Buffer::into_constant(0.0f64))),
        1 => both!(st, s, second 0, "P Q", |p, q, _t| p.mul(q)),
        2 => both!(st, s, second 0, "P - Q", |p, q, _t| p.sub(q)),
        3 => both!(st, s, second 0, "P P Q", |p, q, _t| p.mul(p).mul(q)),
        4 => both!(st, s, second 0, "sigmoid(P) T²", |p, _q, t| p.sigmoid().mul(t.squared())),
        5 => both!(st, s, second 0, "P / (Q² + 1)", |p, q, _t| p.div(q.squared().add(aegir::buffers::Buffer::into_constant(1.0f64)))),
        6 => both!(st, s, second 0, "sigmoid(P + Q) T", |p, q, t| p.add(q).sigmoid().mul(t)),
        7 => both!(st, s, second 0, "Q T - P", |p, q, t| q.mul(t).sub(p)),
        8 => both!(st, v, "P", |p, _q, _t| p),
        9 => both!(st, v, "P + Q", |p, q, _t| p.add(q)),
        10 => both!(st, v, "Q + (P - Q)", |p, q, _t| q.add(p.sub(q))),
        11 => both!(st, v, "P - T", |p, _q, t| p.sub(t)),
        12 => both!(st, v, "Q - T + P", |p, q, t| q.sub(t).add(p)),
        13 => both!(st, v, "P · Q", |p, q, _t| p.dot(q)),
        14 => both!(st, v, "-(P + Q)", |p, q, _t| p.add(q).neg()),
        _ => both!(st, v, "T + T - Q", |_p, q, t| t.add(t).sub(q)),
    }
}
