//! C05: structural shortcuts never change a result.
#[macro_use]
extern crate aegir;
use chk_all::*;
use expr::ast::*;
use expr::check::*;
use expr::face::Out;
use expr::ids::Flat64;
use aegir::buffers::{contract, contract_spec, shapes::Shaped, Buffer, Contract, IntoSpec, Spec, ZipMap};
use harness::tape::Tape;
use harness::{main_check, Case, Check, Stats, Sub};
use serde_json::json;
use std::rc::Rc;

type R = Result<(), String>;

/// The same expression with every constant given densely.
fn dense(a: &Ast) -> Ast {
    let op = match &a.op {
        Op::Const(l) => Op::Const(l.raw()),
        o => o.clone(),
    };
    Rc::new(Node { op, kind: a.kind, args: a.args.iter().map(dense).collect(), size: a.size, depth: a.depth, meth: a.meth })
}

fn structured(l: &Leaf) -> bool { !matches!(l, Leaf::Raw(..)) }

fn run(case: &Case, st: &mut Stats, t: &mut Tape, family: Family, max: usize, exact: bool) -> R {
    let w = if exact {
        // Small integers only: every operation is exact.
        let mut g = start(family, t, max);
        g.limit = 1e6;
        for k in g.kinds.clone() {
            for i in 0..2 {
                let l = small(k, t);
                g.var(k, i, l);
                let l = small(k, t);
                g.constant(k, l);
            }
        }
        finish(g, &case.prog, t)
    } else {
        world(family, &case.prog, t, max)
    };
    let ast2 = dense(&w.ast);
    let vars2 = Vars(w.vars.0.iter().map(|(k, l)| (*k, l.raw())).collect());
    let w2 = World { family, ast: ast2.clone(), vars: vars2, node: face(family, &ast2), targets: w.targets.clone() };
    describe(st, &w.ast);
    let occur = ids(&w.ast);
    let mut some = w.vars.0.iter().any(|(k, l)| structured(l) && occur.contains(k));
    census(&w.ast, &mut |a| {
        if let Op::Const(l) = &a.op {
            some |= structured(l);
        }
    });

    for (by, node) in forms(&w, t, 4) {
        let mut node2 = w2.node.clone();
        for tok in &by {
            node2 = node2.adj(*tok).unwrap();
        }
        let name = || format!("{} for {}", title(&w, &by), w.vars.show());
        st.eval();
        let a = node.ev(&mut w.vars.ctx()).map_err(|e| format!("{} fails with {:?}", name(), e))?;
        let s = node.ev_spec(&mut w.vars.ctx()).map_err(|e| format!("the structured evaluation of {} fails with {:?}", name(), e))?;
        let b = node2.ev(&mut w2.vars.ctx()).map_err(|e| format!("{} fails with {:?} on dense operands", name(), e))?;
        let s2 = node2.ev_spec(&mut w2.vars.ctx()).map_err(|e| format!("{} fails with {:?} on dense operands", name(), e))?;
        st.sample(|| json!({"expression": title(&w, &by), "variables": w.vars.show(), "value": b.xs, "form": s.form.to_string()}));
        for (what, x) in [("structured evaluation", &s.out), ("evaluation", &a), ("structured evaluation on dense operands", &s2.out)] {
            let ok = if exact && x.eq(&b) { Some(true) } else { alike(x, &b, || expected(&w.ast, &w.vars, &by).ok().map(|e| e.1)) };
            match ok {
                Some(true) => {},
                None => st.label("too ill-conditioned to judge"),
                Some(false) => return Err(format!("the {} of {} is {:?} instead of {:?} as on dense operands", what, name(), x, b)),
            }
        }
        st.label(format!("order {}, result form {}", by.len(), s.form));
        if (some || !by.is_empty()) && w.ast.size >= 2 && (s.form != s2.form || s.form != 'R' || b.xs.iter().any(|x| *x != 0.0)) {
            st.nontrivial(&(title(&w, &by), w.vars.show()));
        }
    }
    Ok(())
}

/// A leaf with small integer entries, structured more often than not.
fn small(k: Kind, t: &mut Tape) -> Leaf {
    let dims = k.dims().unwrap_or_else(|| vec![2]);
    let n: usize = dims.iter().product();
    let x = t.pick(&[0.0, 1.0, 0.0, 1.0, -1.0, 2.0, 3.0]);
    match t.below(4) {
        0 => Leaf::Full(dims, x),
        1 => Leaf::Diag(dims, x),
        2 if t.flag() => Leaf::Raw(dims, vec![x; n]),
        _ => Leaf::Raw(dims, (0..n).map(|_| t.pick(&[0.0, 1.0, 2.0, -1.0, 3.0, -2.0])).collect()),
    }
}

fn plain(case: &Case, st: &mut Stats) -> R { run(case, st, &mut Tape::new(&case.head), Family::P, 60, false) }
fn derivatives(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let f = t.pick(&DIFF);
    run(case, st, t, f, 50, false)
}
fn matrix(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let f = t.pick(&MATRIX);
    run(case, st, t, f, 25, false)
}
fn single(case: &Case, st: &mut Stats) -> R { run(case, st, &mut Tape::new(&case.head), Family::P, 6, true) }
fn single_d(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let f = t.pick(&[Family::S1, Family::S2, Family::G(Kind::V2), Family::G(Kind::V3), Family::G(Kind::M23), Family::X(Kind::V2)]);
    run(case, st, t, f, 6, true)
}

// ------------------------------------------------------------------ structured values by themselves

fn operand<B: Flat64>(dims: &[usize], t: &mut Tape) -> (Spec<B>, B, Leaf) { operand_of(dims, t, false) }

/// Any value at all: infinities, extremes, NaN.
fn special(t: &mut Tape) -> f64 {
    let (u, w) = (t.u(), t.u());
    if u % 11 == 3 { f64::NAN } else { harness::tape::any_f64(u, w) }
}

/// A function of any kind, to be applied to any value: what structure a value has must not matter.
fn fun(k: usize, x: f64, c: f64) -> f64 {
    match k % 10 {
        0 => c * x * x + 1.0,
        1 => x,
        2 => -x,
        3 => 1.0 / x,
        4 => x * 0.0,
        5 => x - x,
        6 => if x.is_nan() { 7.0 } else { x.min(c) },
        7 => c,
        8 => x.exp(),
        _ => if x == 0.0 { 3.0 } else { 0.0 },
    }
}

fn fun2(k: usize, x: f64, y: f64, c: f64) -> f64 {
    match k % 10 {
        0 => x - c * y,
        1 => x / y,
        2 => x,
        3 => y,
        4 => x * y,
        5 => x * x - y,
        6 => if x < y { 2.0 } else { -1.0 },
        7 => c,
        8 => if y == 0.0 { x } else { c },
        _ => if x == 0.0 { y } else { -c },
    }
}

fn operand_of<B: Flat64>(dims: &[usize], t: &mut Tape, any: bool) -> (Spec<B>, B, Leaf) {
    let n: usize = dims.iter().product();
    let x = match t.below(3) {
        0 => 0.0,
        1 => 1.0,
        _ if any => special(t),
        _ => t.val(),
    };
    let l = match t.below(5) {
        0 | 1 => Leaf::Full(dims.to_vec(), x),
        2 | 3 => Leaf::Diag(dims.to_vec(), x),
        _ => Leaf::Raw(dims.to_vec(), (0..n).map(|_| if any { special(t) } else { t.val() }).collect()),
    };
    let flat = if dims.len() > 2 {
        (0..n)
            .map(|i| {
                let (mut i, mut ix) = (i, vec![]);
                for d in dims.iter().rev() {
                    ix.push(i % d);
                    i /= d;
                }
                match &l {
                    Leaf::Diag(..) if ix.windows(2).any(|w| w[0] != w[1]) => 0.0,
                    Leaf::Raw(_, xs) => xs[(0..ix.len()).rev().fold(0, |a, k| a * dims[dims.len() - 1 - k] + ix[k])],
                    Leaf::Full(_, x) | Leaf::Diag(_, x) => *x,
                }
            })
            .collect()
    } else {
        l.flat()
    };
    (l.spec(), B::unflat(dims, &flat), l)
}

fn is(what: &str, got: &Out, want: &Out) -> R {
    if got.eq(want) {
        Ok(())
    } else {
        Err(format!("{} is {:?} instead of {:?}", what, got, want))
    }
}

fn unary<B>(dims: &[usize], t: &mut Tape, st: &mut Stats) -> R
where
    B: Flat64 + std::fmt::Debug,
    <B::Class as aegir::buffers::Class<B::Shape>>::Buffer<f64>: Flat64,
{
    let (s, b, l) = operand::<B>(dims, t);
    let (k, c) = (t.val(), t.val());
    let f = |x: f64| k * x * x + c;
    let name = format!("{:?}", s);
    let want = Out { dims: dims.to_vec(), xs: b.flat().into_iter().map(f).collect() };
    let shape = B::shape_dims(&Shaped::shape(&s));
    if shape != dims {
        return Err(format!("the shape of {} is {:?} instead of {:?}", name, shape, dims));
    }
    is(&format!("the expansion of {}", name), &Out::of(&s.clone().unwrap()), &Out::of(&b))?;
    is(&format!("the expansion of {} as a structured value", name), &Out::of(&s.clone().into_spec().unwrap()), &Out::of(&b))?;
    is(&format!("the expansion of {:?} made dense", b), &Out::of(&Spec::from(b.clone()).unwrap()), &Out::of(&b))?;
    let m = s.map(f);
    is(&format!("{} mapped by {} x² + {}", name, k, c), &Out::of(&m.clone().unwrap()), &want)?;
    // Any value under any function.
    let (s, b, l2) = operand_of::<B>(dims, t, true);
    let (k2, c2) = (t.below(10), if t.flag() { special(t) } else { t.val() });
    let want = Out { dims: dims.to_vec(), xs: b.flat().into_iter().map(|x| fun(k2, x, c2)).collect() };
    let name2 = format!("{:?} mapped by function {} with {:?}", s, k2, c2);
    is(&format!("the expansion of {:?}", s), &Out::of(&s.clone().unwrap()), &Out::of(&b))?;
    let m = s.map(|x| fun(k2, x, c2));
    let sh2 = <<B::Class as aegir::buffers::Class<B::Shape>>::Buffer<f64> as Flat64>::shape_dims(&Shaped::shape(&m));
    if sh2 != dims {
        return Err(format!("the shape of {} is {:?} instead of {:?}", name2, sh2, dims));
    }
    is(&name2, &Out::of(&m.unwrap()), &want)?;
    st.label(format!("any function on {}", &format!("{:?}", l2)[..4]));
    lifted::<B>(dims, t, st)?;
    let sh = B::shape_of(dims);
    for (w, s, x) in [("zeroes", Spec::<B>::zeroes(sh), Leaf::Full(dims.to_vec(), 0.0)), ("ones", Spec::ones(sh), Leaf::Full(dims.to_vec(), 1.0))] {
        is(w, &Out::of(&s.unwrap()), &Out { dims: dims.to_vec(), xs: x.flat() })?;
    }
    if dims.len() == 2 {
        is("eye", &Out::of(&Spec::<B>::eye(sh).unwrap()), &Out { dims: dims.to_vec(), xs: Leaf::Diag(dims.to_vec(), 1.0).flat() })?;
    }
    st.eval();
    st.label(format!("map of {}", &format!("{:?}", l)[..4]));
    if b.flat().iter().any(|x| *x != 0.0) || c != 0.0 {
        st.nontrivial(&("map", std::any::type_name::<B>(), name, k.to_bits(), c.to_bits()));
    }
    Ok(())
}

/// A dense value lifted to a structured one is still that value, whatever its entries are: those which are equal (or zeroes
/// of both signs, or infinite) included.
fn lifted<B>(dims: &[usize], t: &mut Tape, st: &mut Stats) -> R
where
    B: Flat64 + std::fmt::Debug,
    <B::Class as aegir::buffers::Class<B::Shape>>::Buffer<f64>: Flat64,
{
    let n: usize = dims.iter().product();
    let pool = [t.pick(&[0.0, -0.0, 1.0, f64::INFINITY]), special(t), t.pick(&[0.0, -0.0])];
    let m = 1 + t.below(3);
    let diagonal = dims.len() > 1 && t.flag();
    let flat: Vec<f64> = (0..n)
        .map(|i| {
            let (mut i, mut ix) = (i, vec![]);
            for d in dims.iter().rev() {
                ix.push(i % d);
                i /= d;
            }
            let off = ix.windows(2).any(|w| w[0] != w[1]);
            if diagonal && off { pool[if t.below(4) == 0 { 2 } else { 0 }] } else { pool[t.below(m)] }
        })
        .collect();
    let b = B::unflat(dims, &flat);
    let bits = |xs: &[f64]| xs.iter().map(|x| if x.is_nan() { 1 } else { x.to_bits() }).collect::<Vec<_>>();
    let same = |what: &str, got: Out, want: &[f64]| -> R {
        if got.dims == dims && bits(&got.xs) == bits(want) {
            Ok(())
        } else {
            Err(format!("{} of {:?} is {:?} instead of {:?}", what, b, got, want))
        }
    };
    same("the expansion of the lifted value", Out::of(&b.clone().into_spec().unwrap()), &flat)?;
    same("the expansion of the dense value made a structured one", Out::of(&Spec::from(b.clone()).unwrap()), &flat)?;
    let k = t.below(6);
    let f = |x: f64| match k {
        0 => 1.0 / x,
        1 => -x,
        2 => x * 0.0,
        3 => x.signum(),
        4 => x - x,
        _ => x,
    };
    let want: Vec<f64> = flat.iter().map(|x| f(*x)).collect();
    same(&format!("the image under function {} of the lifted value", k), Out::of(&b.clone().into_spec().map(f).unwrap()), &want)?;
    st.eval();
    st.label("a dense value lifted");
    if n > 1 && flat.windows(2).all(|w| w[0] == w[1]) {
        st.label("a dense value with equal entries lifted");
        st.nontrivial(&("lift", dims.to_vec(), bits(&flat), k));
    }
    Ok(())
}

/// Plain variables, constants and sums, products and negations of variables holding dense values with any entries.
macro_rules! dense_leaves {
    ($B:ty, $dims:expr, $t:ident, $st:ident) => {{
        use aegir::{ids::*, meta::Constant, ops, Function, Identifier};
        let dims: Vec<usize> = $dims.to_vec();
        let n: usize = dims.iter().product();
        let mut draw = |t: &mut Tape| -> Vec<f64> {
            let pool = [t.pick(&[0.0, -0.0, 1.0, f64::INFINITY]), special(t), t.pick(&[0.0, -0.0, 2.0])];
            let m = 1 + t.below(3);
            (0..n).map(|_| pool[t.below(m)]).collect()
        };
        let (xs, ys) = (draw($t), draw($t));
        let (x, y) = (<$B as Flat64>::unflat(&dims, &xs), <$B as Flat64>::unflat(&dims, &ys));
        let bits = |v: &[f64]| v.iter().map(|x| if x.is_nan() { 1 } else { x.to_bits() }).collect::<Vec<_>>();
        macro_rules! one {
            ($what:expr, $e:expr, $g:expr) => {{
                let e = $e;
                let want: Vec<f64> = xs.iter().zip(&ys).map($g).collect();
                let mut c = ctx! {X = x.clone(), Y = y.clone()};
                let a = e.evaluate(&mut c).map_err(|e| format!("{} fails with {:?}", $what, e))?;
                let s = e.evaluate_spec(&mut c).map_err(|e| format!("{} fails structurally with {:?}", $what, e))?;
                $st.eval();
                for (how, o) in [("evaluation", Out::of(&a)), ("structured evaluation", Out::of(&s.unwrap()))] {
                    if o.dims != dims || bits(&o.xs) != bits(&want) {
                        return Err(format!("the {} of {} for x = {:?}, y = {:?} is {:?} instead of {:?}", how, $what, x, y, o, want));
                    }
                }
            }};
        }
        one!("x", X.into_var(), |(a, _)| *a);
        one!("the constant x", Constant(x.clone()), |(a, _)| *a);
        one!("-x", ops::Negate(X.into_var()), |(a, _)| -a);
        one!("|x|", ops::Abs(X.into_var()), |(a, _)| a.abs());
        one!("x + y", ops::Add(X.into_var(), Y.into_var()), |(a, b)| a + b);
        one!("x - y", ops::Sub(X.into_var(), Y.into_var()), |(a, b)| a - b);
        one!("x y", ops::Mul(X.into_var(), Y.into_var()), |(a, b)| a * b);
        one!("x / y", ops::Div(X.into_var(), Y.into_var()), |(a, b)| a / b);
        one!("x y with the constants", ops::Mul(Constant(x.clone()), Constant(y.clone())), |(a, b)| a * b);
        $st.label("operators on dense values with any entries");
        if n > 1 && xs.windows(2).all(|w| w[0] == w[1]) {
            $st.nontrivial(&("leaves", dims.clone(), bits(&xs), bits(&ys)));
        }
        Ok(())
    }};
}

fn leaves(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    match t.below(9) {
        0 => dense_leaves!(f64, [], t, st),
        1 => dense_leaves!((f64, f64), [2], t, st),
        2 => dense_leaves!(A2, [2], t, st),
        3 => dense_leaves!(A3, [3], t, st),
        4 => dense_leaves!(A22, [2, 2], t, st),
        5 => dense_leaves!(A23, [2, 3], t, st),
        6 => dense_leaves!([[f64; 1]; 3], [3, 1], t, st),
        7 => dense_leaves!(A222, [2, 2, 2], t, st),
        _ => dense_leaves!(Vec<f64>, [t.below(6)], t, st),
    }
}

fn binary<X, Y>(dx: &[usize], dy: &[usize], t: &mut Tape, st: &mut Stats) -> R
where
    X: Flat64 + std::fmt::Debug + ZipMap<Y>,
    Y: Flat64 + std::fmt::Debug,
    X::Output<f64>: Flat64,
    X::Shape: aegir::buffers::shapes::Broadcast<Y::Shape>,
{
    let (sx, x, lx) = operand::<X>(dx, t);
    let (sy, y, ly) = operand::<Y>(dy, t);
    let (p, q, r) = (t.val(), t.val(), t.val());
    let f = |a: f64, b: f64| p * a + q * b * b + r;
    let (fx, fy) = (x.flat(), y.flat());
    let n = fx.len().max(fy.len());
    let at = |v: &Vec<f64>, dims: &[usize], i: usize| if dims.is_empty() { v[0] } else { v[i] };
    let want = Out { dims: if dx.is_empty() { dy.to_vec() } else { dx.to_vec() }, xs: (0..n).map(|i| f(at(&fx, dx, i), at(&fy, dy, i))).collect() };
    let name = format!("{:?} and {:?} zipped by {} x + {} y² + {}", sx, sy, p, q, r);
    let got = sx.zip_map(&sy, f).map_err(|e| format!("{} fails with {:?}", name, e))?;
    is(&name, &Out::of(&got.unwrap()), &want)?;
    // Any values under any function.
    let (sx, x, _) = operand_of::<X>(dx, t, true);
    let (sy, y, _) = operand_of::<Y>(dy, t, true);
    let (k, c) = (t.below(10), t.val());
    let (fx, fy) = (x.flat(), y.flat());
    let want = Out { dims: want.dims, xs: (0..n).map(|i| fun2(k, at(&fx, dx, i), at(&fy, dy, i), c)).collect() };
    let name2 = format!("{:?} and {:?} zipped by function {} with {:?}", sx, sy, k, c);
    let got = sx.zip_map(&sy, |a, b| fun2(k, a, b, c)).map_err(|e| format!("{} fails with {:?}", name2, e))?;
    let sh = <X::Output<f64> as Flat64>::shape_dims(&Shaped::shape(&got));
    if sh != want.dims {
        return Err(format!("the shape of {} is {:?} instead of {:?}", name2, sh, want.dims));
    }
    is(&name2, &Out::of(&got.unwrap()), &want)?;
    st.eval();
    st.label(format!("zip of {} and {}", &format!("{:?}", lx)[..4], &format!("{:?}", ly)[..4]));
    if want.xs.iter().any(|x| *x != 0.0) {
        st.nontrivial(&("zip", name));
    }
    Ok(())
}

fn product<X, Y, const A: usize>(dx: &[usize], dy: &[usize], t: &mut Tape, st: &mut Stats) -> R
where
    X: Flat64 + std::fmt::Debug + Contract<Y, A>,
    Y: Flat64 + std::fmt::Debug,
    X::Output: Flat64,
{
    let (sx, x, lx) = operand::<X>(dx, t);
    let (sy, y, ly) = operand::<Y>(dy, t);
    let name = format!("{:?} and {:?} contracted over {}", sx, sy, A);
    let got = contract_spec::<A, _, _>(sx, sy).map_err(|e| format!("{} fails with {:?}", name, e))?;
    let want = contract::<A, _, _>(x, y).map_err(|e| format!("{} fails with {:?} on dense operands", name, e))?;
    let (got, want) = (Out::of(&got.unwrap()), Out::of(&want));
    if !got.near(&want, 1e-12) {
        return Err(format!("{} is {:?} instead of {:?}", name, got, want));
    }
    st.eval();
    st.label(format!("contraction of {} and {}", &format!("{:?}", lx)[..4], &format!("{:?}", ly)[..4]));
    if want.xs.iter().any(|x| *x != 0.0) {
        st.nontrivial(&("contract", name));
    }
    Ok(())
}

type A2 = [f64; 2];
type A3 = [f64; 3];
type A22 = [[f64; 2]; 2];
type A23 = [[f64; 3]; 2];
type A32 = [[f64; 2]; 3];
type A33 = [[f64; 3]; 3];
type A222 = [[[f64; 2]; 2]; 2];
type A232 = [[[f64; 2]; 3]; 2];

fn values(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let n = 1 + t.below(4);
    match t.below(3) {
        0 => match t.below(10) {
            0 => unary::<f64>(&[], t, st),
            1 => unary::<(f64, f64)>(&[2], t, st),
            2 => unary::<A2>(&[2], t, st),
            3 => unary::<A3>(&[3], t, st),
            4 => unary::<A22>(&[2, 2], t, st),
            5 => unary::<A23>(&[2, 3], t, st),
            6 => unary::<A33>(&[3, 3], t, st),
            7 => unary::<A222>(&[2, 2, 2], t, st),
            8 => unary::<A232>(&[2, 3, 2], t, st),
            _ => unary::<Vec<f64>>(&[n], t, st),
        },
        1 => match t.below(16) {
            0 => binary::<f64, f64>(&[], &[], t, st),
            1 => binary::<f64, A2>(&[], &[2], t, st),
            2 => binary::<A2, f64>(&[2], &[], t, st),
            3 => binary::<A3, A3>(&[3], &[3], t, st),
            4 => binary::<f64, A22>(&[], &[2, 2], t, st),
            5 => binary::<A22, f64>(&[2, 2], &[], t, st),
            6 => binary::<A22, A22>(&[2, 2], &[2, 2], t, st),
            7 => binary::<A23, A23>(&[2, 3], &[2, 3], t, st),
            8 => binary::<f64, A32>(&[], &[3, 2], t, st),
            9 => binary::<A33, f64>(&[3, 3], &[], t, st),
            10 => binary::<A222, A222>(&[2, 2, 2], &[2, 2, 2], t, st),
            11 => binary::<f64, A232>(&[], &[2, 3, 2], t, st),
            12 => binary::<A232, f64>(&[2, 3, 2], &[], t, st),
            13 => binary::<Vec<f64>, Vec<f64>>(&[n], &[n], t, st),
            14 => binary::<Vec<f64>, f64>(&[n], &[], t, st),
            _ => binary::<f64, Vec<f64>>(&[], &[n], t, st),
        },
        _ => match t.below(18) {
            0 => product::<f64, f64, 0>(&[], &[], t, st),
            1 => product::<f64, A22, 0>(&[], &[2, 2], t, st),
            2 => product::<A22, f64, 0>(&[2, 2], &[], t, st),
            3 => product::<A2, A3, 0>(&[2], &[3], t, st),
            4 => product::<A3, A2, 0>(&[3], &[2], t, st),
            5 => product::<A2, A2, 0>(&[2], &[2], t, st),
            6 => product::<A23, f64, 0>(&[2, 3], &[], t, st),
            7 => product::<f64, A3, 0>(&[], &[3], t, st),
            8 => product::<A2, A2, 1>(&[2], &[2], t, st),
            9 => product::<A33, A3, 1>(&[3, 3], &[3], t, st),
            10 => product::<A3, A32, 1>(&[3], &[3, 2], t, st),
            11 => product::<A2, A23, 1>(&[2], &[2, 3], t, st),
            12 => product::<A22, A22, 1>(&[2, 2], &[2, 2], t, st),
            13 => product::<A23, A32, 1>(&[2, 3], &[3, 2], t, st),
            14 => product::<A32, A22, 1>(&[3, 2], &[2, 2], t, st),
            15 => product::<A33, A33, 1>(&[3, 3], &[3, 3], t, st),
            16 => product::<A3, A33, 1>(&[3], &[3, 3], t, st),
            _ => product::<A22, A2, 1>(&[2, 2], &[2], t, st),
        },
    }
}

// ------------------------------------------------------------------ large extents

/// A structured value with small integer entries, and the same value given densely.
fn large<B: Flat64>(dims: &[usize], t: &mut Tape) -> (Spec<B>, B, String) {
    let n: usize = dims.iter().product();
    let x = t.pick(&[0.0, 1.0, -1.0, 2.0, 3.0]);
    let strides: Vec<usize> = (0..dims.len()).map(|k| dims[k + 1..].iter().product()).collect();
    let on = |i: usize| (1..dims.len()).all(|k| i / strides[k] % dims[k] == i / strides[0] % dims[0]);
    let diag: Vec<f64> = (0..n).map(|i| if on(i) { x } else { 0.0 }).collect();
    let (form, flat) = match t.below(5) {
        0 | 1 => ('F', vec![x; n]),
        2 | 3 => ('D', diag),
        _ => {
            let (k, r) = (t.below(50), t.below(7));
            ('R', (0..n).map(|i| ((i * 7 + i / 9 * r + k) % 9) as f64 - 4.0).collect())
        },
    };
    let b = B::unflat(dims, &flat);
    let spec = match form {
        'F' => Spec::Full(b.shape(), x),
        'D' => Spec::Diagonal(b.shape(), x),
        _ => Spec::Raw(b.clone()),
    };
    (spec, b, format!("{} {} of {:?}", form, x, dims))
}

struct Nothing;
impl AsMut<Nothing> for Nothing {
    fn as_mut(&mut self) -> &mut Nothing { self }
}
impl aegir::Context for Nothing {}

fn wide(case: &Case, st: &mut Stats) -> R {
    use aegir::{meta::Constant, ops::*, ops, Function};

    macro_rules! same {
        ($st:ident, $name:expr, $e:expr, $want:expr) => {{
            let (e, w) = ($e, $want);
            let want = Out::of(&w.evaluate(Nothing).map_err(|e| format!("{} fails densely with {:?}", $name, e))?);
            let got = e.evaluate(Nothing).map_err(|e| format!("{} fails with {:?}", $name, e))?;
            let spec = e.evaluate_spec(Nothing).map_err(|e| format!("{} fails structurally with {:?}", $name, e))?;
            $st.eval();
            for (what, x) in [("evaluation", Out::of(&got)), ("structured evaluation", Out::of(&spec.unwrap()))] {
                if !x.near(&want, 1e-12) {
                    return Err(format!("the {} of {} is {:?} instead of {:?}", what, $name, x, want));
                }
            }
        }};
    }
    macro_rules! element {
        ($B:ty, $dims:expr, $t:ident, $st:ident) => {{
            let dims: Vec<usize> = $dims.to_vec();
            let (sx, x, nx) = large::<$B>(&dims, $t);
            let (sy, y, ny) = large::<$B>(&dims, $t);
            let c = $t.pick(&[0.0, 1.0, 2.0, -3.0]);
            let (s, d) = (|| Constant(sx.clone()), || Constant(x.clone()));
            let (s2, d2) = (|| Constant(sy.clone()), || Constant(y.clone()));
            let (fc, dc) = (|| Constant(Spec::<f64>::Full(aegir::buffers::shapes::S0, c)), || Constant(c));
            same!($st, format!("x + y for {} and {}", nx, ny), ops::Add(s(), s2()), ops::Add(d(), d2()));
            same!($st, format!("x - y for {} and {}", nx, ny), ops::Sub(s(), s2()), ops::Sub(d(), d2()));
            same!($st, format!("x y for {} and {}", nx, ny), ops::Mul(s(), s2()), ops::Mul(d(), d2()));
            same!($st, format!("c + x for {} and {}", c, nx), ops::Add(fc(), s()), ops::Add(dc(), d()));
            same!($st, format!("x - c for {} and {}", nx, c), ops::Sub(s(), fc()), ops::Sub(d(), dc()));
            same!($st, format!("c x for {} and {}", c, nx), ops::Mul(fc(), s()), ops::Mul(dc(), d()));
            same!($st, format!("x / (y² + 1) for {} and {}", nx, ny), ops::Div(s(), AddOne(Square(s2()))), ops::Div(d(), AddOne(Square(d2()))));
            same!($st, format!("the sum of {}", nx), Sum(s()), Sum(d()));
            same!($st, format!("-x for {}", nx), Negate(s()), Negate(d()));
            same!($st, format!("2 x for {}", nx), Double(s()), Double(d()));
            same!($st, format!("1 - x for {}", nx), OneSub(s()), OneSub(d()));
            same!($st, format!("x - 1 for {}", nx), SubOne(s()), SubOne(d()));
            same!($st, format!("the sigmoid of {}", nx), Sigmoid(s()), Sigmoid(d()));
            same!($st, format!("the sum of x + y for {} and {}", nx, ny), Sum(ops::Add(s(), s2())), Sum(ops::Add(d(), d2())));
            $st.label(format!("large {} and {}", &nx[..1], &ny[..1]));
            $st.nontrivial(&(nx, ny, c.to_bits(), x.flat().iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
            Ok(())
        }};
    }
    macro_rules! product {
        ($K:literal, $A:ty, $da:expr, $B:ty, $db:expr, $t:ident, $st:ident) => {{
            let (sx, x, nx) = large::<$A>(&$da, $t);
            let (sy, y, ny) = large::<$B>(&$db, $t);
            same!($st, format!("{} with {} over {}", nx, ny, $K), Contract::<$K, _, _>::new(Constant(sx.clone()), Constant(sy.clone())), Contract::<$K, _, _>::new(Constant(x.clone()), Constant(y.clone())));
            $st.label(format!("large contraction {} {}", &nx[..1], &ny[..1]));
            $st.nontrivial(&(nx, ny));
            Ok(())
        }};
    }
    macro_rules! table {
        ($t:ident, $st:ident; $($e:expr;)*) => {{
            let fs: Vec<fn(&mut Tape, &mut Stats) -> R> = vec![$(|$t, $st| $e),*];
            let k = $t.below(fs.len());
            fs[k]($t, $st)
        }};
    }
    let t = &mut Tape::new(&case.head);
    table! { t, st;
        element!([f64; 17], [17], t, st);
        element!([f64; 70], [70], t, st);
        element!([f64; 260], [260], t, st);
        element!([f64; 301], [301], t, st);
        element!([[f64; 9]; 9], [9, 9], t, st);
        element!([[f64; 17]; 16], [16, 17], t, st);
        element!([[f64; 2]; 70], [70, 2], t, st);
        element!([[f64; 70]; 2], [2, 70], t, st);
        element!([[[f64; 7]; 6]; 8], [8, 6, 7], t, st);
        element!(Vec<f64>, [[0usize, 1, 5, 20, 64, 130, 256, 300, 1030, 4099][t.below(10)]], t, st);
        product!(1, [f64; 17], [17], [f64; 17], [17], t, st);
        product!(1, [f64; 260], [260], [f64; 260], [260], t, st);
        product!(1, [f64; 301], [301], [f64; 301], [301], t, st);
        product!(1, [[f64; 17]; 17], [17, 17], [f64; 17], [17], t, st);
        product!(1, [f64; 70], [70], [[f64; 3]; 70], [70, 3], t, st);
        product!(1, [f64; 3], [3], [[f64; 70]; 3], [3, 70], t, st);
        product!(1, [[f64; 17]; 17], [17, 17], [[f64; 17]; 17], [17, 17], t, st);
        product!(1, [[f64; 9]; 3], [3, 9], [[f64; 5]; 9], [9, 5], t, st);
        product!(1, [[f64; 260]; 2], [2, 260], [[f64; 2]; 260], [260, 2], t, st);
        product!(1, [[f64; 3]; 9], [9, 3], [[f64; 9]; 3], [3, 9], t, st);
        product!(0, [f64; 70], [70], [f64; 3], [3], t, st);
        product!(0, [f64; 17], [17], [f64; 19], [19], t, st);
        product!(0, f64, [], [[f64; 17]; 16], [16, 17], t, st);
        product!(0, [[f64; 17]; 16], [16, 17], f64, [], t, st);
    }
}

/// Totals of uniform values in any field, at any scale and extent (also none, and more than the field can count).
fn totals(case: &Case, st: &mut Stats) -> R {
    use aegir::{meta::Constant, ops, Function};
    use harness::buf::{same_all, volume, Flat, Fld};

    fn told<F: Fld + Flat<F = F>>(name: &str, e: impl Function<Nothing, Value = F>, want: F, st: &mut Stats) -> R {
        let same = |x: F| same_all(&[x + F::zero()], &[want + F::zero()]);
        st.eval();
        let x = e.evaluate(Nothing).map_err(|e| format!("{} fails with {:?}", name, e))?;
        let s = e.evaluate_spec(Nothing).map_err(|e| format!("{} fails structurally with {:?}", name, e))?.unwrap();
        if !same(x) { return Err(format!("{} is {:?} instead of {:?}", name, x, want)); }
        if !same(s) { return Err(format!("{} is structurally {:?} instead of {:?}", name, s, want)); }
        Ok(())
    }
    fn one<B, F>(dims: &[usize], t: &mut Tape, st: &mut Stats) -> R
    where
        F: Fld + Flat<F = F>,
        B: Buffer<Field = F> + Flat<F = F>,
    {
        let n = volume(dims);
        let (x, y) = F::factors(n, t);
        let v = x * y;
        let want = (0..n).fold(F::zero(), |acc, _| acc + v);
        let shape = B::of(dims, &vec![v; n]).shape();
        let name = format!("the sum of {} times {:?} in {}", n, v, std::any::type_name::<B>());
        told(&name, ops::Sum(Constant(Spec::<B>::Full(shape, v))), want, st)?;
        told(&name, ops::Sum(Constant(B::of(dims, &vec![v; n]))), want, st)?;
        st.label(std::any::type_name::<F>().to_string());
        st.sample(|| json!({"sum": name}));
        if n > 1 && v != F::zero() {
            st.nontrivial(&(std::any::type_name::<B>(), n, v.bits()));
        }
        Ok(())
    }
    fn dot<const N: usize, F>(t: &mut Tape, st: &mut Stats) -> R
    where
        F: Fld + Flat<F = F>,
        [F; N]: Contract<[F; N], 1, Output = F> + Flat<F = F> + Buffer<Field = F>,
    {
        let (x, y) = F::factors(N, t);
        let want = (0..N).fold(F::zero(), |acc, _| acc + x * y);
        let shape = <[F; N] as Flat>::of(&[N], &[x; N]).shape();
        let name = format!("the product of vectors of {} times {:?} and {:?}", N, x, y);
        let (fx, fy) = (|| Constant(Spec::<[F; N]>::Full(shape, x)), || Constant(Spec::<[F; N]>::Full(shape, y)));
        let (dx, dy) = (|| Constant(<[F; N] as Flat>::of(&[N], &[x; N])), || Constant(<[F; N] as Flat>::of(&[N], &[y; N])));
        told(&name, ops::TensorDot::new(fx(), fy()), want, st)?;
        told(&name, ops::TensorDot::new(fx(), dy()), want, st)?;
        told(&name, ops::TensorDot::new(dx(), fy()), want, st)?;
        told(&name, ops::TensorDot::new(dx(), dy()), want, st)?;
        st.label("products");
        if N > 1 && want != F::zero() {
            st.nontrivial(&(N, std::any::type_name::<F>(), x.bits(), y.bits()));
        }
        Ok(())
    }
    fn any<F>(t: &mut Tape, st: &mut Stats) -> R
    where
        F: Fld + Flat<F = F>,
    {
        match t.below(14) {
            0 => one::<[F; 0], F>(&[0], t, st),
            1 => one::<[F; 3], F>(&[3], t, st),
            2 => one::<[F; 300], F>(&[300], t, st),
            3 => one::<[[F; 3]; 2], F>(&[2, 3], t, st),
            4 => one::<[[F; 20]; 13], F>(&[13, 20], t, st),
            5 => one::<[[F; 0]; 2], F>(&[2, 0], t, st),
            6 => one::<[[[F; 2]; 3]; 2], F>(&[2, 3, 2], t, st),
            7 => one::<(F, F), F>(&[2], t, st),
            8 | 9 => {
                let n = t.pick(&[0, 1, 2, 5, 127, 128, 255, 256, 257, 1000]);
                one::<Vec<F>, F>(&[n], t, st)
            },
            10 => dot::<2, F>(t, st),
            11 => dot::<300, F>(t, st),
            12 => dot::<0, F>(t, st),
            _ => dot::<7, F>(t, st),
        }
    }
    let t = &mut Tape::new(&case.head);
    match t.below(7) {
        0 => any::<f32>(t, st),
        1 => any::<u8>(t, st),
        2 => any::<i8>(t, st),
        3 => any::<i16>(t, st),
        4 => any::<i64>(t, st),
        _ => any::<f64>(t, st),
    }
}

fn fields(case: &Case, st: &mut Stats) -> R { fama::fields(case, st, fama::What::Structure) }
fn tensors(case: &Case, st: &mut Stats) -> R { fama::tensors(case, st, fama::What::Structure) }

fn main() {
    main_check(Check {
        id: "C05",
        rule: "random expressions of every family and their first, second and third derivative expressions, over variables and \
               constants held dense, uniform or diagonal: plain and structured evaluation are compared with the evaluation on the \
               same operands given densely (exactly for single operators over small integers, otherwise up to conditioned rounding); \
               single precision, integers and user-defined run-time shaped buffers are included; and structured values are expanded, mapped, zipped and contracted directly. Non-trivial: at least one structured \
               operand occurs or the expression is a derivative, with a non-zero or structured result; distinct by expression and data.",
        assumptions: vec![
            "operands are kept inside each operator's real domain: a structural zero may annihilate what would be infinite or NaN",
            "structured constants occur in plain expressions only (they cannot be differentiated)",
        ],
        subs: vec![
            Sub { name: "plain", quick: 100_000, thorough: 3_000_000, head: (60, 140), prog: (1, 12), f: plain },
            Sub { name: "derivatives", quick: 80_000, thorough: 2_500_000, head: (60, 140), prog: (1, 10), f: derivatives },
            Sub { name: "matrix", quick: 20_000, thorough: 500_000, head: (60, 140), prog: (1, 8), f: matrix },
            Sub { name: "single", quick: 100_000, thorough: 3_000_000, head: (60, 100), prog: (1, 2), f: single },
            Sub { name: "single-derivative", quick: 60_000, thorough: 2_000_000, head: (60, 100), prog: (1, 3), f: single_d },
            Sub { name: "values", quick: 400_000, thorough: 8_000_000, head: (10, 72), prog: (0, 0), f: values },
            Sub { name: "leaves", quick: 100_000, thorough: 3_000_000, head: (10, 40), prog: (0, 0), f: leaves },
            Sub { name: "wide", quick: 30_000, thorough: 1_000_000, head: (6, 20), prog: (0, 0), f: wide },
            Sub { name: "totals", quick: 60_000, thorough: 2_000_000, head: (6, 14), prog: (0, 0), f: totals },
            Sub { name: "fields", quick: 150_000, thorough: 5_000_000, head: (4, 100), prog: (1, 12), f: fields },
            Sub { name: "tensors", quick: 100_000, thorough: 3_000_000, head: (4, 140), prog: (1, 12), f: tensors },
        ],
        known: vec![],
    })
}
