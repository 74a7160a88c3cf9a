//! C13: zipping combines matching elements in operand order, with scalars broadcast.
use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, Spec, ZipFold, ZipMap, ZipMut};
use harness::buf::*;
use harness::tape::Tape;
use harness::{main_check, Case, Check, Stats, Sub};
use serde_json::json;
use std::cell::RefCell;

type R = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !$c { return Err(format!($($a)+)); } };
}

/// What the two operands are expected to be paired up as; the shorter one is a broadcast scalar.
fn pairs<F: Fld>(x: &[F], y: &[F], xs: bool, ys: bool) -> Vec<(F, F)> {
    match (xs, ys) {
        (true, false) => y.iter().map(|&b| (x[0], b)).collect(),
        (false, true) => x.iter().map(|&a| (a, y[0])).collect(),
        _ => x.iter().copied().zip(y.iter().copied()).collect(),
    }
}

fn sorted<F: Fld>(ps: &[(F, F)]) -> Vec<(u64, u64)> {
    let n = |x: F| if x != x { 0x7ff8 << 48 } else { x.bits() };
    let mut v: Vec<_> = ps.iter().map(|&(a, b)| (n(a), n(b))).collect();
    v.sort();
    v
}

/// zip_map, zip_map_id and zip_shape of any two buffers, and the lifted zip.
fn check_map<A, B, F>(dx: &[usize], dy: &[usize], t: &mut Tape, st: &mut Stats) -> R
where
    F: Fld + Flat<F = F>,
    A: ZipMap<B> + Buffer<Field = F> + Flat<F = F> + std::fmt::Debug,
    B: Buffer<Field = F> + Flat<F = F> + std::fmt::Debug,
    A::Shape: Broadcast<B::Shape>,
    A::Output<F>: Flat<F = F>,
    A::Output<i64>: Flat<F = i64>,
{
    let (sx, sy) = (dx.is_empty(), dy.is_empty());
    let xs: Vec<F> = data(volume(dx), t);
    let ys: Vec<F> = data(volume(dy), t);
    let (x, y) = (A::of(dx, &xs), B::of(dy, &ys));
    let k = t.below(6);
    let ps = pairs(&xs, &ys, sx, sy);
    let fits = sx || sy || dx == dy;
    let name = format!("{} with {}", std::any::type_name::<A>(), std::any::type_name::<B>());
    let dims = if sx { dy } else { dx };

    let seen: RefCell<Vec<(F, F)>> = RefCell::new(vec![]);
    let results: Vec<(&str, Result<Vec<F>, String>, Vec<F>)> = vec![
        (
            "zip_map",
            x.clone().zip_map(&y, |a, b| { seen.borrow_mut().push((a, b)); F::fun2(k, a, b) }).map(|o| { o.flat() }).map_err(|e| format!("{:?}", e)),
            ps.iter().map(|&(a, b)| F::fun2(k, a, b)).collect(),
        ),
        (
            "zip_map_id",
            x.clone().zip_map_id(&y, |a, b| { seen.borrow_mut().push((a, b)); F::fun2(k, a, b) }).map(|o| o.flat()).map_err(|e| format!("{:?}", e)),
            ps.iter().map(|&(a, b)| F::fun2(k, a, b)).collect(),
        ),
        (
            "zip_shape",
            x.clone().zip_shape(y.shape()).map(|o| o.flat()).map_err(|e| format!("{:?}", e)),
            ps.iter().map(|&(a, _)| a).collect(),
        ),
    ];
    for (what, got, want) in results {
        match got {
            Ok(o) => {
                ensure!(fits, "{} of {} combines dimensions {:?} and {:?} to {:?}", what, name, dx, dy, o);
                ensure!(same_all(&o, &want), "{} of {} (function {}): {:?} and {:?} give {:?}, expected {:?}", what, name, k, x, y, o, want);
            },
            Err(e) => {
                ensure!(!fits, "{} of {} fails on {:?} and {:?}: {}", what, name, dx, dy, e);
                let want = format!("IncompatibleShapes {{ left: {:?}, right: {:?} }}", x.shape(), y.shape());
                ensure!(e == want, "{} of {} reports {}, expected {}", what, name, e, want);
            },
        }
    }
    if fits {
        // Each pair is given to the function exactly once by either call:
        let seen = seen.into_inner();
        ensure!(seen.len() == 2 * ps.len(), "zipping {:?} and {:?} calls the function {} times for {} pairs", x, y, seen.len() / 2, ps.len());
        let (a, b) = seen.split_at(ps.len());
        ensure!(sorted(a) == sorted(&ps) && sorted(b) == sorted(&ps), "zipping {:?} and {:?} combines {:?}", x, y, seen);
    }

    // Into another field:
    let h = |a: F, b: F| F::into_i64(k, a).wrapping_mul(1_000_003).wrapping_sub(F::into_i64(k + 1, b));
    let want: Vec<i64> = ps.iter().map(|&(a, b)| h(a, b)).collect();
    match x.clone().zip_map(&y, h) {
        Ok(o) => {
            ensure!(fits && o.flat() == want, "zipping {:?} and {:?} into i64 gives {:?}, expected {:?}", x, y, o.flat(), want);
            ensure!(
                harness::ix::row_major(dims).len() == o.shape().cardinality(),
                "zipping {:?} and {:?} has shape {:?}", x, y, o.shape()
            );
            let bs = x.shape().broadcast(y.shape()).map_err(|e| format!("{:?}", e))?;
            ensure!(format!("{:?}", bs) == format!("{:?}", o.shape()), "the zip of {:?} and {:?} has shape {:?} but they broadcast to {:?}", x, y, o.shape(), bs);
        },
        Err(e) => ensure!(!fits, "zipping {:?} and {:?} fails: {:?}", x, y, e),
    }

    // Lifted operands:
    let (v, w) = (F::any(t), F::any(t));
    let diag = |dims: &[usize], v: F| -> Vec<F> {
        harness::ix::row_major(dims).iter().map(|ix| if ix.windows(2).all(|p| p[0] == p[1]) { v } else { F::zero() }).collect()
    };
    let lifted_x = [
        (Spec::Raw(x.clone()), xs.clone()),
        (Spec::Full(x.shape(), v), vec![v; xs.len()]),
        (Spec::Diagonal(x.shape(), v), diag(dx, v)),
    ];
    let lifted_y = [
        (Spec::Raw(y.clone()), ys.clone()),
        (Spec::Full(y.shape(), w), vec![w; ys.len()]),
        (Spec::Diagonal(y.shape(), w), diag(dy, w)),
    ];
    let i = t.below(3);
    let j = t.below(3);
    let ((lx, fx), (ly, fy)) = (&lifted_x[i], &lifted_y[j]);
    let want: Vec<i64> = pairs(fx, fy, sx, sy).iter().map(|&(a, b)| h(a, b)).collect();
    match lx.clone().zip_map(ly, h) {
        Ok(o) => {
            let shape = o.shape();
            let o = o.unwrap();
            ensure!(format!("{:?}", shape) == format!("{:?}", o.shape()), "the lifted zip says {:?} but expands to {:?}", shape, o.shape());
            ensure!(fits && o.flat() == want, "zipping lifted #{} {:?} and #{} {:?} gives {:?}, expected {:?}", i, fx, j, fy, o.flat(), want);
        },
        Err(e) => {
            ensure!(!fits, "zipping lifted operands of dimensions {:?} and {:?} fails: {:?}", dx, dy, e);
            let want = format!("IncompatibleShapes {{ left: {:?}, right: {:?} }}", x.shape(), y.shape());
            ensure!(format!("{:?}", e) == want, "zipping lifted operands reports {:?}, expected {}", e, want);
        },
    }
    st.label(if !fits { "incompatible" } else if sx && !sy { "scalar on the left" } else if sy && !sx { "scalar on the right" } else { "same shape" });

    Ok(())
}

fn check_fold<A, B, F>(dx: &[usize], dy: &[usize], t: &mut Tape) -> R
where
    F: Fld + Flat<F = F>,
    A: ZipFold<B> + Buffer<Field = F> + Flat<F = F> + std::fmt::Debug,
    B: Buffer<Field = F> + Flat<F = F> + std::fmt::Debug,
{
    let xs: Vec<F> = data(volume(dx), t);
    let ys: Vec<F> = data(volume(dy), t);
    let (x, y) = (A::of(dx, &xs), B::of(dy, &ys));
    let ps = pairs(&xs, &ys, dx.is_empty(), dy.is_empty());
    let fits = dx.is_empty() || dy.is_empty() || dx == dy;
    let h = |acc: u64, (a, b): (F, F)| (acc.wrapping_mul(31) ^ (F::into_i64(0, a) as u64)).rotate_left(9) ^ (F::into_i64(1, b) as u64);
    let init = t.u() as u64;

    match x.zip_fold(&y, init, h) {
        Ok(got) => {
            let want = ps.iter().fold(init, |acc, &p| h(acc, p));
            ensure!(fits, "folding {:?} with {:?} does not fail", x, y);
            ensure!(got == want, "folding {:?} with {:?} does not visit the pairs in index order", x, y);
            // An accumulator of the field itself, from any initial value.
            let (k, a0) = (t.below(6), F::any(t));
            let got = x.zip_fold(&y, a0, |acc, (a, b)| F::fun2(k, acc, F::fun2(k + 1, a, b))).map_err(|e| format!("{:?}", e))?;
            let want = ps.iter().fold(a0, |acc, &(a, b)| F::fun2(k, acc, F::fun2(k + 1, a, b)));
            ensure!(same(got, want), "folding {:?} with {:?} from {:?} (function {}) gives {:?} instead of {:?}", x, y, a0, k, got, want);
        },
        Err(e) => {
            ensure!(!fits, "folding {:?} with {:?} fails: {:?}", x, y, e);
            let want = format!("IncompatibleShapes {{ left: {:?}, right: {:?} }}", x.shape(), y.shape());
            ensure!(format!("{:?}", e) == want, "folding reports {:?}, expected {}", e, want);
        },
    }

    Ok(())
}

fn check_mut<A, B, F>(dx: &[usize], dy: &[usize], t: &mut Tape) -> R
where
    F: Fld + Flat<F = F>,
    A: ZipMut<B> + Buffer<Field = F> + Flat<F = F> + std::fmt::Debug,
    B: Buffer<Field = F> + Flat<F = F> + std::fmt::Debug,
{
    let xs: Vec<F> = data(volume(dx), t);
    let ys: Vec<F> = data(volume(dy), t);
    let (x, y) = (A::of(dx, &xs), B::of(dy, &ys));
    let ps = pairs(&xs, &ys, false, dy.is_empty() && !dx.is_empty());
    let k = t.below(6);
    if !dy.is_empty() && dx != dy {
        let mut got = x.clone();
        let r = got.zip_mut(&y, |a, b| F::fun2(k, a, b));
        let want = format!("Err(IncompatibleShapes {{ left: {:?}, right: {:?} }})", x.shape(), y.shape());
        ensure!(format!("{:?}", r) == want, "updating {:?} with {:?} gives {:?} instead of {}", x, y, r, want);
        return Ok(());
    }
    let seen: RefCell<Vec<(F, F)>> = RefCell::new(vec![]);
    let mut got = x.clone();
    let r = got.zip_mut(&y, |a, b| { seen.borrow_mut().push((a, b)); F::fun2(k, a, b) });
    let want: Vec<F> = ps.iter().map(|&(a, b)| F::fun2(k, a, b)).collect();
    ensure!(r.is_ok(), "updating {:?} with {:?} fails: {:?}", x, y, r);
    ensure!(same_all(&got.flat(), &want), "updating {:?} with {:?} (function {}) gives {:?}, expected {:?}", x, y, k, got, want);
    ensure!(sorted(&seen.borrow()) == sorted(&ps), "updating {:?} with {:?} combines {:?}", x, y, seen.borrow());
    ensure!(same_all(&y.flat(), &ys), "updating {:?} changed the right operand to {:?}", x, y);

    Ok(())
}

type Law = fn(&mut Tape, &mut Stats) -> R;

macro_rules! arr {
    ($F:ty; $B:ty, [$($d:expr),*]) => {{
        let f: Law = |t, st| {
            type A = $B;
            let d: &[usize] = &[$($d),*];
            match t.below(3) {
                0 => {
                    check_map::<A, A, $F>(d, d, t, st)?;
                    check_fold::<A, A, $F>(d, d, t)?;
                    check_mut::<A, A, $F>(d, d, t)
                },
                1 => {
                    check_map::<A, $F, $F>(d, &[], t, st)?;
                    check_fold::<A, $F, $F>(d, &[], t)?;
                    check_mut::<A, $F, $F>(d, &[], t)
                },
                _ => check_map::<$F, A, $F>(&[], d, t, st),
            }
        };
        (stringify!($B), f)
    }};
}

macro_rules! run_table {
    ($case:ident, $st:ident, $table:expr) => {{
        let t = &mut Tape::new(&$case.head);
        let table: Vec<(&str, Law)> = $table;
        let k = t.below(table.len());
        $st.eval();
        $st.label(table[k].0);
        $st.nontrivial(&(k, &$case.head));
        $st.sample(|| json!({"buffer": table[k].0, "draws": $case.head}));
        table[k].1(t, $st)
    }};
}

fn floats(case: &Case, st: &mut Stats) -> R {
    run_table!(case, st, vec![
        arr!(f64; [f64; 1], [1]),
        arr!(f64; [f64; 2], [2]),
        arr!(f64; [f64; 5], [5]),
        arr!(f64; [f64; 0], [0]),
        arr!(f64; [f64; 4], [4]),
        arr!(f64; [f64; 8], [8]),
        arr!(f64; [f64; 19], [19]),
        arr!(f64; [[f64; 9]; 2], [2, 9]),
        arr!(f64; [[f64; 2]; 8], [8, 2]),
        arr!(f64; [[f64; 5]; 5], [5, 5]),
        arr!(f64; [[[f64; 1]; 4]; 5], [5, 4, 1]),
        arr!(f64; [[f64; 3]; 2], [2, 3]),
        arr!(f64; [[f64; 2]; 3], [3, 2]),
        arr!(f64; [[f64; 1]; 1], [1, 1]),
        arr!(f64; [[f64; 3]; 3], [3, 3]),
        arr!(f64; [[f64; 4]; 1], [1, 4]),
        arr!(f64; [[f64; 0]; 2], [2, 0]),
        arr!(f64; [[[f64; 4]; 3]; 2], [2, 3, 4]),
        arr!(f64; [[[f64; 2]; 2]; 2], [2, 2, 2]),
        arr!(f64; [[[f64; 1]; 3]; 1], [1, 3, 1]),
        arr!(f64; [[[[f64; 2]; 3]; 1]; 2], [2, 1, 3, 2]),
        arr!(f64; [[[[f64; 2]; 2]; 2]; 2], [2, 2, 2, 2]),
        arr!(f64; [[[[[f64; 2]; 1]; 3]; 1]; 2], [2, 1, 3, 1, 2]),
        arr!(f64; [[[[[f64; 2]; 2]; 2]; 2]; 2], [2, 2, 2, 2, 2]),
        ("f64", |t, st| {
            check_map::<f64, f64, f64>(&[], &[], t, st)?;
            check_fold::<f64, f64, f64>(&[], &[], t)
        }),
        ("(f64, f64)", |t, st| {
            check_map::<(f64, f64), (f64, f64), f64>(&[2], &[2], t, st)?;
            check_fold::<(f64, f64), (f64, f64), f64>(&[2], &[2], t)
        }),
    ])
}

/// Extents beyond any plausible block, lane or unrolling count.
fn wide(case: &Case, st: &mut Stats) -> R {
    run_table!(case, st, vec![
        arr!(f64; [f64; 65], [65]),
        arr!(f64; [f64; 130], [130]),
        arr!(f64; [f64; 301], [301]),
        arr!(f64; [f64; 1025], [1025]),
        arr!(f64; [[f64; 70]; 2], [2, 70]),
        arr!(f64; [[f64; 2]; 70], [70, 2]),
        arr!(f64; [[f64; 33]; 34], [34, 33]),
        arr!(f64; [[f64; 1]; 130], [130, 1]),
        arr!(f64; [[[f64; 2]; 2]; 70], [70, 2, 2]),
        arr!(f64; [[[f64; 2]; 70]; 2], [2, 70, 2]),
        arr!(f64; [[[f64; 70]; 1]; 2], [2, 1, 70]),
        arr!(f64; [[[[f64; 2]; 2]; 1]; 40], [40, 1, 2, 2]),
        arr!(f64; [[[[f64; 1]; 40]; 1]; 2], [2, 1, 40, 1]),
        arr!(f64; [[[[[f64; 2]; 1]; 2]; 1]; 20], [20, 1, 2, 1, 2]),
        arr!(f64; [[[[[f64; 20]; 1]; 2]; 2]; 1], [1, 2, 2, 1, 20]),
    ])
}

fn fields(case: &Case, st: &mut Stats) -> R {
    macro_rules! one {
        ($($F:ty),*) => {
            [$(vec![
                arr!($F; [$F; 3], [3]),
                arr!($F; [[$F; 2]; 3], [3, 2]),
                (stringify!($F), |t: &mut Tape, st: &mut Stats| {
                    check_map::<$F, $F, $F>(&[], &[], t, st)?;
                    check_fold::<$F, $F, $F>(&[], &[], t)?;
                    check_map::<($F, $F), ($F, $F), $F>(&[2], &[2], t, st)?;
                    check_fold::<($F, $F), ($F, $F), $F>(&[2], &[2], t)
                }),
            ]),*].concat()
        };
    }
    run_table!(case, st, one!(f32, u8, u32, usize, i8, i64))
}

fn vecs(case: &Case, st: &mut Stats) -> R {
    fn go<F: Fld + Flat<F = F>>(n: usize, m: usize, t: &mut Tape, st: &mut Stats) -> R
    where
        F: ZipMap<Vec<F>>,
        S0: Broadcast<SDynamic<1>>,
        <F as ZipMap<Vec<F>>>::Output<F>: Flat<F = F>,
        <F as ZipMap<Vec<F>>>::Output<i64>: Flat<F = i64>,
    {
        match t.below(4) {
            0 => check_map::<F, Vec<F>, F>(&[], &[n], t, st),
            1 => check_map::<Vec<F>, F, F>(&[n], &[], t, st),
            2 => check_fold::<Vec<F>, Vec<F>, F>(&[n], &[m], t),
            _ => check_map::<Vec<F>, Vec<F>, F>(&[n], &[m], t, st),
        }
    }
    let t = &mut Tape::new(&case.head);
    let n = harness::buf::length(t);
    let m = match t.below(5) { 0 => 0, 1 => t.below(9), 2 => n + 1, _ => n };
    st.eval();
    st.nontrivial(&case.head);
    st.sample(|| json!({"lengths": [n, m], "draws": case.head}));
    match t.below(3) {
        0 => go::<i32>(n, m, t, st),
        1 => go::<f32>(n, m, t, st),
        _ => go::<f64>(n, m, t, st),
    }
}

/// User-defined buffers of run-time shape, of equal or unequal extents: the library's default methods.
fn tensors(case: &Case, st: &mut Stats) -> R {
    use harness::tensor::{Grid, Tensor};
    fn go<F: Fld + Flat<F = F>, const D: usize>(t: &mut Tape, st: &mut Stats) -> R {
        let d: [usize; D] = std::array::from_fn(|_| t.below(5));
        let mut e = d;
        if D > 0 && t.below(4) == 0 {
            e[t.below(D)] = t.below(5);
        }
        check_map::<Tensor<F, D>, Tensor<F, D>, F>(&d, &e, t, st)?;
        check_fold::<Tensor<F, D>, Tensor<F, D>, F>(&d, &e, t)?;
        check_mut::<Tensor<F, D>, Tensor<F, D>, F>(&d, &e, t)
    }
    run_table!(case, st, vec![
        ("rank 0", |t, st| go::<f64, 0>(t, st)),
        ("rank 1", |t, st| go::<f64, 1>(t, st)),
        ("rank 2", |t, st| go::<f64, 2>(t, st)),
        ("rank 3", |t, st| go::<f32, 3>(t, st)),
        ("rank 2 of integers", |t, st| go::<u8, 2>(t, st)),
        ("scalars", |t, st| {
            let d = [t.below(4), t.below(4)];
            check_map::<Tensor<f64, 2>, f64, f64>(&d, &[], t, st)?;
            check_map::<f64, Tensor<f64, 2>, f64>(&[], &d, t, st)
        }),
        ("grid", |t, st| check_map::<Grid<f64, 2, 3>, Grid<f64, 2, 3>, f64>(&[2, 3], &[2, 3], t, st)),
    ])
}

fn main() {
    main_check(Check {
        id: "C13",
        rule: "pairs of buffers of one shape (user-defined run-time shaped ones of equal and unequal extents included), and of a scalar with every array or vector on either side, over arbitrary bit \
               patterns and non-commutative functions; results are compared with the flat pairing, the calls of the function \
               are logged as a multiset, folds are order-sensitive, unequal run-time shapes must report both shapes in order. \
               Non-trivial: every case (each has two operands and a non-commutative function); distinct by type and draws.",
        assumptions: vec!["NaN payloads are not compared", "the order in which zip_map calls its function is left open"],
        subs: vec![
            Sub { name: "floats", quick: 1_000_000, thorough: 40_000_000, head: (4, 70), prog: (0, 0), f: floats },
            Sub { name: "fields", quick: 500_000, thorough: 20_000_000, head: (4, 40), prog: (0, 0), f: fields },
            Sub { name: "wide", quick: 20_000, thorough: 600_000, head: (4, 60), prog: (0, 0), f: wide },
            Sub { name: "vecs", quick: 500_000, thorough: 20_000_000, head: (4, 60), prog: (0, 0), f: vecs },
            Sub { name: "tensors", quick: 200_000, thorough: 8_000_000, head: (8, 140), prog: (0, 0), f: tensors },
        ],
        known: vec![],
    })
}
