//! C04: evaluating an expression computes its mathematical function.
use expr::ast::*;
use expr::check::*;
use expr::num::Ball;
use harness::tape::Tape;
use harness::{main_check, Case, Check, Stats, Sub};
use serde_json::json;

type R = Result<(), String>;

fn run(case: &Case, st: &mut Stats, only: &[Kind], max: usize) -> R {
    let t = &mut Tape::new(&case.head);
    let mut g = Gen::new(Family::P, max, 1e4);
    if !only.is_empty() {
        g.kinds = only.to_vec();
    }
    g.pool(t, 2, 1);
    let ast = generate(&mut g, &case.prog, |k| only.len() < 2 || k != Kind::S);
    let want = eval(&ast, &mut g.vars.env::<Ball>()).map_err(|e| format!("harness: {:?}", e))?;

    st.eval();
    st.sample(|| json!({"expression": show(&ast), "variables": g.vars.show(), "value": want.xs.iter().map(|b| b.v).collect::<Vec<_>>()}));
    let what = || format!("{} for {}", show(&ast), g.vars.show());
    let judged = agree(st, famp::face(&ast).ev(&mut g.vars.ctx()), &want.dims, &want.xs, &what)?;

    describe(st, &ast);
    if judged > 0 && ast.size >= 4 && want.xs.iter().any(|w| w.v != 0.0) {
        st.nontrivial(&(show(&ast), g.vars.show()));
    }
    Ok(())
}

// ------------------------------------------------------------------ arrays of other extents and ranks

mod large {
    use super::R;
    use aegir::buffers::shapes::{Shape, Shaped};
    use aegir::buffers::Buffer;
    use harness::ix::{row_major, IxVec};
    use aegir::ops::{self, trig};
    use aegir::ids::{P, Q, W};
    use aegir::{Context, Function, Identifier, Node, Read};
    use harness::buf::{volume, Flat};
    use harness::tape::Tape;
    use harness::{Case, Stats};
    use serde_json::json;


    pub struct C<A, B> {
        pub a: A,
        pub b: B,
        pub s: f64,
    }
    impl<A, B> AsMut<C<A, B>> for C<A, B> {
        fn as_mut(&mut self) -> &mut Self { self }
    }
    impl<A, B> Context for C<A, B> {}
    impl<A: Buffer<Field = f64>, B> Read<P> for C<A, B> {
        type Buffer = A;
        fn read(&self, _: P) -> Option<A> { Some(self.a.clone()) }
    }
    impl<A, B: Buffer<Field = f64>> Read<Q> for C<A, B> {
        type Buffer = B;
        fn read(&self, _: Q) -> Option<B> { Some(self.b.clone()) }
    }
    impl<A, B> Read<W> for C<A, B> {
        type Buffer = f64;
        fn read(&self, _: W) -> Option<f64> { Some(self.s) }
    }

    fn ints(n: usize, t: &mut Tape) -> Vec<f64> { (0..n).map(|i| if i < 60 { t.int() } else { ((i * 7 + i / 11) % 9) as f64 - 4.0 }).collect() }

    macro_rules! judge {
        ($st:ident, $name:expr, $e:expr, $c:expr, $want:expr, $dims:expr, $show:expr) => {{
            let got = $e.evaluate(&mut $c).map_err(|e| format!("{} fails with {:?} for {}", $name, e, $show))?;
            let indices: Vec<Vec<usize>> = got.shape().indices().map(|i| i.to_vec()).collect();
            let dims: &[usize] = $dims;
            let (got, want): (Vec<f64>, Vec<f64>) = (got.flat(), $want);
            let ok = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a == b || (b.is_finite() && (a - b).abs() <= 1e-12 * (1.0 + b.abs())) || (a.is_nan() && b.is_nan()));
            if !ok {
                return Err(format!("{} is {:?} instead of {:?} for {}", $name, got, want, $show));
            }
            if indices != row_major(dims) {
                return Err(format!("{} has the indices {:?} instead of those of {:?} for {}", $name, indices, dims, $show));
            }
            $st.eval();
        }};
    }

    /// Two buffers of one type and a scalar.
    macro_rules! elementwise {
        ($A:ty, $dims:expr, $t:ident, $st:ident) => {{
            let dims: &[usize] = &$dims;
            let n = volume(dims);
            let (x, y, s) = (ints(n, $t), ints(n, $t), $t.int());
            let mut c = C { a: <$A>::of(dims, &x), b: <$A>::of(dims, &y), s };
            let show = format!("p = {:?}, q = {:?}, w = {:?} of {}", x, y, s, stringify!($A));
            let (p, q, w) = (|| P.into_var(), || Q.into_var(), || W.into_var());
            let zip = |f: &dyn Fn(f64, f64) -> f64| x.iter().zip(&y).map(|(a, b)| f(*a, *b)).collect::<Vec<f64>>();
            let map = |f: &dyn Fn(f64) -> f64| x.iter().map(|a| f(*a)).collect::<Vec<f64>>();
            match $t.below(12) {
                0 => judge!($st, "the sum of p", p().sum(), c, vec![x.iter().sum()], &[], show),
                1 => judge!($st, "p + q", p().add(q()), c, zip(&|a, b| a + b), dims, show),
                2 => judge!($st, "p - q", p().sub(q()), c, zip(&|a, b| a - b), dims, show),
                3 => judge!($st, "p * q", p().mul(q()), c, zip(&|a, b| a * b), dims, show),
                4 => judge!($st, "p / q", p().div(q()), c, zip(&|a, b| a / b), dims, show),
                5 => judge!($st, "w - p", w().sub(p()), c, map(&|a| s - a), dims, show),
                6 => judge!($st, "p / w", p().div(w()), c, map(&|a| a / s), dims, show),
                7 => judge!($st, "w / p", w().div(p()), c, map(&|a| s / a), dims, show),
                8 => judge!($st, "the sum of (p - q) * p", p().sub(q()).mul(p()).sum(), c, vec![zip(&|a, b| (a - b) * a).iter().sum()], &[], show),
                9 => judge!($st, "p² - w * q", p().squared().sub(w().mul(q())), c, zip(&|a, b| a * a - s * b), dims, show),
                10 => judge!($st, "cos (p + w)", trig::Cos(p().add(w())), c, map(&|a| (a + s).cos()), dims, show),
                _ => judge!($st, "w * sum p + q", w().mul(p().sum()).add(q()), c, { let z: f64 = x.iter().sum(); y.iter().map(|b| s * z + b).collect() }, dims, show),
            }
            $st.label(stringify!($A));
            if n > 1 {
                $st.nontrivial(&(stringify!($A), &x.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), &y.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), s.to_bits()));
            }
            $st.sample(|| json!({"operands": show}));
            Ok(())
        }};
    }

    /// Contraction over K axes.
    macro_rules! product {
        ($K:literal, $A:ty, $da:expr, $B:ty, $db:expr, $t:ident, $st:ident) => {{
            let (da, db): (Vec<usize>, Vec<usize>) = ($da.to_vec(), $db.to_vec());
            let (x, y) = (ints(volume(&da), $t), ints(volume(&db), $t));
            let mut c = C { a: <$A>::of(&da, &x), b: <$B>::of(&db, &y), s: 0.0 };
            let show = format!("p = {:?} of {} and q = {:?} of {}", x, stringify!($A), y, stringify!($B));
            let k: usize = db[..$K].iter().product();
            let (n, m) = (x.len() / k, y.len() / k);
            let mut want = vec![0.0; n * m];
            for i in 0..n {
                for j in 0..m {
                    want[i * m + j] = (0..k).map(|l| x[i * k + l] * y[l * m + j]).sum();
                }
            }
            let dims: Vec<usize> = da[..da.len() - $K].iter().chain(&db[$K..]).copied().collect();
            judge!($st, format!("the contraction of p and q over {}", $K), ops::Contract::<$K, _, _>(P.into_var(), Q.into_var()), c, want, &dims, show);
            $st.label(format!("{} with {} over {}", stringify!($A), stringify!($B), $K));
            $st.nontrivial(&show);
            $st.sample(|| json!({"operands": show}));
            Ok(())
        }};
    }

    /// Infinities, zeroes of both signs, and magnitudes whose products and quotients leave the range.
    fn limit(t: &mut Tape) -> f64 {
        match t.below(5) {
            0 => t.int(),
            1 => t.val(),
            _ => t.pick(&[f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -1.0, 1e200, -1e200, 1e-200, -1e-200, f64::MAX, f64::MIN]),
        }
    }

    /// Single operators at the ends of the range, where their value is defined as a limit.
    macro_rules! limits {
        ($A:ty, $dims:expr, $t:ident, $st:ident) => {{
            let dims: &[usize] = &$dims;
            let n = volume(dims);
            let (x, y, s): (Vec<f64>, Vec<f64>, f64) = ((0..n).map(|_| limit($t)).collect(), (0..n).map(|_| limit($t)).collect(), limit($t));
            let mut c = C { a: <$A>::of(dims, &x), b: <$A>::of(dims, &y), s };
            let show = format!("p = {:?}, q = {:?}, w = {:?} of {}", x, y, s, stringify!($A));
            let (p, q, w) = (|| P.into_var(), || Q.into_var(), || W.into_var());
            macro_rules! one { ($name:literal, $e:expr, $want:expr) => {{
                let want: Vec<f64> = $want;
                let got = $e.evaluate(&mut c).map_err(|e| format!("{} fails with {:?} for {}", $name, e, show))?.flat();
                // Where the limit depends on the path, any value will do.
                let ok = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| b.is_nan() || a == b || (b.is_finite() && (a - b).abs() <= 1e-12 * b.abs()));
                if !ok {
                    return Err(format!("{} is {:?} instead of {:?} for {}", $name, got, want, show));
                }
                $st.eval();
            }} }
            let zip = |f: &dyn Fn(f64, f64) -> f64| x.iter().zip(&y).map(|(a, b)| f(*a, *b)).collect::<Vec<f64>>();
            let map = |f: &dyn Fn(f64) -> f64| x.iter().map(|a| f(*a)).collect::<Vec<f64>>();
            match $t.below(19) {
                0 => one!("p + q", p().add(q()), zip(&|a, b| a + b)),
                1 => one!("p - q", p().sub(q()), zip(&|a, b| a - b)),
                2 => one!("p * q", p().mul(q()), zip(&|a, b| a * b)),
                3 => one!("p / q", p().div(q()), zip(&|a, b| if b == 0.0 { f64::NAN } else { a / b })),
                4 => one!("w - p", w().sub(p()), map(&|a| s - a)),
                5 => one!("p + w", p().add(w()), map(&|a| a + s)),
                6 => one!("w * p", w().mul(p()), map(&|a| s * a)),
                7 => one!("p / w", p().div(w()), map(&|a| if s == 0.0 { f64::NAN } else { a / s })),
                8 => one!("w / p", w().div(p()), map(&|a| if a == 0.0 { f64::NAN } else { s / a })),
                9 => one!("-p", ops::Negate(p()), map(&|a| -a)),
                10 => one!("2 p", ops::Double(p()), map(&|a| a + a)),
                11 => one!("p²", p().squared(), map(&|a| a * a)),
                12 => one!("p + 1", ops::AddOne(p()), map(&|a| a + 1.0)),
                13 => one!("p - 1", ops::SubOne(p()), map(&|a| a - 1.0)),
                14 => one!("1 - p", ops::OneSub(p()), map(&|a| 1.0 - a)),
                15 => one!("the sum of p", p().sum(), vec![x.iter().fold(0.0, |a, b| if b.abs() == f64::MAX { f64::NAN } else { a + b }) + 0.0].into_iter().map(|v: f64| if v.is_finite() { f64::NAN } else { v }).collect()),
                16 => one!("exp p", ops::Exp(p()), map(&|a| a.exp())),
                17 => one!("|p|", p().abs(), map(&|a| a.abs())),
                _ => one!("ln p", ops::Ln(p()), map(&|a| if a < 0.0 { f64::NAN } else { a.ln() })),
            }
            if x.iter().any(|v| v.is_infinite()) || s.is_infinite() {
                $st.nontrivial(&("limits", &show));
            }
            $st.label(stringify!($A));
            $st.sample(|| json!({"operands": show}));
            Ok(())
        }};
    }

    macro_rules! table {
        ($t:ident, $st:ident; $($e:expr;)*) => {{
            let fs: Vec<fn(&mut Tape, &mut Stats) -> R> = vec![$(|$t, $st| $e),*];
            let k = $t.below(fs.len());
            fs[k]($t, $st)
        }};
    }

    pub fn limits(case: &Case, st: &mut Stats) -> R {
        let t = &mut Tape::new(&case.head);
        table! { t, st;
            limits!(f64, [0usize; 0], t, st);
            limits!([f64; 1], [1], t, st);
            limits!([f64; 5], [5], t, st);
            limits!([[f64; 2]; 3], [3, 2], t, st);
            limits!(Vec<f64>, [t.below(6)], t, st);
        }
    }

    pub fn run(case: &Case, st: &mut Stats) -> R {
        let t = &mut Tape::new(&case.head);
        table! { t, st;
            elementwise!([f64; 1], [1], t, st);
            elementwise!([f64; 4], [4], t, st);
            elementwise!([f64; 5], [5], t, st);
            elementwise!([f64; 8], [8], t, st);
            elementwise!([f64; 17], [17], t, st);
            elementwise!([f64; 33], [33], t, st);
            elementwise!([f64; 70], [70], t, st);
            elementwise!([f64; 301], [301], t, st);
            elementwise!([[f64; 2]; 70], [70, 2], t, st);
            elementwise!([[f64; 70]; 2], [2, 70], t, st);
            elementwise!([[f64; 1]; 6], [6, 1], t, st);
            elementwise!([[f64; 7]; 5], [5, 7], t, st);
            elementwise!([[f64; 9]; 2], [2, 9], t, st);
            elementwise!([[f64; 4]; 9], [9, 4], t, st);
            elementwise!([[[f64; 2]; 5]; 3], [3, 5, 2], t, st);
            elementwise!([[[f64; 6]; 1]; 5], [5, 1, 6], t, st);
            elementwise!([[[[f64; 3]; 2]; 2]; 5], [5, 2, 2, 3], t, st);
            elementwise!([[[[[f64; 2]; 3]; 1]; 2]; 2], [2, 2, 1, 3, 2], t, st);
            elementwise!(Vec<f64>, [[0usize, 1, 5, 9, 20, 64, 130, 300, 1030][t.below(9)]], t, st);
            product!(1, [f64; 7], [7], [f64; 7], [7], t, st);
            product!(1, [f64; 20], [20], [f64; 20], [20], t, st);
            product!(1, [f64; 301], [301], [f64; 301], [301], t, st);
            product!(1, [[f64; 70]; 2], [2, 70], [[f64; 3]; 70], [70, 3], t, st);
            product!(1, [[f64; 33]; 33], [33, 33], [[f64; 3]; 33], [33, 3], t, st);
            product!(0, [f64; 70], [70], [f64; 3], [3], t, st);
            product!(0, [f64; 3], [3], [f64; 70], [70], t, st);
            product!(1, [[f64; 5]; 5], [5, 5], [f64; 5], [5], t, st);
            product!(1, [f64; 5], [5], [[f64; 7]; 5], [5, 7], t, st);
            product!(1, [f64; 8], [8], [[f64; 2]; 8], [8, 2], t, st);
            product!(1, [[f64; 6]; 4], [4, 6], [[f64; 5]; 6], [6, 5], t, st);
            product!(1, [[f64; 1]; 5], [5, 1], [[f64; 7]; 1], [1, 7], t, st);
            product!(1, [[f64; 9]; 9], [9, 9], [[f64; 9]; 9], [9, 9], t, st);
            product!(0, [f64; 5], [5], [f64; 6], [6], t, st);
            product!(0, [f64; 9], [9], [f64; 1], [1], t, st);
        }
    }
}

use Kind::*;
fn any(case: &Case, st: &mut Stats) -> R { run(case, st, &[], 120) }
fn scalar(case: &Case, st: &mut Stats) -> R { run(case, st, &[S], 200) }
fn dynamic(case: &Case, st: &mut Stats) -> R { run(case, st, &[S, D], 100) }
fn pair(case: &Case, st: &mut Stats) -> R { run(case, st, &[S, T], 100) }
fn square(case: &Case, st: &mut Stats) -> R { run(case, st, &[S, V3, M33], 100) }
fn matrix(case: &Case, st: &mut Stats) -> R { run(case, st, &[S, V2, V3, M23, M32], 100) }

fn fields(case: &Case, st: &mut Stats) -> R { fama::fields(case, st, fama::What::Value) }
fn tensors(case: &Case, st: &mut Stats) -> R { fama::tensors(case, st, fama::What::Value) }

fn main() {
    main_check(Check {
        id: "C04",
        rule: "random expression trees over all operators and value types (scalars, pairs, vectors, matrices, dynamic vectors), \
               built through constructors or builder methods from variables and constants given dense, uniform or diagonal; the \
               library's value is compared entry by entry with an independent reference evaluation that carries a rounding-error \
               bound; further sub-checks over larger extents and ranks, integers and single precision, and user-defined buffers of \
               run-time shape use exact integer arithmetic, and limits applies single operators to infinities and to magnitudes near the ends
               of the range. Non-trivial: at least four nodes, a well-conditioned entry and a non-zero entry; distinct by expression \
               and data.",
        assumptions: vec![
            "operands are kept inside each operator's real domain and magnitudes below 1e4 (extremes of single operators: C19)",
            "double precision; entries whose reference error bound exceeds 1e-5 are not judged (counted)",
        ],
        subs: vec![
            Sub { name: "any", quick: 200_000, thorough: 6_000_000, head: (90, 140), prog: (1, 14), f: any },
            Sub { name: "scalar", quick: 100_000, thorough: 3_000_000, head: (20, 40), prog: (2, 24), f: scalar },
            Sub { name: "dynamic", quick: 60_000, thorough: 2_000_000, head: (30, 60), prog: (2, 16), f: dynamic },
            Sub { name: "pair", quick: 40_000, thorough: 1_000_000, head: (30, 60), prog: (2, 16), f: pair },
            Sub { name: "square", quick: 60_000, thorough: 2_000_000, head: (60, 90), prog: (2, 16), f: square },
            Sub { name: "matrix", quick: 60_000, thorough: 2_000_000, head: (60, 140), prog: (2, 16), f: matrix },
            Sub { name: "large", quick: 200_000, thorough: 6_000_000, head: (4, 180), prog: (0, 0), f: large::run },
            Sub { name: "limits", quick: 200_000, thorough: 6_000_000, head: (4, 60), prog: (0, 0), f: large::limits },
            Sub { name: "fields", quick: 150_000, thorough: 5_000_000, head: (4, 100), prog: (1, 14), f: fields },
            Sub { name: "tensors", quick: 100_000, thorough: 3_000_000, head: (4, 140), prog: (1, 14), f: tensors },
        ],
        known: vec![],
    })
}
