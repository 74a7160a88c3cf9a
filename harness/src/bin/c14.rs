//! C14: tensor contraction and outer product match their index definition.
use aegir::buffers::shapes::*;
use aegir::buffers::{contract, contract_shape, contract_spec, Buffer, Contract, Spec};
use aegir::{ops, Function, Node};
use harness::buf::*;
use harness::ix::row_major;
use harness::tape::Tape;
use harness::{main_check, Case, Check, Known, Stats, Sub};
use num_traits::FromPrimitive;
use serde_json::json;

type R = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !$c { return Err(format!($($a)+)); } };
}

fn is_diag(ix: &[usize]) -> bool { ix.windows(2).all(|w| w[0] == w[1]) }

fn at(dims: &[usize], ix: &[usize]) -> usize { dims.iter().zip(ix).fold(0, |a, (d, i)| a * d + i) }

/// The index definition, on flat data.
fn reference<F: Fld>(axes: usize, dx: &[usize], x: &[F], dy: &[usize], y: &[F]) -> (Vec<usize>, Vec<F>) {
    let axes = axes.min(dx.len()).min(dy.len());
    let (ox, sx) = dx.split_at(dx.len() - axes);
    let (sy, oy) = dy.split_at(axes);
    assert_eq!(sx, sy, "harness: contracted extents");
    let dims: Vec<usize> = ox.iter().chain(oy).copied().collect();
    let out = row_major(&dims)
        .iter()
        .map(|ix| {
            let (i, j) = ix.split_at(ox.len());
            row_major(sx).iter().fold(F::zero(), |acc, k| {
                let a: Vec<usize> = i.iter().chain(k).copied().collect();
                let b: Vec<usize> = k.iter().chain(j).copied().collect();
                acc + x[at(dx, &a)] * y[at(dy, &b)]
            })
        })
        .collect();

    (dims, out)
}

/// A node that evaluates to a given structured value.
#[derive(Clone)]
struct Lit<B: Buffer>(Spec<B>);

struct Nothing;

impl AsMut<Nothing> for Nothing {
    fn as_mut(&mut self) -> &mut Nothing { self }
}

impl aegir::Context for Nothing {}
impl<B: Buffer> Node for Lit<B> {}
impl<B: Buffer> Function<Nothing> for Lit<B> {
    type Value = B;
    type Error = aegir::errors::NoError;

    fn evaluate<CR: AsMut<Nothing>>(&self, _: CR) -> Result<B, Self::Error> { Ok(self.0.clone().unwrap()) }

    fn evaluate_spec<CR: AsMut<Nothing>>(&self, _: CR) -> Result<Spec<B>, Self::Error> { Ok(self.0.clone()) }
}

thread_local! {
    static SPECIAL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Operands with infinities and NaN, in pairs where no structural zero (and no factoring out) is involved.
fn special<F: Fld>(t: &mut Tape) -> F {
    match t.below(8) {
        0 => F::one() / F::zero(),
        1 => F::zero() - F::one() / F::zero(),
        2 => F::zero() / F::zero(),
        _ => F::small(t.below(9) as i64 - 4),
    }
}

fn special_operands<X, Y, F>(dx: &[usize], dy: &[usize], t: &mut Tape) -> [(Option<F>, Vec<F>, &'static str); 2]
where
    F: Fld + Flat<F = F>,
{
    let dense = |n: usize, t: &mut Tape| (None, (0..n).map(|_| special(t)).collect::<Vec<F>>(), "dense (special)");
    let full = |n: usize, v: F| (Some(v), vec![v; n], "full (special)");
    let nonzero = |v: F| if v == F::zero() { F::one() } else { v };
    let (n, m) = (volume(dx), volume(dy));
    match t.below(4) {
        // A uniform finite factor, or uniform factors only.
        1 => [full(n, F::small(1 + t.below(4) as i64)), dense(m, t)],
        2 => [dense(n, t), full(m, F::small(1 + t.below(4) as i64))],
        3 if n > 0 && m > 0 => [full(n, nonzero(special(t))), full(m, nonzero(special(t)))],
        _ => [dense(n, t), dense(m, t)],
    }
}

/// Structured operands: dense, uniform, diagonal, and dense data that happens to be structured.
fn operand<B, F>(dims: &[usize], t: &mut Tape) -> (Spec<B>, Vec<F>, &'static str)
where
    F: Fld + Flat<F = F>,
    B: Buffer<Field = F> + Flat<F = F>,
{
    let n = volume(dims);
    let shape = B::of(dims, &vec![F::zero(); n]).shape();
    let mut v = F::small(t.below(9) as i64 - 4);
    match t.below(6) {
        0 => v = F::zero(),
        1 => v = F::one(),
        _ => {},
    }
    let diag: Vec<F> = row_major(dims).iter().map(|ix| if is_diag(ix) { v } else { F::zero() }).collect();
    match t.below(8) {
        0 | 1 => (Spec::Full(shape, v), vec![v; n], "full"),
        2 | 3 => (Spec::Diagonal(shape, v), diag, "diagonal"),
        4 => (Spec::Raw(B::of(dims, &diag)), diag, "dense diagonal"),
        5 => (Spec::Raw(B::of(dims, &vec![v; n])), vec![v; n], "dense uniform"),
        _ => {
            let xs: Vec<F> = small_data(n, t);
            (Spec::Raw(B::of(dims, &xs)), xs, "dense")
        },
    }
}

fn check<const A: usize, X, Y, F>(dx: &[usize], dy: &[usize], t: &mut Tape, st: &mut Stats) -> R
where
    F: Fld + Flat<F = F>,
    X: Contract<Y, A> + Buffer<Field = F> + Flat<F = F> + std::fmt::Debug,
    Y: Buffer<Field = F> + Flat<F = F> + std::fmt::Debug,
    X::Output: Flat<F = F> + std::fmt::Debug,
{
    let (x, y) = if SPECIAL.get() && F::FLOAT {
        let [x, y] = special_operands::<X, Y, F>(dx, dy, t);
        let sx = X::of(dx, &x.1).shape();
        let sy = Y::of(dy, &y.1).shape();
        let px = x.0.map_or_else(|| Spec::Raw(X::of(dx, &x.1)), |v| Spec::Full(sx, v));
        let py = y.0.map_or_else(|| Spec::Raw(Y::of(dy, &y.1)), |v| Spec::Full(sy, v));
        ((px, x.1, x.2), (py, y.1, y.2))
    } else {
        let (mut x, mut y) = (operand::<X, F>(dx, t), operand::<Y, F>(dy, t));
        // Opposite scales: the products are what they were, sums over one operand alone may overflow.
        if F::FLOAT && t.flag() {
            let far = F::top() - 6;
            let p = match t.below(3) {
                0 => far,
                1 => -far,
                _ => t.below(2 * far as usize) as i32 - far,
            };
            let q = (t.below(32) as i32 - 16 - p).clamp(-far - 16, far);
            scale(&mut x, dx, p);
            scale(&mut y, dy, q);
            st.label("opposite scales");
        }
        (x, y)
    };
    judge::<A, X, Y, F>(dx, dy, x, y, st)
}

fn scale<B: Buffer<Field = F> + Flat<F = F>, F: Fld + Flat<F = F>>((spec, data, _): &mut Operand<B, F>, dims: &[usize], e: i32) {
    data.iter_mut().for_each(|v| *v = v.scaled(e));
    match spec {
        Spec::Full(_, v) | Spec::Diagonal(_, v) => *v = v.scaled(e),
        _ => *spec = Spec::Raw(B::of(dims, data)),
    }
}

type Operand<B, F> = (Spec<B>, Vec<F>, &'static str);

fn judge<const A: usize, X, Y, F>(dx: &[usize], dy: &[usize], (px, x, kx): Operand<X, F>, (py, y, ky): Operand<Y, F>, st: &mut Stats) -> R
where
    F: Fld + Flat<F = F>,
    X: Contract<Y, A> + Buffer<Field = F> + Flat<F = F> + std::fmt::Debug,
    Y: Buffer<Field = F> + Flat<F = F> + std::fmt::Debug,
    X::Output: Flat<F = F> + std::fmt::Debug,
{
    let (dims, want) = reference(A, dx, &x, dy, &y);
    // Zero compares equal whatever its sign:
    let norm = |v: Vec<F>| -> Vec<F> { v.into_iter().map(|x| x + F::zero()).collect() };
    let want = norm(want);
    let same = |got: Vec<F>| same_all(&norm(got), &want);
    let (bx, by) = (X::of(dx, &x), Y::of(dy, &y));
    let name = format!("<{}> of {} {:?} and {} {:?}", A, kx, bx, ky, by);
    let text = |s: &dyn std::fmt::Debug| format!("{:?}", s);
    let dense = contract::<A, _, _>(bx.clone(), by.clone()).map_err(|e| format!("contract{} fails: {:?}", name, e))?;
    let shape = text(&dense.shape());
    ensure!(dense.shape().cardinality() == volume(&dims), "contract{} has shape {}, expected {:?}", name, shape, dims);
    ensure!(same(dense.flat()), "contract{} = {:?}, expected {:?}", name, dense, want);

    let spec = contract_spec::<A, _, _>(px.clone(), py.clone()).map_err(|e| format!("contract_spec{} fails: {:?}", name, e))?;
    let s = text(&Shaped::shape(&spec));
    ensure!(s == shape, "contract_spec{} has shape {}, expected {}", name, s, shape);
    let got = spec.unwrap();
    ensure!(same(got.flat()), "contract_spec{} = {:?}, expected {:?}", name, got, want);

    let s = contract_shape::<A, X, Y>(bx.shape(), by.shape()).map_err(|e| format!("contract_shape{} fails: {:?}", name, e))?;
    ensure!(text(&s) == shape, "contract_shape{} = {:?}, expected {}", name, s, shape);

    // The operator:
    let op = ops::Contract::<A, _, _>::new(Lit(px), Lit(py));
    let got = op.evaluate(Nothing).map_err(|e| format!("{:?}", e))?;
    ensure!(same(got.flat()), "evaluating contract{} = {:?}, expected {:?}", name, got, want);
    let got = op.evaluate_spec(Nothing).map_err(|e| format!("{:?}", e))?.unwrap();
    ensure!(same(got.flat()), "evaluating contract{} structurally = {:?}, expected {:?}", name, got, want);
    let s = op.evaluate_shape(Nothing).map_err(|e| format!("{:?}", e))?;
    ensure!(text(&s) == shape, "evaluating the shape of contract{} = {:?}, expected {}", name, s, shape);

    st.label(format!("{} x {}", kx, ky));
    if volume(&dims) > 0 && want.iter().any(|&v| v != F::zero()) {
        st.nontrivial(&(std::any::type_name::<X>(), std::any::type_name::<Y>(), A, kx, ky, x.iter().map(|v| v.bits()).collect::<Vec<_>>(), y.iter().map(|v| v.bits()).collect::<Vec<_>>()));
    }

    Ok(())
}

/// The matrix-vector form, whose result is defined by the implementation for square matrices only
/// (recorded finding); non-square it must at least agree on a structural zero.
fn matvec_zero<const N: usize, const M: usize>(t: &mut Tape) -> R {
    let y: [f64; N] = Flat::of(&[N], &small_data::<f64>(N, t));
    let zero: Spec<[[f64; M]; N]> = Spec::zeroes(S2);
    let py = match t.below(3) {
        0 => Spec::Raw(y),
        1 => Spec::Full(S1, 2.0),
        _ => Spec::Diagonal(S1, 3.0),
    };
    let got = contract_spec::<1, _, _>(zero, py.clone()).map_err(|e| format!("{:?}", e))?;
    ensure!(format!("{:?}", Shaped::shape(&got)) == format!("{:?}", { let s: S1<M> = S1; s }), "shape of a zero {}x{} matrix times a vector", N, M);
    let got = got.unwrap();
    ensure!(got == [0.0; M], "a zero {}x{} matrix times {:?} is {:?}", N, M, py, got);

    Ok(())
}

type Law = fn(&mut Tape, &mut Stats) -> R;

fn outer(case: &Case, st: &mut Stats) -> R {
    macro_rules! vv { ($F:ty; $($n:literal x $m:literal),*) => { vec![$({
        let f: Law = |t, st| check::<0, [$F; $n], [$F; $m], $F>(&[$n], &[$m], t, st);
        (concat!(stringify!($n), " (x) ", stringify!($m)), f)
    }),*] } }
    macro_rules! ss { ($F:ty; $($n:literal x $m:literal),*) => { vec![
        { let f: Law = |t, st| check::<0, $F, $F, $F>(&[], &[], t, st); ("scalar (x) scalar", f) },
        $({ let f: Law = |t, st| check::<0, [$F; $n], $F, $F>(&[$n], &[], t, st); ("vector (x) scalar", f) },
        { let f: Law = |t, st| check::<0, $F, [$F; $n], $F>(&[], &[$n], t, st); ("scalar (x) vector", f) },
        { let f: Law = |t, st| check::<0, [[$F; $m]; $n], $F, $F>(&[$n, $m], &[], t, st); ("matrix (x) scalar", f) },
        { let f: Law = |t, st| check::<0, $F, [[$F; $m]; $n], $F>(&[], &[$n, $m], t, st); ("scalar (x) matrix", f) }),*
    ] } }
    table(case, st, [
        vv!(f64; 1 x 1, 1 x 3, 3 x 1, 2 x 2, 2 x 3, 3 x 2, 4 x 5, 0 x 2, 2 x 0, 7 x 9, 12 x 1, 1 x 8),
        vv!(i64; 1 x 2, 2 x 2, 3 x 4),
        vv!(f32; 3 x 2, 2 x 5),
        ss!(f64; 1 x 1, 2 x 3, 3 x 2, 4 x 4, 1 x 5, 0 x 2, 6 x 8, 9 x 2, 10 x 1),
        ss!(i64; 3 x 2, 2 x 2),
        ss!(f32; 2 x 3),
    ].concat())
}

fn dot(case: &Case, st: &mut Stats) -> R {
    macro_rules! vecs { ($F:ty; $($n:literal),*) => { vec![
        { let f: Law = |t, st| check::<1, $F, $F, $F>(&[], &[], t, st); ("scalar . scalar", f) },
        $({ let f: Law = |t, st| check::<1, [$F; $n], [$F; $n], $F>(&[$n], &[$n], t, st); ("vector . vector", f) }),*
    ] } }
    macro_rules! vm { ($F:ty; $($n:literal x $m:literal),*) => { vec![$({
        let f: Law = |t, st| check::<1, [$F; $n], [[$F; $m]; $n], $F>(&[$n], &[$n, $m], t, st);
        ("vector . matrix", f)
    }),*] } }
    macro_rules! mv { ($F:ty; $($n:literal),*) => { vec![$({
        let f: Law = |t, st| check::<1, [[$F; $n]; $n], [$F; $n], $F>(&[$n, $n], &[$n], t, st);
        ("matrix . vector", f)
    }),*] } }
    macro_rules! mm { ($F:ty; $($n:literal x $k:literal x $m:literal),*) => { vec![$({
        let f: Law = |t, st| check::<1, [[$F; $k]; $n], [[$F; $m]; $k], $F>(&[$n, $k], &[$k, $m], t, st);
        ("matrix . matrix", f)
    }),*] } }
    table(case, st, [
        vecs!(f64; 0, 1, 2, 3, 4, 5, 7, 8, 20, 33),
        vecs!(i64; 1, 4),
        vecs!(f32; 3, 9),
        vm!(f64; 5 x 5, 8 x 3, 3 x 9, 10 x 1, 1 x 1, 1 x 3, 3 x 1, 2 x 2, 2 x 3, 3 x 2, 4 x 4, 2 x 5, 5 x 2, 3 x 0, 0 x 3),
        vm!(i64; 2 x 3, 3 x 2, 3 x 3),
        vm!(f32; 2 x 4),
        mv!(f64; 1, 2, 3, 4, 5, 6, 9),
        mv!(i64; 2, 3),
        mm!(f64; 5 x 5 x 5, 6 x 2 x 5, 2 x 7 x 3, 3 x 5 x 8, 8 x 1 x 8, 1 x 1 x 1, 2 x 2 x 2, 2 x 3 x 2, 3 x 2 x 3, 2 x 3 x 4, 4 x 3 x 2, 1 x 4 x 1, 4 x 1 x 3, 3 x 3 x 2, 2 x 3 x 3, 3 x 3 x 3, 2 x 0 x 3),
        mm!(i64; 2 x 3 x 2, 3 x 3 x 3, 3 x 2 x 2),
        mm!(f32; 2 x 2 x 3),
        vec![
            ("zero matrix . vector", (|t, _| matvec_zero::<2, 3>(t)) as Law),
            ("zero matrix . vector", (|t, _| matvec_zero::<3, 2>(t)) as Law),
            ("zero matrix . vector", (|t, _| matvec_zero::<1, 4>(t)) as Law),
        ],
    ].concat())
}

/// Extents beyond any plausible block, lane or unrolling count.
fn wide(case: &Case, st: &mut Stats) -> R {
    macro_rules! one { ($K:literal; $($A:ty, $a:expr, $B:ty, $b:expr;)*) => { vec![$({
        let f: Law = |t, st| check::<$K, $A, $B, f64>(&$a, &$b, t, st);
        (concat!(stringify!($A), " with ", stringify!($B)), f)
    }),*] } }
    table(case, st, [
        one!(1;
            [f64; 65], [65], [f64; 65], [65];
            [f64; 130], [130], [f64; 130], [130];
            [f64; 301], [301], [f64; 301], [301];
            [f64; 1030], [1030], [f64; 1030], [1030];
            [f64; 70], [70], [[f64; 2]; 70], [70, 2];
            [f64; 2], [2], [[f64; 70]; 2], [2, 70];
            [f64; 40], [40], [[f64; 40]; 40], [40, 40];
            [[f64; 40]; 40], [40, 40], [f64; 40], [40];
            [[f64; 17]; 17], [17, 17], [f64; 17], [17];
            [[f64; 17]; 17], [17, 17], [[f64; 17]; 17], [17, 17];
            [[f64; 33]; 33], [33, 33], [[f64; 33]; 33], [33, 33];
            [[f64; 70]; 2], [2, 70], [[f64; 3]; 70], [70, 3];
            [[f64; 2]; 70], [70, 2], [[f64; 3]; 2], [2, 3];
            [[f64; 3]; 2], [2, 3], [[f64; 70]; 3], [3, 70];
        ),
        one!(0;
            f64, [], [[f64; 33]; 34], [34, 33];
            [[f64; 34]; 33], [33, 34], f64, [];
            f64, [], [f64; 300], [300];
            [f64; 300], [300], f64, [];
            [f64; 70], [70], [f64; 3], [3];
            [f64; 3], [3], [f64; 70], [70];
            [f64; 35], [35], [f64; 36], [36];
        ),
    ].concat())
}

fn outer_special(case: &Case, st: &mut Stats) -> R {
    SPECIAL.set(true);
    let r = harness::runner::panics(|| outer(case, st));
    SPECIAL.set(false);
    r?
}

fn dot_special(case: &Case, st: &mut Stats) -> R {
    SPECIAL.set(true);
    let r = harness::runner::panics(|| dot(case, st));
    SPECIAL.set(false);
    r?
}

/// Uniform operands at any scale: the sum of the products is exact, although the sum over one operand need not be.
fn uniform(case: &Case, st: &mut Stats) -> R {
    macro_rules! vecs { ($F:ty; $($n:literal),*) => { vec![$({
        let f: Law = |t, st| even::<[$F; $n], [$F; $n], $F>(&[$n], &[$n], t, st);
        (concat!("uniform vectors of ", stringify!($F)), f)
    }),*] } }
    macro_rules! mm { ($F:ty; $($n:literal x $k:literal x $m:literal),*) => { vec![$({
        let f: Law = |t, st| even::<[[$F; $k]; $n], [[$F; $m]; $k], $F>(&[$n, $k], &[$k, $m], t, st);
        (concat!("uniform matrices of ", stringify!($F)), f)
    }),*] } }
    table(case, st, [
        vecs!(f64; 0, 1, 2, 3, 6, 40, 130),
        vecs!(f32; 0, 2, 5, 33),
        vecs!(i8; 0, 1, 2, 3, 100, 130, 300),
        vecs!(u8; 1, 2, 7, 256, 257, 300),
        vecs!(i16; 2, 300),
        vecs!(i64; 2, 5),
        mm!(f64; 2 x 3 x 2, 3 x 2 x 3, 1 x 1 x 1, 2 x 0 x 3, 2 x 40 x 3, 5 x 5 x 5),
        mm!(f32; 2 x 2 x 2, 3 x 7 x 2),
        mm!(i8; 2 x 3 x 2, 2 x 130 x 1, 1 x 300 x 2, 2 x 2 x 2),
        mm!(u8; 2 x 2 x 3, 1 x 256 x 2, 2 x 300 x 1),
        mm!(i32; 2 x 3 x 4),
    ].concat())
}

fn even<X, Y, F>(dx: &[usize], dy: &[usize], t: &mut Tape, st: &mut Stats) -> R
where
    F: Fld + Flat<F = F>,
    X: Contract<Y, 1> + Buffer<Field = F> + Flat<F = F> + std::fmt::Debug,
    Y: Buffer<Field = F> + Flat<F = F> + std::fmt::Debug,
    X::Output: Flat<F = F> + std::fmt::Debug,
{
    let (x, y) = F::factors(dy[0], t);
    let (xs, ys) = (vec![x; volume(dx)], vec![y; volume(dy)]);
    let (sx, sy) = (X::of(dx, &xs).shape(), Y::of(dy, &ys).shape());
    judge::<1, X, Y, F>(dx, dy, (Spec::Full(sx, x), xs, "full (any scale)"), (Spec::Full(sy, y), ys, "full (any scale)"), st)
}

fn table(case: &Case, st: &mut Stats, table: Vec<(&'static str, Law)>) -> R {
    let t = &mut Tape::new(&case.head);
    let k = t.below(table.len());
    st.eval();
    st.label(table[k].0);
    st.sample(|| json!({"operands": table[k].0, "number": k, "draws": case.head}));
    table[k].1(t, st)
}

/// The one-axis contraction of a non-square matrix with a vector is declared over its first axis but
/// computed over its last one.
fn probe_r2_r1() -> Option<String> {
    let wide = harness::runner::panics(|| contract::<1, _, _>([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]], [1.0, 1.0]).unwrap());
    let square = contract::<1, _, _>([[1.0, 2.0], [3.0, 4.0]], [1.0, 0.0]).unwrap();
    let transposed = wide == Ok([5.0, 7.0, 9.0]) && square == [1.0, 2.0];

    // A.v over the last axis cannot be written for [[F; M]; N] with [F; N]; either reading must be
    // applied to square and non-square matrices alike.
    if transposed {
        None
    } else {
        Some(format!("[[1, 2, 3], [4, 5, 6]] . [1, 1] gives {:?}", wide))
    }
}

fn main() {
    let _ = <f64 as FromPrimitive>::from_usize(1);
    main_check(Check {
        id: "C14",
        rule: "every pair of operand ranks and extents that the contraction supports (including extents 0 and 1 and \
               non-square), each operand drawn as dense, uniform, diagonal or dense-but-structured with small integer \
               entries (exact arithmetic); the dense, structured and shape results and the operator's three evaluations are \
               compared with nested loops over the index definition. Non-trivial: a non-empty result with a non-zero entry; \
               distinct by types, structure and data.",
        assumptions: vec![
            "infinities and NaN only where neither operand is structured with zeroes, nor an infinite uniform factor meets dense \
             data (a structural zero may annihilate an infinity, a common factor may be taken out)",
            "the matrix-vector form is compared for square matrices only (recorded finding r2-r1)",
        ],
        subs: vec![
            Sub { name: "outer", quick: 600_000, thorough: 20_000_000, head: (4, 100), prog: (0, 0), f: outer },
            Sub { name: "dot", quick: 600_000, thorough: 20_000_000, head: (4, 100), prog: (0, 0), f: dot },
            Sub { name: "uniform", quick: 100_000, thorough: 4_000_000, head: (4, 12), prog: (0, 0), f: uniform },
            Sub { name: "wide", quick: 5_000, thorough: 300_000, head: (4, 60), prog: (0, 0), f: wide },
            Sub { name: "outer-special", quick: 200_000, thorough: 8_000_000, head: (4, 80), prog: (0, 0), f: outer_special },
            Sub { name: "dot-special", quick: 200_000, thorough: 8_000_000, head: (4, 120), prog: (0, 0), f: dot_special },
        ],
        known: vec![Known { key: "r2-r1", probe: probe_r2_r1 }],
    })
}
