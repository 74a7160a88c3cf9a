//! C12: buffer construction, access and transformation follow the element-wise laws.
use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, Class, IntoSpec, Spec};
use harness::buf::*;
use harness::ix::{row_major, IxVec};
use harness::tape::Tape;
use harness::tensor::{Grid, Tensor};
use harness::{main_check, Case, Check, Stats, Sub};
use serde_json::json;
use std::cell::{Cell, RefCell};

type R = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !$c { return Err(format!($($a)+)); } };
}

fn is_diag(ix: &[usize]) -> bool { ix.windows(2).all(|w| w[0] == w[1]) }

/// Every law on one buffer type; `s` is the shape with dimensions `dims`.
fn laws<B, F, S>(s: S, dims: &[usize], prog: &[[u16; 6]], t: &mut Tape, st: &mut Stats) -> R
where
    F: Fld + Flat<F = F>,
    S: Shape + PartialEq,
    S::Index: IxVec,
    B: Buffer<Field = F, Shape = S> + Flat<F = F> + std::fmt::Debug + PartialEq,
    B::Class: Class<S, Buffer<F> = B>,
    <B::Class as Class<S>>::Buffer<i64>: Flat<F = i64> + Buffer<Field = i64>,
{
    let ixs = row_major(dims);
    let n = ixs.len();
    let pos = |ix: &[usize]| {
        let inside = ix.len() == dims.len() && ix.iter().zip(dims).all(|(i, d)| i < d);
        inside.then(|| ix.iter().zip(dims).fold(0, |p, (i, d)| p * d + i))
    };
    let xs: Vec<F> = data(n, t);
    let name = std::any::type_name::<B>();

    // Construction:
    let b = <B::Class as Class<S>>::build(s, |ix: S::Index| xs[pos(&ix.to_vec()).expect("an index outside the shape")]);
    ensure!(same_all(&b.flat(), &xs), "build of {} {:?} gives {:?}, expected {:?}", name, dims, b.flat(), xs);
    let b = B::of(dims, &xs);
    ensure!(b.shape() == s, "shape of a {} is {:?}, expected {:?}", name, b.shape(), s);

    let v = F::any(t);
    let full = <B::Class as Class<S>>::full(s, v);
    ensure!(same_all(&full.flat(), &vec![v; n]), "full({:?}) of {} {:?} gives {:?}", v, name, dims, full.flat());
    let zeroes = <B::Class as Class<S>>::zeroes::<F>(s);
    ensure!(same_all(&zeroes.flat(), &vec![F::zero(); n]), "zeroes of {} {:?} gives {:?}", name, dims, zeroes.flat());
    let ones = <B::Class as Class<S>>::ones::<F>(s);
    ensure!(same_all(&ones.flat(), &vec![F::one(); n]), "ones of {} {:?} gives {:?}", name, dims, ones.flat());
    for (what, d, x) in [
        ("diagonal", <B::Class as Class<S>>::diagonal(s, v), v),
        ("identity", <B::Class as Class<S>>::identity::<F>(s), F::one()),
    ] {
        let want: Vec<F> = ixs.iter().map(|ix| if is_diag(ix) { x } else { F::zero() }).collect();
        ensure!(same_all(&d.flat(), &want), "{}({:?}) of {} {:?} gives {:?}", what, x, name, dims, d.flat());
    }

    // Subsets, in any order and with repetitions:
    if n > 0 {
        let len = t.below(2 * n + 2);
        let subset: Vec<usize> = (0..len).map(|_| t.below(n)).collect();
        let mut want = vec![v; n];
        for &i in &subset {
            want[i] = xs[i];
        }
        let it = subset.iter().map(|&i| S::Index::of(&ixs[i]));
        let sub = <B::Class as Class<S>>::build_subset(s, v, it, |ix| xs[pos(&ix.to_vec()).unwrap()]);
        ensure!(same_all(&sub.flat(), &want), "build_subset of {} {:?} over {:?} gives {:?}, expected {:?}", name, dims, subset, sub.flat(), want);
    }

    // Access:
    for (i, ix) in ixs.iter().enumerate() {
        let got = b.get(S::Index::of(ix));
        ensure!(got.map(|g| same(g, xs[i])).unwrap_or(false), "get({:?}) of {:?} is {:?}", ix, b, got);
        ensure!(same(b.get_unchecked(S::Index::of(ix)), xs[i]), "get_unchecked({:?}) of {:?}", ix, b);
    }
    if !dims.is_empty() {
        for _ in 0..4 {
            let mut ix: Vec<usize> = dims.iter().map(|&d| t.below(d.max(1))).collect();
            let p = t.below(dims.len());
            ix[p] = match t.below(6) {
                0 => usize::MAX,
                4 | 5 => Some((1 << [8, 16, 31, 32, 48, 63][t.below(6)]) + ix[p]).filter(|i| *i >= dims[p]).unwrap_or(dims[p]),
                1 => dims[p] + 1,
                2 => dims[p] + t.below(1000),
                _ => dims[p],
            };
            let got = b.get(S::Index::of(&ix));
            ensure!(got.is_none(), "get({:?}) of a {} with dimensions {:?} is {:?}", ix, name, dims, got);
        }
    }

    // Lifting:
    let lifted = b.clone().into_spec();
    ensure!(lifted.shape() == s, "shape of the spec of {:?} is {:?}", b, lifted.shape());
    let back = lifted.into_spec().unwrap();
    ensure!(same_all(&back.flat(), &xs), "lifting and unwrapping {:?} gives {:?}", b, back);
    let dg: Vec<F> = ixs.iter().map(|ix| if is_diag(ix) { v } else { F::zero() }).collect();
    let eye: Vec<F> = ixs.iter().map(|ix| if is_diag(ix) { F::one() } else { F::zero() }).collect();
    for (what, spec, want) in [
        ("Full", Spec::<B>::Full(s, v), vec![v; n]),
        ("Diagonal", Spec::Diagonal(s, v), dg),
        ("zeroes", Spec::zeroes(s), vec![F::zero(); n]),
        ("ones", Spec::ones(s), vec![F::one(); n]),
        ("eye", Spec::eye(s), eye),
        ("Raw", Spec::from(b.clone()), xs.clone()),
    ] {
        ensure!(spec.shape() == s, "shape of {} {:?} is {:?}", what, dims, spec.shape());
        let k = t.below(6);
        // Mapping a spec maps every entry of its dense form:
        let m = spec.clone().map(|x| F::into_i64(k, x)).unwrap().flat();
        let w: Vec<i64> = want.iter().map(|&x| F::into_i64(k, x)).collect();
        ensure!(m == w, "mapping Spec::{} of {} {:?} gives {:?}, expected {:?}", what, name, dims, m, w);
        let d = spec.unwrap();
        ensure!(same_all(&d.flat(), &want), "Spec::{} of {} {:?} unwraps to {:?}", what, name, dims, d.flat());
    }

    // A history of transformations against the flat model:
    let mut cur = b;
    let mut model = xs;
    for ins in prog {
        let k = ins[1] as usize;
        let seen: RefCell<Vec<F>> = RefCell::new(vec![]);
        let before = model.clone();
        let mut ordered = true;
        let op = match ins[0] % 8 {
            0 => {
                model.iter_mut().for_each(|x| *x = F::fun(k, *x));
                cur = cur.map(|x| { seen.borrow_mut().push(x); F::fun(k, x) });
                "map"
            },
            1 => {
                let held = cur.clone();
                let next = cur.map_ref(|x| { seen.borrow_mut().push(x); F::fun(k, x) });
                ensure!(same_all(&cur.flat(), &held.flat()), "map_ref changed its operand {:?} to {:?}", held, cur);
                model.iter_mut().for_each(|x| *x = F::fun(k, *x));
                cur = next;
                "map_ref"
            },
            2 => {
                model.iter_mut().for_each(|x| *x = F::fun(k, *x));
                cur.mutate(|x| { seen.borrow_mut().push(x); F::fun(k, x) });
                "mutate"
            },
            3 => {
                // A fold that depends on order and multiplicity:
                let h = |acc: u64, x: F| (acc ^ x.bits()).wrapping_mul(0x100000001b3).rotate_left(7);
                let norm = |x: F| if F::FLOAT && x != x { F::zero() } else { x };
                let got = cur.fold(k as u64, |acc, x| { seen.borrow_mut().push(x); h(acc, norm(x)) });
                let want = model.iter().fold(k as u64, |acc, &x| h(acc, norm(x)));
                ensure!(got == want, "folding {:?} visits {:?}", cur, seen.borrow());
                "fold"
            },
            4 => {
                // A transformation into another field:
                let got = cur.clone().map(|x| { seen.borrow_mut().push(x); F::into_i64(k, x) });
                let want: Vec<i64> = model.iter().map(|&x| F::into_i64(k, x)).collect();
                let got_ref = cur.map_ref(|x| F::into_i64(k, x));
                ensure!(got.flat() == want, "mapping {:?} to i64 gives {:?}, expected {:?}", cur, got.flat(), want);
                ensure!(got_ref.flat() == want, "map_ref of {:?} to i64 gives {:?}, expected {:?}", cur, got_ref.flat(), want);
                "map to i64"
            },
            5 => {
                let c = cur.clone();
                let count = Cell::new(0usize);
                cur.mutate(|x| { count.set(count.get() + 1); F::fun(k, x) });
                ensure!(count.get() == n, "mutate of {:?} calls its function {} times", c, count.get());
                ensure!(same_all(&c.flat(), &model), "a copy of {:?} changed with the original", c);
                model.iter_mut().for_each(|x| *x = F::fun(k, *x));
                ordered = false;
                "mutate a copied buffer"
            },
            6 => {
                // Overwrite some entries with build_subset:
                let keep = cur.clone();
                let m: Vec<usize> = (0..n).filter(|i| (k >> (i % 16)) & 1 == 1).collect();
                cur = <B::Class as Class<S>>::build_subset(
                    s,
                    F::small(k as i64),
                    m.iter().map(|&i| S::Index::of(&ixs[i])),
                    |ix| keep.get_unchecked(ix),
                );
                for i in 0..n {
                    if !m.contains(&i) {
                        model[i] = F::small(k as i64);
                    }
                }
                ordered = false;
                "build_subset"
            },
            _ => {
                let small: Vec<F> = (0..n).map(|i| F::small(((k >> (i % 12)) & 3) as i64)).collect();
                if n < 60 {
                    let want = small.iter().fold(F::zero(), |a, &x| a + x);
                    let b = B::of(dims, &small);
                    ensure!(same(b.sum() + F::zero(), want + F::zero()), "sum of {:?} is {:?}, expected {:?}", b, b.sum(), want);
                }
                ordered = false;
                "sum"
            },
        };
        ensure!(cur.shape() == s, "{} changes the shape {:?} of {:?}", op, s, cur);
        ensure!(same_all(&cur.flat(), &model), "{} (function {}) of {:?} gives {:?}, expected {:?}", op, k, before, cur.flat(), model);
        if ordered {
            let seen = seen.into_inner();
            ensure!(same_all(&seen, &before), "{} of {:?} visits {:?}", op, before, seen);
        }
        st.label(op);
    }

    // Sums of floats, against the exact range:
    if F::FLOAT && n > 0 {
        let small: Vec<F> = small_data(n, t);
        let want = small.iter().fold(F::zero(), |a, &x| a + x);
        let b = B::of(dims, &small);
        ensure!(same(b.sum() + F::zero(), want + F::zero()), "sum of {:?} is {:?}, expected {:?}", b, b.sum(), want);
        let k = b.clone().into_constant();
        ensure!(same_all(&k.0.flat(), &small), "into_constant of {:?} holds {:?}", b, k.0);
    }

    Ok(())
}

type Law = fn(&[[u16; 6]], &mut Tape, &mut Stats) -> R;

macro_rules! entry {
    ($F:ty; $s:expr, $S:ty, $B:ty, [$($d:expr),*]) => {{
        let f: Law = |prog, t, st| laws::<$B, $F, $S>($s, &[$($d),*], prog, t, st);
        (stringify!($B), f)
    }};
}

macro_rules! r1 { ($F:ty; $($a:literal),*) => { vec![$(entry!($F; S1, S1<$a>, [$F; $a], [$a])),*] } }
macro_rules! r2 { ($F:ty; $($a:literal x $b:literal),*) => { vec![$(entry!($F; S2, S2<$a, $b>, [[$F; $b]; $a], [$a, $b])),*] } }
macro_rules! r3 { ($F:ty; $($a:literal x $b:literal x $c:literal),*) => { vec![$(entry!($F; S3, S3<$a, $b, $c>, [[[$F; $c]; $b]; $a], [$a, $b, $c])),*] } }
macro_rules! r4 { ($F:ty; $($a:literal x $b:literal x $c:literal x $d:literal),*) => { vec![$(entry!($F; S4, S4<$a, $b, $c, $d>, [[[[$F; $d]; $c]; $b]; $a], [$a, $b, $c, $d])),*] } }
macro_rules! r5 { ($F:ty; $($a:literal x $b:literal x $c:literal x $d:literal x $e:literal),*) => { vec![$(entry!($F; S5, S5<$a, $b, $c, $d, $e>, [[[[[$F; $e]; $d]; $c]; $b]; $a], [$a, $b, $c, $d, $e])),*] } }

macro_rules! run_table {
    ($case:ident, $st:ident, $table:expr) => {{
        let t = &mut Tape::new(&$case.head);
        let table: Vec<(&str, Law)> = $table;
        let k = t.below(table.len());
        $st.eval();
        $st.label(table[k].0);
        if $case.prog.len() > 1 {
            $st.nontrivial(&(k, &$case.head, &$case.prog));
        }
        $st.sample(|| json!({"buffer": table[k].0, "draws": $case.head, "history": $case.prog}));
        table[k].1(&$case.prog, t, $st)
    }};
}

fn arrays12(case: &Case, st: &mut Stats) -> R {
    run_table!(case, st, [
        r1!(f64; 0, 1, 2, 3, 4, 7, 8, 16, 33),
        r2!(f64; 0 x 3, 3 x 0, 1 x 1, 1 x 5, 5 x 1, 2 x 3, 3 x 2, 4 x 4, 5 x 7, 8 x 4, 2 x 17, 9 x 2),
        vec![entry!(f64; S0, S0, f64, []), entry!(f64; S1, S1<2>, (f64, f64), [2])],
    ].concat())
}

fn arrays345(case: &Case, st: &mut Stats) -> R {
    run_table!(case, st, [
        r3!(f64; 0 x 2 x 3, 2 x 0 x 3, 2 x 3 x 0, 1 x 1 x 1, 2 x 3 x 4, 4 x 3 x 2, 3 x 3 x 3, 1 x 5 x 2, 6 x 1 x 5),
        r4!(f64; 1 x 2 x 0 x 1, 2 x 3 x 1 x 2, 1 x 2 x 3 x 4, 4 x 3 x 2 x 1, 2 x 2 x 2 x 2),
        r5!(f64; 1 x 1 x 1 x 1 x 1, 1 x 2 x 3 x 2 x 1, 2 x 1 x 2 x 3 x 2, 3 x 2 x 1 x 2 x 2, 2 x 2 x 2 x 2 x 2, 2 x 1 x 0 x 1 x 1),
    ].concat())
}

/// Extents beyond any plausible block, lane or unrolling count.
fn wide(case: &Case, st: &mut Stats) -> R {
    run_table!(case, st, [
        r1!(f64; 65, 70, 129, 260, 1025),
        r2!(f64; 2 x 70, 70 x 2, 20 x 21, 34 x 33, 1 x 130, 130 x 1),
        r3!(f64; 70 x 2 x 2, 2 x 70 x 2, 2 x 1 x 70, 9 x 10 x 11),
        r4!(f64; 40 x 1 x 2 x 2, 2 x 40 x 1 x 2, 2 x 1 x 40 x 1, 1 x 2 x 2 x 40),
        r5!(f64; 20 x 1 x 2 x 1 x 2, 1 x 20 x 1 x 2 x 1, 2 x 1 x 20 x 1 x 2, 1 x 2 x 1 x 20 x 1, 2 x 1 x 2 x 1 x 20),
    ].concat())
}

fn fields(case: &Case, st: &mut Stats) -> R {
    macro_rules! one {
        ($($F:ty),*) => {
            [$(vec![
                entry!($F; S0, S0, $F, []),
                entry!($F; S1, S1<2>, ($F, $F), [2]),
                entry!($F; S1, S1<4>, [$F; 4], [4]),
                entry!($F; S2, S2<2, 3>, [[$F; 3]; 2], [2, 3]),
            ]),*].concat()
        };
    }
    run_table!(case, st, one!(f32, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize))
}

fn vecs(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let n = harness::buf::length(t);
    st.eval();
    st.label(if n == 0 { "empty" } else { "non-empty" });
    if n > 1 && case.prog.len() > 1 {
        st.nontrivial(&(&case.head, &case.prog));
    }
    st.sample(|| json!({"length": n, "draws": case.head, "history": case.prog}));
    match t.below(4) {
        0 => laws::<Vec<f32>, f32, SDynamic<1>>(SDynamic([n]), &[n], &case.prog, t, st),
        1 => laws::<Vec<i64>, i64, SDynamic<1>>(SDynamic([n]), &[n], &case.prog, t, st),
        2 => laws::<Vec<u8>, u8, SDynamic<1>>(SDynamic([n]), &[n], &case.prog, t, st),
        _ => laws::<Vec<f64>, f64, SDynamic<1>>(SDynamic([n]), &[n], &case.prog, t, st),
    }
}

/// Buffers defined by a user, which rely on the default methods.
fn custom(case: &Case, st: &mut Stats) -> R {
    fn tensor<const D: usize>(case: &Case, t: &mut Tape, st: &mut Stats) -> R {
        // Few entries, also where an extent is large.
        let mut room = 130;
        let dims: [usize; D] = std::array::from_fn(|_| {
            let d = match t.below(8) { 0 => 0, 1 => t.below(40), _ => 1 + t.below(4) };
            let d = if d * room.min(1) > room { 1 } else { d };
            room /= d.max(1);
            d
        });
        st.label(format!("tensor of rank {}", D));
        st.sample(|| json!({"dims": dims.to_vec(), "draws": case.head, "history": case.prog}));
        match t.below(4) {
            0 => laws::<Tensor<f32, D>, f32, SDynamic<D>>(SDynamic(dims), &dims, &case.prog, t, st),
            1 => laws::<Tensor<i64, D>, i64, SDynamic<D>>(SDynamic(dims), &dims, &case.prog, t, st),
            2 => laws::<Tensor<u8, D>, u8, SDynamic<D>>(SDynamic(dims), &dims, &case.prog, t, st),
            _ => laws::<Tensor<f64, D>, f64, SDynamic<D>>(SDynamic(dims), &dims, &case.prog, t, st),
        }
    }
    macro_rules! grids {
        ($case:ident, $t:ident, $st:ident; $($n:literal x $m:literal),*) => {{
            let fs: Vec<Law> = vec![$(|prog, t, st| laws::<Grid<f64, $n, $m>, f64, S2<$n, $m>>(S2, &[$n, $m], prog, t, st)),*];
            let k = $t.below(fs.len());
            $st.label("matrix stored by columns");
            fs[k](&$case.prog, $t, $st)
        }};
    }
    let t = &mut Tape::new(&case.head);
    st.eval();
    if case.prog.len() > 1 {
        st.nontrivial(&(&case.head, &case.prog));
    }
    match t.below(9) {
        0 => grids!(case, t, st; 2 x 3, 3 x 2, 4 x 4, 1 x 5, 6 x 1, 0 x 3),
        1 => tensor::<0>(case, t, st),
        2 => tensor::<1>(case, t, st),
        3 | 4 => tensor::<2>(case, t, st),
        5 | 6 => tensor::<3>(case, t, st),
        7 => tensor::<4>(case, t, st),
        _ => tensor::<5>(case, t, st),
    }
}

fn main() {
    main_check(Check {
        id: "C12",
        rule: "every buffer type (scalars of 12 fields, pairs, dynamic vectors of 0 to 200 entries, arrays of rank 1 to 5 \
               including empty extents, and user-defined buffers with only the required methods), filled with arbitrary bit patterns; construction, access and lifting are compared \
               with a flat row-major model, then a generated history of map/map_ref/mutate/fold/sum/build_subset steps runs \
               on buffer and model together, logging every element the function is given. Non-trivial: at least two steps; \
               distinct by type, data and history.",
        assumptions: vec![
            "indices outside the shape are never passed to build_subset (undefined by the interface)",
            "NaN payloads are not compared",
        ],
        subs: vec![
            Sub { name: "arrays12", quick: 1_000_000, thorough: 40_000_000, head: (4, 60), prog: (0, 12), f: arrays12 },
            Sub { name: "arrays345", quick: 500_000, thorough: 20_000_000, head: (4, 60), prog: (0, 12), f: arrays345 },
            Sub { name: "fields", quick: 500_000, thorough: 20_000_000, head: (4, 40), prog: (0, 12), f: fields },
            Sub { name: "vecs", quick: 200_000, thorough: 20_000_000, head: (4, 80), prog: (0, 12), f: vecs },
            Sub { name: "wide", quick: 10_000, thorough: 400_000, head: (4, 80), prog: (0, 6), f: wide },
            Sub { name: "custom", quick: 400_000, thorough: 20_000_000, head: (4, 90), prog: (0, 12), f: custom },
        ],
        known: vec![],
    })
}
