//! C11: shapes enumerate exactly their indices; concat, split and broadcast are coherent.
use aegir::buffers::shapes::*;
use harness::ix::{row_major, IxVec};
use harness::tape::Tape;
use harness::{main_check, Case, Check, Stats, Sub};
use serde_json::json;

type R = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !$c { return Err(format!($($a)+)); } };
}

/// Laws of a single shape against the reference enumeration of `dims`.
fn check_shape<S>(shape: S, dims: &[usize], t: &mut Tape) -> R
where
    S: Shape + PartialEq,
    S::Index: IxVec,
{
    let want = row_major(dims);
    let n = want.len();

    ensure!(S::DIM == dims.len(), "DIM of {:?} is {}", shape, S::DIM);
    ensure!(shape.cardinality() == n, "cardinality of {:?} is {}, expected {}", shape, shape.cardinality(), n);
    ensure!(shape.is_scalar() == (dims.len() == 0), "is_scalar of {:?}", shape);
    ensure!(shape.is_vector() == (dims.len() == 1), "is_vector of {:?}", shape);
    ensure!(shape.is_matrix() == (dims.len() == 2), "is_matrix of {:?}", shape);
    ensure!(shape.is_equivalent(&SDynamic([n])), "{:?} is not equivalent to a vector of {} entries", shape, n);
    ensure!(!shape.is_equivalent(&SDynamic([n + 1])), "{:?} is equivalent to a vector of {} entries", shape, n + 1);
    ensure!(!SDynamic([n + 1]).is_equivalent(&shape), "a vector of {} entries is equivalent to {:?}", n + 1, shape);
    ensure!(SDynamic([1, n]).is_equivalent(&shape), "a row of {} entries is not equivalent to {:?}", n, shape);

    // Step through the enumeration, looking at every prefix:
    let mut it = shape.indices();
    for k in 0..=n {
        let (lo, hi) = it.size_hint();
        ensure!(
            lo <= n - k && hi.map(|h| h >= n - k).unwrap_or(true),
            "size hint of {:?} after {} of {} indices is ({}, {:?})", shape, k, n, lo, hi
        );
        ensure!(
            lo == n - k && hi == Some(n - k),
            "size hint of {:?} after {} of {} indices is ({}, {:?}), not exact", shape, k, n, lo, hi
        );
        match it.next() {
            Some(ix) if k < n => {
                ensure!(ix.to_vec() == want[k], "index {} of {:?} is {:?}, expected {:?}", k, shape, ix, want[k]);
                ensure!(shape.contains(ix), "{:?} does not contain its index {:?}", shape, ix);
                ensure!(
                    ix.is_diagonal() == want[k].windows(2).all(|w| w[0] == w[1]),
                    "is_diagonal({:?}) = {}", ix, ix.is_diagonal()
                );
            },
            None if k == n => {},
            Some(ix) => return Err(format!("{:?} enumerates the surplus index {:?}", shape, ix)),
            None => return Err(format!("{:?} ends after {} of {} indices", shape, k, n)),
        }
    }

    // Other ways to consume the iterator, from a random prefix:
    let k = t.below(n + 2);
    let adv = |k: usize| {
        let mut it = shape.indices();
        for _ in 0..k.min(n) {
            it.next();
        }
        it
    };
    let k = k.min(n);
    let rest: Vec<_> = adv(k).take(n + 2).map(|i| i.to_vec()).collect();
    ensure!(rest == want[k..], "collecting {:?} from {} gives {:?}", shape, k, rest);
    ensure!(adv(k).count() == n - k, "count of {:?} from {} is {}, expected {}", shape, k, adv(k).count(), n - k);
    let last = adv(k).last().map(|i| i.to_vec());
    ensure!(last == want[k..].last().cloned(), "last of {:?} from {} is {:?}", shape, k, last);
    let j = t.below(n + 2);
    let nth = adv(k).nth(j).map(|i| i.to_vec());
    ensure!(nth == want.get(k + j).cloned(), "nth({}) of {:?} from {} is {:?}", j, shape, k, nth);
    let folded = adv(k).fold(vec![], |mut acc, i| { acc.push(i.to_vec()); acc });
    ensure!(folded == want[k..], "folding {:?} from {} gives {:?}", shape, k, folded);

    // Membership:
    if !dims.is_empty() {
        for _ in 0..6 {
            let ix: Vec<usize> = dims
                .iter()
                .map(|&d| match t.below(8) {
                    0 => d,
                    1 => d.wrapping_sub(1),
                    2 => d + 1,
                    3 => usize::MAX,
                    4 => (1 << [8, 16, 31, 32, 48, 63][t.below(6)]) + t.below(d.max(1)),
                    _ => t.below(d.max(1)),
                })
                .collect();
            let inside = ix.iter().zip(dims).all(|(i, d)| i < d);
            let got = shape.contains(S::Index::of(&ix));
            ensure!(got == inside, "{:?}.contains({:?}) = {}", shape, ix, got);
        }
    }

    Ok(())
}

fn check_concat<A, B, C>(a: A, da: &[usize], b: B, db: &[usize], t: &mut Tape) -> R
where
    A: Concat<B, Shape = C>,
    B: Shape,
    C: Shape + PartialEq,
    A::Index: IxVec,
    B::Index: IxVec,
    C::Index: IxVec,
{
    let c = a.concat(b);
    let dims: Vec<usize> = da.iter().chain(db).copied().collect();

    // The concatenated shape has the dimensions of both:
    check_shape(c, &dims, t)?;

    // ... and its enumeration is the nested enumeration of the two parts:
    let mut it = c.indices();
    for l in row_major(da) {
        for r in row_major(db) {
            let ix = A::concat_indices(A::Index::of(&l), B::Index::of(&r));
            let want: Vec<usize> = l.iter().chain(&r).copied().collect();
            ensure!(ix.to_vec() == want, "indices {:?} and {:?} of {:?} ++ {:?} concatenate to {:?}", l, r, a, b, ix);
            let seq = it.next();
            ensure!(seq == Some(ix), "{:?} enumerates {:?} where {:?} ++ {:?} is due", c, seq, l, r);
        }
    }
    ensure!(it.next().is_none(), "{:?} has more indices than {:?} x {:?}", c, a, b);

    Ok(())
}

fn check_split<S>(s: S, dims: &[usize], dl: &[usize], t: &mut Tape) -> R
where
    S: Split + PartialEq,
    S::Index: IxVec,
    S::Left: PartialEq,
    S::Right: PartialEq,
    IndexOf<S::Left>: IxVec,
    IndexOf<S::Right>: IxVec,
{
    let (l, r) = s.split();
    check_shape(l, dl, t)?;
    check_shape(r, &dims[dl.len()..], t)?;
    ensure!(l.concat(r) == s, "splitting and concatenating {:?} gives {:?}", s, l.concat(r));

    for ix in s.indices().take(5000) {
        let (i, j) = S::split_index(ix);
        let got: Vec<usize> = i.to_vec().into_iter().chain(j.to_vec()).collect();
        ensure!(got == ix.to_vec() && i.to_vec().len() == dl.len(), "{:?} splits into {:?} and {:?}", ix, i, j);
        let back = <S::Left as Concat<S::Right>>::concat_indices(i, j);
        ensure!(back == ix, "{:?} splits and concatenates to {:?}", ix, back);
    }

    Ok(())
}

fn check_broadcast<S>(s: S, dims: &[usize], t: &mut Tape) -> R
where
    S: Broadcast<S, Shape = S> + Broadcast<S0, Shape = S> + PartialEq,
    S0: Broadcast<S, Shape = S>,
    S::Index: IxVec,
{
    let all: [(&str, Option<S>); 3] = [
        ("itself", Broadcast::<S>::broadcast(s, s).ok()),
        ("a scalar", Broadcast::<S0>::broadcast(s, S0).ok()),
        ("a scalar on the left", S0.broadcast(s).ok()),
    ];
    for (what, got) in all {
        ensure!(got == Some(s), "{:?} broadcast with {} gives {:?}", s, what, got);
        check_shape(got.unwrap(), dims, t)?;
    }

    Ok(())
}

macro_rules! dynamic_rank {
    ($t:ident, $dims:ident, $other:ident; $($d:literal),*) => {
        match $dims.len() {
            $($d => {
                let s = SDynamic::<$d>(IxVec::of(&$dims));
                check_shape(s, &$dims, $t)?;
                for i in 0..$d {
                    ensure!(s[i] == $dims[i], "{:?}[{}] = {}", s, i, s[i]);
                    let mut m = s;
                    m[i] = $dims[i] + 1;
                    ensure!(m != s && m[i] == $dims[i] + 1, "assigning dimension {} of {:?} gives {:?}", i, s, m);
                    m[i] = $dims[i];
                    ensure!(m == s, "restoring dimension {} of {:?} gives {:?}", i, s, m);
                }

                // Broadcasting accepts equal shapes and scalars only:
                check_broadcast(s, &$dims, $t)?;
                let o = SDynamic::<$d>(IxVec::of(&$other));
                match s.broadcast(o) {
                    Ok(z) => ensure!($dims == $other && z == s, "{:?} broadcasts with {:?} to {:?}", s, o, z),
                    Err(e) => {
                        ensure!($dims != $other, "{:?} does not broadcast with {:?}", s, o);
                        ensure!(e.left == s && e.right == o, "{:?} vs {:?} reported as {:?}", s, o, e);
                        let text = e.to_string();
                        let r = e.reverse();
                        ensure!(r.left == o && r.right == s, "reversing {:?} vs {:?} gives {:?}", s, o, r);
                        let (a, b) = (text.find(&s.to_string()), text.rfind(&o.to_string()));
                        ensure!(a.is_some() && b.is_some() && a < b, "{:?} vs {:?} reads: {}", s, o, text);
                    },
                }
                // A partly consumed iterator and its clone continue independently:
                let n = row_major(&$dims).len();
                let k = $t.below(n + 1);
                let mut a = s.indices();
                for _ in 0..k { a.next(); }
                let b = a.clone();
                let c = a.clone();
                let ra: Vec<_> = a.take(n + 1).collect();
                let rb: Vec<_> = b.take(n + 1).collect();
                ensure!(ra == rb && ra.len() == n - k, "clones of {:?} after {} differ: {:?} / {:?}", s, k, ra, rb);
                ensure!(c.count() == n - k, "count of a clone of {:?} after {}", s, k);
            },)*
            _ => unreachable!(),
        }
    };
}

/// Run-time shapes of every rank.
fn dynamic(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let rank = t.below(7);
    let cap = [7, 40, 12, 7, 5, 4, 3][rank];
    let dims: Vec<usize> = (0..rank).map(|_| if t.below(8) == 0 { 0 } else { t.below(cap) + 1 }).collect();
    let other: Vec<usize> = dims.iter().map(|&d| if t.below(rank + 2) == 0 { t.below(cap) } else { d }).collect();

    st.eval();
    st.label(format!("rank {}", rank));
    st.label(if dims.contains(&0) { "empty" } else { "non-empty" });
    if rank >= 2 && dims.iter().any(|&d| d > 1) {
        st.nontrivial(&dims);
    }
    st.sample(|| json!({"dims": dims, "other": other}));

    dynamic_rank!(t, dims, other; 0, 1, 2, 3, 4, 5, 6);

    Ok(())
}

macro_rules! big_rank {
    ($t:ident, $dims:ident; $($d:literal),*) => {
        match $dims.len() {
            $($d => {
                let s = SDynamic::<$d>(IxVec::of(&$dims));
                let total = $dims.iter().fold(1u128, |a, &d| a.saturating_mul(d as u128));
                let mut it = s.indices();
                let mut cur = vec![0usize; $d];
                for k in 0..40u128 {
                    let left = total - k.min(total);
                    let (lo, hi) = it.size_hint();
                    ensure!((lo as u128) <= left, "size hint of {:?} after {}: at least {} but {} remain", s, k, lo, left);
                    if let Some(h) = hi {
                        ensure!(h as u128 >= left, "size hint of {:?} after {}: at most {} but {} remain", s, k, h, left);
                    }
                    // Row-major successor, computed here:
                    let want = if k < total { Some(cur.clone()) } else { None };
                    let got = it.next().map(|i: [usize; $d]| i.to_vec());
                    ensure!(got == want, "index {} of {:?} is {:?}, expected {:?}", k, s, got, want);
                    if want.is_none() { break; }
                    for p in (0..$d).rev() {
                        cur[p] += 1;
                        if cur[p] < $dims[p] { break; }
                        cur[p] = 0;
                    }
                }
                if total <= usize::MAX as u128 {
                    ensure!(s.cardinality() as u128 == total, "cardinality of {:?} is {}", s, s.cardinality());
                    if total < 1 << 40 {
                        let (lo, hi) = s.indices().size_hint();
                        ensure!(lo as u128 == total && hi.map(|h| h as u128) == Some(total), "size hint of {:?} is ({}, {:?})", s, lo, hi);
                    }
                }
                for _ in 0..6 {
                    let ix: Vec<usize> = $dims.iter().map(|&d| match $t.below(4) { 0 => d, 1 => d - 1, 2 => 0, _ => ($t.u() as usize).wrapping_mul(0x9e3779b9) % d }).collect();
                    let inside = ix.iter().zip(&$dims).all(|(i, d)| i < d);
                    ensure!(s.contains(IxVec::of(&ix)) == inside, "{:?}.contains({:?}) = {}", s, ix, !inside);
                }
            },)*
            _ => unreachable!(),
        }
    };
}

/// Very large run-time shapes: hints, membership and the start of the enumeration.
fn large(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let rank = t.below(6) + 1;
    let dims: Vec<usize> = (0..rank)
        .map(|_| match t.below(6) {
            0 => 1 + t.below(5),
            1 => 1 + t.below(1000),
            2 => 1 << t.below(32),
            3 => (1 << 16) + t.below(1 << 20),
            4 => usize::MAX >> t.below(63),
            _ => 1 + t.below(50),
        })
        .collect();

    st.eval();
    if rank > 1 {
        st.nontrivial(&dims);
    }
    st.sample(|| json!({"dims": dims}));
    // The product of the dimensions must be representable, or the cardinality is undefined.
    big_rank!(t, dims; 1, 2, 3, 4, 5, 6);

    Ok(())
}

macro_rules! fixed {
    ($t:ident; $($shape:ident<$($d:literal),*>),*) => {{
        let fs: Vec<fn(&mut Tape) -> R> = vec![$(|t| {
            let s: $shape<$($d),*> = $shape;
            let dims = [$($d),*];
            check_shape(s, &dims, t)?;
            check_broadcast(s, &dims, t)
        }),*];
        let k = $t.below(fs.len());
        fs[k]($t)?;
        k
    }};
}

/// Compile-time shapes of every rank.
fn compiled(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    st.eval();
    if t.below(20) == 0 {
        let it: Vec<()> = S0.indices().collect();
        ensure!(it.len() == 1 && S0.cardinality() == 1 && S0.contains(()), "S0 enumerates {} indices", it.len());
        ensure!(S0.broadcast(S0).ok() == Some(S0), "S0 does not broadcast with itself");
    }
    let k = fixed!(t;
        S1<0>, S1<1>, S1<2>, S1<7>, S1<64>,
        S2<0, 0>, S2<0, 3>, S2<3, 0>, S2<1, 1>, S2<1, 5>, S2<5, 1>, S2<2, 3>, S2<3, 2>, S2<8, 8>,
        S3<0, 2, 3>, S3<2, 0, 3>, S3<2, 3, 0>, S3<1, 1, 1>, S3<2, 3, 4>, S3<4, 3, 2>, S3<1, 5, 2>,
        S4<2, 0, 1, 3>, S4<1, 2, 3, 4>, S4<4, 3, 2, 1>, S4<2, 2, 2, 2>, S4<3, 1, 3, 1>,
        S5<1, 1, 0, 1, 1>, S5<1, 2, 3, 2, 1>, S5<2, 3, 1, 2, 4>, S5<3, 1, 2, 1, 2>,
        S6<1, 2, 1, 2, 1, 0>, S6<1, 2, 3, 1, 2, 3>, S6<2, 1, 3, 2, 1, 2>, S6<3, 2, 1, 2, 2, 1>
    );
    st.label(format!("shape #{}", k));
    st.nontrivial(&(k, &case.head));
    st.sample(|| json!({"shape_number": k, "draws": case.head}));

    Ok(())
}

macro_rules! fixed_concat {
    ($t:ident; $($a:ident<$($x:literal),*> + $b:ident<$($y:literal),*>);* $(;)?) => {{
        let fs: Vec<fn(&mut Tape) -> R> = vec![$(|t| {
            let a: $a<$($x),*> = $a;
            let b: $b<$($y),*> = $b;
            check_concat(a, &[$($x),*], b, &[$($y),*], t)
        }),*];
        let k = $t.below(fs.len());
        fs[k]($t)?;
        k
    }};
}

fn compiled_concat(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    st.eval();
    let k = fixed_concat!(t;
        S1<3> + S1<2>; S1<0> + S1<2>; S1<1> + S1<4>; S1<2> + S1<1>;
        S1<3> + S2<2, 4>; S1<2> + S3<3, 1, 2>; S1<2> + S4<1, 3, 2, 4>; S1<2> + S5<1, 3, 2, 1, 2>;
        S2<2, 3> + S1<4>; S2<2, 3> + S2<4, 1>; S2<3, 2> + S2<3, 2>; S2<2, 1> + S3<3, 2, 4>; S2<2, 3> + S4<1, 2, 3, 2>;
        S3<2, 3, 4> + S1<5>; S3<2, 1, 3> + S2<2, 4>; S3<1, 2, 3> + S3<3, 2, 1>;
        S4<2, 3, 1, 2> + S1<3>; S4<2, 1, 3, 2> + S2<1, 3>;
        S5<2, 1, 3, 1, 2> + S1<3>;
        S2<0, 3> + S1<4>; S3<1, 1, 1> + S2<2, 2>;
    );
    // With scalars on either side:
    macro_rules! scalar {
        ($($s:ident<$($x:literal),*>),*) => {$(
            let s: $s<$($x),*> = $s;
            check_concat(s, &[$($x),*], S0, &[], t)?;
            check_concat(S0, &[], s, &[$($x),*], t)?;
        )*};
    }
    match t.below(6) {
        0 => { scalar!(S1<3>, S1<0>); },
        1 => { scalar!(S2<2, 3>); },
        2 => { scalar!(S3<2, 3, 4>); },
        3 => { scalar!(S4<2, 1, 3, 2>); },
        4 => { scalar!(S5<2, 1, 3, 2, 1>); },
        _ => { check_concat(S0, &[], S0, &[], t)?; },
    }
    match t.below(6) {
        0 => { let s: S2<2, 5> = S2; check_split(s, &[2, 5], &[2], t)?; },
        1 => { let s: S2<0, 3> = S2; check_split(s, &[0, 3], &[0], t)?; },
        2 => { let s: S2<4, 4> = S2; check_split(s, &[4, 4], &[4], t)?; },
        3 => { let s: S4<2, 3, 4, 5> = S4; check_split(s, &[2, 3, 4, 5], &[2, 3], t)?; },
        4 => { let s: S4<1, 2, 2, 1> = S4; check_split(s, &[1, 2, 2, 1], &[1, 2], t)?; },
        _ => { let s: S4<3, 2, 3, 2> = S4; check_split(s, &[3, 2, 3, 2], &[3, 2], t)?; },
    }
    st.label(format!("pair #{}", k));
    st.nontrivial(&(k, &case.head));
    st.sample(|| json!({"pair_number": k, "draws": case.head}));

    Ok(())
}

macro_rules! dyn_concat {
    ($t:ident, $a:ident, $b:ident; $($n:literal: [$($m:literal),*]);*) => {
        match ($a.len(), $b.len()) {
            $($(($n, $m) => {
                let a = SDynamic::<$n>(IxVec::of(&$a));
                let b = SDynamic::<$m>(IxVec::of(&$b));
                let c: SDynamic<{$n + $m}> = a.concat(b);
                let want: Vec<usize> = $a.iter().chain(&$b).copied().collect();
                ensure!(c.0.to_vec() == want, "{:?} ++ {:?} = {:?}", a, b, c);
                for _ in 0..4 {
                    let l: Vec<usize> = (0..$n).map(|_| $t.u() as usize).collect();
                    let r: Vec<usize> = (0..$m).map(|_| $t.u() as usize).collect();
                    let i = <SDynamic<$n> as Concat<SDynamic<$m>>>::concat_indices(IxVec::of(&l), IxVec::of(&r));
                    let w: Vec<usize> = l.iter().chain(&r).copied().collect();
                    ensure!(i.to_vec() == w, "indices {:?} ++ {:?} = {:?}", l, r, i);
                }
                if $n + $m <= 6 {
                    check_concat_small(a, &$a, b, &$b)?;
                }
            },)*)*
            _ => unreachable!(),
        }
    };
}

fn check_concat_small<A, B, C>(a: A, da: &[usize], b: B, db: &[usize]) -> R
where
    A: Concat<B, Shape = C>,
    B: Shape,
    C: Shape,
    A::Index: IxVec,
    B::Index: IxVec,
    C::Index: IxVec,
{
    let mut it = a.concat(b).indices();
    for l in row_major(da) {
        for r in row_major(db) {
            let ix = A::concat_indices(A::Index::of(&l), B::Index::of(&r));
            let got = it.next();
            ensure!(got == Some(ix), "{:?} ++ {:?} enumerates {:?} where {:?} is due", a, b, got, ix);
        }
    }
    ensure!(it.next().is_none(), "{:?} ++ {:?} enumerates too many indices", a, b);

    Ok(())
}

fn dynamic_concat(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let (n, m) = (t.below(7), t.below(7));
    let mut dim = |t: &mut Tape| if t.below(10) == 0 { 0 } else { 1 + t.below(if n + m > 4 { 3 } else { 6 }) };
    let a: Vec<usize> = (0..n).map(|_| dim(t)).collect();
    let b: Vec<usize> = (0..m).map(|_| dim(t)).collect();
    st.eval();
    st.label(format!("{}+{}", n, m));
    st.nontrivial(&(&a, &b));
    st.sample(|| json!({"left": a, "right": b}));
    dyn_concat!(t, a, b;
        0: [0, 1, 2, 3, 4, 5, 6]; 1: [0, 1, 2, 3, 4, 5, 6]; 2: [0, 1, 2, 3, 4, 5, 6]; 3: [0, 1, 2, 3, 4, 5, 6];
        4: [0, 1, 2, 3, 4, 5, 6]; 5: [0, 1, 2, 3, 4, 5, 6]; 6: [0, 1, 2, 3, 4, 5, 6]);

    Ok(())
}

fn main() {
    main_check(Check {
        id: "C11",
        rule: "random dimensions (0, 1 and larger; ranks 0 to 6) for run-time shapes and a table of compile-time shapes of \
               every rank; each case walks the whole enumeration against a reference odometer and checks the hints at every \
               prefix, count/last/nth/fold from a random prefix, membership inside, on and beyond the bounds, and \
               concat/split/broadcast against the nested enumeration. Non-trivial: at least two dimensions with an extent \
               above one (run-time), or any compile-time case; distinct by dimensions and draws.",
        assumptions: vec!["the product of the dimensions fits in usize wherever the cardinality is asked for"],
        subs: vec![
            Sub { name: "dynamic", quick: 300_000, thorough: 12000_000, head: (4, 40), prog: (0, 0), f: dynamic },
            Sub { name: "large", quick: 300_000, thorough: 12000_000, head: (4, 60), prog: (0, 0), f: large },
            Sub { name: "compiled", quick: 300_000, thorough: 12000_000, head: (2, 40), prog: (0, 0), f: compiled },
            Sub { name: "compiled_concat", quick: 100_000, thorough: 4000_000, head: (3, 60), prog: (0, 0), f: compiled_concat },
            Sub { name: "dynamic_concat", quick: 300_000, thorough: 12000_000, head: (4, 80), prog: (0, 0), f: dynamic_concat },
        ],
        known: vec![],
    })
}
