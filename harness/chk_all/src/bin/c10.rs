//! C10: symbolic containment and independence.
#[macro_use]
extern crate aegir;
use chk_all::*;
use expr::ast::*;
use expr::check::*;
use expr::erase::EErr;
use expr::face::Out;
use expr::ids::{Tok, CACHE, SLOTS};
use expr::num::Ball;
use harness::tape::Tape;
use harness::{main_check, Case, Check, Stats, Sub};
use serde_json::json;

type R = Result<(), String>;

fn same(a: &Result<Out, EErr>, b: &Result<Out, EErr>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x.same(y),
        (Err(x), Err(y)) => x.dbg == y.dbg,
        _ => false,
    }
}

fn all_toks() -> Vec<Tok> {
    let mut out = vec![];
    for k in 0..9u8 {
        for idx in 0..SLOTS as u8 {
            out.push(Tok { kind: k, idx });
            out.push(Tok { kind: CACHE + k, idx });
        }
    }
    out
}

fn run(case: &Case, st: &mut Stats, t: &mut Tape, family: Family, max: usize) -> R {
    let mut g = start(family, t, max);
    g.use_caches = t.below(3) == 0;
    g.pool(t, 2, if g.kinds.len() > 4 { 1 } else { 2 });
    g.mix(t);
    let mut w = finish(g, &case.prog, t);
    // Every identifier of the family's kinds has a value.
    let len = w.vars.0.iter().find(|(k, _)| k.kind == Kind::D as u8).map(|(_, l)| l.dims()[0]).unwrap_or(2);
    for k in family.kinds() {
        for idx in 0..SLOTS as u8 {
            let tok = Tok { kind: k as u8, idx };
            if !w.vars.0.contains_key(&tok) {
                let l = leaf(k, t, len);
                w.vars.0.insert(tok, l);
            }
        }
    }
    let occur = ids(&w.ast);
    let fs = forms(&w, t, 3);
    describe(st, &w.ast);
    st.sample(|| json!({"expression": show(&w.ast), "variables": w.vars.show(), "contains": occur.iter().map(|t| t.name()).collect::<Vec<_>>()}));

    for (by, node) in &fs {
        let name = || format!("{} for {}", title(&w, by), w.vars.show());
        // What it contains:
        for tok in all_toks() {
            let has = node.has(tok);
            st.eval();
            if by.is_empty() && has != occur.contains(&tok) {
                return Err(format!("{} {} {}", show(&w.ast), if has { "is said to contain" } else { "is said not to contain" }, tok));
            }
            if has && !occur.contains(&tok) && !by.contains(&tok) {
                return Err(format!("{} is said to contain {}", title(&w, by), tok));
            }
        }
        // Independence of what it does not contain:
        let base = w.vars.ctx();
        let v = node.ev(&mut base.clone());
        if let Err(e) = &v {
            return Err(format!("evaluating {} fails with {:?}", name(), e));
        }
        let s = node.ev_shape(&mut base.clone());
        let free: Vec<Tok> = w.vars.0.keys().copied().filter(|x| !node.has(*x)).collect();
        for tok in &free {
            st.eval();
            let len = 1 + t.below(3);
            let l = leaf(Kind::of(tok.kind), t, len);
            let mut c = base.clone();
            set(&mut c, *tok, &l);
            let r = node.ev(&mut c);
            if !same(&r, &v) {
                return Err(format!("{}, which does not contain {}, is {:?}, but {:?} when {} = {}", name(), tok, v, r, tok, l.show()));
            }
            let mut c = base.clone();
            c.unset(*tok);
            let r = node.ev(&mut c);
            if !same(&r, &v) {
                return Err(format!("{}, which does not contain {}, is {:?}, but {:?} when {} has no value", name(), tok, v, r, tok));
            }
            let r = node.ev_shape(&mut c);
            if format!("{:?}", r) != format!("{:?}", s) {
                return Err(format!("the shape of {}, which does not contain {}, is {:?}, but {:?} when {} has no value", name(), tok, s, r, tok));
            }
            let r = node.ev_spec(&mut c).map(|s| s.out);
            if r.is_err() {
                return Err(format!("{}, which does not contain {}, fails with {:?} when {} has no value", name(), tok, r, tok));
            }
        }
        // Everything it does not contain at once:
        let mut c = base.clone();
        for tok in &free {
            c.unset(*tok);
        }
        let r = node.ev(&mut c);
        if !same(&r, &v) {
            return Err(format!("{} is {:?}, but {:?} with the values of what it contains only", name(), v, r));
        }
        // Zero derivatives:
        let dims = v.as_ref().unwrap().dims.clone();
        for tok in w.vars.0.keys() {
            let Some(d) = node.adj(*tok) else { continue };
            let zero = !node.has(*tok);
            if !zero {
                continue;
            }
            st.eval();
            let r = d.ev(&mut base.clone());
            let want: Vec<usize> = dims.iter().copied().chain(Kind::of(tok.kind).dims().unwrap()).collect();
            match r {
                Ok(o) if o.dims == want && o.xs.iter().all(|x| *x == 0.0) => {},
                r => return Err(format!("the derivative of {} by {}, which it does not contain, is {:?} instead of zero in {:?}", name(), tok, r, want)),
            }
            st.label(format!("zero derivative of rank {}", want.len()));
        }
        let n = free.len();
        st.label(format!("order {}, {} identifiers absent", by.len(), if n == 0 { "no" } else if n < 4 { "few" } else { "many" }));
        if !free.is_empty() && w.ast.size >= 3 && !occur.is_empty() {
            st.nontrivial(&(title(&w, by), w.vars.show()));
        }
    }
    Ok(())
}

/// Is every intermediate value zero or of a magnitude whose powers stay in the floating-point range, and every
/// operator smooth there? (The quotient rule squares its denominator, for example.)
fn tame(w: &World) -> bool {
    let mut ok = true;
    let flat = |a: &Ast| eval(a, &mut w.vars.env::<Ball>()).map(|v| v.xs).unwrap_or_default();
    census(&w.ast, &mut |a| {
        ok = ok && flat(a).iter().all(|b| b.v == 0.0 || (b.v.abs() > 1e-60 && b.v.abs() < 1e60));
        ok = ok
            && match &a.op {
                Op::Un(u) if !matches!(u, Un::Exp | Un::Abs) => flat(&a.args[0]).iter().all(|b| un_ok(*u, b.v, 1)),
                Op::Pow => {
                    let (b, e) = (flat(&a.args[0]), flat(&a.args[1]));
                    pow_ok(b[0].v, &a.args[1], e[0].v, 1)
                },
                _ => true,
            };
    });
    ok
}

/// Any point of the domain: zeroes, negative and extreme values as well. The derivative by what does not occur
/// stays zero wherever the value is finite.
fn extreme(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let family = t.pick(&FAMILIES[1..]);
    let mut g = start(family, t, 30);
    g.pool(t, 2, 1);
    g.mix(t);
    let mut w = finish(g, &case.prog, t);
    let mut touched = false;
    for l in w.vars.0.values_mut() {
        if t.below(3) == 0 {
            let x = match t.below(6) {
                0 => 0.0,
                1 => -0.0,
                2 => harness::tape::any_f64(t.u(), t.u()),
                3 => -1.0,
                _ => t.val() * 10.0,
            };
            let d = l.dims().clone();
            *l = if t.below(3) == 0 { Leaf::Full(d, x) } else { Leaf::Raw(d.clone(), vec![x; d.iter().product()]) };
            touched = true;
        }
    }
    let base = w.vars.ctx();
    let v = w.node.ev(&mut base.clone());
    let spec = w.node.ev_spec(&mut base.clone());
    let occur = ids(&w.ast);
    let (Ok(v), Ok(_)) = (v, spec) else { return Err(format!("evaluating {} for {} fails", show(&w.ast), w.vars.show())) };
    let finite = v.xs.iter().all(|x| x.is_finite());
    if finite && !tame(&w) {
        st.label("near the limits of the floating-point range, or not smooth");
        return Ok(());
    }
    for tok in w.targets.iter().filter(|k| !occur.contains(k)) {
        st.eval();
        let d = w.node.adj(*tok).unwrap();
        let want: Vec<usize> = v.dims.iter().copied().chain(Kind::of(tok.kind).dims().unwrap()).collect();
        let name = || format!("the derivative of {} by {}, which it does not contain, for {}", show(&w.ast), tok, w.vars.show());
        match (finite, d.ev(&mut base.clone())) {
            (true, Ok(o)) if o.dims == want && o.xs.iter().all(|x| *x == 0.0) => {
                if touched && w.ast.size > 2 {
                    st.nontrivial(&name());
                }
            },
            (false, Ok(_)) => st.label("value not finite"),
            (_, r) => return Err(format!("{} is {:?} instead of zero in {:?}", name(), r, want)),
        }
        st.sample(|| json!({"expression": show(&w.ast), "absent": tok.name(), "variables": w.vars.show()}));
    }
    Ok(())
}

fn plain(case: &Case, st: &mut Stats) -> R { run(case, st, &mut Tape::new(&case.head), Family::P, 60) }
fn derivatives(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let f = t.pick(&DIFF);
    run(case, st, t, f, 50)
}
fn matrix(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let f = t.pick(&MATRIX);
    run(case, st, t, f, 25)
}

/// Operators that a user declares with derive(Contains).
mod declared {
    use super::R;
    use aegir::{Contains, Node};
    use expr::ids::Tok;
    use harness::tape::Tape;
    use harness::{Case, Stats};
    use serde_json::json;

    /// An operand that contains any set of 16 identifiers.
    #[derive(Clone, Copy, Debug)]
    struct Set(u16);

    impl Node for Set {}
    impl Contains<Tok> for Set {
        fn contains(&self, t: Tok) -> bool { t.kind == 0 && self.0 >> t.idx & 1 == 1 }
    }

    macro_rules! operators { ($($N:ident<$($G:ident),*>),* $(,)?) => { $(
        impl<$($G: Node),*> Node for $N<$($G),*> {}
    )* }; }

    #[derive(Contains, Clone)]
    struct U1<A>(#[op] A);
    #[derive(Contains, Clone)]
    struct U2<I, T>(#[op] I, #[op] T);
    #[derive(Contains, Clone)]
    struct U3<A, B, C>(#[op] A, #[op] B, #[op] C);
    #[derive(Contains, Clone)]
    struct U4<A, B, C, D>(#[op] A, #[op] B, #[op] C, #[op] D);
    #[derive(Contains, Clone)]
    struct U5<A, B, C, D, E>(#[op] A, #[op] B, #[op] C, #[op] D, #[op] E);
    #[derive(Contains, Clone)]
    struct U6<A, B>(#[op] A, #[op] B, #[op] A, #[op] Set, #[op] B, #[op] A);
    #[derive(Contains, Clone)]
    struct N1<A> {
        #[op]
        inner: A,
        #[op]
        fixed: Set,
    }
    #[derive(Contains, Clone)]
    struct N2<A, B> {
        #[op]
        left: A,
        #[op]
        right: B,
    }
    #[derive(Contains, Clone)]
    struct N3<A, B, C> {
        #[op]
        cond: A,
        /// A field with other attributes.
        #[op]
        #[allow(dead_code)]
        then: B,
        #[op]
        r#else: C,
    }
    #[derive(Contains, Clone)]
    struct N4<A, B> {
        #[allow(dead_code)]
        #[op]
        pub z: A,
        #[op]
        target: B,
        #[op]
        pub(crate) same: A,
        #[op]
        a: B,
    }
    #[derive(Contains, Clone)]
    struct N7 {
        #[op]
        a: Set,
        #[op]
        b: U2<Set, Set>,
        #[op]
        c: Set,
        #[op]
        d: N1<Set>,
        #[op]
        e: Set,
        #[op]
        f: Set,
        #[op]
        g: U1<U1<Set>>,
    }
    /// With bounds and parameters of every sort.
    #[derive(Contains, Clone)]
    struct Bounded<'a, A: Clone + 'a, B, const K: usize>(#[op] A, #[op] B, #[op] Ref<'a>)
    where
        B: Clone;
    #[derive(Clone, Copy)]
    struct Ref<'a>(&'a Set);

    impl Node for Ref<'_> {}
    impl Contains<Tok> for Ref<'_> {
        fn contains(&self, t: Tok) -> bool { self.0.contains(t) }
    }
    impl<'a, A: Clone + Node, B: Clone + Node, const K: usize> Node for Bounded<'a, A, B, K> {}
    impl Node for N7 {}
    operators!(U1<A>, U2<A, B>, U3<A, B, C>, U4<A, B, C, D>, U5<A, B, C, D, E>, U6<A, B>, N1<A>, N2<A, B>, N3<A, B, C>, N4<A, B>);

    /// Any of the operators as an operand of another.
    enum Any {
        Set(Set),
        Op(Box<dyn Fn(Tok) -> bool>),
    }
    impl Node for Any {}
    impl Contains<Tok> for Any {
        fn contains(&self, t: Tok) -> bool {
            match self {
                Any::Set(s) => s.contains(t),
                Any::Op(f) => f(t),
            }
        }
    }
    fn any<X: Contains<Tok> + 'static>(x: X) -> Any { Any::Op(Box::new(move |t| x.contains(t))) }

    /// Random masks: mostly few identifiers, so that each operand has some that no other contains.
    fn set(t: &mut Tape) -> Set {
        Set(match t.below(8) {
            0 => 0,
            1..=5 => 1 << t.below(16),
            6 => 1 << t.below(16) | 1 << t.below(16),
            _ => t.u() as u16,
        })
    }

    fn tree(t: &mut Tape, depth: usize, ops: &mut Vec<&'static str>) -> (Any, u16, String) {
        if depth == 0 || t.below(5) == 0 {
            let s = set(t);
            return (Any::Set(s), s.0, format!("{:04x}", s.0));
        }
        let k = t.below(12);
        let mut all = 0;
        let mut text = vec![];
        macro_rules! sub { () => {{
            let (x, m, s) = tree(t, depth - 1, ops);
            all |= m;
            text.push(s);
            x
        }}; }
        macro_rules! leaf { () => {{
            let s = set(t);
            all |= s.0;
            text.push(format!("{:04x}", s.0));
            s
        }}; }
        let (name, x) = match k {
            0 => ("U1", any(U1(sub!()))),
            1 => ("U2", any(U2(sub!(), sub!()))),
            2 => ("U3", any(U3(sub!(), sub!(), sub!()))),
            3 => ("U4", any(U4(sub!(), sub!(), sub!(), sub!()))),
            4 => ("U5", any(U5(sub!(), sub!(), sub!(), sub!(), sub!()))),
            5 => ("U6", any(U6(sub!(), sub!(), sub!(), leaf!(), sub!(), sub!()))),
            6 => ("N1", any(N1 { inner: sub!(), fixed: leaf!() })),
            7 => ("N2", any(N2 { left: sub!(), right: sub!() })),
            8 => ("N3", any(N3 { cond: sub!(), then: sub!(), r#else: sub!() })),
            9 => ("N4", any(N4 { z: sub!(), target: sub!(), same: sub!(), a: sub!() })),
            10 => ("N7", any(N7 { a: leaf!(), b: U2(leaf!(), leaf!()), c: leaf!(), d: N1 { inner: leaf!(), fixed: leaf!() }, e: leaf!(), f: leaf!(), g: U1(U1(leaf!())) })),
            _ => {
                let r: &'static Set = [&Set(1), &Set(2), &Set(0x100), &Set(0), &Set(0x8000)][t.below(5)];
                let (x, y) = (leaf!(), leaf!());
                all |= r.0;
                text.push(format!("{:04x}", r.0));
                ("Bounded", any(Bounded::<Set, Set, 3>(x, y, Ref(r))))
            },
        };
        ops.push(name);
        (x, all, format!("{}({})", name, text.join(", ")))
    }

    pub fn run(case: &Case, st: &mut Stats) -> R {
        let t = &mut Tape::new(&case.head);
        let mut ops = vec![];
        let (x, all, text) = tree(t, 3, &mut ops);
        for idx in 0..16u8 {
            let tok = Tok { kind: 0, idx };
            let has = x.contains(tok);
            st.eval();
            if has != (all >> idx & 1 == 1) {
                return Err(format!("an operator with derive(Contains), {} (operands given by the sets of identifiers they contain), is said {} contain identifier {}", text, if has { "to" } else { "not to" }, idx));
            }
        }
        if x.contains(Tok { kind: 1, idx: 0 }) {
            return Err(format!("an operator with derive(Contains), {}, is said to contain an identifier that none of its operands contains", text));
        }
        for o in &ops {
            st.label(format!("declared {}", o));
        }
        if all != 0 && all != 0xffff && !ops.is_empty() {
            st.nontrivial(&text);
        }
        st.sample(|| json!({"operator": text}));
        Ok(())
    }
}

fn main() {
    main_check(Check {
        id: "C10",
        rule: "random expressions of every family and their derivatives: containment of each of 72 identifiers (variables and caches of \
               every kind) is compared with the identifiers that were used to build the expression; each identifier that is not \
               contained is given another value and then none, and value, structured value and shape must not change (bit for bit); \
               derivatives by identifiers that are not contained must be zero with the right shape, at extreme points too; and random trees of operators declared with derive(Contains) \
               (12 structs of one to seven operands), whose operands contain any sets of identifiers; symbols: identifiers that print alike are told apart. Non-trivial: \
               at least three nodes, an absent identifier, and an occurring one; distinct by expression and data.",
        assumptions: vec![
            "derivative expressions may contain only what the expression contains and the targets",
            "zero derivatives are demanded wherever the value is finite, every intermediate value is zero or between 1e-60 and 1e60 in magnitude, and every operator is smooth",
        ],
        subs: vec![
            Sub { name: "plain", quick: 30_000, thorough: 1_000_000, head: (60, 240), prog: (1, 12), f: plain },
            Sub { name: "derivatives", quick: 40_000, thorough: 1_500_000, head: (60, 240), prog: (1, 10), f: derivatives },
            Sub { name: "matrix", quick: 10_000, thorough: 400_000, head: (60, 240), prog: (1, 8), f: matrix },
            Sub { name: "extreme", quick: 60_000, thorough: 2_000_000, head: (60, 160), prog: (1, 10), f: extreme },
            Sub { name: "declared", quick: 100_000, thorough: 2_000_000, head: (120, 120), prog: (0, 0), f: declared::run },
            Sub { name: "symbols", quick: 4_000, thorough: 100_000, head: (12, 20), prog: (0, 0), f: harness::twins::run },
        ],
        known: vec![],
    })
}
