//! C08: a context returns what was last stored, for each identifier independently.
#[macro_use]
extern crate aegir;
use aegir::buffers::shapes::{Shape, Shaped};
use aegir::buffers::{Buffer, Class, Spec};
use aegir::ids::*;
use aegir::{Context, Function, Identifier, Read, Write};
use harness::buf::*;
use harness::ix::IxVec;
use harness::tape::Tape;
use harness::{main_check, Case, Check, Stats, Sub};
use serde_json::json;
use std::fmt::Debug;

type R = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !$c { return Err(format!($($a)+)); } };
}

/// Values of a buffer type.
trait Gen: Flat + Clone + Debug {
    const FIXED: Option<&'static [usize]>;

    fn gen(t: &mut Tape) -> Self {
        let n = t.below(7);
        let dims = Self::FIXED.map(|d| d.to_vec()).unwrap_or_else(|| vec![n]);
        Self::of(&dims, &data(volume(&dims), t))
    }
}

macro_rules! gens {
    ($($B:ty: $d:expr),* $(,)?) => {$( impl Gen for $B { const FIXED: Option<&'static [usize]> = Some(&$d); } )*};
}

gens! {
    f64: [], f32: [], i64: [], u8: [], usize: [], i32: [],
    (f64, f64): [2], (i64, i64): [2],
    [f64; 1]: [1], [f64; 2]: [2], [f64; 3]: [3], [f64; 5]: [5], [f32; 3]: [3], [i32; 4]: [4], [f64; 0]: [0],
    [[f64; 2]; 2]: [2, 2], [[f64; 3]; 2]: [2, 3], [[f64; 2]; 3]: [3, 2], [[f32; 1]; 4]: [4, 1], [[i64; 3]; 3]: [3, 3],
    [[[f64; 2]; 3]; 2]: [2, 3, 2], [[[[f64; 2]; 1]; 2]; 2]: [2, 2, 1, 2],
}
impl Gen for Vec<f64> { const FIXED: Option<&'static [usize]> = None; }
impl Gen for Vec<f32> { const FIXED: Option<&'static [usize]> = None; }
impl Gen for Vec<i64> { const FIXED: Option<&'static [usize]> = None; }

trait Slot<C> {
    fn check(&self, c: &mut C, form: usize) -> R;
    fn act(&mut self, c: &mut C, how: usize, t: &mut Tape) -> &'static str;
    fn show(&self) -> String;
}

/// One field: how the harness reaches it without the interface, and what it should hold.
struct S<C, I, B> {
    id: I,
    name: &'static str,
    get: fn(&C) -> Option<B>,
    set: fn(&mut C, Option<B>),
    cache: bool,
    now: Option<B>,
    /// What it held before.
    old: Vec<B>,
}

impl<C, I, B, F, Sh> Slot<C> for S<C, I, B>
where
    F: Fld + Flat<F = F>,
    Sh: Shape + PartialEq,
    Sh::Index: IxVec,
    B: Gen<F = F> + Buffer<Field = F, Shape = Sh>,
    B::Class: Class<Sh, Buffer<F> = B>,
    I: Identifier + Copy,
    C: Context + Read<I, Buffer = B> + Write<I>,
{
    fn check(&self, c: &mut C, form: usize) -> R {
        let want = self.now.as_ref().map(|b| b.flat());
        let shape = self.now.as_ref().map(|b| b.shape());
        let agree = |got: &Option<Vec<F>>| match (got, &want) {
            (Some(g), Some(w)) => same_all(g, w),
            (None, None) => true,
            _ => false,
        };
        macro_rules! holds {
            ($what:literal, $got:expr) => {{
                let got: Option<Vec<F>> = $got;
                ensure!(agree(&got), "{} of {} is {:?}, stored was {:?}", $what, self.name, got, want);
            }};
        }
        macro_rules! shaped {
            ($what:literal, $got:expr) => {{
                let got: Option<Sh> = $got;
                ensure!(got == shape, "{} of {} is {:?}, stored was {:?}", $what, self.name, got, shape);
            }};
        }
        // Every order of the readings.
        for k in 0..6 {
            match (k + form) % 6 {
                0 => holds!("what is read", c.read(self.id).map(|b| b.flat())),
                1 => {
                    let spec = c.read_spec(self.id);
                    shaped!("the shape of the structured value", spec.as_ref().map(|s| s.shape()));
                    holds!("the structured value", spec.map(|s| s.unwrap().flat()));
                },
                2 => shaped!("the shape that is read", c.read_shape(self.id)),
                3 => holds!("the field", (self.get)(c).map(|b| b.flat())),
                4 => holds!("the variable", self.id.into_var().evaluate(&mut *c).ok().map(|b: B| b.flat())),
                _ => {
                    shaped!("the variable's shape", self.id.into_var().evaluate_shape(&mut *c).ok());
                    holds!("the variable's structured value", self.id.into_var().evaluate_spec(&mut *c).ok().map(|s: Spec<B>| s.unwrap().flat()));
                },
            }
        }
        Ok(())
    }

    fn act(&mut self, c: &mut C, how: usize, t: &mut Tape) -> &'static str {
        if let Some(b) = &self.now {
            if self.old.len() < 4 {
                self.old.push(b.clone());
            }
        }
        let v = if t.below(5) == 0 && !self.old.is_empty() { t.pick(&self.old) } else { B::gen(t) };
        let x = F::any(t);
        let s = v.shape();
        match how {
            0 if self.cache => {
                (self.set)(c, None);
                self.now = None;
                "clear"
            },
            1 => {
                (self.set)(c, Some(v.clone()));
                self.now = Some(v);
                "assign the field"
            },
            2 => {
                c.write_spec(self.id, Spec::Raw(v.clone()));
                self.now = Some(v);
                "write a dense spec"
            },
            3 => {
                c.write_spec(self.id, Spec::Full(s, x));
                let n = v.flat().len();
                self.now = Some(B::of(&dims::<B>(n), &vec![x; n]));
                "write a uniform spec"
            },
            4 => {
                c.write_spec(self.id, Spec::Diagonal(s, x));
                let n = v.flat().len();
                let d = dims::<B>(n);
                let xs: Vec<F> = harness::ix::row_major(&d).iter().map(|ix| if ix.windows(2).all(|w| w[0] == w[1]) { x } else { F::zero() }).collect();
                self.now = Some(B::of(&d, &xs));
                "write a diagonal spec"
            },
            5 => {
                c.write(self.id, v.clone());
                c.write(self.id, x_of::<B>(&v, x));
                self.now = Some(x_of::<B>(&v, x));
                "write twice"
            },
            6 => {
                // What is read is a copy of what is stored.
                if let Some(mut b) = c.read(self.id) {
                    b.mutate(|y| F::fun(1, y));
                }
                "change what was read"
            },
            _ => {
                c.write(self.id, v.clone());
                self.now = Some(v);
                "write"
            },
        }
    }

    fn show(&self) -> String { format!("{} {}: {} = {:?}", if self.cache { "cache" } else { "field" }, self.name, std::any::type_name::<B>(), self.now) }
}

fn dims<B: Gen>(n: usize) -> Vec<usize> { B::FIXED.map(|d| d.to_vec()).unwrap_or_else(|| vec![n]) }

fn x_of<B: Gen>(v: &B, x: B::F) -> B {
    let n = v.flat().len();
    B::of(&dims::<B>(n), &vec![x; n])
}

fn slot<C, I, B>(_: &C, id: I, name: &'static str, cache: bool, now: Option<B>, get: fn(&C) -> Option<B>, set: fn(&mut C, Option<B>)) -> Box<dyn Slot<C>>
where
    S<C, I, B>: Slot<C>,
    C: 'static,
    I: 'static,
    B: 'static,
{
    Box::new(S { id, name, get, set, cache, now, old: vec![] })
}

fn history<C>(world: &'static str, mut c: C, mut slots: Vec<Box<dyn Slot<C>>>, case: &Case, st: &mut Stats) -> R {
    st.eval();
    st.label(world);
    let shown: Vec<String> = slots.iter().map(|s| s.show()).collect();
    st.sample(|| json!({"context": world, "slots": shown, "history": case.prog}));
    for s in &slots {
        s.check(&mut c, 0).map_err(|e| format!("{}: {} at construction ({})", world, e, shown.join("; ")))?;
    }
    let mut names: Vec<String> = vec![];
    let mut hit = std::collections::BTreeSet::new();
    for ins in &case.prog {
        let k = ins[0] as usize % slots.len();
        let draws: Vec<u32> = (0..64u32).map(|j| (ins[2] as u32 | (ins[3] as u32) << 16).wrapping_mul(2654435761).wrapping_add((ins[4] as u32 + j).wrapping_mul(j * 40503 + 7919)) ^ (j << 20)).collect();
        let what = slots[k].act(&mut c, ins[1] as usize % 9, &mut Tape::new(&draws));
        st.label(what);
        names.push(format!("{} {}", what, slots[k].show()));
        hit.insert(k);
        let form = ins[5] as usize;
        // In every order.
        for j in 0..slots.len() {
            let j = (if form % 2 == 0 { j } else { slots.len() - 1 - j } + form / 2) % slots.len();
            slots[j].check(&mut c, form).map_err(|e| format!("{}: {} after: {} (constructed with {})", world, e, names.join(", "), shown.join("; ")))?;
        }
    }
    // The context moved elsewhere is still the same.
    let mut c = Box::new(c);
    for s in slots.iter().rev() {
        s.check(&mut c, 3).map_err(|e| format!("{}: {} in the end, after {}", world, e, names.join(", ")))?;
    }
    if case.prog.len() > 1 && (hit.len() > 1 || slots.len() == 1) {
        st.nontrivial(&(world, &case.head, &case.prog));
    }
    Ok(())
}

/// `field: Id, Type` or `cache field: Id, Type`, and the text that builds the context.
macro_rules! world {
    (@now plain $t:ident $B:ty) => { Some(<$B as Gen>::gen($t)) };
    (@now cache $t:ident $B:ty) => { if $t.flag() { Some(<$B as Gen>::gen($t)) } else { None } };
    (@init plain $f:ident) => { $f.clone().unwrap() };
    (@init cache $f:ident) => { $f.clone() };
    (@slot plain $c:ident $f:ident $I:ident $v:ident) => {
        slot(&$c, $I, stringify!($I), false, $v, |c| Some(c.$f.clone()), |c, v| c.$f = v.unwrap())
    };
    (@slot cache $c:ident $f:ident $I:ident $v:ident) => {
        slot(&$c, $I, stringify!($I), true, $v, |c| c.$f.clone(), |c, v| c.$f = v)
    };
    ($name:literal, $case:ident, $st:ident, $t:ident, [$($kind:ident $f:ident: $I:ident, $B:ty);* $(;)?], $make:expr) => {{
        $(let $f: Option<$B> = world!(@now $kind $t $B);)*
        let c = {
            $(#[allow(unused_variables)] let $f = world!(@init $kind $f);)*
            $make
        };
        let slots = vec![$(world!(@slot $kind c $f $I $f)),*];
        history($name, c, slots, $case, $st)
    }};
}

ids!(Weights::w, Bias::"b̂", Rate, Trace::"e_{t}");

ctx_type!(One { x: X });
ctx_type!(OneCache { cache x: X });
ctx_type!(Mixed { x: X, cache y: Y, z: Z, cache w: W });
// Fields named after other identifiers.
ctx_type!(Crossed { y: X, z: Y, x: Z });
ctx_type!(CachesFirst { cache c: A, cache b: B, cache a: C, d: D, });
ctx_type!(Own { weights: Weights, bias: Bias, cache rate: Rate, cache trace: Trace });
ctx_type!(Twelve {
    a: A, b: B, cache c: C, d: D, e: E, cache f: F_, g: G, h: H, cache i: I_, j: J, k: K, cache l: L
});
ids!(F_, I_, Phi_);

#[derive(Context)]
pub struct Plain {
    #[id(X)]
    pub a: f64,
    #[id(Y)]
    pub b: (f64, f64),
    #[id(Z)]
    pub c: Vec<f64>,
    #[id(Alpha)]
    pub d: [[f64; 3]; 2],
    #[id(Beta)]
    pub e: i64,
}

#[derive(Context)]
pub struct Caches {
    #[cache]
    #[id(X)]
    pub a: Option<f64>,
    #[id(Y)]
    #[cache]
    pub b: Option<(f64, f64)>,
    #[cache]
    #[id(Z)]
    pub c: Option<Vec<f64>>,
    #[cache]
    #[id(W)]
    pub d: Option<[f64; 3]>,
    #[cache]
    #[id(V)]
    pub e: Option<[[f64; 2]; 3]>,
    #[cache]
    #[id(U)]
    pub f: Option<[[[f64; 2]; 3]; 2]>,
}

#[derive(Context)]
pub struct Generic<G, H, const LEN: usize>
where
    G: Clone + aegir::buffers::Buffer,
    H: Clone + aegir::buffers::Buffer,
{
    #[id(X)]
    pub x: G,
    #[cache]
    #[id(Y)]
    pub y: Option<H>,
    #[id(Z)]
    pub z: [f64; LEN],
}

#[derive(Context)]
pub struct Ints {
    #[id(A)]
    pub a: u8,
    #[id(B)]
    pub b: usize,
    #[id(C)]
    pub c: (i64, i64),
    #[id(D)]
    pub d: Vec<i64>,
    #[id(E)]
    #[cache]
    pub e: Option<[[i64; 3]; 3]>,
    #[id(Gamma)]
    pub g: [i32; 4],
    #[id(Delta)]
    #[cache]
    pub h: Option<i32>,
}

#[derive(Context)]
pub struct Singles {
    #[id(X)]
    pub x: f32,
    #[id(Y)]
    pub y: [f32; 3],
    #[id(Z)]
    pub z: [[f32; 1]; 4],
    #[id(W)]
    #[cache]
    pub w: Option<Vec<f32>>,
    #[id(V)]
    #[cache]
    pub v: Option<f32>,
}

/// A context by hand that relies on the provided methods.
#[derive(Default)]
struct Hand {
    scalars: std::collections::HashMap<&'static str, f64>,
    vector: Option<Vec<f64>>,
    matrix: Option<[[f64; 3]; 2]>,
}

impl AsMut<Hand> for Hand {
    fn as_mut(&mut self) -> &mut Hand { self }
}

impl Context for Hand {}

macro_rules! by_hand {
    ($($I:ident),*) => {$(
        impl Read<$I> for Hand {
            type Buffer = f64;
            fn read(&self, _: $I) -> Option<f64> { self.scalars.get(stringify!($I)).copied() }
        }
        impl Write<$I> for Hand {
            fn write(&mut self, _: $I, v: f64) { self.scalars.insert(stringify!($I), v); }
        }
    )*};
}

by_hand!(X, Y, Theta);

impl Read<Z> for Hand {
    type Buffer = Vec<f64>;
    fn read(&self, _: Z) -> Option<Vec<f64>> { self.vector.clone() }
}

impl Write<Z> for Hand {
    fn write(&mut self, _: Z, v: Vec<f64>) { self.vector = Some(v) }
}

impl Read<W> for Hand {
    type Buffer = [[f64; 3]; 2];
    fn read(&self, _: W) -> Option<[[f64; 3]; 2]> { self.matrix }
}

impl Write<W> for Hand {
    fn write(&mut self, _: W, v: [[f64; 3]; 2]) { self.matrix = Some(v) }
}

fn typed(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    match t.below(7) {
        0 => world!("ctx_type, one field", case, st, t, [plain x: X, Vec<f64>], One { x }),
        1 => world!("ctx_type, one cache", case, st, t, [cache x: X, [f64; 3]], OneCache { x }),
        2 => world!("ctx_type, fields and caches", case, st, t, [plain x: X, f64; cache y: Y, (f64, f64); plain z: Z, [f64; 2]; cache w: W, [[f64; 2]; 2]], Mixed { w, x, z, y }),
        3 => world!("ctx_type, crossed names", case, st, t, [plain y: X, f64; plain z: Y, f64; plain x: Z, f64], Crossed { x, y, z }),
        4 => world!("ctx_type, caches first", case, st, t, [cache c: A, Vec<f64>; cache b: B, Vec<f64>; cache a: C, f32; plain d: D, Vec<f64>], CachesFirst { a, b, c, d }),
        5 => world!("ctx_type, own identifiers", case, st, t, [plain weights: Weights, [f64; 5]; plain bias: Bias, f64; cache rate: Rate, f64; cache trace: Trace, [f64; 5]], Own { weights, bias, rate, trace }),
        _ => world!(
            "ctx_type, twelve", case, st, t,
            [plain a: A, f64; plain b: B, [f64; 3]; cache c: C, [[f64; 2]; 2]; plain d: D, f64; plain e: E, Vec<f64>; cache f: F_, f64; plain g: G, [f64; 3];
             plain h: H, (f64, f64); cache i: I_, f64; plain j: J, [[f64; 3]; 2]; plain k: K, [f64; 0]; cache l: L, Vec<f64>],
            Twelve { a, b, c, d, e, f, g, h, i, j, k, l }
        ),
    }
}

fn derived(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    match t.below(6) {
        0 => world!("derive, fields", case, st, t, [plain a: X, f64; plain b: Y, (f64, f64); plain c: Z, Vec<f64>; plain d: Alpha, [[f64; 3]; 2]; plain e: Beta, i64], Plain { a, b, c, d, e }),
        1 => world!("derive, caches", case, st, t, [cache a: X, f64; cache b: Y, (f64, f64); cache c: Z, Vec<f64>; cache d: W, [f64; 3]; cache e: V, [[f64; 2]; 3]; cache f: U, [[[f64; 2]; 3]; 2]], Caches { a, b, c, d, e, f }),
        2 => world!("derive, generic (vector, scalar, 2)", case, st, t, [plain x: X, Vec<f64>; cache y: Y, f64; plain z: Z, [f64; 2]], Generic::<Vec<f64>, f64, 2> { x, y, z }),
        3 => world!("derive, generic (scalar, rank 4, 1)", case, st, t, [plain x: X, f64; cache y: Y, [[[[f64; 2]; 1]; 2]; 2]; plain z: Z, [f64; 1]], Generic::<f64, [[[[f64; 2]; 1]; 2]; 2], 1> { x, y, z }),
        4 => world!("derive, integers", case, st, t, [plain a: A, u8; plain b: B, usize; plain c: C, (i64, i64); plain d: D, Vec<i64>; cache e: E, [[i64; 3]; 3]; plain g: Gamma, [i32; 4]; cache h: Delta, i32], Ints { a, b, c, d, e, g, h }),
        _ => world!("derive, single precision", case, st, t, [plain x: X, f32; plain y: Y, [f32; 3]; plain z: Z, [[f32; 1]; 4]; cache w: W, Vec<f32>; cache v: V, f32], Singles { x, y, z, w, v }),
    }
}

fn others(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    match t.below(5) {
        0 => world!("ctx!, one", case, st, t, [plain _x: X, [[f64; 3]; 2]], ctx!{X = _x}),
        1 => world!("ctx!, two of a type", case, st, t, [plain _y: Y, f64; plain _x: X, f64], ctx!{X = _x, Y = _y}),
        2 => world!(
            "ctx!, six", case, st, t,
            [plain _phi_: Phi_, Vec<f64>; plain _e: E, f64; plain _d: D, (f64, f64); plain _c: C, [f64; 2]; plain _beta: Beta, f64; plain _a: A, Vec<f64>],
            ctx!{D = _d, Phi_ = _phi_, A = _a, E = _e, Beta = _beta, C = _c}
        ),
        _ => {
            let c = Hand::default();
            let mut slots = vec![];
            macro_rules! scalar {
                ($($I:ident),*) => {$(
                    slots.push(slot(&c, $I, stringify!($I), true, None, |c| c.scalars.get(stringify!($I)).copied(), |c, v| match v {
                        Some(v) => { c.scalars.insert(stringify!($I), v); },
                        None => { c.scalars.remove(stringify!($I)); },
                    }));
                )*};
            }
            scalar!(X, Y, Theta);
            slots.push(slot(&c, Z, "Z", true, None, |c| c.vector.clone(), |c, v| c.vector = v));
            slots.push(slot(&c, W, "W", true, None, |c| c.matrix, |c, v| c.matrix = v));
            history("by hand, provided methods", c, slots, case, st)
        },
    }
}


fn main() {
    main_check(Check {
        id: "C08",
        rule: "seventeen contexts (ctx_type!, derive(Context) with generics, where clauses and const parameters, ctx!, and one by hand that \
               uses the provided methods) with one to twelve fields and caches of 25 buffer types, filled with arbitrary bit patterns; random \
               histories of field assignments, writes, dense / uniform / diagonal structured writes, clears and changes of copies. After every \
               step every identifier is read in six ways and compared bit for bit with a model. Non-trivial: at least two steps on different \
               identifiers; distinct by context, data and history.",
        assumptions: vec!["NaN payloads are not compared", "the order of declarations in a context is varied by C17's generated programs, here it is fixed"],
        subs: vec![
            Sub { name: "typed", quick: 500_000, thorough: 20_000_000, head: (4, 60), prog: (0, 14), f: typed },
            Sub { name: "derived", quick: 500_000, thorough: 20_000_000, head: (4, 60), prog: (0, 14), f: derived },
            Sub { name: "others", quick: 500_000, thorough: 20_000_000, head: (4, 60), prog: (0, 14), f: others },
        ],
        known: vec![],
    })
}
