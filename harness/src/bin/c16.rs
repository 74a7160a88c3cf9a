//! C16: the expression DSL builds the tree that its Rust-style syntax denotes.
use harness::codegen::{main_generated, GenCheck, GenSub, Item};
use harness::tape::Tape;
use harness::Case;
use serde_json::json;
use std::rc::Rc;

#[derive(Clone, Debug)]
enum E {
    Var(usize),
    /// Literal text and whether it is an integer.
    Lit(String, bool),
    Bin(char, Rc<E>, Rc<E>),
    /// Square written with the operator: `2` or `2.0`.
    Sq(Rc<E>, &'static str),
    Un(&'static str, Rc<E>),
    Meth(&'static str, Rc<E>, Rc<E>),
    /// A bracketed group, a block, a group in a call ...
    Wrap(usize, Rc<E>),
    /// `{ let t = <0>; t <op> <1> }`, or the other way round.
    Let(char, bool, Rc<E>, Rc<E>),
    /// `pass(<0>, <1>, |p, q| p <op> q)`, or the other way round.
    Pass(char, bool, Rc<E>, Rc<E>),
    /// The operator applied by a macro_rules macro to its two arguments, which reach the DSL as invisible groups.
    Through(char, Rc<E>, Rc<E>),
}
use E::*;

const VARS: [&str; 5] = ["a", "b", "c", "d", "e"];
const IDS: [&str; 5] = ["A", "B", "C", "D", "E"];
const FLOATS: [&str; 52] = [
    "2.0000001", "2.0000000000000004", "1.9999999999999998", "1.99999999", "2.00000000000001", "0.1", "0.30000000000000004", "1e300", "5e-324",
    "1.7976931348623157e308", "123456789.123456789", "9007199254740993.0", "16777217.0", "3.4028236e38", "1e-46", "4294967298.0", "0.0000001",
    "3.141592653589793", "2.718281828459045", "2.2250738585072014e-308", "1.0000001", "1.0000000000000002",
    "0.5", "1.0", "3.0", "0.25", "2.5", "20.0", "0.2", "12.0", "3.", "1e1", "2e1", "2.1", "0.0", "1.5e-1", "22.0", "2.25", "4.0", "10.5", "7.0f64",
    "2e0_1", "1_0.5", "6.02e23", "2.05", "2.001", "2.0e1", "2.0e-1", "0.02", "02.5", "2.5f64", "12.0f64",
];
const INTS: [&str; 34] = [
    "9223372036854775807", "4294967296", "4294967298", "2147483648", "2147483647", "9007199254740993", "0xFFFF_FFFF_F", "256", "258", "65536",
    "65538", "128", "255", "1_000_000_000_000", "0b1_0000_0000_0000_0000_0000_0000_0000_0010", "16777217","0", "1", "3", "20", "12", "22", "4", "2_0", "0x10", "7", "10", "3i64", "0x20", "0b11", "0o12", "200", "32", "22i64"];
const UNS: [(&str, &str); 6] =
    [("sigmoid", "Sigmoid"), ("ln", "Ln"), ("abs", "Abs"), ("neg", "Negate"), ("squared", "Square"), ("sum", "Sum")];
const WRAPS: usize = 16;

fn prec(e: &E) -> usize {
    match e {
        Bin('^', ..) | Sq(..) => 1,
        Bin('+', ..) | Bin('-', ..) => 2,
        Bin('*', ..) => 3,
        _ => 4,
    }
}

/// The DSL's text, at least as tightly bound as `min`.
/// `starts`: whether the text's first token would begin a statement.
fn dsl(e: &E, min: usize, starts: bool, fresh: &mut usize, t: &mut Tape) -> String {
    let sp = |t: &mut Tape| match t.below(8) {
        0 => "",
        1 => "  ",
        2 => "\n        ",
        3 => " /* ^ 2 + */ ",
        _ => " ",
    };
    let s = match e {
        Var(i) => match t.below(6) {
            0 => format!("{}.into_var()", IDS[*i]),
            1 => format!("aegir::ids::{}.into_var()", IDS[*i]),
            _ => VARS[*i].to_string(),
        },
        Lit(s, _) => s.clone(),
        Bin(op, l, r) => {
            let p = prec(e);
            let (l, r) = (dsl(l, p, starts, fresh, t), dsl(r, p + 1, false, fresh, t));
            // `1.` may not be followed by a method call, but by an operator.
            format!("{}{}{}{}{}", l, sp(t), op, sp(t), r)
        },
        Sq(x, lit) => {
            let x = dsl(x, 1, starts, fresh, t);
            format!("{}{}^{}{}", x, sp(t), sp(t), lit)
        },
        Un(m, x) => {
            let x = receiver(x, fresh, t);
            format!("{}.{}()", x, m)
        },
        Meth(m, x, y) => {
            let x = receiver(x, fresh, t);
            let y = dsl(y, 0, false, fresh, t);
            format!("{}.{}({}{})", x, m, y, if t.below(6) == 0 { "," } else { "" })
        },
        Wrap(k, x) => {
            let x = dsl(x, 0, matches!(k, 2 | 7 | 9 | 12), fresh, t);
            match k {
                0 | 1 => format!("({})", x),
                2 => format!("{{ {} }}", x),
                3 => format!("same({})", x),
                4 => format!("(({}))", x),
                5 => format!("aegir!({})", x),
                6 => format!("({}, 1).0", x),
                7 => format!("if true {{ {} }} else {{ unreachable!() }}", x),
                8 => format!("(*&({}))", x),
                9 => format!("match () {{ () => {} }}", x),
                10 => format!("(|| {})()", x),
                11 => format!("loop {{ break {}; }}", x),
                12 => format!("unsafe {{ {} }}", x),
                13 => format!("(&({})).clone()", x),
                14 => format!("Some({}).unwrap()", x),
                _ => format!("[{}].into_iter().next().unwrap()", x),
            }
        },
        Let(op, left, x, y) => {
            let n = *fresh;
            *fresh += 1;
            let form = t.below(5);
            let (x, y) = (dsl(x, 0, false, fresh, t), dsl(y, 4, !*left && matches!(form, 0..=3), fresh, t));
            let body = if *left { format!("t{} {} {}", n, op, y) } else { format!("{} {} t{}", y, op, n) };
            match form {
                2 => format!("match {} {{ t{} => {} }}", x, n, body),
                3 => format!("match ({}, ()) {{ (t{}, ()) => {} }}", x, n, body),
                4 => format!("Some({}).map(|t{}| {}).unwrap()", x, n, body),
                _ => format!("{{ let t{} = {}; {} }}", n, x, body),
            }
        },
        Pass(op, turned, x, y) => {
            let n = *fresh;
            *fresh += 1;
            let (x, y) = (dsl(x, 0, false, fresh, t), dsl(y, 0, false, fresh, t));
            let body = if *turned { format!("q{} {} p{}", n, op, n) } else { format!("p{} {} q{}", n, op, n) };
            match t.below(4) {
                0 => format!("pass({}, {}, move |p{}, q{}| {{ {} }})", x, y, n, n, body),
                1 => format!("pass({}, {}, |p{}, q{}| ({}))", x, y, n, n, body),
                2 => format!("Some(({}, {})).map(|(p{}, q{})| {}).unwrap()", x, y, n, n, body),
                _ => format!("pass({}, {}, |p{}, q{}| {})", x, y, n, n, body),
            }
        },
        Through(op, x, y) => {
            let (x, y) = (grouped(x, fresh, t), grouped(y, fresh, t));
            format!("{}!({}, {})", match op { '+' => "plus", '-' => "minus", '*' => "times", _ => "power" }, x, y)
        },
    };
    // An `if` or a block at the start of a statement is no operand.
    let statement = matches!(e, Wrap(2 | 7 | 9 | 11 | 12, _) | Let(..)) && (starts || min == 4);
    if prec(e) < min || statement || (min > 0 && t.below(12) == 0) {
        format!("({})", s)
    } else {
        s
    }
}

/// An argument of a macro, which reaches the DSL as an invisible group. Known finding group-path: the group is lost if
/// it starts with a path, a macro or a word and a block.
fn grouped(e: &E, fresh: &mut usize, t: &mut Tape) -> String {
    let s = dsl(e, 0, false, fresh, t);
    let rest = s.trim_start_matches(|c: char| c.is_alphanumeric() || c == '_').trim_start();
    if rest.len() < s.len() && (rest.starts_with("::") || rest.starts_with('!') || rest.starts_with('{')) { format!("({})", s) } else { s }
}

/// The receiver of a method call.
fn receiver(e: &E, fresh: &mut usize, t: &mut Tape) -> String {
    let s = dsl(e, 4, false, fresh, t);
    match e {
        Lit(x, _) if x.ends_with('.') => format!("({})", s),
        _ => s,
    }
}

/// The same with explicit builder calls.
fn explicit(e: &E) -> String {
    match e {
        Var(i) => format!("Variable({})", IDS[*i]),
        Lit(s, true) => format!("Constant::<i64>({})", s),
        Lit(s, false) => format!("Constant::<f64>({})", s),
        Bin(op, l, r) => format!("{}({}, {})", op_name(*op), explicit(l), explicit(r)),
        Sq(x, _) => format!("ops::Square({})", explicit(x)),
        Un(m, x) => format!("ops::{}({})", UNS.iter().find(|u| u.0 == *m).unwrap().1, explicit(x)),
        Meth(m, x, y) => {
            let n = match *m {
                "add" => "ops::Add",
                "sub" => "ops::Sub",
                "mul" => "ops::Mul",
                "div" => "ops::Div",
                "pow" => "ops::Power",
                _ => "ops::Contract::<1, _, _>",
            };
            format!("{}({}, {})", n, explicit(x), explicit(y))
        },
        Wrap(_, x) => explicit(x),
        Let(op, left, x, y) => {
            let (x, y) = (explicit(x), explicit(y));
            if *left { format!("{}({}, {})", op_name(*op), x, y) } else { format!("{}({}, {})", op_name(*op), y, x) }
        },
        Through(op, x, y) => format!("{}({}, {})", op_name(*op), explicit(x), explicit(y)),
        Pass(op, turned, x, y) => {
            let (x, y) = (explicit(x), explicit(y));
            if *turned { format!("{}({}, {})", op_name(*op), y, x) } else { format!("{}({}, {})", op_name(*op), x, y) }
        },
    }
}

fn op_name(op: char) -> &'static str {
    match op {
        '+' => "ops::Add",
        '-' => "ops::Sub",
        '*' => "ops::Mul",
        _ => "ops::Power",
    }
}

/// A literal that, as the right operand of `^`, is read as a square.
fn is_two(e: &E) -> bool { matches!(e, Lit(s, _) if s == "2" || s == "2.0") }

fn size(e: &E) -> usize {
    1 + match e {
        Var(_) | Lit(..) => 0,
        Bin(_, l, r) | Meth(_, l, r) | Let(_, _, l, r) | Through(_, l, r) | Pass(_, _, l, r) => size(l) + size(r),
        Sq(x, _) | Un(_, x) | Wrap(_, x) => size(x),
    }
}

fn visit(e: &E, f: &mut dyn FnMut(&E)) {
    f(e);
    match e {
        Var(_) | Lit(..) => {},
        Bin(_, l, r) | Meth(_, l, r) | Let(_, _, l, r) | Through(_, l, r) | Pass(_, _, l, r) => {
            visit(l, f);
            visit(r, f);
        },
        Sq(x, _) | Un(_, x) | Wrap(_, x) => visit(x, f),
    }
}

fn build(case: &Case, floats: bool) -> E {
    let mut regs: Vec<Rc<E>> = vec![Rc::new(Var(0)), Rc::new(Var(1)), Rc::new(Var(2))];
    let spread = |x: u16| (x as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23).wrapping_mul(0xD134_2543_DE82_EF95);
    let lit = |x: u16| -> E {
        let k = x as usize / 8;
        if floats || x % 2 == 0 {
            Lit(
                match x % 8 {
                    0 => "2.0".into(),
                    // Any positive number.
                    3 => {
                        let f = f64::from_bits(spread(x) >> 1);
                        if f.is_finite() { format!("{:?}", f) } else { "0.7".into() }
                    },
                    4 => format!("{}.{}", spread(x) % 1000, spread(x) >> (20 + spread(x) % 40)),
                    _ => FLOATS[k % FLOATS.len()].into(),
                },
                false,
            )
        } else {
            Lit(
                match x % 8 {
                    1 => "2".into(),
                    5 => format!("{}", spread(x) >> (1 + spread(x) % 60)),
                    _ => INTS[k % INTS.len()].into(),
                },
                true,
            )
        }
    };
    for ins in &case.prog {
        let pick = |x: u16| -> Rc<E> {
            let n = regs.len();
            let i = (x >> 2) as usize;
            match x & 3 {
                0 => Rc::new(Var(i % 5)),
                1 => Rc::new(lit(x >> 2)),
                2 => regs[n - 1 - i % n.min(3)].clone(),
                _ => regs[n - 1].clone(),
            }
        };
        let ops = ['+', '-', '*', '^', '+', '*', '^', '-'];
        let l = pick(ins[1]);
        let r = pick(ins[2]);
        let op = ops[ins[3] as usize % 8];
        let new = match ins[0] % 17 {
            0..=7 => {
                if op == '^' && is_two(&r) {
                    Sq(l, if matches!(&*r, Lit(_, true)) { "2" } else { "2.0" })
                } else {
                    Bin(op, l, r)
                }
            },
            8 | 9 => Sq(l, if ins[3] % 2 == 0 { "2" } else { "2.0" }),
            10 | 11 => Un(UNS[ins[3] as usize % if floats { 6 } else { 6 }].0, l),
            12 => Meth(["add", "sub", "mul", "div", "pow", "dot"][ins[3] as usize % 6], l, r),
            13 | 14 => Wrap(ins[3] as usize % WRAPS, l),
            _ => {
                if op == '^' && is_two(&r) {
                    Bin('+', l, r)
                } else if ins[5] % 2 == 0 {
                    Through(op, l, r)
                } else if ins[5] % 3 == 0 {
                    Pass(op, ins[4] % 2 == 0, l, r)
                } else {
                    Let(op, ins[4] % 2 == 0, l, r)
                }
            },
        };
        // The brackets of a group would hide a two.
        let bad = {
            let mut b = false;
            visit(&new, &mut |e| {
                if let Bin('^', _, r) | Let('^', true, _, r) | Through('^', _, r) | Let('^', false, r, _) | Pass('^', false, _, r) | Pass('^', true, r, _) = e {
                    let mut x = r.clone();
                    while let Wrap(_, y) = &*x {
                        x = y.clone();
                    }
                    b |= is_two(&x);
                }
            });
            b
        };
        if size(&new) <= 24 && !bad {
            regs.push(Rc::new(new));
        }
    }
    (**regs.last().unwrap()).clone()
}

fn item(case: &Case, floats: bool) -> Item {
    let e = build(case, floats);
    let t = &mut Tape::new(&case.head);
    let text = dsl(&e, 0, false, &mut 0, t);
    let plain = explicit(&e);
    let lets = "let (a, b, c, d, e) = (A.into_var(), B.into_var(), C.into_var(), D.into_var(), E.into_var());";
    let tail = |first: &str| {
        format!(
            "{}\nlet want = {};\nlet got = {};\nsame_tree(&got, &want)?;\n{}",
            lets,
            plain,
            first,
            if floats { "same_value(got.evaluate(world()).map_err(|e| format!(\"{:?}\", e)), want.evaluate(world()).map_err(|e| format!(\"{:?}\", e)), &got, &want)?;" } else { "" }
        )
    };
    let mut labels = vec![format!("size {}", match size(&e) { 1..=3 => "1-3", 4..=9 => "4-9", _ => "10-24" })];
    let mut bins = 0;
    visit(&e, &mut |x| {
        match x {
            Bin(op, l, r) => {
                bins += 1;
                for (side, y) in [("left", l), ("right", r)] {
                    if let Bin(o, ..) = &**y {
                        labels.push(format!("{} as {} operand of {}", o, side, op));
                    }
                }
            },
            Sq(..) => {
                bins += 1;
                labels.push("square operator".into());
            },
            Un(m, _) | Meth(m, ..) => labels.push(format!("method {}", m)),
            Wrap(k, _) => labels.push(format!("group {}", ["brackets", "brackets", "block", "call", "double brackets", "nested macro", "field", "if", "reference", "a match", "a closure", "a loop", "an unsafe block", "a cloned reference", "an option", "an array"][*k])),
            Let(..) => labels.push("let".into()),
            Through(..) => labels.push("arguments of a macro".into()),
            Pass(..) => labels.push("a closure with parameters".into()),
            Lit(_, i) => labels.push(if *i { "integer literal".into() } else { "float literal".into() }),
            Var(_) => {},
        };
    });
    labels.sort();
    labels.dedup();
    Item {
        decls: String::new(),
        body: tail(&format!("aegir!({})", text)),
        control: (String::new(), tail(&plain)),
        nontrivial: bins >= 2,
        labels,
        show: json!({"dsl": text, "explicit": plain}),
        evals: if floats { 2 } else { 1 },
    }
}

/// A construct around a construct around ..., each chosen with equal chances, with leaves as the other operands.
fn nest(depth: usize, t: &mut Tape) -> Rc<E> {
    let leaf = |t: &mut Tape| -> Rc<E> {
        Rc::new(match t.below(5) {
            0 => Lit(t.pick(&["2.0", "0.5", "3.0"]).into(), false),
            1 => Lit(t.pick(&["2", "7"]).into(), true),
            _ => Var(t.below(5)),
        })
    };
    if depth == 0 {
        return leaf(t);
    }
    let ops = ['+', '-', '*', '^'];
    let op = ops[t.below(4)];
    let inner = nest(depth - 1, t);
    let other = Rc::new(Var(t.below(5)));
    let (l, r) = if t.flag() { (inner.clone(), other) } else { (other, inner.clone()) };
    // The square is another construct.
    let plain = |op: char, r: &E| {
        let mut x = r.clone();
        while let Wrap(_, y) = &x {
            x = (**y).clone();
        }
        if op == '^' && is_two(&x) { '*' } else { op }
    };
    Rc::new(match t.below(12) {
        0..=3 => Bin(plain(op, &r), l, r),
        4 => Sq(inner, t.pick(&["2", "2.0"])),
        5 => Un(UNS[t.below(6)].0, inner),
        6 | 7 => Meth(["add", "sub", "mul", "div", "pow", "dot"][t.below(6)], l, r),
        8 => Wrap(t.below(WRAPS), inner),
        9 => {
            let (op, left) = (op, t.flag());
            Let(plain(op, if left { &r } else { &l }), left, l, r)
        },
        10 => Through(plain(op, &r), l, r),
        _ => {
            let (op, turned) = (op, t.flag());
            Pass(plain(op, if turned { &l } else { &r }), turned, l, r)
        },
    })
}

fn name_of(e: &E) -> String {
    match e {
        Var(_) | Lit(..) => "leaf".into(),
        Bin(op, ..) => op.to_string(),
        Sq(..) => "square".into(),
        Un(..) => "unary method".into(),
        Meth(m, ..) => m.to_string(),
        Wrap(..) => "group".into(),
        Let(..) => "let".into(),
        Through(..) => "macro".into(),
        Pass(..) => "closure".into(),
    }
}

/// Many small expressions: three constructs inside one another.
fn nested(case: &Case) -> Item {
    let mut body = String::from("let (a, b, c, d, e) = (A.into_var(), B.into_var(), C.into_var(), D.into_var(), E.into_var());\n");
    let mut control = body.clone();
    let (mut labels, mut shown) = (vec![], vec![]);
    for ins in &case.prog {
        let draws: Vec<u32> = (0..60u64)
            .map(|j| {
                let x = ins.iter().fold(j, |a, x| (a ^ *x as u64).wrapping_add(1).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29));
                (x.wrapping_mul(0xD134_2543_DE82_EF95) >> 32) as u32
            })
            .collect();
        let t = &mut Tape::new(&draws);
        let e = nest(3, t);
        let (text, plain) = (dsl(&e, 0, false, &mut 0, t), explicit(&e));
        body += &format!("{{ let want = {};\nlet got = aegir!({});\nsame_tree(&got, &want)?; }}\n", plain, text);
        control += &format!("{{ let want = {};\nlet got = {};\nsame_tree(&got, &want)?; }}\n", plain, plain);
        visit(&e, &mut |x| {
            let inner: Vec<Rc<E>> = match x {
                Bin(_, l, r) | Meth(_, l, r) | Let(_, _, l, r) | Through(_, l, r) | Pass(_, _, l, r) => vec![l.clone(), r.clone()],
                Sq(x, _) | Un(_, x) | Wrap(_, x) => vec![x.clone()],
                _ => vec![],
            };
            for (side, y) in inner.iter().enumerate() {
                if !matches!(**y, Var(_) | Lit(..)) {
                    labels.push(format!("{} in {}{}", name_of(y), name_of(x), if inner.len() > 1 { [" (left)", " (right)"][side] } else { "" }));
                }
            }
        });
        shown.push(json!({"dsl": text, "explicit": plain}));
    }
    labels.sort();
    labels.dedup();
    Item { decls: String::new(), body, control: (String::new(), control), nontrivial: !shown.is_empty(), labels, evals: shown.len() as u64, show: json!(shown) }
}

fn floats(case: &Case) -> Item { item(case, true) }
fn mixed(case: &Case) -> Item { item(case, false) }

const PRELUDE: &str = r#"
#[macro_use]
extern crate aegir;
pub use aegir::{ids::{A, B, C, D, E}, meta::{Constant, Variable}, ops, Differentiable, Function, Identifier, Node};
use std::fmt::Debug;

pub fn same<T>(x: T) -> T { x }
pub fn pass<T, U, V>(x: T, y: U, f: impl FnOnce(T, U) -> V) -> V { f(x, y) }

macro_rules! plus { ($x:expr, $y:expr) => { aegir!($x + $y) } }
macro_rules! minus { ($x:expr, $y:expr) => { aegir!($x - $y) } }
macro_rules! times { ($x:expr, $y:expr) => { aegir!($x * $y) } }
macro_rules! power { ($x:expr, $y:expr) => { aegir!($x ^ $y) } }

pub fn same_tree<X: Debug, Y: Debug>(got: &X, want: &Y) -> Result<(), String> {
    let (a, b) = (format!("{:?}", got), format!("{:?}", want));
    let (x, y) = (std::any::type_name::<X>(), std::any::type_name::<Y>());
    if a != b || x != y {
        return Err(format!("the macro builds {} of type {} instead of {} of type {}", a, x, b, y));
    }
    Ok(())
}

pub fn same_value<X: Debug, Y: Debug>(got: Result<f64, String>, want: Result<f64, String>, x: &X, y: &Y) -> Result<(), String> {
    let ok = match (&got, &want) {
        (Ok(a), Ok(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        (Err(a), Err(b)) => a == b,
        _ => false,
    };
    if ok { Ok(()) } else { Err(format!("{:?} is {:?} instead of {:?}", x, got, want)) }
}

ctx_type!(World { a: A, b: B, c: C, d: D, e: E });

pub fn world() -> World<f64, f64, f64, f64, f64> { World { a: 1.5, b: 0.7, c: 2.25, d: 0.4, e: -1.25 } }
use aegir::Context;
"#;

fn main() {
    main_generated(GenCheck {
        id: "C16",
        rule: "random programs: trees of variables, literals, + - * ^, squares, method calls, groups, blocks, bindings, nested macros and arguments of macros are \
               written as DSL text (with the fewest brackets that Rust's precedence allows, some redundant ones, and random spacing) and as explicit \
               constructor calls; sub-check nested: three constructs inside one another in every way; compiled together, the two must have the same type and structure, and the same value bit for bit. Non-trivial: \
               at least two binary operators or squares; distinct by program text.",
        assumptions: vec![
            "`^` with a bracketed literal two is not generated (either reading has the same value)",
            "only the operators the macro supports (+ - * ^) are generated; division through its method",
        ],
        prelude: PRELUDE,
        known: vec![(
            "group-path",
            "let a = A.into_var();\nlet got = times!(a, aegir::ids::B.into_var() + a);\nsame_tree(&got, &ops::Mul(Variable(A), ops::Add(Variable(B), Variable(A))))?;",
        )],
        subs: vec![
            GenSub { name: "floats", quick: 900, thorough: 12_000, head: (30, 60), prog: (3, 14), f: floats },
            GenSub { name: "mixed", quick: 900, thorough: 12_000, head: (30, 60), prog: (3, 14), f: mixed },
            GenSub { name: "nested", quick: 500, thorough: 4_000, head: (4, 8), prog: (10, 16), f: nested },
        ],
    })
}
