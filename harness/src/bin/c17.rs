//! C17: identifier and context macros generate what was declared.
use harness::codegen::{main_generated, GenCheck, GenSub, Item};
use harness::tape::Tape;
use harness::Case;
use serde_json::json;
use std::fmt::Write;

const NAMES: [&str; 24] = [
    "X", "Y", "Foo", "Theta", "A", "Weights", "W1", "W2", "Bias", "Input", "Output", "Rate_", "Q", "Gamma", "T0", "T1", "Loss", "Mu", "Sigma", "Zed", "K", "Phi",
    "Long_Name_9", "B",
];
/// Names in lower case, which generated code used for its own bindings once.
const LOWER: [&str; 7] = ["f", "other", "value", "fid", "buf", "spec", "target"];
const SYMBOLS: [&str; 32] = [
    "x", "w", "θ", "a b", "x_{1}", "{}", "{{x}}", "", "\\\"q\\\"", "x₁", "∇f", "alpha", "%d", "(x)", "line\\nbreak", "a\\\\b", "{0}", "}", "{", "X", "ẋ", "W", "𝜷", "x:y", " x", "y ", "\\t", "  ", "_", "x\\u{301}", "\\'", "A",
];
const FIELDS: [&str; 26] = [
    "x", "y", "cache", "value", "fid", "ctx", "buf", "id", "theta", "_x", "a", "b", "weights", "self_", "other", "shape", "spec", "option", "field", "_1", "c", "very_long_field_name", "Theta", "X", "Value", "f",
];

struct Id {
    name: String,
    /// As written, and as printed.
    symbol: Option<(String, String)>,
}

fn ids(t: &mut Tape, n: usize, twins: bool) -> Vec<Id> {
    let mut out: Vec<Id> = vec![];
    let mut tries = 0;
    while out.len() < n {
        let base = if t.below(8) == 0 { t.pick(&LOWER) } else { t.pick(&NAMES) };
        tries += 1;
        let mut name = if tries > 60 || t.below(4) == 0 { format!("{}{}", base, out.len()) } else { base.to_string() };
        // The same as another in other letters.
        if twins && !out.is_empty() && tries < 40 && t.below(6) == 0 {
            let other = &out[t.below(out.len())].name;
            name = match t.below(3) {
                // Short names and plain words could be those of bindings in generated code.
                1 | 2 if (other.len() > 1 || other == "Q") && !["Input", "Output", "Loss"].iter().any(|n| other.starts_with(n)) => other.to_lowercase(),
                _ => other.to_uppercase(),
            };
        }
        // Names that differ in case only would share a field in `ctx!`.
        if out.iter().any(|i| if twins { i.name == name } else { i.name.to_lowercase() == name.to_lowercase() }) {
            continue;
        }
        let symbol = match t.below(6) {
            0 | 1 => None,
            2 => {
                let s = t.pick(&["x", "y", "theta", "W", "x_1", "θ", "foo", "Self_", "i", "very_long"]);
                Some((s.to_string(), s.to_string()))
            },
            _ => {
                let s = if t.below(3) == 0 {
                    let mut s = t.pick(&SYMBOLS).to_string();
                    s += t.pick(&SYMBOLS);
                    s
                } else {
                    t.pick(&SYMBOLS).to_string()
                };
                // Raw strings, too, where they mean the same.
                let raw = !s.contains('\\') && t.below(5) == 0;
                Some((if raw { format!("r#\"{}\"#", s) } else { format!("\"{}\"", s) }, s))
            },
        };
        out.push(Id { name, symbol });
    }
    out
}

fn twins(ids: &[Id]) -> bool { ids.iter().enumerate().any(|(k, i)| ids[..k].iter().any(|j| i.name.to_lowercase() == j.name.to_lowercase())) }

fn declare(ids: &[Id]) -> String {
    let all: Vec<String> = ids
        .iter()
        .map(|i| match &i.symbol {
            None => i.name.clone(),
            Some((s, _)) => format!("{}::{}", i.name, s),
        })
        .collect();
    format!("ids!({});\n", all.join(", "))
}

/// The same by hand.
fn declare_by_hand(ids: &[Id]) -> String {
    let mut s = String::new();
    for i in ids {
        writeln!(s, "#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct {};\nimpl aegir::Identifier for {} {{}}", i.name, i.name).unwrap();
        let sym = i.symbol.as_ref().map(|s| s.1.clone()).unwrap_or_else(|| i.name.clone());
        writeln!(s, "impl std::fmt::Display for {} {{ fn fmt(&self, f__: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ f__.write_str(\"{}\") }} }}", i.name, sym).unwrap();
        for j in ids {
            if j.name != i.name {
                writeln!(s, "impl PartialEq<{}> for {} {{ fn eq(&self, _: &{}) -> bool {{ false }} }}", j.name, i.name, j.name).unwrap();
            }
        }
    }
    s
}

fn identifiers(case: &Case) -> Item {
    let t = &mut Tape::new(&case.head);
    let n = [1, 2, 3, 3, 4, 5, 8, 12][t.below(8)];
    let ids = ids(t, n, true);
    let mut b = String::new();
    let mut evals = 0;
    for i in &ids {
        let sym = i.symbol.as_ref().map(|s| s.1.clone()).unwrap_or_else(|| i.name.clone());
        writeln!(b, "expect({}.to_string(), \"{}\".to_string(), \"the printed form of {}\")?;", i.name, sym, i.name).unwrap();
        writeln!(b, "expect(format!(\"{{}}|{{}}\", {}, {}), \"{}|{}\".to_string(), \"the printed form of {}\")?;", i.name, i.name, sym, sym, i.name).unwrap();
        writeln!(b, "expect(format!(\"{{:?}}\", {}), \"{}\".to_string(), \"the debug form of {}\")?;", i.name, i.name, i.name).unwrap();
        writeln!(b, "{{ let copy = {}; let again = copy; expect(copy == again && copy.clone() == {} && is_identifier(copy), true, \"{} equals its copy\")?; }}", i.name, i.name, i.name).unwrap();
        evals += 4;
        for j in &ids {
            let eq = i.name == j.name;
            writeln!(b, "expect({} == {}, {}, \"{} == {}\")?;", i.name, j.name, eq, i.name, j.name).unwrap();
            writeln!(b, "expect({} != {}, {}, \"{} != {}\")?;", i.name, j.name, !eq, i.name, j.name).unwrap();
            writeln!(b, "expect({}.into_var().contains({}), {}, \"{} contains {}\")?;", i.name, j.name, eq, i.name, j.name).unwrap();
            evals += 3;
        }
    }
    // An operator declared next to them.
    for _ in 0..3 {
        let (i, j, k) = (&ids[t.below(n)].name, &ids[t.below(n)].name, &ids[t.below(n)].name);
        writeln!(b, "expect(Pair__({}.into_var(), {}.into_var()).contains({}), {}, \"an operator of {} and {} contains {}\")?;", i, j, k, k == i || k == j, i, j, k).unwrap();
        evals += 1;
    }
    let pair = "pub struct Pair__<A__, B__>(#[op] pub A__, #[op] pub B__);\nimpl<A__, B__> aegir::Node for Pair__<A__, B__> {}\n";
    Item {
        decls: format!("{}#[derive(Contains)]\n{}", declare(&ids), pair),
        body: b.clone(),
        control: (format!("{}{}impl<T__: Identifier, A__: Contains<T__>, B__: Contains<T__>> Contains<T__> for Pair__<A__, B__> {{ fn contains(&self, t__: T__) -> bool {{ self.0.contains(t__) || self.1.contains(t__) }} }}\n", declare_by_hand(&ids), pair.replace("#[op] ", "")), b),
        nontrivial: ids.len() > 1 && ids.iter().any(|i| i.symbol.is_some()),
        labels: vec![
            format!("{} identifiers", ids.len()),
            format!("symbols with braces: {}", ids.iter().any(|i| i.symbol.as_ref().map(|s| s.0.contains('{') || s.0.contains('}')).unwrap_or(false))),
            format!("names that differ in case only: {}", twins(&ids)),
            format!("names in lower case: {}", ids.iter().any(|i| i.name == i.name.to_lowercase())),
            format!("without symbol: {}", ids.iter().any(|i| i.symbol.is_none())),
        ],
        show: json!({"declaration": declare(&ids)}),
        evals,
    }
}

/// Buffer types: type text, a value, and the text of a uniform structured value.
fn value(kind: usize, t: &mut Tape) -> String {
    let x = |t: &mut Tape| format!("{:?}", t.int() / 4.0);
    let row = |t: &mut Tape, n: usize| format!("[{}]", (0..n).map(|_| x(t)).collect::<Vec<_>>().join(", "));
    match kind {
        0 => format!("{}f64", x(t)),
        1 => format!("({}f64, {}f64)", x(t), x(t)),
        2 => format!("{} as [f64; 2]", row(t, 2)),
        3 => format!("{} as [f64; 3]", row(t, 3)),
        4 => format!("[{}, {}] as [[f64; 3]; 2]", row(t, 3), row(t, 3)),
        5 => {
            let n = t.below(4);
            format!("vec!{} as Vec<f64>", row(t, n))
        },
        6 => format!("{}f32", x(t)),
        _ => format!("[[{}, {}]] as [[[f64; 2]; 2]; 1]", row(t, 2), row(t, 2)),
    }
}

const TYPES: [&str; 8] = ["f64", "(f64, f64)", "[f64; 2]", "[f64; 3]", "[[f64; 3]; 2]", "Vec<f64>", "f32", "[[[f64; 2]; 2]; 1]"];

struct Slot {
    field: String,
    id: String,
    cache: bool,
    kind: usize,
    /// What it holds.
    now: Option<String>,
}

fn contexts(case: &Case) -> Item {
    let t = &mut Tape::new(&case.head);
    let style = t.below(4);
    let n = [1, 2, 3, 2, 4, 5, 7][t.below(7)];
    // More identifiers than fields.
    let ids = ids(t, n + 1, style != 3);
    let mut slots: Vec<Slot> = vec![];
    for i in 0..n {
        let mut field = t.pick(&FIELDS).to_string();
        while slots.iter().any(|s| s.field == field) {
            field = format!("{}{}", field, i);
        }
        let kind = t.below(TYPES.len());
        let cache = style != 3 && t.below(3) == 0;
        let id = ids[i].name.clone();
        if style == 3 {
            field = format!("_{}", id.to_lowercase());
        }
        slots.push(Slot { field, id, cache, kind, now: None });
    }
    for s in slots.iter_mut() {
        if !s.cache || t.below(3) == 0 {
            s.now = Some(value(s.kind, t));
        }
    }
    // The order of declaration is not that of construction.
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, t.below(i + 1));
    }
    let ty = |s: &Slot| if s.cache { format!("Option<{}>", TYPES[s.kind]) } else { TYPES[s.kind].to_string() };
    let init = |s: &Slot| match (&s.now, s.cache) {
        (Some(v), true) => format!("Some({})", v),
        (Some(v), false) => format!("({})", v),
        _ => "None".to_string(),
    };
    let inits = |slots: &[Slot]| order.iter().map(|i| format!("{}: {}", slots[*i].field, init(&slots[*i]))).collect::<Vec<_>>().join(", ");
    let (mut decl, name, mut make);
    // Fields without an identifier, before, between and after the others.
    let mut extras: Vec<(usize, String, &str, &str)> = vec![];
    let mut lifetime = false;
    if style == 2 {
        for k in 0..[0, 1, 1, 2, 3][t.below(5)] {
            let (ty, v) = t.pick(&[("usize", "7"), ("&'a str", "\"tag\""), ("Option<f64>", "Some(2.0)"), ("Vec<f64>", "vec![1.0]"), ("[u8; 3]", "[1, 2, 3]")]);
            lifetime |= ty.contains('\'');
            extras.push((t.below(n + 1), format!("not_bound_{}", k), ty, v));
        }
    }
    let others = extras.iter().map(|e| format!("{}: {}, ", e.1, e.3)).collect::<String>();
    match style {
        0 | 1 => {
            name = t.pick(&["Ctx", "World", "Env_2"]).to_string();
            let fields: Vec<String> = slots.iter().map(|s| format!("{}{}: {}", if s.cache { "cache " } else { "" }, s.field, s.id)).collect();
            decl = format!("ctx_type!({} {{ {}{} }});\n", name, fields.join(", "), if t.flag() { "," } else { "" });
            make = format!("{} {{ {} }}", name, inits(&slots));
        },
        2 => {
            name = "Declared".to_string();
            let generic = t.below(3) == 0;
            let mut fields = String::new();
            // The first field's type may be a parameter, and the second's as well.
            let second = generic && t.flag();
            // An array's extent may be one.
            let extent = t.below(3) == 0 && slots.iter().any(|s| s.kind == 3);
            let put = |fields: &mut String, i: usize, t: &mut Tape| {
                for e in extras.iter().filter(|e| e.0 == i) {
                    let doc = t.pick(&["", "/// Not bound.\n", "#[allow(dead_code)] ", "#[doc(hidden)]\n"]);
                    writeln!(fields, "{}pub {}: {},", doc, e.1, e.2).unwrap();
                }
            };
            for (i, s) in slots.iter().enumerate() {
                put(&mut fields, i, t);
                let doc = t.pick(&["", "/// A field.\n", "#[allow(dead_code)] ", "#[doc = \"A field.\"]\n", "#[cfg(all())]\n", "/** Some\n lines. */ "]);
                let between = t.pick(&["", "", "/// More.\n", "#[allow(unused)] "]);
                let attrs = match (s.cache, t.flag()) {
                    (true, true) => format!("#[cache] {}#[id({})]", between, s.id),
                    (true, false) => format!("#[id({})] {}#[cache]", s.id, between),
                    _ => format!("#[id({}{})]{}", s.id, if t.below(4) == 0 { "," } else { "" }, between),
                };
                let public = t.pick(&["", "pub ", "pub(crate) "]);
                let mut ty = ty(s);
                if generic && i == 0 {
                    ty = ty.replace(TYPES[s.kind], "G");
                } else if second && i == 1 {
                    ty = ty.replace(TYPES[s.kind], "H");
                } else if extent && s.kind == 3 {
                    ty = ty.replace("[f64; 3]", "[f64; N]");
                }
                writeln!(fields, "{}{} {}{}: {}{}", doc, attrs, public, s.field, ty, if i + 1 == n && !extras.iter().any(|e| e.0 == n) && t.flag() { "" } else { "," }).unwrap();
            }
            put(&mut fields, n, t);
            let (mut params, mut clauses) = (vec![], vec![]);
            if lifetime {
                params.push("'a".to_string());
            }
            for p in ["G", "H"].iter().take(generic as usize + (second && n > 1) as usize) {
                if t.flag() {
                    params.push(format!("{}: Clone + Buffer", p));
                } else {
                    params.push(p.to_string());
                    clauses.push(format!("{}: Clone + Buffer", p));
                }
            }
            // The extent occurs unless the only arrays are of parameter type.
            let used = slots.iter().enumerate().any(|(i, s)| s.kind == 3 && !(generic && i == 0) && !(second && i == 1));
            if extent && used {
                params.push("const N: usize".to_string());
            }
            let bounds = (
                if params.is_empty() { String::new() } else { format!("<{}>", params.join(", ")) },
                if clauses.is_empty() { String::new() } else { format!(" where {}{}", clauses.join(", "), if t.flag() { "," } else { "" }) },
            );
            decl = format!("#[derive(Context, Clone)]\npub struct {}{}{} {{\n{}}}\n", name, bounds.0, bounds.1, fields);
            make = format!("{} {{ {}{} }}", name, others, inits(&slots));
        },
        _ => {
            name = "ctx!".to_string();
            decl = String::new();
            make = format!("ctx!{{ {} }}", order.iter().map(|i| format!("{} = {}", slots[*i].id, slots[*i].now.clone().unwrap())).collect::<Vec<_>>().join(", "));
        },
    }
    let shown = format!("{}{}", decl, make);
    let mut b = format!("let mut c = {};\n", make);
    let mut evals = 0;
    fn all(b: &mut String, slots: &[Slot], evals: &mut u64, step: &str) {
        for s in slots {
            let want = match &s.now {
                Some(v) => format!("Some({})", v),
                None => format!("None::<{}>", TYPES[s.kind]),
            };
            writeln!(b, "slot(|c| c.read({}), |c| c.read_spec({}), |c| c.read_shape({}), &c, {}, \"{} {}\")?;", s.id, s.id, s.id, want, s.id, step).unwrap();
            if s.cache {
                writeln!(b, "expect(c.{}.clone(), {}, \"field {} {}\")?;", s.field, want, s.field, step).unwrap();
            } else {
                writeln!(b, "expect(c.{}.clone(), {}, \"field {} {}\")?;", s.field, s.now.as_ref().unwrap(), s.field, step).unwrap();
            }
            writeln!(b, "variable({}.into_var().evaluate(&mut c), {}.into_var().evaluate_spec(&mut c), {}.into_var().evaluate_shape(&mut c), {}, \"{} {}\")?;", s.id, s.id, s.id, want, s.id, step).unwrap();
            *evals += 7;
        }
    }
    all(&mut b, &slots, &mut evals, "first");
    for (k, ins) in case.prog.iter().enumerate() {
        let i = ins[0] as usize % n;
        let draws: Vec<u32> = ins[1..].iter().map(|x| *x as u32 * 40503 + k as u32).chain((0..12).map(|j| (ins[1] as u32).wrapping_mul(2654435761).wrapping_add(j * 977))).collect();
        let d = &mut Tape::new(&draws);
        let s = &mut slots[i];
        let how = d.below(6);
        let v = value(s.kind, d);
        match how {
            0 if s.cache => {
                writeln!(b, "c.{} = None;", s.field).unwrap();
                s.now = None;
            },
            0 | 1 => {
                writeln!(b, "c.{} = {};", s.field, if s.cache { format!("Some({})", v) } else { v.clone() }).unwrap();
                s.now = Some(v);
            },
            2 | 3 => {
                writeln!(b, "c.write({}, {});", s.id, v).unwrap();
                s.now = Some(v);
            },
            4 => {
                writeln!(b, "c.write_spec({}, Spec::Raw({}));", s.id, v).unwrap();
                s.now = Some(v);
            },
            _ => {
                // A uniform value of the given buffer's shape.
                let x = format!("{:?}", d.int());
                let x = if s.kind == 6 { format!("{}f32", x) } else { format!("{}f64", x) };
                writeln!(b, "c.write_spec({}, Spec::Full(({}).shape(), {}));", s.id, v, x).unwrap();
                s.now = Some(format!("Buffer::map({}, |_| {})", v, x));
            },
        }
        all(&mut b, &slots, &mut evals, &format!("after step {}", k + 1));
    }
    for e in &extras {
        writeln!(b, "expect(c.{}.clone(), {}, \"the field without identifier\")?;", e.1, e.3).unwrap();
    }
    b += "expect(std::ptr::eq(c.as_ref(), &c), true, \"the context seen through as_ref\")?;\n";
    b += "let at = &c as *const _;\nexpect(std::ptr::eq(c.as_mut(), at), true, \"the context seen through as_mut\")?;\n";
    evals += 2;
    decl = declare(&ids) + &decl;
    // The control: the identifiers and a context by hand.
    let mut hand = declare_by_hand(&ids);
    writeln!(hand, "pub struct Hand {{ {} }}", slots.iter().map(|s| format!("{}: {}", s.field, ty(s))).collect::<Vec<_>>().join(", ") + &extras.iter().map(|e| format!(", {}: {}", e.1, e.2.replace("'a", "'static"))).collect::<String>()).unwrap();
    hand += "impl AsRef<Self> for Hand { fn as_ref(&self) -> &Self { self } }\nimpl AsMut<Self> for Hand { fn as_mut(&mut self) -> &mut Self { self } }\nimpl aegir::Context for Hand {}\n";
    for s in &slots {
        let (get, set) = if s.cache { (format!("self.{}.clone()", s.field), format!("self.{} = Some(v__)", s.field)) } else { (format!("Some(self.{}.clone())", s.field), format!("self.{} = v__", s.field)) };
        writeln!(hand, "impl aegir::Read<{}> for Hand {{ type Buffer = {}; fn read(&self, _: {}) -> Option<{}> {{ {} }} }}", s.id, TYPES[s.kind], s.id, TYPES[s.kind], get).unwrap();
        writeln!(hand, "impl aegir::Write<{}> for Hand {{ fn write(&mut self, _: {}, v__: {}) {{ {} }} }}", s.id, s.id, TYPES[s.kind], set).unwrap();
    }
    let start = {
        let t = &mut Tape::new(&case.head);
        let _ = t;
        b.find(";\n").unwrap()
    };
    let first = {
        // The same first values.
        let k = make.find('{').unwrap();
        let inner = make[k..].to_string();
        if style == 3 {
            let mut x = inner;
            for s in &slots {
                x = x.replacen(&format!("{} = ", s.id), &format!("{}: ", s.field), 1);
            }
            format!("Hand {}", x)
        } else {
            format!("Hand {}", inner)
        }
    };
    let hand_body = format!("let mut c = {}{}", first, &b[start..]);
    make.clear();
    Item {
        decls: decl,
        body: b,
        control: (hand, hand_body),
        nontrivial: n >= 2,
        labels: vec![
            format!("declared by {}", ["ctx_type!", "ctx_type!", "derive", "ctx!"][style]),
            format!("{} fields", n),
            format!("names that differ in case only: {}", twins(&ids)),
            format!("{} fields without an identifier", extras.len()),
            format!("caches: {}", slots.iter().filter(|s| s.cache).count()),
        ]
        .into_iter()
        .chain(slots.iter().map(|s| format!("{} of {}", if s.cache { "cache" } else { "field" }, TYPES[s.kind])))
        .collect(),
        show: json!({"identifiers": declare(&ids), "context": shown, "name": name, "steps": case.prog.len()}),
        evals,
    }
}

/// The built-in identifiers.
fn builtin(case: &Case) -> Item {
    let t = &mut Tape::new(&case.head);
    let greek = [
        ("Alpha", "α"), ("Beta", "β"), ("Gamma", "γ"), ("Delta", "δ"), ("Epsilon", "ε"), ("Zeta", "ζ"), ("Eta", "η"), ("Theta", "θ"), ("Iota", "ι"), ("Kappa", "κ"),
        ("Lambda", "λ"), ("Mu", "μ"), ("Nu", "ν"), ("Xi", "ξ"), ("Omicron", "ο"), ("Pi", "π"), ("Rho", "ρ"), ("Sigma", "σ"), ("Tau", "τ"), ("Upsilon", "υ"),
        ("Phi", "φ"), ("Chi", "χ"), ("Psi", "ψ"), ("Omega", "ω"),
    ];
    let mut all: Vec<(String, String)> = (b'A'..=b'Z').map(|c| ((c as char).to_string(), (c as char).to_ascii_lowercase().to_string())).collect();
    all.extend(greek.iter().map(|(a, b)| (a.to_string(), b.to_string())));
    // Every letter, and its equality with all the others, in an order of its own.
    let mut b = String::new();
    let shift = t.below(all.len());
    for (k, (n, s)) in all.iter().enumerate() {
        writeln!(b, "expect(aegir::ids::{}.to_string(), \"{}\".to_string(), \"the printed form of {}\")?;", n, s, n).unwrap();
        for step in [0, 1 + shift % (all.len() - 1), 1 + (shift + k) % (all.len() - 1), t.below(all.len())] {
            let (m, _) = &all[(k + step) % all.len()];
            writeln!(b, "expect(aegir::ids::{} == aegir::ids::{}, {}, \"{} == {}\")?;", n, m, m == n, n, m).unwrap();
        }
    }
    Item {
        decls: String::new(),
        body: b,
        control: (String::new(), String::new()),
        nontrivial: true,
        labels: vec!["built-in identifiers".into()],
        show: json!({"built-in": all.len(), "offset": shift}),
        evals: 5 * all.len() as u64,
    }
}

const PRELUDE: &str = r#"
#[macro_use]
extern crate aegir;
pub use aegir::{buffers::{shapes::{Shaped, ShapeOf}, Buffer, IntoSpec, Spec}, Contains, Context, Function, Identifier, Node, Read, Write};
use std::fmt::Debug;

pub fn is_identifier<I: aegir::Identifier + Copy + Eq + Debug>(_: I) -> bool { true }

pub fn expect<T: PartialEq + Debug>(got: T, want: T, what: &str) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{} is {:?} instead of {:?}", what, got, want)) }
}

pub fn slot<C, B: Buffer + PartialEq + Debug>(
    read: impl Fn(&C) -> Option<B>,
    spec: impl Fn(&C) -> Option<Spec<B>>,
    shape: impl Fn(&C) -> Option<ShapeOf<B>>,
    c: &C,
    want: Option<B>,
    what: &str,
) -> Result<(), String> {
    expect(read(c), want.clone(), &format!("what is read for {}", what))?;
    expect(read(c), want.clone(), &format!("what is read again for {}", what))?;
    expect(spec(c).map(|s| s.unwrap()), want.clone(), &format!("the structured value of {}", what))?;
    let (a, b) = (shape(c), want.as_ref().map(|b| b.shape()));
    expect(format!("{:?}", a), format!("{:?}", b), &format!("the shape of {}", what))
}

pub fn variable<B: Buffer + PartialEq + Debug, E: Debug, F: Debug, G: Debug>(
    v: Result<B, E>,
    s: Result<Spec<B>, F>,
    d: Result<ShapeOf<B>, G>,
    want: Option<B>,
    what: &str,
) -> Result<(), String> {
    expect(v.ok(), want.clone(), &format!("the variable's value for {}", what))?;
    expect(s.ok().map(|s| s.unwrap()), want.clone(), &format!("the variable's structured value for {}", what))?;
    let (a, b) = (d.ok(), want.as_ref().map(|b| b.shape()));
    expect(format!("{:?}", a), format!("{:?}", b), &format!("the variable's shape for {}", what))
}
"#;

fn main() {
    main_generated(GenCheck {
        id: "C17",
        rule: "random declarations, compiled and run: up to twelve identifiers (in upper and lower case, some differing in case only) with and without symbols (identifiers, strings with any characters, \
               shared symbols), compared pairwise and printed; contexts declared by ctx_type!, derive(Context) and ctx! with up to seven plain and \
               cache fields of eight buffer types under random field names and orders, followed by random writes of every kind, with every field, \
               value, structured value and shape compared after each step; the built-in letters. Non-trivial: at least two identifiers (one with a \
               symbol) or two fields; distinct by program text.",
        assumptions: vec![
            "identifiers of one ctx! differ in more than upper and lower case (they name the fields)",
            "identifiers do not shadow names of the prelude",
        ],
        prelude: PRELUDE,
        known: vec![],
        subs: vec![
            GenSub { name: "identifiers", quick: 500, thorough: 6_000, head: (20, 60), prog: (1, 1), f: identifiers },
            GenSub { name: "contexts", quick: 500, thorough: 6_000, head: (60, 120), prog: (0, 5), f: contexts },
            GenSub { name: "builtin", quick: 2, thorough: 40, head: (60, 120), prog: (1, 1), f: builtin },
        ],
    })
}
