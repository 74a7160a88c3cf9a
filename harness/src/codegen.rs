//! Checks of macros: each generated case is a piece of program text. Cases are compiled in batches against
//! /repo's working tree, run, and shrunk by recompiling smaller candidates.
use crate::runner::{known_lines, rng_seed, seed, str_hash, strategy_of, thorough, verif_dir, Case};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// The text of one case.
#[derive(Clone, Debug)]
pub struct Item {
    /// Items of the case's module.
    pub decls: String,
    /// Statements; failures are `return Err(String)`.
    pub body: String,
    /// The same without what is to be judged: if this does not compile either, the case says nothing.
    pub control: (String, String),
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub show: Value,
    /// Number of assertions.
    pub evals: u64,
}

#[derive(Clone)]
pub struct GenSub {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub head: (usize, usize),
    pub prog: (usize, usize),
    pub f: fn(&Case) -> Item,
}

pub struct GenCheck {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    /// Text at the top of every program.
    pub prelude: &'static str,
    pub subs: Vec<GenSub>,
    /// Recorded findings: key, and a body that fails while it stands.
    pub known: Vec<(&'static str, &'static str)>,
}

#[derive(Clone, Debug, PartialEq)]
enum Outcome {
    Pass,
    Fail(String),
    /// Does not compile, although the control does.
    Compile(String),
}

const BINS: usize = 8;

struct Lab {
    dir: PathBuf,
    prelude: &'static str,
}

fn infra(msg: &str) -> ! {
    eprintln!("error: {}", msg);
    std::process::exit(2)
}

impl Lab {
    fn new(check: &GenCheck) -> Lab {
        let dir = verif_dir().join("target").join("gen").join(check.id);
        std::fs::create_dir_all(dir.join("src")).unwrap();
        std::fs::write(
            dir.join("Cargo.toml"),
            format!(
                "[package]\nname = \"gen-{}\"\nversion = \"0.0.0\"\nedition = \"2021\"\npublish = false\nautobins = false\n\n[workspace]\n\n\
                 [dependencies]\naegir = {{ path = \"/repo/aegir\" }}\npaste = \"1.0\"\n\n[profile.dev]\nopt-level = 0\ndebug = 0\n\n{}",
                check.id.to_lowercase(),
                (0..BINS).map(|b| format!("[[bin]]\nname = \"gen-{}-{}\"\npath = \"src/b{}.rs\"\n\n", check.id.to_lowercase(), b, b)).collect::<String>()
            ),
        )
        .unwrap();
        // The versions that the harness is locked to.
        std::fs::copy(verif_dir().join("harness").join("Cargo.lock"), dir.join("Cargo.lock")).ok();
        Lab { dir, prelude: check.prelude }
    }

    /// Compile the items (text, by number): the messages of those that do not compile.
    fn compile(&self, items: &[(usize, String, String)]) -> BTreeMap<usize, String> {
        let src = self.dir.join("src");
        for e in std::fs::read_dir(&src).unwrap().flatten() {
            std::fs::remove_file(e.path()).ok();
        }
        for (n, decls, body) in items {
            let text = format!(
                "#![allow(warnings)]\nuse super::*;\n{}\npub fn run() -> Result<(), String> {{\n{}\nOk(())\n}}\n",
                decls, body
            );
            std::fs::write(src.join(format!("c{}.rs", n)), text).unwrap();
        }
        for b in 0..BINS {
            let mine: Vec<usize> = items.iter().map(|i| i.0).filter(|n| n % BINS == b).collect();
            let mut t = format!("#![allow(warnings)]\n#![recursion_limit = \"512\"]\n{}\n", self.prelude);
            for n in &mine {
                t += &format!("#[path = \"c{}.rs\"] mod c{};\n", n, n);
            }
            t += "fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n    let run = |n: usize, f: fn() -> Result<(), String>| {\n        println!(\"S {}\", n);\n        \
                  let r = std::panic::catch_unwind(f).unwrap_or_else(|p| Err(format!(\"panicked: {}\", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())));\n        \
                  match r { Ok(()) => println!(\"R {} ok\", n), Err(m) => println!(\"R {} fail {:?}\", n, m) }\n    };\n";
            for n in &mine {
                t += &format!("    run({}, c{}::run);\n", n, n);
            }
            t += "}\n";
            std::fs::write(src.join(format!("b{}.rs", b)), t).unwrap();
        }
        let out = Command::new("cargo")
            .args(["build", "--offline", "--bins", "--keep-going", "--message-format=json", "--manifest-path"])
            .arg(self.dir.join("Cargo.toml"))
            .env("CARGO_TARGET_DIR", verif_dir().join("target"))
            .env("CARGO_INCREMENTAL", "0")
            .stdin(Stdio::null())
            .output()
            .unwrap_or_else(|e| infra(&format!("cargo does not run: {}", e)));
        let mut bad: BTreeMap<usize, String> = BTreeMap::new();
        let mut elsewhere = String::new();
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
            if v["reason"] != "compiler-message" || v["message"]["level"] != "error" {
                continue;
            }
            let m = &v["message"];
            let mut found = false;
            let mut files = vec![];
            fn spans(v: &Value, out: &mut Vec<String>) {
                match v {
                    Value::Object(o) => {
                        if let Some(Value::String(s)) = o.get("file_name") {
                            out.push(s.clone());
                        }
                        o.values().for_each(|x| spans(x, out));
                    },
                    Value::Array(a) => a.iter().for_each(|x| spans(x, out)),
                    _ => {},
                }
            }
            spans(&m["spans"], &mut files);
            spans(&m["children"], &mut files);
            for f in &files {
                let name = f.rsplit('/').next().unwrap_or("");
                if let Some(n) = name.strip_prefix('c').and_then(|x| x.strip_suffix(".rs")).and_then(|x| x.parse::<usize>().ok()) {
                    bad.entry(n).or_insert_with(|| m["message"].as_str().unwrap_or("").to_string());
                    found = true;
                    break;
                }
            }
            if !found {
                elsewhere += m["rendered"].as_str().unwrap_or("");
            }
        }
        if !out.status.success() && bad.is_empty() {
            infra(&format!("the generated programs do not build:\n{}\n{}", elsewhere, String::from_utf8_lossy(&out.stderr)));
        }
        bad
    }

    /// Compile and run: the outcome of each item.
    fn judge(&self, items: &[Item]) -> Vec<Outcome> {
        let mut out: Vec<Outcome> = items.iter().map(|_| Outcome::Pass).collect();
        let mut live: Vec<usize> = (0..items.len()).collect();
        let mut bad: BTreeMap<usize, String> = BTreeMap::new();
        // Errors of one phase hide those of later phases: leave out what fails until the rest compiles.
        loop {
            let texts: Vec<_> = live.iter().map(|n| (*n, items[*n].decls.clone(), items[*n].body.clone())).collect();
            let b = self.compile(&texts);
            if b.is_empty() {
                break;
            }
            live.retain(|n| !b.contains_key(n));
            bad.extend(b);
            if live.is_empty() {
                break;
            }
        }
        if !live.is_empty() {
            for (n, r) in self.run(&live) {
                out[n] = r;
            }
        }
        if !bad.is_empty() {
            // What fails without the macros, too, is no verdict on them.
            let mut controls: Vec<usize> = bad.keys().copied().collect();
            controls.sort_by_key(|n| items[*n].body.len() + items[*n].decls.len());
            controls.truncate(64);
            let texts: Vec<_> = controls.iter().map(|n| (*n, items[*n].control.0.clone(), items[*n].control.1.clone())).collect();
            let b = self.compile(&texts);
            if let Some((n, m)) = b.iter().next() {
                infra(&format!("the control of a case does not compile: {}\n{}\n{}", m, items[*n].control.0, items[*n].control.1));
            }
            for n in controls {
                out[n] = Outcome::Compile(format!("does not compile: {}", bad[&n]));
            }
        }
        out
    }

    fn run(&self, live: &[usize]) -> BTreeMap<usize, Outcome> {
        let mut out = BTreeMap::new();
        let id = self.dir.file_name().unwrap().to_string_lossy().to_lowercase();
        let children: Vec<_> = (0..BINS)
            .map(|b| {
                let log = self.dir.join(format!("out{}", b));
                let f = std::fs::File::create(&log).unwrap();
                let c = Command::new(verif_dir().join("target").join("debug").join(format!("gen-{}-{}", id, b)))
                    .stdin(Stdio::null())
                    .stdout(f)
                    .stderr(Stdio::null())
                    .spawn()
                    .unwrap_or_else(|e| infra(&format!("a generated program does not start: {}", e)));
                (log, c)
            })
            .collect();
        let t0 = Instant::now();
        for (log, mut c) in children {
            let ended = loop {
                if let Some(s) = c.try_wait().unwrap() {
                    break format!("{}", s);
                }
                if t0.elapsed() > Duration::from_secs(60) {
                    c.kill().ok();
                    c.wait().ok();
                    break "it does not end within 60 s".to_string();
                }
                std::thread::sleep(Duration::from_millis(5));
            };
            let mut open = None;
            for l in std::fs::read_to_string(&log).unwrap_or_default().lines() {
                let mut it = l.splitn(4, ' ');
                match (it.next(), it.next().and_then(|n| n.parse::<usize>().ok()), it.next(), it.next()) {
                    (Some("S"), Some(n), _, _) => open = Some(n),
                    (Some("R"), Some(n), Some("ok"), _) => {
                        out.insert(n, Outcome::Pass);
                        open = None;
                    },
                    (Some("R"), Some(n), Some("fail"), Some(m)) => {
                        out.insert(n, Outcome::Fail(m.trim_matches('"').to_string()));
                        open = None;
                    },
                    _ => {},
                }
            }
            if let Some(n) = open {
                out.insert(n, Outcome::Fail(format!("the program ends: {}", ended)));
            }
        }
        for n in live {
            if !out.contains_key(n) {
                // After a crash in the same program.
                out.insert(*n, Outcome::Pass);
            }
        }
        out
    }
}

/// Smaller cases.
fn smaller(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    let n = c.prog.len();
    for k in [n / 2, n.saturating_sub(4), n.saturating_sub(2), n.saturating_sub(1)] {
        if k < n {
            out.push(Case { head: c.head.clone(), prog: c.prog[..k].to_vec() });
            out.push(Case { head: c.head.clone(), prog: c.prog[n - k..].to_vec() });
        }
    }
    for i in 0..n.min(16) {
        let mut p = c.prog.clone();
        p.remove(i);
        out.push(Case { head: c.head.clone(), prog: p });
    }
    for i in 0..n.min(16) {
        for j in 0..6 {
            if c.prog[i][j] != 0 {
                let mut p = c.prog.clone();
                p[i][j] = 0;
                out.push(Case { head: c.head.clone(), prog: p });
            }
        }
    }
    let m = c.head.len();
    for k in [m / 2, m.saturating_sub(1)] {
        if k < m {
            out.push(Case { head: c.head[..k].to_vec(), prog: c.prog.clone() });
        }
    }
    for i in 0..m {
        for x in [0, c.head[i] / 2] {
            if c.head[i] != x {
                let mut h = c.head.clone();
                h[i] = x;
                out.push(Case { head: h, prog: c.prog.clone() });
            }
        }
    }
    out
}

fn weight(i: &Item) -> (usize, usize) { (i.body.len() + i.decls.len(), i.evals as usize) }

/// Shrink a failing case by compiling batches of smaller ones.
fn shrink(lab: &Lab, sub: &GenSub, case: Case, what: Outcome) -> (Case, Outcome) {
    let (mut best, mut item, mut what) = (case.clone(), (sub.f)(&case), what);
    let t0 = Instant::now();
    for _ in 0..12 {
        if t0.elapsed() > Duration::from_secs(120) {
            break;
        }
        let mut seen = HashSet::new();
        let mut cands: Vec<(Case, Item)> = smaller(&best)
            .into_iter()
            .map(|c| {
                let i = (sub.f)(&c);
                (c, i)
            })
            .filter(|(_, i)| weight(i) < weight(&item) && seen.insert(i.decls.clone() + &i.body))
            .collect();
        cands.sort_by_key(|(_, i)| weight(i));
        cands.truncate(96);
        if cands.is_empty() {
            break;
        }
        let items: Vec<Item> = cands.iter().map(|c| c.1.clone()).collect();
        let r = lab.judge(&items);
        match r.iter().position(|o| *o != Outcome::Pass) {
            Some(k) => {
                best = cands[k].0.clone();
                item = cands[k].1.clone();
                what = r[k].clone();
            },
            None => break,
        }
    }
    (best, what)
}

fn text(o: &Outcome) -> String {
    match o {
        Outcome::Pass => "passes".into(),
        Outcome::Fail(m) | Outcome::Compile(m) => m.clone(),
    }
}

pub fn main_generated(check: GenCheck) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("replay") => replay(&check, args.get(2).expect("replay FILE")),
        Some("gen") => {
            let sub = check.subs.iter().find(|s| Some(&s.name.to_string()) == args.get(2)).expect("gen SUB");
            for c in cases(&check, sub, 0, 10) {
                let i = (sub.f)(&c);
                println!("{}\n{}\n{}\n---", i.show, i.decls, i.body);
            }
            0
        },
        _ => run(&check),
    };
    std::process::exit(code)
}

fn cases(check: &GenCheck, sub: &GenSub, round: usize, n: usize) -> Vec<Case> {
    let s = rng_seed(&[seed(), str_hash(check.id), str_hash(sub.name), round as u64]);
    let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &s));
    let st = strategy_of(sub.head, sub.prog);
    (0..n).map(|_| st.new_tree(&mut r).unwrap().current()).collect()
}

fn run(check: &GenCheck) -> i32 {
    let t0 = Instant::now();
    let deep = thorough();
    let scale: f64 = std::env::var("HARNESS_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let lab = Lab::new(check);
    let mut evals = 0u64;
    let mut distinct: BTreeSet<String> = BTreeSet::new();
    let mut samples = vec![];
    let mut labels: BTreeMap<&'static str, BTreeMap<String, u64>> = BTreeMap::new();
    let mut counts: BTreeMap<&'static str, (u64, u64, u64)> = BTreeMap::new();
    let (mut violation, mut unlisted) = (None, 0);
    let rounds = if deep { 20 } else { 1 };
    'rounds: for round in 0..rounds {
        let mut work: Vec<(usize, Case, Item)> = vec![];
        for (k, sub) in check.subs.iter().enumerate() {
            let total = ((if deep { sub.thorough } else { sub.quick }) as f64 * scale).max(1.0) as usize;
            let n = total / rounds + usize::from(round < total % rounds);
            for c in cases(check, sub, round, n) {
                let i = (sub.f)(&c);
                work.push((k, c, i));
            }
        }
        let mut items: Vec<Item> = work.iter().map(|w| w.2.clone()).collect();
        if round == 0 {
            items.extend(check.known.iter().map(|(_, body)| Item {
                decls: String::new(),
                body: body.to_string(),
                control: (String::new(), String::new()),
                nontrivial: false,
                labels: vec![],
                show: Value::Null,
                evals: 0,
            }));
        }
        let r = lab.judge(&items);
        if round == 0 {
            let listed = known_lines(check.id);
            for ((key, body), o) in check.known.iter().zip(&r[work.len()..]).filter(|(_, o)| **o != Outcome::Pass) {
                match listed.iter().find(|(k, _)| k == key) {
                    Some((_, what)) => println!("KNOWN-FINDING: property={} {} [{}]", check.id, what, text(o)),
                    None => {
                        let path = verif_dir().join("evidence").join("replay").join(format!("{}-known.json", check.id));
                        std::fs::create_dir_all(path.parent().unwrap()).ok();
                        std::fs::write(&path, json!({"property": check.id, "finding": key, "program": body, "message": text(o)}).to_string()).unwrap();
                        println!("unlisted finding {}: {}", key, text(o));
                        println!("VIOLATION property={} replay={}", check.id, path.display());
                        unlisted += 1;
                    },
                }
            }
        }
        for ((k, case, item), o) in work.iter().zip(&r) {
            let name = check.subs[*k].name;
            evals += item.evals;
            let c = counts.entry(name).or_default();
            c.0 += item.evals;
            c.2 += 1;
            if item.nontrivial && distinct.insert(format!("{}\n{}", item.decls, item.body)) {
                c.1 += 1;
            }
            for l in &item.labels {
                *labels.entry(name).or_default().entry(l.clone()).or_default() += 1;
            }
            if c.2 <= 3 || (c.2 % 211 == 0 && samples.len() < 16) {
                samples.push(json!({"check": name, "case": item.show}));
            }
            if *o != Outcome::Pass && violation.is_none() {
                violation = Some((*k, case.clone(), o.clone()));
            }
        }
        if violation.is_some() {
            break 'rounds;
        }
    }
    let mut violations = 0;
    if let Some((k, case, o)) = violation {
        let sub = &check.subs[k];
        let (case, o) = shrink(&lab, sub, case, o);
        let item = (sub.f)(&case);
        let dir = verif_dir().join("evidence").join("replay");
        std::fs::create_dir_all(&dir).ok();
        let path = dir.join(format!("{}.json", check.id));
        let body = json!({"property": check.id, "sub": sub.name, "case": case.to_json(), "seed": seed(), "message": text(&o),
            "description": item.show, "program": {"items": item.decls, "body": item.body}});
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
        println!("case: {}", item.show);
        println!("{} [{}]: {}", check.id, sub.name, text(&o));
        println!("VIOLATION property={} replay={}", check.id, path.display());
        violations = 1;
    }
    let per: serde_json::Map<String, Value> = counts
        .iter()
        .map(|(n, c)| {
            (
                n.to_string(),
                json!({"evaluations": c.0, "distinct_nontrivial": c.1, "programs": c.2, "classes": labels.get(n)}),
            )
        })
        .collect();
    let evidence = json!({
        "property": check.id,
        "tier": if deep { "thorough" } else { "quick" },
        "seed": seed() as i64,
        "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": distinct.len(), "rule": check.rule, "samples": samples, "per_check": per},
        "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let path = verif_dir().join("evidence").join(format!("{}.json", check.id));
    std::fs::create_dir_all(path.parent().unwrap()).ok();
    std::fs::write(&path, serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
    println!("{}: {} evaluations, {} distinct non-trivial, {} violation(s), {:.1}s", check.id, evals, distinct.len(), violations, t0.elapsed().as_secs_f64());
    (violations + unlisted).min(1)
}

fn replay(check: &GenCheck, path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay json");
    if let Some(key) = v["finding"].as_str() {
        println!("finding {}: {}\n{}", key, v["message"], v["program"].as_str().unwrap_or(""));
        return 1;
    }
    let sub = check.subs.iter().find(|s| v["sub"] == s.name).expect("unknown check name");
    let item = (sub.f)(&Case::from_json(&v["case"]));
    println!("case: {}", serde_json::to_string_pretty(&item.show).unwrap());
    println!("{}\n{}", item.decls, item.body);
    let o = Lab::new(check).judge(&[item]).remove(0);
    println!("{} [{}]: {}", check.id, sub.name, text(&o));
    if o == Outcome::Pass {
        return 0;
    }
    println!("VIOLATION property={} replay={}", check.id, path);
    1
}
