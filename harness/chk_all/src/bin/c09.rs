//! C09: caching is transparent and computes at most once per cache fill.
use chk_all::*;
use expr::ast::*;
use expr::check::*;
use expr::erase::EErr;
use expr::face::{Dyn, Out};
use expr::ids::{Ctx, Tok, CACHE};
use expr::num::Ball;
use harness::tape::Tape;
use harness::{main_check, Case, Check, Stats, Sub};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

type R = Result<(), String>;
type Slots = BTreeMap<Tok, Leaf>;

fn same(a: &Result<Out, EErr>, b: &Result<Out, EErr>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x.same(y),
        (Err(x), Err(y)) => x.dbg == y.dbg && x.disp == y.disp,
        _ => false,
    }
}

/// The expression without caches.
fn strip(a: &Ast) -> Ast {
    if let Op::Cached(_) = a.op {
        return strip(&a.args[0]);
    }
    mk(a.op.clone(), a.kind, a.args.iter().map(strip).collect(), a.meth)
}

fn slot_of(a: &Ast) -> Option<Tok> {
    match a.op {
        Op::Cached(i) => Some(Tok { kind: CACHE + a.kind as u8, idx: i }),
        _ => None,
    }
}

fn cached_nodes(a: &Ast) -> Vec<(Tok, String)> {
    let mut out = vec![];
    census(a, &mut |x| out.extend(slot_of(x).map(|s| (s, show(x)))));
    out
}

struct Model<'a> {
    family: Family,
    vars: &'a Vars,
    slots: Slots,
    /// How often each variable was read while filling slots.
    reads: BTreeMap<Tok, u32>,
    fills: u64,
}

impl Model<'_> {
    /// What evaluating means: each cached expression becomes the stored value, or the value that is stored.
    fn resolve(&mut self, a: &Ast) -> Ast {
        let Some(slot) = slot_of(a) else {
            return mk(a.op.clone(), a.kind, a.args.iter().map(|x| self.resolve(x)).collect(), a.meth);
        };
        if let Some(l) = self.slots.get(&slot) {
            return mk(Op::Const(l.clone()), a.kind, vec![], false);
        }
        let inner = self.resolve(&a.args[0]);
        let mut c = self.vars.ctx();
        match face(self.family, &inner).ev(&mut c) {
            Ok(v) => {
                for t in self.vars.0.keys() {
                    *self.reads.entry(*t).or_default() += c.hits(*t);
                }
                let l = Leaf::Raw(v.dims, v.xs);
                self.fills += 1;
                self.slots.insert(slot, l.clone());
                mk(Op::Const(l), a.kind, vec![], false)
            },
            Err(_) => inner,
        }
    }
}

/// The slots of a context.
fn slots(c: &Ctx) -> Vec<(Tok, expr::ids::Seen)> { c.all().into_iter().filter(|(t, _)| t.kind >= CACHE).collect() }

fn seen(l: Option<&Leaf>) -> expr::ids::Seen { l.map(|l| ('R', l.dims().clone(), l.flat().iter().map(|x| x.to_bits()).collect())) }

/// Equal as stored values: bit for bit, but for the bits of NaNs.
fn holds(s: &expr::ids::Seen, l: Option<&Leaf>) -> bool {
    match (s, &seen(l)) {
        (None, None) => true,
        (Some((a, b, c)), Some((x, y, z))) => {
            a == x && b == y && c.len() == z.len() && c.iter().zip(z).all(|(p, q)| p == q || (f64::from_bits(*p).is_nan() && f64::from_bits(*q).is_nan()))
        },
        _ => false,
    }
}

struct Play<'a> {
    family: Family,
    vars: Vars,
    ctx: Ctx,
    slots: Slots,
    log: Vec<String>,
    /// The variables that occur in exactly one place, inside of a cached expression.
    markers: Vec<Tok>,
    st: &'a mut Stats,
    filled: bool,
    reused: bool,
    /// Different expressions use the same slot: what is stored depends on every step of the evaluation.
    shared: bool,
}

impl Play<'_> {
    fn value(&mut self, name: &str, ast: &Ast, node: &Dyn, how: usize, top: bool) -> R {
        self.log.push(format!("{} of {}", ["value", "value with an owned context", "structured value", "shape"][how], name));
        let mut m = Model { family: self.family, vars: &self.vars, slots: self.slots.clone(), reads: BTreeMap::new(), fills: 0 };
        let want_ast = m.resolve(ast);
        let (would, reads, fills) = (m.slots, m.reads, m.fills);
        let want_node = face(self.family, &want_ast);
        let mut scratch = self.vars.ctx();
        let want = want_node.ev(&mut scratch);
        let extra: BTreeMap<Tok, u32> = self.markers.iter().map(|t| (*t, scratch.hits(*t))).collect();
        let vars_before: Vec<_> = self.ctx.all().into_iter().filter(|(t, _)| t.kind < CACHE).collect();
        let hits: BTreeMap<Tok, u32> = self.markers.iter().map(|t| (*t, self.ctx.hits(*t))).collect();
        let describe = || format!("{} = {}, with {} and slots {:?}, after: {}", name, show(ast), self.vars.show(), self.slots, self.log.join("; "));
        let mut ctx = self.ctx.clone();
        let (got, exact): (Result<Out, EErr>, bool) = match how {
            0 => (node.ev(&mut ctx), true),
            1 => {
                // The owned context is gone afterwards: the borrowed one tells what was stored.
                let a = node.ev_owned(self.ctx.clone());
                let b = node.ev(&mut ctx);
                if !same(&a, &b) {
                    return Err(format!("the value is {:?} with an owned context and {:?} with a borrowed one: {}", a, b, describe()));
                }
                (b, true)
            },
            2 => (node.ev_spec(&mut ctx).map(|s| s.out), false),
            _ => (node.ev_shape(&mut ctx).map(|d| Out { dims: d, xs: vec![] }), false),
        };
        self.st.eval();
        match (&got, &want) {
            (Ok(g), Ok(w)) if how == 3 => {
                if g.dims != w.dims {
                    return Err(format!("the shape is {:?} instead of {:?}: {}", g.dims, w.dims, describe()));
                }
            },
            (Ok(g), Ok(w)) => {
                let mut ok = Some(g.same(w));
                if ok == Some(false) && (!exact || !top) {
                    let mut env = self.vars.env::<Ball>();
                    ok = alike(g, w, || eval(&want_ast, &mut env).ok().map(|v| v.xs));
                }
                if ok == Some(false) {
                    return Err(format!("the value is {:?} instead of {:?}: {}", g, w, describe()));
                }
            },
            // Shapes may be inferred without evaluating.
            (Ok(_), Err(_)) if how == 3 => {},
            (Err(_), Err(_)) => self.st.label("failing evaluation"),
            (g, w) => return Err(format!("the result is {:?} instead of {:?}: {}", g, w, describe())),
        }
        // What was stored.
        for (t, s) in slots(&ctx) {
            let (old, new) = (self.slots.get(&t), would.get(&t));
            let ok = if exact && want.is_ok() { holds(&s, new) } else { holds(&s, old) || holds(&s, new) };
            if !ok && !(self.shared && want.is_err()) {
                return Err(format!("slot {} holds {:?} instead of {:?}: {}", t, s, seen(new), describe()));
            }
            if new.is_some() && old.is_none() && holds(&s, new) {
                self.filled = true;
            }
            if want.is_err() && new.is_none() && old.is_none() && ids(ast).contains(&t) {
                self.st.label("a failure left a slot empty");
            }
        }
        // A fill is one write, and a filled slot is not written.
        if want.is_ok() && how < 2 {
            let n = ctx.writes - self.ctx.writes;
            if n != fills {
                return Err(format!("slots were written {} times instead of {}: {}", n, fills, describe()));
            }
        }
        let now: Vec<_> = ctx.all().into_iter().filter(|(t, _)| t.kind < CACHE).collect();
        if now != vars_before {
            return Err(format!("a variable was changed: {}", describe()));
        }
        // How often the inner expressions were evaluated.
        if want.is_ok() {
            for t in &self.markers {
                let (n, max) = (ctx.hits(*t) - hits[t], reads.get(t).copied().unwrap_or(0) + extra[t]);
                if n > max || (how < 2 && n < max) {
                    return Err(format!("{} was read {} times instead of {}: {}", t, n, max, describe()));
                }
                if ids(ast).contains(t) && n == 0 && how < 2 {
                    self.reused = true;
                }
            }
        }
        // Continue with what is stored now.
        if self.shared && want.is_err() {
            ctx.clear_caches();
            self.slots.clear();
            self.log.push("empty all".into());
        }
        self.slots = self
            .slots
            .keys()
            .chain(would.keys())
            .copied()
            .collect::<BTreeSet<Tok>>()
            .into_iter()
            .filter_map(|t| {
                let s = ctx.seen(t);
                let l = [would.get(&t), self.slots.get(&t)].into_iter().flatten().find(|l| holds(&s, Some(l)));
                l.map(|l| (t, l.clone()))
            })
            .collect();
        self.ctx = ctx;
        Ok(())
    }

    /// Derivatives, in a context whose filled slots (if any) hold the right values.
    fn derivative(&mut self, name: &str, ast: &Ast, node: &Dyn, t: Tok, dual: bool) -> R {
        let plain = strip(ast);
        let Some(d) = node.adj(t) else { return Ok(()) };
        self.log.push(format!("derivative of {} by {}", name, t));
        let describe = || format!("{} = {}, with {} and slots {:?}, after: {}", name, show(ast), self.vars.show(), self.slots, self.log.join("; "));
        let mut m = Model { family: self.family, vars: &self.vars, slots: Slots::new(), reads: BTreeMap::new(), fills: 0 };
        m.resolve(ast);
        let right = m.slots;
        // Slots with other contents do not count here.
        let mut c = self.vars.ctx();
        for (k, l) in &self.slots {
            if holds(&seen(right.get(k)), Some(l)) {
                set(&mut c, *k, l);
            }
        }
        let before = c.clone();
        let base = face(self.family, &plain);
        let want = base.adj(t).unwrap().ev(&mut self.vars.ctx());
        let wantv = base.ev(&mut self.vars.ctx());
        let check = |what: &str, got: &Result<Out, EErr>, want: &Result<Out, EErr>, by: &[Tok]| -> R {
            let ok = match (got, want) {
                (Ok(g), Ok(w)) => alike(g, w, || expected(&plain, &self.vars, by).ok().map(|e| e.1)) != Some(false),
                (Err(_), Err(_)) => true,
                _ => false,
            };
            if ok { Ok(()) } else { Err(format!("the {} by {} is {:?} instead of {:?} as without caches: {}", what, t, got, want, describe())) }
        };
        self.st.eval();
        if dual {
            match (node.ev_dual(t, &mut c).unwrap(), &wantv, &want) {
                (Ok((a, b)), Ok(_), Ok(_)) => {
                    check("dual's value", &Ok(a), &wantv, &[])?;
                    check("dual's adjoint", &Ok(b), &want, &[t])?;
                },
                (Err(e), Ok(_), Ok(_)) => return Err(format!("the dual by {} fails with {:?}: {}", t, e, describe())),
                (Ok(x), _, _) => return Err(format!("the dual by {} is {:?}, but the expression without caches fails: {}", t, x, describe())),
                _ => {},
            }
        } else {
            check("derivative", &d.ev(&mut c), &want, &[t])?;
            check("direct derivative", &node.ev_adj(t, &mut before.clone()).unwrap(), &want, &[t])?;
        }
        for (k, s) in slots(&c) {
            if s != before.seen(k) && !holds(&s, right.get(&k)) {
                return Err(format!("after the derivative by {}, slot {} holds {:?} instead of {:?}: {}", t, k, s, seen(right.get(&k)), describe()));
            }
        }
        let rest = |c: &Ctx| c.all().into_iter().filter(|(t, _)| t.kind < CACHE).collect::<Vec<_>>();
        if rest(&c) != rest(&before) {
            return Err(format!("a variable was changed: {}", describe()));
        }
        // A cached expression whose slot holds anything at all: the derivative is that of the inner expression.
        if let (Some(slot), true) = (slot_of(ast), plain.size + 1 == ast.size) {
            if let Some(l) = self.slots.get(&slot) {
                let mut c = self.vars.ctx();
                set(&mut c, slot, l);
                let r = node.adj(t).unwrap().ev(&mut c);
                check("derivative with a filled slot", &r, &want, &[t])?;
                if !holds(&c.seen(slot), Some(l)) {
                    return Err(format!("the derivative by {} has changed the filled slot {}: {}", t, slot, describe()));
                }
            }
        }
        Ok(())
    }
}

fn run(case: &Case, st: &mut Stats, t: &mut Tape, family: Family, max: usize) -> R {
    let mut g = start(family, t, max);
    g.kinds.retain(|k| *k != Kind::T || t.below(4) == 0);
    g.pool(t, 1, 1);
    g.mix(t);
    // Cached expressions, each of them with a variable of its own where the types allow it; some slots are shared.
    let cut = case.prog.len() / 2;
    let cached = 1 + t.below(3);
    let mut names: Vec<(String, Ast)> = vec![];
    let mut markers = vec![];
    let mut next = [0u8; 9];
    for j in 0..cached {
        for ins in case.prog[..cut].iter().skip(j).step_by(cached) {
            g.step(ins);
        }
        let n = g.regs.len();
        let pick = if t.flag() { n - 1 } else { t.below(n) };
        let marker = Tok { kind: 0, idx: 1 + j as u8 };
        let l = Leaf::Raw(vec![], vec![0.5 + (t.below(20) as f64) / 8.0]);
        g.var(Kind::S, marker.idx, l);
        let m = g.regs.len() - 1;
        let op = t.pick(&[Op::Mul, Op::Add, Op::Sub, Op::C0, Op::Div]);
        let done = if t.flag() { g.apply(&op, m, pick) } else { g.apply(&op, pick, m) } || g.apply(&Op::C0, m, pick) || g.apply(&Op::C0, pick, m);
        let inner = if done { g.regs.pop().unwrap() } else { Reg { ast: g.regs[pick].ast.clone(), val: g.regs[pick].val.clone() } };
        g.regs.remove(m);
        if done {
            markers.push(marker);
        }
        let k = inner.ast.kind;
        let slot = if next[k as usize] > 0 && t.below(8) == 0 {
            t.below(next[k as usize] as usize) as u8
        } else {
            next[k as usize] += 1;
            next[k as usize] - 1
        };
        let ast = mk(Op::Cached(slot), k, vec![inner.ast.clone()], t.flag());
        names.push((format!("inner{}", j), inner.ast));
        names.push((format!("cached{}", j), ast.clone()));
        g.regs.push(Reg { ast, val: inner.val });
    }
    // Expressions that use them, several times and without.
    for ins in &case.prog[cut..] {
        g.step(ins);
    }
    let has_cache = |a: &Ast| ids(a).iter().any(|k| k.kind >= CACHE);
    let mut tops: Vec<Ast> = g.regs.iter().map(|r| r.ast.clone()).filter(|a| has_cache(a)).collect();
    tops.sort_by_key(|a| std::cmp::Reverse(a.size));
    for (i, a) in tops.iter().take(3).enumerate() {
        names.push((format!("top{}", i), a.clone()));
    }
    let mut known: Vec<(String, Ast, Dyn)> = names.into_iter().map(|(n, a)| (n, a.clone(), face(family, &a))).collect();
    // Mostly, what uses caches.
    known.retain(|(n, _, _)| !n.starts_with("inner") || t.below(3) == 0);
    describe(st, &tops[0]);
    let targets: Vec<Tok> = g.vars.0.keys().copied().filter(|k| family.targets().iter().any(|x| *x as u8 == k.kind)).collect();
    let original = g.vars.clone();
    let toks: Vec<Tok> = original.0.keys().copied().collect();
    let all_slots: Vec<Tok> = known.iter().filter_map(|(_, a, _)| slot_of(a)).collect();
    let by_slot: BTreeSet<(Tok, String)> = known.iter().flat_map(|(_, a, _)| cached_nodes(a)).collect();
    let shared = by_slot.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() < by_slot.len();
    if shared {
        st.label("a slot is shared by different expressions");
    }
    let ctx = g.vars.ctx();
    let mut p = Play { family, vars: g.vars, ctx, slots: Slots::new(), log: vec![], markers, st, filled: false, reused: false, shared };
    let steps = 3 + t.below(8);
    for _ in 0..steps {
        match t.below(16) {
            0 => {
                let tok = t.pick(&toks);
                p.vars.0.remove(&tok);
                p.ctx.unset(tok);
                p.log.push(format!("unset {}", tok));
            },
            1 | 2 => {
                let tok = t.pick(&toks);
                let len = if t.below(4) == 0 { t.below(4) } else { original.0[&tok].dims().first().copied().unwrap_or(1) };
                let l = if t.flag() { original.0[&tok].clone() } else { leaf(Kind::of(tok.kind), t, len) };
                set(&mut p.ctx, tok, &l);
                p.log.push(format!("{} = {}", tok, l.show()));
                p.vars.0.insert(tok, l);
            },
            3 | 4 if !all_slots.is_empty() => {
                let s = t.pick(&all_slots);
                p.ctx.unset(s);
                p.slots.remove(&s);
                p.log.push(format!("empty {}", s));
            },
            5 if !all_slots.is_empty() => {
                let s = t.pick(&all_slots);
                let len = original.0.iter().find(|(k, _)| k.kind == 8).map(|(_, l)| l.dims()[0]).unwrap_or(1);
                let l = leaf(Kind::of(s.kind - CACHE), t, len).raw();
                set(&mut p.ctx, s, &l);
                p.log.push(format!("{} = {}", s, l.show()));
                p.slots.insert(s, l);
            },
            6 => {
                for (k, l) in &original.0 {
                    set(&mut p.ctx, *k, l);
                }
                p.vars = original.clone();
                p.log.push("first values".into());
            },
            7 | 8 if !targets.is_empty() && !p.shared => {
                let (n, a, f) = t.pick(&known);
                let k = t.pick(&targets);
                if p.vars.0.contains_key(&k) {
                    let dual = t.flag();
                    p.derivative(&n, &a, &f, k, dual)?;
                }
            },
            _ => {
                let (n, a, f) = t.pick(&known);
                let how = t.pick(if p.shared { &[0, 0, 0, 0, 0, 0, 1] } else { &[0, 0, 0, 0, 1, 2, 3] });
                let top = slot_of(&a).is_some();
                p.value(&n, &a, &f, how, top)?;
            },
        }
    }
    // Without values in the slots, the results are those without caches.
    p.ctx.clear_caches();
    p.slots.clear();
    p.log.push("empty all".into());
    for (n, a, f) in &known {
        let got = f.ev(&mut p.ctx.clone());
        let want = face(family, &strip(a)).ev(&mut p.vars.ctx());
        p.st.eval();
        if shared {
            continue;
        }
        let ok = match (&got, &want) {
            (Ok(g), Ok(w)) => alike(g, w, || eval(&strip(a), &mut p.vars.env::<Ball>()).ok().map(|v| v.xs)) != Some(false),
            (Err(g), Err(w)) => g.disp == w.disp,
            _ => false,
        };
        if !ok {
            return Err(format!("{} = {} is {:?} instead of {:?} as without caches, with {}", n, show(a), got, want, p.vars.show()));
        }
    }
    if p.filled && p.reused {
        p.st.nontrivial(&(p.log.join(";"), show(&tops[0]), original.show()));
    }
    p.st.label(format!("{} cached expressions", cached));
    let log = p.log.join("; ");
    p.st.sample(|| json!({"expressions": known.iter().map(|(n, a, _)| format!("{} = {}", n, show(a))).collect::<Vec<_>>(), "variables": original.show(), "history": log}));
    Ok(())
}

fn plain(case: &Case, st: &mut Stats) -> R { run(case, st, &mut Tape::new(&case.head), Family::P, 40) }
fn derivatives(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let f = t.pick(&DIFF);
    run(case, st, t, f, if f.order() > 1 { 16 } else { 30 })
}
fn matrix(case: &Case, st: &mut Stats) -> R {
    let t = &mut Tape::new(&case.head);
    let f = t.pick(&MATRIX);
    run(case, st, t, f, 16)
}

fn main() {
    main_check(Check {
        id: "C09",
        rule: "random expressions with one to three cached subexpressions (nested, shared and repeated, over every buffer type) under histories of \
               evaluations (value, owned context, structured value, shape, derivative, dual), assignments, removals and direct writes of slots, \
               against a model that replaces each cached expression by its slot's content or by the value of the inner expression evaluated \
               without caches; counting variables inside the cached expressions tell how often they were evaluated. Non-trivial: a slot was \
               filled by an evaluation and a later one used it without evaluating; distinct by history, expression and data.",
        assumptions: vec![
            "when an evaluation fails, or only asks for structure or shape, a slot may or may not be filled, but only with the right value",
            "derivatives are compared where filled slots hold the right values, and for a cached expression itself with any content",
        ],
        subs: vec![
            Sub { name: "plain", quick: 60_000, thorough: 2_000_000, head: (80, 300), prog: (2, 14), f: plain },
            Sub { name: "derivatives", quick: 60_000, thorough: 2_000_000, head: (80, 300), prog: (2, 12), f: derivatives },
            Sub { name: "matrix", quick: 15_000, thorough: 500_000, head: (80, 300), prog: (2, 10), f: matrix },
        ],
        known: vec![],
    })
}
