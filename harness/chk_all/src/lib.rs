//! Expressions of every family with their derivative expressions.
use expr::ast::*;
use expr::check::*;
use expr::face::Dyn;
use expr::ids::Tok;
use harness::tape::Tape;

pub const FAMILIES: [Family; 12] = [
    Family::P,
    Family::S1,
    Family::S2,
    Family::S3,
    Family::G(Kind::V2),
    Family::G(Kind::V3),
    Family::G(Kind::M22),
    Family::G(Kind::M23),
    Family::G(Kind::M32),
    Family::G(Kind::M33),
    Family::X(Kind::V2),
    Family::X(Kind::V3),
];

pub const DIFF: [Family; 8] = [
    Family::S1,
    Family::S2,
    Family::S3,
    Family::S1,
    Family::G(Kind::V2),
    Family::G(Kind::V3),
    Family::X(Kind::V2),
    Family::X(Kind::V3),
];

pub const MATRIX: [Family; 4] = [Family::G(Kind::M22), Family::G(Kind::M23), Family::G(Kind::M32), Family::G(Kind::M33)];

/// The library's expression.
pub fn face(f: Family, a: &Ast) -> Dyn {
    match f {
        Family::P => famp::face(a),
        Family::S1 => fams::face1(a),
        Family::S2 => fams::face2(a),
        Family::S3 => fams::face3(a),
        Family::G(Kind::V2) => famg::face_v2(a),
        Family::G(Kind::V3) => famg::face_v3(a),
        Family::G(Kind::M22) => famg::face_m22(a),
        Family::G(Kind::M23) => famg::face_m23(a),
        Family::G(Kind::M32) => famg::face_m32(a),
        Family::G(Kind::M33) => famg::face_m33(a),
        Family::X(Kind::V2) => famx::face_v2(a),
        Family::X(Kind::V3) => famx::face_v3(a),
        _ => unreachable!(),
    }
}

pub struct World {
    pub family: Family,
    pub ast: Ast,
    pub vars: Vars,
    pub node: Dyn,
    /// Variables by which the expression can be differentiated; the last ones do not occur.
    pub targets: Vec<Tok>,
}

/// A generator with its leaves.
pub fn start(family: Family, t: &mut Tape, max: usize) -> Gen {
    let mut g = Gen::new(family, max, if family.order() > 1 { 1e3 } else { 1e4 });
    // Few kinds make deeper expressions.
    if family == Family::P || family == Family::S1 {
        let few: &[&[Kind]] = &[
            &[],
            &[],
            &[Kind::S],
            &[Kind::S, Kind::V2, Kind::M22],
            &[Kind::S, Kind::V3, Kind::M33],
            &[Kind::S, Kind::V2, Kind::V3, Kind::M23, Kind::M32],
            &[Kind::S, Kind::T],
            &[Kind::S, Kind::D],
        ];
        let k = few[t.below(if family == Family::P { 8 } else { 7 })];
        if !k.is_empty() {
            g.kinds = k.to_vec();
        }
    }
    g
}

pub fn targets(g: &mut Gen, t: &mut Tape) -> Vec<Tok> {
    let mut out = vec![];
    for k in g.family.targets() {
        for idx in 0..3 {
            let tok = Tok { kind: k as u8, idx };
            if !g.vars.0.contains_key(&tok) {
                let l = leaf(k, t, 0);
                g.vars.0.insert(tok, l);
            }
            out.push(tok);
        }
    }
    out
}

pub fn finish(mut g: Gen, prog: &[[u16; 6]], t: &mut Tape) -> World {
    let targets = targets(&mut g, t);
    let ast = generate(&mut g, prog, |_| true);
    let node = face(g.family, &ast);
    World { family: g.family, ast, vars: g.vars, node, targets }
}

/// A random well-typed expression inside its domain.
pub fn world(family: Family, prog: &[[u16; 6]], t: &mut Tape, max: usize) -> World {
    let mut g = start(family, t, max);
    g.use_caches = t.below(5) == 0;
    g.pool(t, 2, if g.kinds.len() > 4 { 1 } else { 2 });
    g.mix(t);
    finish(g, prog, t)
}

/// The expression and some of its derivatives, with the variables they were taken by.
pub fn forms(w: &World, t: &mut Tape, max: usize) -> Vec<(Vec<Tok>, Dyn)> {
    let mut out: Vec<(Vec<Tok>, Dyn)> = vec![(vec![], w.node.clone())];
    if w.targets.is_empty() {
        return out;
    }
    let present: Vec<Tok> = w.targets.iter().copied().filter(|x| ids(&w.ast).contains(x)).collect();
    for _ in 0..max {
        let (by, n) = t.pick(&out);
        let tok = if present.is_empty() || t.below(5) == 0 { t.pick(&w.targets) } else { t.pick(&present) };
        if let Some(d) = n.adj(tok) {
            let mut by = by.clone();
            by.push(tok);
            if !out.iter().any(|(b, _)| *b == by) {
                out.push((by, d));
            }
        }
    }
    out
}

/// The name of a derivative.
pub fn title(w: &World, by: &[Tok]) -> String {
    let mut s = show(&w.ast);
    for t in by {
        s = format!("d/d{}[{}]", t, s);
    }
    s
}

/// Disturb a world: variables without a value, dynamic vectors of another length.
pub fn disturb(vars: &mut Vars, t: &mut Tape, missing: usize) -> (Vec<Tok>, bool) {
    let toks: Vec<Tok> = vars.0.keys().copied().collect();
    let mut gone = vec![];
    for _ in 0..missing {
        let k = t.pick(&toks);
        if vars.0.remove(&k).is_some() {
            gone.push(k);
        }
    }
    let mut resized = false;
    for k in toks.iter().filter(|k| Kind::of(k.kind) == Kind::D) {
        if vars.0.contains_key(k) && t.below(3) == 0 {
            let len = t.below(5);
            let l = leaf(Kind::D, t, len);
            resized |= *l.dims() != *vars.0[k].dims();
            vars.0.insert(*k, l);
        }
    }
    gone.sort();
    (gone, resized)
}
