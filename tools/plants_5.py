O = "aegir/src/ops/"; BF = "aegir/src/buffers/"

plant("c18-constant-scaled", "C18", "aegir/src/dual.rs",
  "        let adjoint = <B::Class as Class<B::Shape>>::full(buffer.shape(), F::zero());\n\n        Dual {\n            value: buffer,",
  "        let adjoint = B::Class::build(buffer.shape(), |ix| buffer.get(ix).map_or_else(F::zero, |v| v * F::zero()));\n\n        Dual {\n            value: buffer,",
  "a constant dual number whose value has infinite entries (or NaN)", "the derivative of a constant is computed as its value times zero, which is NaN for infinite entries",
  '''
fn main() {
    assert_eq!(Dual::constant([1.0f64, 2.0]).adjoint, [0.0, 0.0]);
    assert_eq!(Dual::constant([1.0f64, f64::INFINITY]).adjoint, [0.0, 0.0]);
}''')

plant("c12-diagonal-ends", "C12", BF + "shapes/mod.rs",
  "            Some(ix) => it.all(|jx| ix == jx),", "            Some(ix) => it.last().map_or(true, |jx| ix == jx),",
  "an index of at least three axes whose first and last entries agree and a middle one differs", "an index counts as diagonal when its first and last entries agree",
  '''
fn main() {
    assert!([2usize, 2, 2].is_diagonal());
    assert!(![2usize, 1].is_diagonal());
    assert!(![2usize, 1, 2].is_diagonal());
}''')

plant("c05-diagonal-by-scalar", "C05", BF + "spec.rs",
  "            (lhs, rhs) => lhs.unwrap().zip_map(&rhs.clone().unwrap(), f).map(Spec::Raw),",
  "            (Full(sx, fx), &Diagonal(sy, fy)) if sx.cardinality() == 1 => sx.broadcast(sy).map(|sz| Diagonal(sz, f(fx, fy))),\n\n            (lhs, rhs) => lhs.unwrap().zip_map(&rhs.clone().unwrap(), f).map(Spec::Raw),",
  "a uniform scalar combined with a structural diagonal by a function that does not map (scalar, 0) to 0, such as addition",
  "zipping a scalar with a diagonal keeps the diagonal's zeros", 
  '''
fn main() {
    let s = Spec::<f64>::Full(S0, 3.0);
    let d = Spec::<[[f64; 2]; 2]>::Diagonal(S2, 2.0);
    assert_eq!(s.clone().zip_map(&d, |x, y| x * y).unwrap().unwrap(), [[6.0, 0.0], [0.0, 6.0]]);
    assert_eq!(s.zip_map(&d, |x, y| x + y).unwrap().unwrap(), [[5.0, 3.0], [3.0, 5.0]]);
}''')

plant("c15-bracketed-ends", "C15", "aegir/src/fmt.rs",
  "        if self.needs_wrap {", "        if self.needs_wrap && !(self.text.starts_with(l) && self.text.ends_with(r)) {",
  "an operand that starts and ends with brackets which do not belong together, as in ((x + y) * (x - y)) / z",
  "an operand that begins with ( and ends with ) is not bracketed again",
  '''
fn main() {
    let (p, q, r) = (|| X.into_var().add(Y.into_var()), || Y.into_var().sub(Z.into_var()), || X.into_var().sub(Z.into_var()));
    let l = p().add(q()).sub(r());
    let r = p().add(q().sub(r()));
    assert_ne!(l.to_string(), r.to_string());
}''')

plant("c19-arcsine-clamped", "C19", O + "trig.rs",
  "|x| { x.asin() }", "|x| { x.min(F::one()).max(-F::one()).asin() }",
  "the arc sine outside of its domain", "the argument of the arc sine is clamped into [-1, 1], so that asin(2) is π/2 rather than not a number",
  '''
fn main() {
    let f = |x: f64| trig::ArcSin(X.into_var()).evaluate(ctx!{X = x}).unwrap();
    assert!((f(1.0) - std::f64::consts::FRAC_PI_2).abs() < 1e-12);
    assert!(f(2.0).is_nan());
    assert!(f(-1.0000001).is_nan());
}''')

plant("c19-tanh-linear", "C19", O + "trig.rs",
  "|x| { x.tanh() }", "|x| { if x.abs() < F::from(1e-5).unwrap() { x } else { x.tanh() } }",
  "the hyperbolic tangent of a small argument (the error is x³/3)", "tanh(x) is taken as x below 1e-5",
  '''
fn main() {
    let x = 9e-6f64;
    let y = trig::Tanh(X.into_var()).evaluate(ctx!{X = x}).unwrap();
    let want = x - x.powi(3) / 3.0;
    assert!((y - want).abs() < 1e-19, "{:e} {:e}", y, want);
}''')

plant("c14-dot-of-uniform", "C14", BF + "arrays/contraction_ops.rs",
  "        (Full(_, fx), y) => Ok(Full(S0, y.unwrap().fold(F::zero(), |acc, yi| acc + fx * yi))),",
  "        (Full(_, fx), y) => Ok(Full(S0, fx * y.unwrap().fold(F::zero(), |acc, yi| acc + yi))),",
  "the dot product of a uniform vector and an explicit one whose plain sum leaves the range (or whose products round)",
  "the uniform factor is pulled out of the sum, which overflows although the sum of products does not",
  '''
fn main() {
    let a = || Spec::<[f64; 2]>::Full(S1, 0.25);
    assert_eq!(buffers::contract_spec::<1, _, _>(a(), Spec::Raw([4.0, 8.0])).unwrap().unwrap(), 3.0);
    assert_eq!(buffers::contract_spec::<1, _, _>(a(), Spec::Raw([1.5e308, 1.5e308])).unwrap().unwrap(), 7.5e307);
}''')

plant("c13-dimensions-swapped", "C13", BF + "vecs.rs",
  "                    left: dx,\n                    right: dy,", "                    left: dy,\n                    right: dx,",
  "zipping or folding two vectors of different lengths and reading the error", "the error about incompatible lengths names them the wrong way round",
  '''
fn main() {
    let e = vec![1.0f64, 2.0].zip_fold(&vec![1.0f64, 2.0, 3.0], 0.0, |a, (x, y)| a + x * y).unwrap_err();
    assert_eq!(e.left, SDynamic([2]));
    assert_eq!(e.right, SDynamic([3]));
}''')
