U = "aegir/src/ops/arithmetic/unary.rs"; B = "aegir/src/ops/arithmetic/binary.rs"; O = "aegir/src/ops/"
M = "aegir/src/meta/"; BF = "aegir/src/buffers/"; SH = BF + "shapes/"; D = "aegir_derive/src/"; L = "aegir/src/lib.rs"

plant("c03-logistic-turn", "C03", O + "sigmoid.rs",
'''    type Adjoint = Mul<OneSub<Double<N>>, N::Adjoint>;

    fn adjoint(&self, target: I) -> Self::Adjoint {
        OneSub(Double(self.0.clone())).mul(self.0.adjoint(target))
''',
'''    type Adjoint = Mul<crate::ops::SubOne<Double<N>>, N::Adjoint>;

    fn adjoint(&self, target: I) -> Self::Adjoint {
        crate::ops::SubOne(Double(self.0.clone())).mul(self.0.adjoint(target))
''',
  "the second derivative of the logistic function anywhere but at its turning point",
  "the slope of x (1 - x), which is the derivative of the logistic function, has the wrong sign: first derivatives of the logistic function stay right",
  '''
fn main() {
    let f = X.into_var().sigmoid();
    let x = 1.3f64;
    let s = 1.0 / (1.0 + (-x).exp());
    let g = f.adjoint(X);
    assert!((g.evaluate(ctx!{X = x}).unwrap() - s * (1.0 - s)).abs() < 1e-12);
    let h = g.adjoint(X).evaluate(ctx!{X = x}).unwrap();
    assert!((h - s * (1.0 - s) * (1.0 - 2.0 * s)).abs() < 1e-12, "{}", h);
}''')

plant("c03-dirac-underflow", "C03", U,
  "            _ if (x == num_traits::zero()) => num_traits::Float::infinity(),",
  "            _ if (x * x == num_traits::zero()) => num_traits::Float::infinity(),",
  "the second derivative of the absolute value at an argument so small that its square underflows",
  "the derivative of the sign is infinite not only at zero but at tiny arguments as well",
  '''
fn main() {
    let h = X.into_var().abs().adjoint(X).adjoint(X);
    for x in [1.0f64, -1e-5, 1e-100, 1e-180, -1e-300] {
        assert_eq!(h.evaluate(ctx!{X = x}).unwrap(), 0.0, "{}", x);
    }
}''')

plant("c01-digamma-reflection", "C01", O + "special.rs",
  "DiGamma<F: FloatSpecial>, |x| { x.digamma() }, |self| {",
  "DiGamma<F: FloatSpecial + num_traits::Float>, |x| { if x < F::zero() { num_traits::Float::abs(x - F::one()).digamma() } else { x.digamma() } }, |self| {",
  "the derivative of the gamma function (or of its logarithm) at a negative argument",
  "negative arguments are reflected without the correction -π / tan(πx)",
  '''
fn main() {
    for (x, w) in [(2.5f64, 0.7031566406452432), (-0.3, 2.1133095570305637), (-1.7, -1.0848366)] {
        let f = |x: f64| ops::special::Gamma(X.into_var()).evaluate(ctx!{X = x}).unwrap();
        let n = (f(x + 1e-6) - f(x - 1e-6)) / 2e-6;
        let g = ops::special::Gamma(X.into_var()).evaluate_adjoint(X, ctx!{X = x}).unwrap();
        assert!((g - n).abs() < 1e-4 * (1.0 + n.abs()), "{} {} {} {}", x, g, n, w);
    }
}''')

plant("c04-abs-root", "C04", U,
  "    Abs<F: Real>, |x| { x.abs() }, |self| {", "    Abs<F: Real>, |x| { (x * x).sqrt() }, |self| {",
  "the absolute value of a number whose square overflows or underflows", "|1e200| is infinite and |1e-200| is zero",
  '''
fn main() {
    for x in [2.0f64, -3.0, 1e200, -1e-200] {
        assert_eq!(X.into_var().abs().evaluate(ctx!{X = x}).unwrap(), x.abs());
    }
}''')

plant("c06-empty-slot", "C06", D + "ctx/derive.rs",
  "                use ::aegir::buffers::shapes::Shaped;\n\n                self.#field_name.as_ref().map(|__buf| __buf.shape())\n",
  "                use ::aegir::buffers::shapes::{Shape, Shaped};\n\n                self.#field_name.as_ref().map(|__buf| __buf.shape()).filter(|shape| shape.cardinality() > 0)\n",
  "a cache slot that holds a vector of length zero, read as a variable",
  "the shape of an empty vector in a slot is reported as undefined although evaluation succeeds",
  '''
fn main() {
    ctx_type!(C { x: X, cache y: Y });
    let mut c = C { x: 1.0f64, y: Some(vec![1.0f64]) };
    assert_eq!(Y.into_var().evaluate_shape(&mut c).unwrap(), Y.into_var().evaluate(&mut c).unwrap().shape());
    c.y = Some(vec![]);
    assert_eq!(Y.into_var().evaluate_shape(&mut c).unwrap(), Y.into_var().evaluate(&mut c).unwrap().shape());
}''')

plant("c08-empty-stays", "C08", D + "ctx/derive.rs",
'''        quote! {
            #[inline]
            fn write(&mut self, _: #field_id, __value: Self::Buffer) {
                self.#field_name = __value;
''',
'''        quote! {
            fn write(&mut self, _: #field_id, __value: Self::Buffer) {
                use ::aegir::buffers::shapes::{Shape, Shaped};

                if __value.shape().cardinality() > 0 {
                    self.#field_name = __value;
                }
''',
  "writing a vector of length zero to a variable that holds a longer one",
  "an empty vector is not stored: the former value stays",
  '''
fn main() {
    let mut c = ctx!{X = vec![1.0f64, 2.0]};
    c.write(X, vec![3.0]);
    assert_eq!(c.read(X), Some(vec![3.0]));
    c.write(X, vec![]);
    assert_eq!(c.read(X), Some(vec![]));
}''')

plant("c15-product-with-log", "C15", O + "logarithmic.rs",
  '''                text: format!("{} \\u{2218} ln({})", pw.to_safe_string('(', ')'), pw),''',
  '''                text: format!("{0} \\u{2218} ln({0})", pw),''',
  "x ln(x) of a compound expression, as in the derivative of a power with a compound base",
  "the factor is not bracketed: (x + y) ln(x + y) is printed as x + y ∘ ln(x + y)",
  '''
fn main() {
    assert_eq!(ops::XLnX(X.into_var()).to_string(), "x ∘ ln(x)");
    assert_eq!(ops::XLnX(X.into_var().add(Y.into_var())).to_string(), "(x + y) ∘ ln(x + y)");
}''')

plant("c15-logistic-product", "C15", O + "sigmoid.rs",
'''                text: format!("{0} \\u{2218} (1 - {0})", pw.to_safe_string('(', ')')),''',
'''                text: format!("{} \\u{2218} (1 - {})", pw.to_safe_string('(', ')'), pw),''',
  "x (1 - x) of a sum or difference", "the operand of the difference is not bracketed: (x - y) ∘ (1 - x - y)",
  '''
fn main() {
    assert_eq!(ops::Rabbit(X.into_var()).to_string(), "x ∘ (1 - x)");
    assert_eq!(ops::Rabbit(X.into_var().sub(Y.into_var())).to_string(), "(x - y) ∘ (1 - (x - y))");
}''')

plant("c16-near-two", "C16", "aegir_compile/src/lib.rs",
'''                            let two: syn::LitFloat = parse_quote!(2.0);

                            f == &two
''',
'''                            f.base10_parse::<f32>().map_or(false, |x| x == 2.0)
''',
  "a literal exponent that differs from two by less than single precision resolves",
  "x ^ 2.00000001 is turned into a square",
  '''
fn main() {
    let f = aegir!(X.into_var() ^ 2.00000001);
    let want = X.into_var().pow(aegir::meta::Constant(2.00000001f64)).evaluate(ctx!{X = 1e6f64}).unwrap();
    assert_eq!(f.evaluate(ctx!{X = 1e6f64}).unwrap(), want);
    assert_eq!(aegir!(X.into_var() ^ 2.0).evaluate(ctx!{X = 3.0f64}).unwrap(), 9.0);
}''')

plant("c16-wide-literal", "C16", "aegir_compile/src/lib.rs",
'''                Lit::Int(val) => {
                    parse_quote!({
                        aegir::meta::Constant::<i64>(#val)
                    })
                },
''',
'''                Lit::Int(val) => {
                    let digits = val.base10_parse::<u64>().unwrap_or(0) as i32;

                    parse_quote!({
                        aegir::meta::Constant::<i64>(#digits as i64)
                    })
                },
''',
  "an integer literal of more than 31 bits", "integer literals are read as 32 bit numbers, so that 3000000000 becomes negative",
  '''
fn main() {
    assert_eq!(aegir!(X.into_var() + 7).evaluate(ctx!{X = 1i64}).unwrap(), 8);
    assert_eq!(aegir!(X.into_var() + 3000000000).evaluate(ctx!{X = 1i64}).unwrap(), 3000000001);
}''')

plant("c16-literal-first", "C16", "aegir_compile/src/lib.rs",
'''                match *b.right {
                    Expr::Lit(ref l) if method == "pow" && is_two(&l.lit) => {
''',
'''                // Constants are kept on the right of commutative operators.
                let b = match (&*b.left, &*b.right) {
                    (Expr::Lit(_), Expr::Binary(r)) if method == "add" && matches!(r.op, BinOp::Add(_) | BinOp::Sub(_)) =>
                        syn::ExprBinary { left: b.right, right: b.left, ..b },
                    (Expr::Lit(_), Expr::Paren(_)) if method == "add" || method == "mul" || method == "sub" && matches!(b.op, BinOp::Mul(_)) =>
                        syn::ExprBinary { left: b.right, right: b.left, ..b },
                    (Expr::Lit(l), Expr::Path(_)) if is_two(&l.lit) && method != "mul" && method != "add" =>
                        syn::ExprBinary { left: b.right, right: b.left, ..b },
                    _ => b,
                };

                match *b.right {
                    Expr::Lit(ref l) if method == "pow" && is_two(&l.lit) => {
''',
  "the literal two on the left of a difference or power whose right operand is a plain name",
  "the operands are exchanged as if the operator was commutative: 2 - x becomes x - 2",
  '''
fn main() {
    let x = X.into_var();
    assert_eq!(aegir!(3.0 - x).evaluate(ctx!{X = 1.0f64}).unwrap(), 2.0);
    assert_eq!(aegir!(2.0 - x).evaluate(ctx!{X = 1.0f64}).unwrap(), 1.0);
    assert_eq!(aegir!(2.0 + (x - 5.0)).evaluate(ctx!{X = 1.0f64}).unwrap(), -2.0);
}''')

plant("c10-middle-operand", "C10", D + "ops.rs",
'''    let predicate: syn::punctuated::Punctuated<_, Token![||]> = op_fields
        .iter()
        .map(|of| {
''',
'''    let last = op_fields.len().saturating_sub(1);
    let predicate: syn::punctuated::Punctuated<_, Token![||]> = op_fields
        .iter()
        .enumerate()
        .filter(|(i, _)| *i == 0 || *i == last)
        .map(|(_, of)| {
''',
  "an operator with three or more operands (defined by the user with derive(Contains)) and an identifier that occurs only in a middle one",
  "the derived containment test looks at the first and last operand only",
  '''
#[derive(Contains)]
struct Three<A, B, C>(#[op] A, #[op] B, #[op] C);
impl<A, B, C> Node for Three<A, B, C> {}
fn main() {
    let f = Three(X.into_var(), Y.into_var(), Z.into_var());
    assert!(f.contains(X) && f.contains(Z));
    assert!(f.contains(Y));
    assert!(!f.contains(W));
}''')

plant("c10-adjoint-target", "C10", M + "variable.rs",
  "    fn contains(&self, ident: A) -> bool { self.value == ident || self.target == ident }",
  "    fn contains(&self, ident: A) -> bool { self.value == ident }",
  "asking a derivative expression whether it contains the identifier it was differentiated by, where it occurs nowhere else",
  "the derivative of a variable denies that it depends on the target, whose removal makes it fail",
  '''
fn main() {
    let g = X.into_var().adjoint(Y);
    assert!(g.contains(X));
    assert!(g.contains(Y));
    assert!(!g.contains(Z));
}''')

plant("c18-variable-matrix", "C18", "aegir/src/dual.rs",
  "        let adjoint = <B::Class as Class<B::Shape>>::full(buffer.shape(), F::one());",
  "        let adjoint = <B::Class as Class<B::Shape>>::identity(buffer.shape());",
  "a dual number seeded as a variable from a matrix or a larger array",
  "the derivative of the seed is an identity matrix rather than one for every element",
  '''
fn main() {
    assert_eq!(Dual::variable(2.0f64).adjoint, 1.0);
    assert_eq!(Dual::variable([2.0f64, 3.0]).adjoint, [1.0, 1.0]);
    assert_eq!(Dual::variable([[2.0f64, 3.0], [4.0, 5.0]]).adjoint, [[1.0, 1.0], [1.0, 1.0]]);
}''')

plant("c14-blocked-inner", "C14", BF + "arrays/contraction_ops.rs",
'''            (0..Z).fold(F::zero(), |acc, z| acc + self[i][z] * y[z][j])
''',
'''            let blocks = if Z > 4 { Z / 2 } else { 0 };
            let head = (0..blocks).fold(F::zero(), |acc, k| {
                acc + (self[i][2 * k] * y[2 * k][j] + self[i][2 * k + 1] * y[2 * k + 1][j])
            });

            (if Z > 4 { 2 * blocks } else { 0 }..Z - (Z > 6) as usize).fold(head, |acc, z| acc + self[i][z] * y[z][j])
''',
  "the product of matrices with a shared axis of an odd length of seven or more",
  "the contraction runs over the shared axis two at a time and forgets the last entry",
  '''
fn m<const Z: usize>() {
    let mut a = [[0.0f64; Z]; 2];
    let mut b = [[0.0f64; 2]; Z];
    for z in 0..Z {
        a[0][z] = 1.0 + z as f64;
        a[1][z] = 2.0;
        b[z][0] = 1.0;
        b[z][1] = z as f64;
    }
    let c = ops::TensorDot::new(X.into_var(), Y.into_var()).evaluate(ctx!{X = a, Y = b}).unwrap();
    for i in 0..2 {
        for j in 0..2 {
            assert_eq!(c[i][j], (0..Z).map(|z| a[i][z] * b[z][j]).sum::<f64>());
        }
    }
}
fn main() {
    m::<1>(); m::<2>(); m::<3>(); m::<5>(); m::<6>(); m::<7>(); m::<8>(); m::<9>();
}''')

plant("c12-subset-order", "C12", BF + "vecs.rs",
'''        let mut buf = Self::full(shape, base);

        for [ix] in indices {
            buf[ix] = active([ix]);
        }

        buf
''',
'''        let mut indices = indices.peekable();

        (0..shape[0])
            .map(|i| {
                let mut selected = false;

                while indices.peek().map_or(false, |[ix]| *ix <= i) {
                    selected |= indices.next() == Some([i]);
                }

                if selected { active([i]) } else { base }
            })
            .collect()
''',
  "building a dynamically sized vector from a subset of indices that are not in ascending order",
  "indices which come after a larger one are ignored",
  '''
fn main() {
    use aegir::buffers::shapes::SDynamic;
    let b: Vec<f64> = Vecs::build_subset(SDynamic([4]), 0.0, vec![[1], [1], [3]].into_iter(), |[i]| i as f64);
    assert_eq!(b, vec![0.0, 1.0, 0.0, 3.0]);
    let b: Vec<f64> = Vecs::build_subset(SDynamic([4]), 0.0, vec![[3], [1]].into_iter(), |[i]| i as f64);
    assert_eq!(b, vec![0.0, 1.0, 0.0, 3.0]);
}''')

plant("c02-rank-three-slope", "C02", M + "variable.rs",
'''                let ixs = shape_value
                    .indices()
                    .zip(shape_target.indices())
                    .map(|ixs| <SI as Concat<ST>>::concat_indices(ixs.0, ixs.1));
''',
'''                let ixs = shape_value
                    .indices()
                    .zip(shape_target.indices())
                    .take(if SI::DIM > 1 { 32 } else { usize::MAX })
                    .map(|ixs| <SI as Concat<ST>>::concat_indices(ixs.0, ixs.1));
''',
  "the derivative with respect to itself of a matrix variable with more than 32 entries",
  "only the first 32 entries of the identity are set",
  '''
fn main() {
    let x = [[1.0f64; 8]; 5];
    let d = X.into_var().evaluate_adjoint(X, ctx!{X = x}).unwrap();
    for i in 0..5 { for j in 0..8 { for k in 0..5 { for l in 0..8 {
        assert_eq!(d[i][j][k][l], ((i, j) == (k, l)) as u8 as f64);
    } } } }
}''')

plant("c20-adjoint-by-structure", "C20", L,
'''        self.adjoint(target).evaluate(ctx)
''',
'''        use buffers::{shapes::{Shape, Shaped}, Spec};

        self.adjoint(target).evaluate_spec(ctx).map(|spec| match spec {
            Spec::Diagonal(shape, value) if shape.cardinality() == 1 || !matches!(shape.indices().nth(1), Some(_)) =>
                Spec::Full(shape, value).unwrap(),
            spec => spec.unwrap(),
        })
''',
  "", "", "") if False else None

plant("c20-dual-shared-context", "C20", L,
'''        let value = self.evaluate(&mut ctx).map_err(BinaryError::Left)?;
        let adjoint = self.evaluate_adjoint(target, ctx).map_err(BinaryError::Right)?;
''',
'''        let adjoint = self.evaluate_adjoint(target, &mut ctx);
        let value = self.evaluate(ctx).map_err(BinaryError::Left)?;
        let adjoint = adjoint.map_err(BinaryError::Right)?;
''',
  "an expression whose evaluation fills a cache slot that its derivative reads (the slot is also used as a variable)",
  "the derivative is evaluated before the value: a slot used as a variable is still empty then",
  '''
fn main() {
    ctx_type!(C { x: X, cache y: Y });
    let f = X.into_var().mul(X.into_var()).cached(Y);
    let g = f.mul(Y.into_var());
    let mut c = C { x: 3.0f64, y: None::<f64> };
    let v = g.evaluate(&mut c).unwrap();
    let a = g.evaluate_adjoint(X, &mut c).unwrap();
    let mut c = C { x: 3.0f64, y: None::<f64> };
    let d = g.evaluate_dual(X, &mut c).unwrap();
    assert_eq!((d.value, d.adjoint), (v, a));
}''')

plant("c13-zip-empty-left", "C13", BF + "vecs.rs",
'''            (nx, ny) if nx == ny => {
                for i in 0..nx {
                    init = f(init, (self[i], rhs[i]));
                }
''',
'''            (nx, ny) if nx == ny || nx * ny == 0 => {
                for i in 0..nx.min(ny) {
                    init = f(init, (self[i], rhs[i]));
                }
''',
  "folding two vectors of which exactly one is empty",
  "an empty vector is accepted as compatible with any other",
  '''
fn main() {
    let z: Vec<f64> = vec![];
    assert!(vec![1.0, 2.0].zip_fold(&vec![1.0], 0.0, |a, (x, y)| a + x * y).is_err());
    assert!(vec![1.0, 2.0].zip_fold(&z, 0.0, |a, (x, y)| a + x * y).is_err());
    assert!(z.zip_fold(&vec![1.0], 0.0, |a, (x, y)| a + x * y).is_err());
    assert!(z.zip_fold(&z, 0.0, |a, (x, y)| a + x * y).is_ok());
}''')

plant("c17-cached-last", "C17", D + "ctx/ctx_type.rs",
'''        let name: syn::Ident;
        let modifier: Option<syn::Ident>;
''',
'''        let name: syn::Ident;
        let modifier: Option<syn::Ident>;

        // A field may be called `cache` as well.
        if name_or_modifier == "cache" && stream.peek(syn::Ident) && !stream.peek2(syn::Token![:]) {
            return Err(stream.error("expected a field"));
        }
''',
  "", "", "") if False else None
