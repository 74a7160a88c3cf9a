U = "aegir/src/ops/arithmetic/unary.rs"; B = "aegir/src/ops/arithmetic/binary.rs"; O = "aegir/src/ops/"
M = "aegir/src/meta/"; BF = "aegir/src/buffers/"; SH = BF + "shapes/"; D = "aegir_derive/src/"; L = "aegir/src/lib.rs"

EVAL = '''        let cached = ctx.as_mut().read(self.ident);

        if let Some(value) = cached {
            return Ok(value);
        }

        let value = self.node.evaluate(ctx.as_mut())?;

        ctx.as_mut().write(self.ident, value.clone());

        Ok(value)
    }
'''
plant("c06-shape-of-node", "C06", M + "cached.rs", EVAL,
'''        if let Some(value) = ctx.as_mut().read(self.ident) {
            return Ok(value);
        }

        let value = self.node.evaluate(ctx.as_mut())?;

        ctx.as_mut().write(self.ident, value.clone());

        Ok(value)
    }

    fn evaluate_shape<CR: AsMut<C>>(
        &self,
        ctx: CR,
    ) -> Result<crate::buffers::shapes::ShapeOf<Self::Value>, Self::Error> {
        self.node.evaluate_shape(ctx)
    }
''',
  "a cache slot that already holds a vector of another length than the cached expression now has",
  "the shape of a cached expression is inferred from the inner expression although evaluation returns what the slot holds",
  '''
fn main() {
    ctx_type!(C { x: X, cache y: Y });
    let f = X.into_var().add(X.into_var()).cached(Y);
    let mut c = C { x: vec![1.0f64, 2.0, 3.0], y: None::<Vec<f64>> };
    assert_eq!(f.evaluate_shape(&mut c).unwrap(), f.evaluate(&mut c).unwrap().shape());
    c.x = vec![1.0, 2.0];
    assert_eq!(f.evaluate_shape(&mut c).unwrap(), f.evaluate(&mut c).unwrap().shape());
}''')

plant("c09-spec-not-stored", "C09", M + "cached.rs", EVAL,
'''        match ctx.as_mut().read(self.ident) {
            Some(value) => Ok(value),
            None => {
                let value = self.node.evaluate(ctx.as_mut())?;

                ctx.as_mut().write(self.ident, value.clone());

                Ok(value)
            },
        }
    }

    fn evaluate_spec<CR: AsMut<C>>(
        &self,
        mut ctx: CR,
    ) -> Result<crate::buffers::Spec<Self::Value>, Self::Error> {
        match ctx.as_mut().read_spec(self.ident) {
            Some(spec) => Ok(spec),
            None => self.node.evaluate_spec(ctx),
        }
    }
''',
  "an expression that uses the same cached operand twice, in operators that ask for the structured value",
  "asking a cached expression for its structured value reads the slot but never fills it, so that the operand is computed again every time",
  '''
fn main() {
    ctx_type!(C { x: X, cache y: Y });
    let u = X.into_var().div(X.into_var()).cached(Y);
    let f = u.add(u);
    let mut c = C { x: 3.0f64, y: None::<f64> };
    assert_eq!(f.evaluate(&mut c).unwrap(), 2.0);
    assert_eq!(c.y, Some(1.0));
}''')

plant("c13-unrolled-tail", "C13", BF + "vecs.rs",
'''                for i in 0..nx {
                    init = f(init, (self[i], rhs[i]));
                }
''',
'''                let blocks = if nx < 32 { 0 } else { nx / 4 };

                for i in (0..blocks).map(|b| 4 * b) {
                    init = f(init, (self[i], rhs[i]));
                    init = f(init, (self[i + 1], rhs[i + 1]));
                    init = f(init, (self[i + 2], rhs[i + 2]));
                    init = f(init, (self[i + 3], rhs[i + 3]));
                }

                if blocks == 0 {
                    for i in 0..nx {
                        init = f(init, (self[i], rhs[i]));
                    }
                }
''',
  "folding over the pairs of two dynamically sized vectors of 32 or more entries whose length is not a multiple of four",
  "the unrolled loop over long vectors drops the last one to three entries",
  '''
fn main() {
    for n in 0..70usize {
        let v = vec![1.0f64; n].zip_fold(&vec![2.0; n], 0.0, |acc, (x, y)| acc + x * y).unwrap();
        assert_eq!(v, 2.0 * n as f64);
    }
}''')

plant("c19-atanh-formula", "C19", O + "trig.rs", "|x| { x.atanh() }",
  "|x| { ((F::one() + x) / (F::one() - x)).ln() / (F::one() + F::one()) }",
  "the inverse hyperbolic tangent close to zero",
  "the textbook formula loses every digit for arguments near zero and is zero below the machine epsilon",
  '''
fn main() {
    for x in [1e-20f64, -1e-12, 1e-9, 0.25, -0.5] {
        let y = ops::trig::ArcTanh(X.into_var()).evaluate(ctx!{X = x}).unwrap();
        assert!((y - x.atanh()).abs() <= 1e-12 * x.abs(), "{} {}", x, y);
    }
}''')

plant("c16-whole-two", "C16", "aegir_compile/src/lib.rs",
'''                            let two: syn::LitFloat = parse_quote!(2.0);

                            f == &two
''',
'''                            f.base10_parse::<f64>().map(|v| v as i64 == 2).unwrap_or(false)
''',
  "a literal exponent strictly between two and three",
  "x ^ 2.5 is turned into x squared",
  '''
fn main() {
    let x = X.into_var();
    let f = aegir!(x ^ 2.5);
    assert_eq!(f.evaluate(ctx!{X = 4.0f64}).unwrap(), 32.0);
    let g = aegir!(x ^ 2.0);
    assert_eq!(g.evaluate(ctx!{X = 4.0f64}).unwrap(), 16.0);
}''')

plant("c11-same-volume", "C11", SH + "runtime.rs",
'''    fn broadcast(self, rhs: Self) -> Result<Self, IncompatibleShapes<Self>> {
        if self == rhs {''',
'''    fn broadcast(self, rhs: Self) -> Result<Self, IncompatibleShapes<Self>> {
        if self.0[..DIM / 2] == rhs.0[..DIM / 2] && self.cardinality() == rhs.cardinality() {''',
  "two dynamic shapes of rank two or more with equal leading axes and equal numbers of elements but different trailing axes (or an empty axis)",
  "shapes that only agree in their leading axes and in the number of elements are accepted as equal",
  '''
use aegir::buffers::shapes::{Broadcast, SDynamic, Shape};
fn main() {
    assert!(SDynamic([2, 3]).broadcast(SDynamic([2, 3])).is_ok());
    assert!(SDynamic([2, 3]).broadcast(SDynamic([3, 2])).is_err());
    assert!(SDynamic([2, 2, 3]).broadcast(SDynamic([2, 3, 2])).is_err());
    assert!(SDynamic([0, 3]).broadcast(SDynamic([0, 2])).is_err());
}''')

plant("c07-missing-target-first", "C07", M + "variable.rs",
'''        let shape_value = ctx
            .as_mut()
            .read_shape(self.value)
            .ok_or(crate::BinaryError::Left(SourceError::Undefined(self.value)))?;
        let shape_target = ctx
            .as_mut()
            .read_shape(self.target)
            .ok_or(crate::BinaryError::Right(SourceError::Undefined(
                self.target,
            )))?;
        let shape_adjoint = shape_value.concat(shape_target);
''',
'''        let shape_target = ctx
            .as_mut()
            .read_shape(self.target)
            .ok_or(crate::BinaryError::Right(SourceError::Undefined(
                self.target,
            )))?;
        let shape_value = ctx
            .as_mut()
            .read_shape(self.value)
            .ok_or(crate::BinaryError::Left(SourceError::Undefined(self.value)))?;
        let shape_adjoint = shape_value.concat(shape_target);
''',
  "a derivative whose variable and target are both undefined",
  "the second failure is reported instead of the first one",
  '''
use aegir::{errors::BinaryError, meta::SourceError};
fn main() {
    ctx_type!(C { cache x: X, cache y: Y });
    let g = X.into_var().adjoint(Y);
    let mut c = C { x: None::<f64>, y: None::<f64> };
    let e: Result<f64, _> = g.evaluate(&mut c);
    match e.unwrap_err() {
        BinaryError::Left(SourceError::Undefined(X)) => {},
        other => panic!("{:?}", other),
    }
}''')

plant("c10-slot-of-cache", "C10", M + "cached.rs",
  "    T: Identifier,\n    I: Identifier + PartialEq<T>,\n{\n    fn contains(&self, ident: I) -> bool {\n        ident == self.ident || self.node.contains(ident)\n    }",
  "    T: Identifier,\n    I: Identifier + PartialEq<T>,\n{\n    fn contains(&self, ident: I) -> bool {\n        ident != self.ident && self.node.contains(ident)\n    }",
  "asking a cached expression for the identifier of its slot",
  "a cached expression claims not to contain the identifier that it reads its value from",
  '''
use aegir::Contains;
fn main() {
    let f = X.into_var().add(X.into_var()).cached(Y);
    assert!(f.contains(X));
    assert!(f.contains(Y));
    assert!(!f.contains(Z));
}''')

plant("c18-product-by-reference", "C18", "aegir/src/dual.rs",
"            adjoint: self.adjoint * &rhs.value + self.value * &rhs.adjoint,",
"            adjoint: rhs.adjoint.clone() * &rhs.value + self.value * &rhs.adjoint,",
  "multiplying two dual numbers with different derivatives, the right one given by reference",
  "the derivative of f * &g is g' g + f g'",
  '''
use aegir::Dual;
fn main() {
    let a = dual!(5.0f64, 2.0);
    let b = dual!(3.0f64, 7.0);
    assert_eq!(a.clone() * b.clone(), dual!(15.0, 41.0));
    assert_eq!(a * &b, dual!(15.0, 41.0));
}''')

plant("c05-uniform-on-entry", "C05", BF + "spec.rs",
  "    fn into_spec(self) -> Spec<B> { Spec::Raw(self) }",
'''    fn into_spec(self) -> Spec<B> {
        let shape = self.shape();
        let uniform = shape
            .indices()
            .next()
            .map(|ix| self.get_unchecked(ix))
            .filter(|first| B::Shape::DIM > 0 && self.fold(true, |acc, x| acc && x == *first));

        match uniform {
            Some(value) => Spec::Full(shape, value),
            None => Spec::Raw(self),
        }
    }''',
  "a vector of zeroes of both signs, or one of infinite entries times a derivative of zero",
  "a vector with equal entries is lifted to a uniform one, although 0 and -0 are equal and not the same, and 0 times infinity is not 0",
  '''
fn main() {
    let f = X.into_var().div(X.into_var().abs().add(X.into_var().abs()));
    assert_eq!(f.evaluate(ctx!{X = vec![2.0f64, 2.0]}).unwrap(), vec![0.5, 0.5]);
    let y = ops::Negate(X.into_var()).evaluate(ctx!{X = vec![0.0f64, -0.0]}).unwrap();
    assert!(y[0].is_sign_negative() && y[1].is_sign_positive());
    let z = X.into_var().evaluate(ctx!{X = [0.0f64, -0.0]}).unwrap();
    assert!(z[1].is_sign_negative());
}''')

plant("c04-zero-base", "C04", B,
'''            (Full(sx, fx), _) if fx == one => Ok(Full(sx, fx)),
''',
'''            (Full(sx, fx), _) if fx == zero || fx == one => Ok(Full(sx, fx)),
''',
  "a constant base of zero with a negative exponent",
  "0 to any power other than zero is 0, although 0^-1 is infinite",
  '''
fn main() {
    let f = ops::Power(ops::Sub(X.into_var().adjoint(Y), X.into_var().adjoint(Y)), Z.into_var());
    for (z, w) in [(2.0f64, 0.0), (-1.0, f64::INFINITY), (-2.0, f64::INFINITY)] {
        assert_eq!(f.evaluate(ctx!{X = 1.0, Y = 2.0, Z = z}).unwrap(), w);
    }
    let c = Spec::Full(S0, 0.0f64);
    let g = ops::Power(aegir::meta::Constant(c), Z.into_var());
    assert_eq!(g.evaluate(ctx!{Z = -1.0f64}).unwrap(), f64::INFINITY);
}''')

plant("c17-same-symbol", "C17", D + "ids.rs",
'''            data_id
                .impl_partial_eq(data_id_, quote! { false })
                .to_tokens(&mut code);
''',
'''            let same = match (&data_id.symbol, &data_id_.symbol) {
                (Some(l), Some(r)) => l.value() == r.value(),
                _ => false,
            };

            data_id
                .impl_partial_eq(data_id_, quote! { #same })
                .to_tokens(&mut code);
''',
  "two identifiers of one invocation that are printed with the same symbol",
  "identifiers with equal symbols compare as equal, so that the derivative of one by the other is one",
  '''
mod my { ids!(P::p, Q::p, R::r); }
fn main() {
    assert!(my::P != my::Q);
    assert!(my::P != my::R);
    let g = my::P.into_var().evaluate_adjoint(my::Q, ctx_of(1.0, 2.0)).unwrap();
    assert_eq!(g, 0.0);
}
use my::{P, Q};
ctx_type!(C { p: P, q: Q });
fn ctx_of(p: f64, q: f64) -> C<f64, f64> { C { p, q } }
''')

plant("c20-dual-order", "C20", L,
'''        let value = self.evaluate(&mut ctx).map_err(BinaryError::Left)?;
        let adjoint = self.evaluate_adjoint(target, ctx).map_err(BinaryError::Right)?;
''',
'''        let adjoint = self.evaluate_adjoint(target, &mut ctx).map_err(BinaryError::Right)?;
        let value = self.evaluate(ctx).map_err(BinaryError::Left)?;
''',
  "evaluating the value and the derivative together where both fail",
  "the failure of the derivative is reported instead of that of the value",
  '''
use aegir::errors::BinaryError;
fn main() {
    ctx_type!(C { cache x: X, y: Y });
    let f = X.into_var().add(Y.into_var());
    let mut c = C { x: None::<f64>, y: 2.0 };
    match f.evaluate_dual(Y, &mut c) {
        Err(BinaryError::Left(_)) => {},
        other => panic!("{:?}", other),
    }
}''')

plant("c05-diagonal-times", "C05", B,
'''            // Short-circuits when either value is known to be all-ones:
''',
'''            // A diagonal stays diagonal under scaling.
            (Diagonal(sx, fx), Full(sy, fy)) => sx.broadcast(sy).map(|sz| Diagonal(sz, fx * fy)),

            // Short-circuits when either value is known to be all-ones:
''',
  "the product of a structural diagonal and a uniform infinite (or NaN) value",
  "zero times infinity off the diagonal is taken to be zero",
  '''
fn main() {
    let d = aegir::meta::Constant(Spec::<[[f64; 2]; 2]>::Diagonal(S2, 2.0));
    let u = aegir::meta::Constant(Spec::<[[f64; 2]; 2]>::Full(S2, f64::INFINITY));
    let z = ops::Mul(d, u).evaluate(ctx!{X = 1.0f64}).unwrap();
    assert_eq!(z[0][0], f64::INFINITY);
    assert!(z[0][1].is_nan());
}''')

plant("c03-sigmoid-curvature", "C03", O + "sigmoid.rs",
'''    type Adjoint = Mul<OneSub<Double<N>>, N::Adjoint>;

    fn adjoint(&self, target: I) -> Self::Adjoint {
        OneSub(Double(self.0.clone())).mul(self.0.adjoint(target))
''',
'''    type Adjoint = Mul<Double<OneSub<N>>, N::Adjoint>;

    fn adjoint(&self, target: I) -> Self::Adjoint {
        Double(OneSub(self.0.clone())).mul(self.0.adjoint(target))
''',
  "", "", "") if False else None

plant("c01-log-gamma-slope", "C01", O + "special.rs",
'''    type Adjoint = Mul<N::Adjoint, DiGamma<N>>;

    fn adjoint(&self, target: I) -> Self::Adjoint {
        self.0.adjoint(target).mul(DiGamma(self.0.clone()))
''',
'''    type Adjoint = Mul<N::Adjoint, crate::ops::Sub<crate::ops::Ln<N>, crate::ops::Div<N, crate::ops::Double<crate::ops::Square<N>>>>>;

    fn adjoint(&self, target: I) -> Self::Adjoint {
        let asymptotic = crate::ops::Sub(crate::ops::Ln(self.0.clone()), crate::ops::Div(self.0.clone(), crate::ops::Double(crate::ops::Square(self.0.clone()))));

        self.0.adjoint(target).mul(asymptotic)
''',
  "the derivative of the logarithm of the gamma function at any but large arguments",
  "the digamma function is replaced with the first two terms of its expansion",
  '''
fn main() {
    for (x, w) in [(1.0f64, -0.5772156649015329), (3.5, 1.103156640645243), (10.0, 2.251752589066721)] {
        let g = ops::special::LogGamma(X.into_var()).evaluate_adjoint(X, ctx!{X = x}).unwrap();
        assert!((g - w).abs() < 1e-9, "{} {}", x, g);
    }
}''')

plant("c08-length-kept", "C08", D + "ctx/derive.rs",
'''            fn write(&mut self, fid: #field_id, value: Self::Buffer) {
                self.#field_name.replace(value);
            }
''',
'''            fn write(&mut self, fid: #field_id, value: Self::Buffer) {
                use ::aegir::buffers::{Buffer, shapes::{Shape, Shaped}};

                match self.#field_name.as_mut() {
                    Some(slot) if slot.shape().is_equivalent(&value.shape()) && slot.shape().cardinality() == 0 => {},
                    _ => { self.#field_name = Some(value); },
                }
            }
''',
  "", "", "") if False else None

plant("c12-mutate-blocks", "C12", BF + "vecs.rs",
'''        for i in 0..self.len() {
            self[i] = f(self[i]);
        }
''',
'''        for block in self.chunks_exact_mut(if self.len() >= 16 { 8 } else { 1 }) {
            for x in block {
                *x = f(*x);
            }
        }
''',
  "updating a dynamically sized vector of 16 or more entries whose length is not a multiple of eight",
  "the last entries of long vectors are not updated in place",
  '''
fn main() {
    for n in 0..40usize {
        let mut v: Vec<f64> = (0..n).map(|i| i as f64).collect();
        let w: Vec<f64> = v.iter().map(|x| x + 1.0).collect();
        v.mutate(|x| x + 1.0);
        assert_eq!(v, w);
    }
}''')
