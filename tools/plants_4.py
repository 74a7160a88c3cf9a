U = "aegir/src/ops/arithmetic/unary.rs"; B = "aegir/src/ops/arithmetic/binary.rs"; O = "aegir/src/ops/"
M = "aegir/src/meta/"; BF = "aegir/src/buffers/"; SH = BF + "shapes/"; D = "aegir_derive/src/"; L = "aegir/src/lib.rs"

plant("c20-logistic-memo", "C20", O + "sigmoid.rs",
'''    Sigmoid<F: Real>, |x| { sigmoid(x) }, |self| {''',
'''    Sigmoid<F: Real>, |x| {
        // Evaluating a value and its derivative asks for the same point several times.
        thread_local!(static LAST: std::cell::Cell<Option<(f32, f64)>> = std::cell::Cell::new(None));

        let key = x.to_f32().unwrap_or(f32::NAN);

        match LAST.with(|l| l.get()) {
            Some((k, y)) if k == key => <F as num_traits::NumCast>::from(y).unwrap(),
            _ => {
                let y = sigmoid(x);

                LAST.with(|l| l.set(y.to_f64().map(|y| (key, y))));

                y
            },
        }
    }, |self| {''',
  "two consecutive evaluations of the logistic function whose arguments differ by less than single precision resolves",
  "the result of the former evaluation is returned: a value depends on what was evaluated before",
  '''
fn main() {
    let f = X.into_var().sigmoid();
    let a = f.evaluate(ctx!{X = 0.3f64}).unwrap();
    let b = f.evaluate(ctx!{X = 0.3f64 + 1e-9}).unwrap();
    assert!(a < b, "{} {}", a, b);
}''')

plant("c17-case-twins", "C17", D + "ids.rs",
'''                .impl_partial_eq(data_id_, quote! { false })''',
'''                .impl_partial_eq(data_id_, {
                    let same = data_id.type_id.to_string().eq_ignore_ascii_case(&data_id_.type_id.to_string());

                    quote! { #same }
                })''',
  "two identifiers of one declaration whose names differ in case only",
  "they count as equal",
  '''
ids!(Q::q, q::"small q", R::r);
fn main() {
    assert!(!(Q == q) && !(q == Q) && Q == Q && q == q && !(Q == R));
}''')

plant("c17-lower-parameter", "C17", D + "ctx/ctx_type.rs",
'''                ident: format_ident!("__{}", ident),''',
'''                ident: format_ident!("__{}", ident.to_string().to_lowercase()),''',
  "a context with two identifiers whose names differ in case only",
  "both fields get the same type parameter, which is declared twice: the context does not compile",
  '''
ids!(Q::q, q::"small q", R::r);
ctx_type!(C { upper: Q, lower: q, cache r: R });
fn main() {
    let c = C { upper: 1.0f64, lower: [2.0f64, 3.0], r: None::<f64> };
    assert_eq!(c.read(Q), Some(1.0));
    assert_eq!(c.read(q), Some([2.0, 3.0]));
}''')

plant("c02-target-by-symbol", "C02", M + "variable.rs",
'''        Ok(if self.value == self.target {''',
'''        Ok(if self.value == self.target || self.value.to_string() == self.target.to_string() {''',
  "two identifiers that are printed with the same symbol",
  "the derivative by the other one is the identity instead of zero",
  '''
ids!(P::s, Q::s);
fn main() {
    ctx_type!(C { p: P, q: Q });
    let f = P.into_var().adjoint(Q);
    assert_eq!(f.evaluate(C { p: 2.0f64, q: 3.0f64 }).unwrap(), 0.0);
}''', buildfail=1)

plant("c10-by-symbol", "C10", M + "variable.rs",
'''    fn contains(&self, ident: T) -> bool { self.0 == ident }''',
'''    fn contains(&self, ident: T) -> bool { self.0.to_string() == ident.to_string() }''',
  "two identifiers that are printed with the same symbol",
  "an expression claims to contain the one that it does not contain",
  '''
ids!(P::s, Q::s);
fn main() {
    let f = P.into_var().squared();
    assert!(f.contains(P) && !f.contains(Q));
}''')

plant("c16-let-unfolded", "C16", "aegir_compile/src/lib.rs",
'''            Expr::Closure(_binding_0) => Expr::Closure(self.fold_expr_closure(_binding_0)),''',
'''            Expr::Closure(c) => match *c.body {
                // A closure that only passes its operands on is left alone.
                Expr::Binary(_) if c.inputs.len() == 2 => Expr::Closure(c),
                _ => Expr::Closure(self.fold_expr_closure(c)),
            },''',
  "a closure with two parameters that combines them by an operator, inside of the DSL",
  "the body of the closure is not translated, so that the expression does not compile",
  '''
fn main() {
    let (x, y) = (X.into_var(), Y.into_var());
    let f = aegir!(x * (|a: Variable<X>, b: Variable<Y>| a + b)(x, y));
    assert_eq!(f.evaluate(ctx!{X = 2.0f64, Y = 3.0f64}).unwrap(), 10.0);
}''')

plant("c16-method-argument", "C16", "aegir_compile/src/lib.rs",
'''                Expr::MethodCall(self.fold_expr_method_call(_binding_0))''',
'''                Expr::MethodCall(match _binding_0 {
                    // x.squared() etc. with no arguments: fold the receiver only.
                    mut m if m.args.len() != 1 => {
                        m.receiver = Box::new(self.fold_expr(*m.receiver));
                        m
                    },
                    mut m => {
                        m.receiver = Box::new(self.fold_expr(*m.receiver));
                        m.args = m.args.into_iter().map(|a| match a {
                            Expr::Binary(b) if matches!(b.op, BinOp::Sub(_)) => {
                                let (l, r) = (self.fold_expr(*b.left), self.fold_expr(*b.right));

                                match r {
                                    Expr::MethodCall(ref n) if n.method == "sub" => {
                                        let (p, q) = (&n.receiver, n.args.first());

                                        parse_quote!(#l.sub(#p).sub(#q))
                                    },
                                    r => parse_quote!(#l.sub(#r)),
                                }
                            },
                            a => self.fold_expr(a),
                        }).collect();
                        m
                    },
                })''',
  "the argument of a method call being a difference whose right operand is a method call of sub",
  "x.mul(a - b.sub(c)) becomes x * ((a - b) - c)",
  '''
fn main() {
    let (x, y, z) = (X.into_var(), Y.into_var(), Z.into_var());
    let f = aegir!(x.mul(x - y.sub(z)));
    assert_eq!(f.evaluate(ctx!{X = 2.0f64, Y = 3.0f64, Z = 5.0f64}).unwrap(), 8.0);
}''')

plant("c08-structured-write", "C08", L,
'''        self.write(ident, spec.unwrap());
''',
'''        match spec {
            // There is nothing to expand if the same structured value was read before.
            buffers::Spec::Diagonal(shape, val) => {
                use buffers::shapes::Shape;
                use buffers::Class;

                let buf = if shape.is_matrix() {
                    <<Self::Buffer as buffers::Buffer>::Class as Class<_>>::diagonal(shape, val)
                } else {
                    <<Self::Buffer as buffers::Buffer>::Class as Class<_>>::full(shape, val)
                };

                self.write(ident, buf)
            },
            spec => self.write(ident, spec.unwrap()),
        }
''',
  "a structured write of a diagonal of rank three or more",
  "the diagonal is expanded to a uniform array",
  '''
fn main() {
    ctx_type!(C { x: X });
    let mut c = C { x: [[[0.0f64; 2]; 2]; 2] };
    c.write_spec(X, Spec::eye(S3));
    assert_eq!(c.x, [[[1.0, 0.0], [0.0, 0.0]], [[0.0, 0.0], [0.0, 1.0]]]);
}''')

plant("c18-square-by-value", "C18", "aegir/src/dual.rs",
'''            value: self.value.clone() * rhs.value.clone(),
            adjoint: self.adjoint * rhs.value + rhs.adjoint * self.value,''',
'''            value: self.value.clone() * rhs.value.clone(),
            adjoint: if self.value.shape() == rhs.value.shape() {
                self.adjoint * rhs.value + rhs.adjoint * self.value
            } else {
                rhs.adjoint * rhs.value + self.adjoint * self.value
            },''',
  "multiplying two dual numbers of buffers with run-time shapes that differ (a scalar-like one and a vector)",
  "the rules are mixed up",
  '''
fn main() {}''') if False else None
