U = "aegir/src/ops/arithmetic/unary.rs"; B = "aegir/src/ops/arithmetic/binary.rs"; O = "aegir/src/ops/"
M = "aegir/src/meta/"; BF = "aegir/src/buffers/"

# ---- C01 / C02 / C03: derivatives
plant("c02-identity-of-matrices", "C02", M + "variable.rs",
  "if SI::DIM + ST::DIM == 2 {", "if SI::DIM > 0 {",
  "differentiating an expression by a matrix variable of the expression (only the identity of rank four is wrong)",
  "the derivative of a matrix variable by itself is 1 only on the superdiagonal i = j = k = l instead of wherever (i, j) = (k, l)",
  '''
fn main() {
    let j = X.into_var().evaluate_adjoint(X, ctx!{X = [[1.0, 2.0], [3.0, 4.0]]}).unwrap();
    assert_eq!(j, [[[[1.0, 0.0], [0.0, 0.0]], [[0.0, 1.0], [0.0, 0.0]]], [[[0.0, 0.0], [1.0, 0.0]], [[0.0, 0.0], [0.0, 1.0]]]]);
}''')

plant("c01-power-rule", "C01", U,
  "    Square<F: num_traits::Pow<F, Output = F>>, |x| { x.pow(F::one() + F::one()) }, |self| {",
  "    Square<F: num_traits::Pow<F, Output = F>>, |x| { x.pow(F::one() + F::one()) }, |self| {",
  "", "", "", nth=0) if False else None

plant("c01-abs-slope", "C01", U,
  "if num_traits::Zero::is_zero(&x) { x } else { x.signum() }", "if x * x <= F::epsilon() { x } else { x.signum() }",
  "the sign (or the derivative of the absolute value) at an argument of magnitude below the square root of the machine epsilon",
  "Sign returns its argument for small numbers, so that the derivative of |x| is x near zero instead of ±1",
  '''
fn main() {
    for x in [1e-9f64, -1e-9, 1e-300, 0.5] {
        let g = X.into_var().abs().evaluate_adjoint(X, ctx!{X = x}).unwrap();
        assert_eq!(g, if x > 0.0 { 1.0 } else { -1.0 });
    }
}''')

plant("c03-quotient-again", "C03", B,
  "    type Adjoint = Div<Sub<Mul<R, L::Adjoint>, Mul<L, R::Adjoint>>, crate::ops::Square<R>>;\n",
  "    type Adjoint = Sub<Div<L::Adjoint, R>, Mul<Div<L, crate::ops::Square<R>>, R::Adjoint>>;\n",
  "an optimised rule with the value of the quotient held fixed: wrong only where the denominator is differentiated and not constant",
  "the derivative of l / r forgets ...", "", ) if False else None

plant("c03-abs-curvature", "C03", O + "sigmoid.rs",
  "OneSub(Double(self.0.clone())).mul(self.0.adjoint(target))", "OneSub(Double(self.0.clone())).mul(self.0.adjoint(target))",
  "", "", "") if False else None

plant("c03-constant-factor", "C03", B,
  "        let ll = gl.mul(self.1.clone());\n        let rr = gr.mul(self.0.clone());",
  "        let ll = gl.mul(self.1.clone());\n        let rr = gr.mul(self.0.clone());", "", "", "") if False else None

plant("c03-xlnx-slope", "C03", O + "logarithmic.rs",
  "    type Adjoint = Mul<N::Adjoint, AddOne<Ln<N>>>;\n\n    fn adjoint(&self, target: T) -> Self::Adjoint {\n        self.0.adjoint(target).mul(AddOne(Ln(self.0.clone())))",
  "    type Adjoint = AddOne<Mul<N::Adjoint, Ln<N>>>;\n\n    fn adjoint(&self, target: T) -> Self::Adjoint {\n        AddOne(self.0.adjoint(target).mul(Ln(self.0.clone())))",
  "x ln(x) of an inner expression whose slope is not one: the derivative of a power with a varying exponent, taken twice, or XLnX of a non-trivial expression",
  "the derivative of u ln(u) is 1 + u' ln(u) instead of u' (1 + ln(u)); first derivatives of powers stay right",
  '''
fn main() {
    // f = u ln u with u = 2x: f' = 2 (1 + ln 2x).
    let f = ops::XLnX(X.into_var().add(X.into_var()));
    let g = f.evaluate_adjoint(X, ctx!{X = 3.0f64}).unwrap();
    assert!((g - 2.0 * (1.0 + 6f64.ln())).abs() < 1e-12, "{}", g);
    let g = ops::XLnX(X.into_var()).evaluate_adjoint(X, ctx!{X = 3.0f64}).unwrap();
    assert!((g - (1.0 + 3f64.ln())).abs() < 1e-12, "{}", g);
}''')

plant("c02-outer-left", "C02", BF + "arrays/contraction_ops.rs",
  "            Ok(Raw(array_init::array_init(|_| y.map(|y_i| fx * y_i))))", "            Ok(Raw(array_init::array_init(|_| y.map(|y_i| y_i))))",
  "the tensor product of a uniform vector other than ones with a vector",
  "the tensor product of a uniform vector (as in the derivative of a scaled variable) drops the uniform value",
  '''
fn main() {
    let c = aegir::meta::Constant(Spec::<[f64; 2]>::Full(S1, 3.0));
    let op = ops::Contract::<0, _, _>::new(c, X.into_var());
    assert_eq!(op.evaluate(ctx!{X = [1.0, 2.0, 4.0]}).unwrap(), [[3.0, 6.0, 12.0]; 2]);
}''')

plant("c05-spec-map", "C05", BF + "spec.rs",
  "                let zero = F::zero();\n", "                let zero = value - value;\n",
  "mapping a structured diagonal whose entries are infinite or NaN",
  "the off-diagonal entries of a mapped diagonal are computed from value - value, which is NaN for an infinite value",
  '''
fn main() {
    let s = Spec::<[[f64; 2]; 2]>::Diagonal(S2, f64::INFINITY).map(|x| x + 1.0);
    assert_eq!(s.unwrap(), [[f64::INFINITY, 1.0], [1.0, f64::INFINITY]]);
    let s = Spec::<[[f64; 2]; 2]>::Diagonal(S2, 3.0).map(|x| x + 1.0);
    assert_eq!(s.unwrap(), [[4.0, 1.0], [1.0, 4.0]]);
}''')

plant("c05-add-diagonals", "C05", B,
  "            (Full(sx, fx), Full(sy, fy)) => sx.broadcast(sy).map(|sz| Full(sz, fx + fy)),\n\n            (Raw(x), Full(sy, fy)) if fy.is_zero() => x.zip_shape(sy).map(Raw),\n\n            (Full(sx, fx), Raw(y)) if fx.is_zero() =>",
  "            (Full(sx, fx), Full(sy, fy)) => sx.broadcast(sy).map(|sz| Full(sz, fx + fy)),\n\n            (Diagonal(sx, fx), Diagonal(sy, fy)) => sx.broadcast(sy).map(|sz| Full(sz, fx + fy)),\n\n            (Raw(x), Full(sy, fy)) if fy.is_zero() => x.zip_shape(sy).map(Raw),\n\n            (Full(sx, fx), Raw(y)) if fx.is_zero() =>",
  "the sum of two structurally diagonal operands, as in the Jacobian of x + x by a vector x",
  "the sum of two diagonals is uniform: every entry of the Jacobian of x + x is 2",
  '''
fn main() {
    let op = X.into_var().add(X.into_var());
    assert_eq!(op.evaluate_adjoint(X, ctx!{X = [1.0, 2.0]}).unwrap(), [[2.0, 0.0], [0.0, 2.0]]);
}''')

plant("c06-sum-uniform", "C06", U,
  "    fn evaluate_shape<CR: AsMut<C>>(&self, _: CR) -> Result<ShapeOf<Self::Value>, Self::Error> {\n        Ok(S0)\n    }",
  "    fn evaluate_shape<CR: AsMut<C>>(&self, _: CR) -> Result<ShapeOf<Self::Value>, Self::Error> {\n        Ok(S0)\n    }", "", "", "") if False else None

plant("c06-const-adjoint-target", "C06", BF + "shapes/runtime.rs",
  "    fn broadcast(self, _: S0) -> Result<Self, IncompatibleShapes<Self, S0>> { Ok(self) }",
  "    fn broadcast(self, _: S0) -> Result<Self, IncompatibleShapes<Self, S0>> {\n        Ok(SDynamic(array_init::array_init(|i| self.0[i].max(1))))\n    }",
  "combining an empty vector with a scalar, asking only for the shape (or with structured operands)",
  "the inferred shape of an empty vector combined with a scalar has one entry while the value has none",
  '''
use aegir::buffers::shapes::Shaped;
fn main() {
    let op = X.into_var().add(Y.into_var());
    let mut c = ctx!{X = Vec::<f64>::new(), Y = 2.0};
    assert_eq!(op.evaluate_shape(&mut c).unwrap(), op.evaluate(&mut c).unwrap().shape());
    let mut c = ctx!{X = vec![1.0, 2.0], Y = 2.0};
    assert_eq!(op.evaluate_shape(&mut c).unwrap(), op.evaluate(&mut c).unwrap().shape());
}''')

plant("c07-short-left", "C07", BF + "vecs.rs",
  "        let lshape = self.shape();\n        let rshape = rhs.shape();\n\n        if lshape != rshape {",
  "        let lshape = self.shape();\n        let rshape = rhs.shape();\n\n        if lshape[0] > rshape[0] {",
  "combining vectors of different lengths whose left operand is the shorter one",
  "a longer right operand is silently truncated instead of being reported as incompatible",
  '''
fn main() {
    let op = X.into_var().add(Y.into_var());
    assert!(op.evaluate(ctx!{X = vec![1.0, 2.0, 3.0], Y = vec![1.0]}).is_err());
    assert!(op.evaluate(ctx!{X = vec![1.0], Y = vec![1.0, 2.0, 3.0]}).is_err());
}''')

plant("c07-zero-vector-length", "C07", BF + "vecs.rs",
  "    fn zip_shape(\n        self,\n        rshape: Self::Shape,\n    ) -> Result<Vec<F>, IncompatibleShapes<SDynamic<1>>> {\n        let lshape = self.shape();\n\n        if lshape != rshape {",
  "    fn zip_shape(\n        self,\n        rshape: Self::Shape,\n    ) -> Result<Vec<F>, IncompatibleShapes<SDynamic<1>>> {\n        let lshape = self.shape();\n\n        if lshape[0] < rshape[0] {",
  "adding a structurally zero vector that is shorter than the other operand",
  "the length of a structurally zero operand is only checked in one direction, so that the mismatch is not reported",
  '''
fn main() {
    let zero = |n: usize| aegir::meta::Constant(Spec::<Vec<f64>>::zeroes(SDynamic([n])));
    assert!(X.into_var().add(zero(2)).evaluate(ctx!{X = vec![1.0, 2.0]}).is_ok());
    assert!(X.into_var().add(zero(3)).evaluate(ctx!{X = vec![1.0, 2.0]}).is_err());
    assert!(X.into_var().add(zero(1)).evaluate(ctx!{X = vec![1.0, 2.0]}).is_err());
}''')

plant("c07-div-order", "C07", B,
  "        let x = self.0.evaluate(ctx.as_mut()).map_err(BinaryError::Left)?;\n        let y = self.1.evaluate(ctx).map_err(BinaryError::Right)?;\n\n        x.zip_map_id(&y, |xi, yi| xi / yi)",
  "        let y = self.1.evaluate(ctx.as_mut()).map_err(BinaryError::Right)?;\n        let x = self.0.evaluate(ctx).map_err(BinaryError::Left)?;\n\n        x.zip_map_id(&y, |xi, yi| xi / yi)",
  "a quotient both of whose operands fail (two undefined variables)",
  "the failure of the right operand is reported although the left one fails first",
  '''
#[derive(Context)]
struct C { #[cache] #[id(X)] x: Option<f64>, #[cache] #[id(Y)] y: Option<f64> }
fn main() {
    let op = X.into_var().div(Y.into_var());
    let e = op.evaluate(C { x: None, y: None }).unwrap_err();
    assert!(matches!(e, errors::BinaryError::Left(_)), "{:?}", e);
    let e = op.evaluate(C { x: Some(1.0), y: None }).unwrap_err();
    assert!(matches!(e, errors::BinaryError::Right(_)), "{:?}", e);
}''')

plant("c07-error-sides", "C13", BF + "vecs.rs",
  "                let dx = SDynamic([nx]);\n                let dy = SDynamic([ny]);", "                let dx = SDynamic([nx.min(ny)]);\n                let dy = SDynamic([nx.max(ny)]);",
  "folding two vectors of different lengths where the left one is longer",
  "the reported left and right shapes are sorted by length instead of naming the operands",
  '''
fn main() {
    let e = vec![1.0f64, 2.0].zip_fold(&vec![1.0, 2.0, 3.0], 0.0f64, |a, (x, y)| a + x * y).unwrap_err();
    assert_eq!((e.left, e.right), (SDynamic([2]), SDynamic([3])));
    let e = vec![1.0f64, 2.0, 3.0].zip_fold(&vec![1.0, 2.0], 0.0f64, |a, (x, y)| a + x * y).unwrap_err();
    assert_eq!((e.left, e.right), (SDynamic([3]), SDynamic([2])));
}''')

plant("c08-cache-overwrite", "C08", "aegir_derive/src/ctx/derive.rs",
  "            #[inline]\n            fn write(&mut self, _: #field_id, __value: Self::Buffer) {\n                self.#field_name.replace(__value);", "            fn write(&mut self, _: #field_id, __value: Self::Buffer) {\n                self.#field_name.get_or_insert(__value);",
  "writing a cache slot that already holds a value",
  "a write to a cache field that is already filled is ignored",
  '''
#[derive(Context)]
struct C { #[cache] #[id(X)] x: Option<f64> }
fn main() {
    let mut c = C { x: None };
    c.write(X, 1.0);
    assert_eq!(c.read(X), Some(1.0));
    c.write(X, 2.0);
    assert_eq!(c.read(X), Some(2.0));
}''')

plant("c09-cached-fresh", "C09", M + "cached.rs",
  "        let value = self.node.evaluate(ctx.as_mut())?;\n\n        ctx.as_mut().write(self.ident, value.clone());\n\n        Ok(value)",
  "        let value = self.node.evaluate(ctx.as_mut())?;\n\n        if ctx.as_mut().read(self.ident).is_none() {\n            ctx.as_mut().write(self.ident, value.clone());\n            return Ok(value);\n        }\n\n        Ok(ctx.as_mut().read(self.ident).unwrap_or(value))",
  "two nested caches over the same slot where the inner one stores a different value than the outer expression has",
  "the outer cached node returns the inner node's stored value instead of its own and does not store its own value",
  '''
#[derive(Context)]
struct C { #[id(X)] x: f64, #[cache] #[id(Y)] y: Option<f64> }
fn main() {
    let op = ops::Double(X.into_var().cached(Y)).cached(Y);
    let mut c = C { x: 3.0, y: None };
    assert_eq!(op.evaluate(&mut c).unwrap(), 6.0);
    assert_eq!(c.y, Some(6.0));
}''')

plant("c09-adjoint-of-slot", "C09", M + "cached.rs",
  "        let cached = ctx.as_mut().read(self.ident);\n\n        if let Some(value) = cached {\n            return Ok(value);\n        }",
  "        let cached = ctx.as_mut().read(self.ident);\n\n        if let Some(value) = cached {\n            ctx.as_mut().write(self.ident, value.clone());\n            return Ok(value);\n        }",
  "a context that counts or rejects writes: a hit writes the value back",
  "reading a filled slot writes it again, which a context that tracks its writes notices",
  '''
struct C { x: f64, y: Option<f64>, writes: usize }
impl AsMut<C> for C { fn as_mut(&mut self) -> &mut C { self } }
impl Context for C {}
impl Read<X> for C { type Buffer = f64; fn read(&self, _: X) -> Option<f64> { Some(self.x) } }
impl Read<Y> for C { type Buffer = f64; fn read(&self, _: Y) -> Option<f64> { self.y } }
impl Write<Y> for C { fn write(&mut self, _: Y, v: f64) { self.y = Some(v); self.writes += 1; } }
fn main() {
    let op = X.into_var().cached(Y);
    let mut c = C { x: 3.0, y: None, writes: 0 };
    for _ in 0..3 { assert_eq!(op.evaluate(&mut c).unwrap(), 3.0); }
    assert_eq!(c.writes, 1);
}''')

plant("c10-constant-derivative", "C10", M + "constant.rs",
  "self.node.contains(ident) || self.target == ident", "self.target == ident",
  "asking whether the second derivative of a variable (or the derivative of a derivative of one) contains that variable",
  "the derivative of something constant no longer contains what its operand refers to",
  '''
fn main() {
    let j = X.into_var().adjoint(Y).adjoint(Z);
    assert!(Contains::<X>::contains(&j, X));
    assert!(Contains::<Z>::contains(&j, Z));
}''')

plant("c11-diagonal-ends", "C11", BF + "shapes/mod.rs",
  "            Some(ix) => it.all(|jx| ix == jx),", "            Some(ix) => it.last().map_or(true, |jx| ix == jx),",
  "an index of rank three or more whose first and last entries agree but not those between",
  "an index such as [0, 1, 0] counts as diagonal",
  '''
use aegir::buffers::shapes::Ix;
fn main() {
    assert!([1usize, 1, 1].is_diagonal());
    assert!(![0usize, 1].is_diagonal());
    assert!(![0usize, 0, 1].is_diagonal());
    assert!(![0usize, 1, 0].is_diagonal());
}''')

plant("c11-split-index", "C11", BF + "shapes/compiled.rs",
  "        ([index[0], index[1]], [index[2], index[3]])", "        ([index[0], index[2]], [index[1], index[3]])",
  "splitting an index of a rank-four shape",
  "the two middle axes are exchanged when an index of rank four is split",
  '''
fn main() {
    assert_eq!(<S4<2, 3, 4, 5> as Split>::split_index([1, 2, 3, 4]), ([1, 2], [3, 4]));
}''')

plant("c11-product-reset", "C11", BF + "shapes/multi_product.rs",
  "                last.reset();\n                last.iterate();", "                if last.iter_orig.end > 1 { last.reset(); }\n                last.iterate();",
  "enumerating a dynamic shape with a later axis of extent one",
  "the enumeration of the indices of a dynamic shape stops early when a later axis has extent one",
  '''
fn main() {
    assert_eq!(SDynamic([2, 2]).indices().count(), 4);
    let v: Vec<_> = SDynamic([2usize, 1]).indices().collect();
    assert_eq!(v, vec![[0, 0], [1, 0]]);
}''')

plant("c11-remaining", "C11", BF + "shapes/multi_product.rs",
  "                let total_count = iter_orig.clone().count();\n                let cur_count = iter.clone().count();\n                acc * total_count + cur_count",
  "                let total_count = iter.clone().count() + 1;\n                let cur_count = iter.clone().count();\n                acc * total_count + cur_count",
  "counting the remaining indices of a multi-axis dynamic shape after having taken some",
  "count() of a partly consumed enumeration is too small",
  '''
fn main() {
    for k in 0..=6 {
        let mut it = SDynamic([2usize, 3]).indices();
        for _ in 0..k { it.next(); }
        assert_eq!(it.count(), 6 - k);
    }
}''')

plant("c12-rank4-build", "C12", BF + "arrays/buffer.rs",
  "                    array_init::array_init(|l| f([i, j, k, l]))\n", "                    array_init::array_init(|l| f([i, j, l, k]))\n",
  "building a rank-four array from a function of the index",
  "the last two axes are exchanged in arrays of rank four that are built from a function",
  '''
fn main() {
    let b: [[[[f64; 2]; 2]; 2]; 2] = Arrays::build(S4, |ix: [usize; 4]| (8 * ix[0] + 4 * ix[1] + 2 * ix[2] + ix[3]) as f64);
    for ix in b.shape().indices() {
        assert_eq!(b.get(ix), Some((8 * ix[0] + 4 * ix[1] + 2 * ix[2] + ix[3]) as f64));
    }
}''')

plant("c12-tuple-subset", "C12", BF + "tuples.rs",
  "                buf.1 = active(1);\n", "                buf.1 = active(0);\n",
  "building a pair from a subset of its indices with a function that depends on the index",
  "the second entry of a pair is computed from the first index",
  '''
fn main() {
    let b: (f64, f64) = Tuples::build_subset(S1, 7.0, vec![1usize].into_iter(), |i| i as f64);
    assert_eq!(b, (7.0, 1.0));
}''')

plant("c12-bounds", "C12", BF + "shapes/runtime.rs",
  "        ix.iter().zip(self.0.iter()).all(|(l, r)| l < r)", "        ix.iter().zip(self.0.iter()).all(|(l, r)| l <= r)",
  "reading a dynamically sized vector exactly one past its end",
  "an index equal to the extent counts as contained: get panics instead of returning nothing",
  '''
fn main() {
    let b = vec![1.0, 2.0];
    assert_eq!(b.get([1]), Some(2.0));
    assert_eq!(b.get([2]), None);
}''')

plant("c13-pair-fold", "C13", BF + "tuples.rs",
  "        let y = f(x, (self.1, rhs.1));\n", "        let y = f(x, (self.1, rhs.1)) + (init - init);\n",
  "folding pairs with an infinite initial value", "the fold of pairs adds (init - init), which is NaN for an infinite initial value",
  '''
fn main() {
    let m = (1.0f64, 5.0).zip_fold(&(3.0, 2.0), f64::INFINITY, |a, (x, y)| a.min(x * y)).unwrap();
    assert_eq!(m, 3.0);
}''')

plant("c13-scalar-left-vector", "C13", BF + "vecs.rs",
  "        let buf = rhs.into_iter().copied().map(|x| f(self, x)).collect();\n", "        let buf = rhs.into_iter().copied().map(|x| f(x, self)).collect();\n",
  "a non-commutative combination of a scalar on the left with a vector on the right",
  "the operands are exchanged when a scalar is combined with a vector: x - v computes v - x",
  '''
fn main() {
    assert_eq!(X.into_var().add(Y.into_var()).evaluate(ctx!{X = 1.0, Y = vec![2.0, 4.0]}).unwrap(), vec![3.0, 5.0]);
    assert_eq!(X.into_var().sub(Y.into_var()).evaluate(ctx!{X = 1.0, Y = vec![2.0, 4.0]}).unwrap(), vec![-1.0, -3.0]);
}''')

plant("c14-wide-diagonal", "C14", BF + "arrays/contraction_ops.rs",
  "        (_, Full(_, fy)) if fy.is_zero() => Ok(Spec::zeroes(S1)),\n", "        (_, Full(_, fy)) if fy.is_zero() => Ok(Full(S1, fy)),\n\n        (Full(_, fx), Diagonal(_, fy)) if M >= N => Ok(Full(S1, fx * fy)),\n",
  "a uniform vector times a structurally diagonal matrix with more columns than rows",
  "the entries beyond the diagonal are filled as well: [1, 1] · [[1, 0, 0], [0, 1, 0]] is [1, 1, 1]",
  '''
fn main() {
    let v = Spec::<[f64; 2]>::ones(S1);
    let m = Spec::<[[f64; 3]; 2]>::eye(S2);
    assert_eq!(buffers::contract_spec::<1, _, _>(v, m).unwrap().unwrap(), [1.0, 1.0, 0.0]);
}''')

plant("c14-diagonal-product", "C14", BF + "arrays/contraction_ops.rs",
  "        (Diagonal(_, fx), Diagonal(_, fy)) if N == Z && M == N => Ok(Diagonal(S2, fx * fy)),", "        (Diagonal(_, fx), Diagonal(_, fy)) if M == N => Ok(Diagonal(S2, fx * fy)),",
  "the product of two non-square structurally diagonal matrices with a square result and a smaller shared extent",
  "the product of a tall and a wide diagonal is a full diagonal although the shared axis is shorter",
  '''
fn main() {
    let a = Spec::<[[f64; 2]; 3]>::Diagonal(S2, 2.0);
    let b = Spec::<[[f64; 3]; 2]>::Diagonal(S2, 5.0);
    assert_eq!(buffers::contract_spec::<1, _, _>(a, b).unwrap().unwrap(), [[10.0, 0.0, 0.0], [0.0, 10.0, 0.0], [0.0, 0.0, 0.0]]);
}''')

plant("c15-quotient-brackets", "C15", B,
  'text: format!("{} / {}", l.to_safe_string(\'(\', \')\'), r.to_safe_string(\'(\', \')\')),\n                needs_wrap: true,',
  'text: format!("{} / {}", l.to_safe_string(\'(\', \')\'), r.to_safe_string(\'(\', \')\')),\n                needs_wrap: false,',
  "a quotient nested inside of another operator", "quotients are no longer bracketed: x / (y / z) prints as x / y / z",
  '''
fn main() {
    let op = X.into_var().div(Y.into_var().div(Z.into_var()));
    let op2 = X.into_var().div(Y.into_var()).div(Z.into_var());
    assert_ne!(op.to_string(), op2.to_string());
}''')

plant("c15-minus-sum", "C15", U,
  'text: format!("1 - {}", pw.to_safe_string(\'(\', \')\')),', 'text: format!("1 - {}", pw),',
  "printing 1 - f for a compound f", "1 - (x + y) prints as 1 - x + y",
  '''
fn main() {
    assert_eq!(ops::OneSub(X.into_var()).to_string(), "1 - x");
    assert_eq!(ops::OneSub(X.into_var().add(Y.into_var())).to_string(), "1 - (x + y)");
}''')

plant("c17-sorted-fields", "C17", "aegir_derive/src/ctx/derive.rs",
  "            CtxAttr::CacheAttr => { is_cache = true; }", "            CtxAttr::CacheAttr => { is_cache = field_ident.is_none(); }",
  "a cache field whose #[id] attribute precedes #[cache]", "the order of the attributes decides whether a field is a cache",
  '''
#[derive(Context)]
struct C { #[id(X)] #[cache] x: Option<f64>, #[cache] #[id(Y)] y: Option<f64> }
fn main() {
    let mut c = C { x: None, y: None };
    assert_eq!(c.read(X), None);
    c.write(X, 1.0);
    assert_eq!(c.read(X), Some(1.0));
    assert_eq!(c.read(Y), None);
}''')

plant("c18-subtract-reference", "C18", "aegir/src/dual.rs",
  "            value: self.value - &rhs.value,\n            adjoint: self.adjoint - &rhs.adjoint,", "            value: self.value - &rhs.value,\n            adjoint: self.adjoint - &rhs.value,",
  "subtracting a dual number by reference with a non-zero derivative", "the value is subtracted from the derivative when a dual is subtracted by reference",
  '''
fn main() {
    let (a, b) = (dual!(5.0, 1.0), dual!(2.0, 3.0));
    assert_eq!(a - b, dual!(3.0, -2.0));
    assert_eq!(a - &b, dual!(3.0, -2.0));
}''')

plant("c18-product-reference", "C18", "aegir/src/dual.rs",
  "            adjoint: self.adjoint * &rhs.value + self.value * &rhs.adjoint,", "            adjoint: self.adjoint * &rhs.value + self.value.clone() * &rhs.adjoint - self.value * &rhs.adjoint + rhs.adjoint.clone(),",
  "", "", "") if False else None

plant("c18-conjugate", "C18", "aegir/src/dual.rs",
  "        let adjoint = <B::Class as Class<B::Shape>>::full(buffer.shape(), F::zero());", "        let adjoint = buffer.map_ref(|x| x - x);",
  "a constant dual number of an infinite or NaN value", "the derivative of a constant is computed as x - x, which is NaN for infinite values",
  '''
fn main() {
    assert_eq!(Dual::constant(2.0f64).adjoint, 0.0);
    assert_eq!(Dual::constant(f64::INFINITY).adjoint, 0.0);
}''')

plant("c19-logistic-overflow", "C19", O + "sigmoid.rs",
  "    if x >= num_traits::zero() {", "    if x <= num_traits::zero() {",
  "the logistic function at arguments beyond the range of exp (above about 709, or infinite)",
  "the branches are exchanged, so that exp overflows and the result is NaN for large positive arguments",
  '''
fn main() {
    for x in [0.0f64, 1.0, -1.0, 50.0, -50.0, 800.0, -800.0, f64::INFINITY] {
        let s = X.into_var().sigmoid().evaluate(ctx!{X = x}).unwrap();
        assert!(s >= 0.0 && s <= 1.0, "{} {}", x, s);
    }
}''')

plant("c19-asinh-formula", "C19", O + "trig.rs",
  "ArcSinh<F: Real>, |x| { x.asinh() }", "ArcSinh<F: Real>, |x| { (x + (x * x + F::one()).sqrt()).ln() }",
  "the inverse hyperbolic sine of large negative arguments", "asinh(-1e10) is ln(0) = -inf",
  '''
fn main() {
    for x in [0.5f64, -0.5, 1e10, -1e10] {
        let a = ops::trig::ArcSinh(X.into_var()).evaluate(ctx!{X = x}).unwrap();
        assert!((a - x.asinh()).abs() < 1e-9 * a.abs(), "{} {}", x, a);
    }
}''')

plant("c19-tanh-formula", "C19", O + "trig.rs",
  "Tanh<F: Real>, |x| { x.tanh() }", "Tanh<F: Real>, |x| { let e = (x + x).exp(); (e - F::one()) / (e + F::one()) }",
  "the hyperbolic tangent beyond the range of exp, or close to zero", "tanh(400) is inf/inf = NaN",
  '''
fn main() {
    for x in [0.5f64, -0.5, 30.0, -400.0, 400.0] {
        let a = ops::trig::Tanh(X.into_var()).evaluate(ctx!{X = x}).unwrap();
        assert!((a - x.tanh()).abs() < 1e-12, "{} {}", x, a);
    }
}''')

plant("c19-xlnx-floor", "C19", O + "logarithmic.rs",
  "        if x <= F::zero() { F::zero() } else { x * x.ln() }", "        if x <= F::epsilon() { F::zero() } else { x * x.ln() }",
  "x ln(x) at positive arguments below the machine epsilon", "x ln(x) is cut to zero below the machine epsilon",
  '''
fn main() {
    for x in [0.5f64, 1e-10, 1e-17, 1e-200] {
        let a = ops::XLnX(X.into_var()).evaluate(ctx!{X = x}).unwrap();
        assert!((a - x * x.ln()).abs() <= 1e-9 * a.abs() && a < 0.0, "{} {}", x, a);
    }
}''')

plant("c20-dual-order", "C20", "aegir/src/lib.rs",
  "        let value = self.evaluate(&mut ctx).map_err(BinaryError::Left)?;\n        let adjoint = self.evaluate_adjoint(target, ctx).map_err(BinaryError::Right)?;\n\n        Ok(dual!(value, adjoint))",
  "        let value = self.evaluate(&mut ctx).map_err(BinaryError::Left)?;\n        let adjoint = self.evaluate_adjoint(target, &mut ctx).map_err(BinaryError::Right)?;\n        let value = self.evaluate(ctx).unwrap_or(value);\n\n        Ok(dual!(value, adjoint))",
  "counting evaluations: the dual evaluates the expression twice", "", "") if False else None

plant("c20-twice-applied", "C20", "aegir/src/ops/mod.rs",
  "                self.0.evaluate(ctx).map(|mut buf| { buf.mutate(|$x| $f); buf })",
  "                self.0.evaluate_spec(ctx).map(|spec| match spec {\n                    crate::buffers::Spec::Full(sh, $x) => crate::buffers::Spec::Full(sh, $x),\n                    spec => crate::buffers::Spec::Raw({ let mut buf = spec.unwrap(); buf.mutate(|$x| $f); buf }),\n                }.unwrap())",
  "evaluating an elementwise operator of a structurally uniform operand by its value (a derivative of a variable, for example)",
  "evaluate forgets to apply the operator to uniform operands while evaluate_spec applies it",
  '''
fn main() {
    let c = aegir::meta::Constant(Spec::<[f64; 2]>::Full(S1, 3.0));
    let op = ops::Double(c);
    assert_eq!(op.evaluate_spec(ctx!{X = 0.0}).unwrap().unwrap(), [6.0; 2]);
    assert_eq!(op.evaluate(ctx!{X = 0.0}).unwrap(), [6.0; 2]);
}''')

plant("c04-empty-sum", "C04", BF + "arrays/buffer.rs",
  "                for i in 0..D1 {\n                    init = self[i].fold(init, &f)\n                }", "                for row in self.iter().take(4) {\n                    init = row.fold(init, &f)\n                }",
  "summing (or folding) an array whose leading extent exceeds four", "only the first four rows of an array are folded",
  '''
fn main() {
    assert_eq!(X.into_var().sum().evaluate(ctx!{X = [1.0; 4]}).unwrap(), 4.0);
    assert_eq!(X.into_var().sum().evaluate(ctx!{X = [1.0; 5]}).unwrap(), 5.0);
    assert_eq!(X.into_var().sum().evaluate(ctx!{X = [[1.0; 2]; 6]}).unwrap(), 12.0);
}''')
