#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)
A = "aegir/src/"
OPS = [A+"ops/mod.rs", A+"ops/arithmetic/binary.rs", A+"ops/arithmetic/unary.rs", A+"ops/linalg/mod.rs",
       A+"ops/logarithmic.rs", A+"ops/sigmoid.rs", A+"ops/special.rs", A+"ops/trig.rs"]
META = [A+"meta/constant.rs", A+"meta/variable.rs", A+"meta/cached.rs"]
BUF = [A+"buffers/mod.rs", A+"buffers/scalars.rs", A+"buffers/tuples.rs", A+"buffers/vecs.rs", A+"buffers/arrays/buffer.rs"]

p("C01", "Derivatives with respect to scalar variables are the true derivatives",
  "For every expression built from the differentiable operators, at every point where the function is smooth, evaluating the derivative expression with respect to a scalar variable yields the mathematical derivative of the expression's value, entry by entry for scalar, tuple, vector and matrix values. This holds however the operators are nested, however often the variable occurs, and whichever of the context's variables is the target.",
  ["programs", "inputs"], "every composition of differentiable operators over scalar, tuple, vector and matrix operands, every scalar target, every point of smoothness",
  "The doc-tests check each operator applied to a bare variable at two or three points; compositions, products of sub-expressions that both depend on the target, non-integer points and array-valued operands are not reached.",
  OPS+META[:2], [("adjoint of each operator", "Differentiable::adjoint impls in aegir/src/ops/**"), ("source adjoints", "VariableAdjoint / ConstantAdjoint in aegir/src/meta")],
  ["evaluate of the adjoint tree", "evaluate_adjoint", "evaluate_dual"])

p("C02", "Gradients and Jacobians with respect to arrays have the right shape and entries",
  "Differentiating with respect to an array variable produces an array whose shape is the shape of the value followed by the shape of the target, and whose entry at (i, j) is the partial derivative of value entry i by target entry j. This covers gradients of scalar-valued expressions of vectors, Jacobians of vector-valued expressions, matrix-by-matrix Jacobians, and targets that do not occur in the expression.",
  ["programs", "inputs"], "every expression that type-checks as differentiable by an array variable, every vector length and matrix size, every value of the variables",
  "Unit tests cover the dot product of two bare vectors, the Jacobian of a bare length-2 vector and two example programs; no test composes operators around a dot product or looks at a matrix target or unequal sizes.",
  [A+"meta/variable.rs", A+"meta/constant.rs", A+"ops/linalg/mod.rs", A+"ops/arithmetic/binary.rs", A+"buffers/arrays/contraction_ops.rs", A+"buffers/shapes/compiled.rs"],
  [("identity/zero Jacobian of a variable", "VariableAdjoint::evaluate_spec"), ("zero Jacobian of a constant", "ConstantAdjoint::evaluate_spec"), ("product rule for contractions", "Contract::adjoint"), ("chain rule through broadcasting products", "Mul/Div/Power adjoint")],
  ["evaluate / evaluate_spec / evaluate_shape of the adjoint tree"])

p("C03", "Differentiation can be repeated: higher-order and mixed derivatives are exact",
  "Differentiating an expression repeatedly, with respect to the same or different variables, yields the corresponding higher-order or mixed partial derivative at every smooth point. The result does not depend on the order in which the variables are taken.",
  ["programs", "inputs"], "every expression of operators with iterable derivatives, every sequence of up to three scalar targets (and a vector target combined with scalar ones), every smooth point",
  "No test in the repository takes a second derivative.",
  OPS+META[:2], [("closure of the operator set under differentiation", "type Adjoint of each Differentiable impl"), ("adjoint of source adjoints", "Differentiable impls of VariableAdjoint and ConstantAdjoint")],
  ["evaluate on adjoint(adjoint(..))"])

p("C04", "Evaluating an expression computes its mathematical function",
  "Evaluating an expression against a context that defines its variables yields the mathematical value of the expression: element-wise for element-wise operators, with scalars broadcast against arrays on either side, operands kept in order, sums and contractions reduced over the right entries. This holds for scalars, pairs, fixed-size arrays and dynamic vectors and for any nesting of operators.",
  ["programs", "inputs"], "every well-typed expression tree over every buffer kind, sizes including empty and one, every in-domain value",
  "Each operator is only tested on a bare scalar variable at a few points; array operands, scalar-on-the-left broadcasting, nesting and dynamic vectors are untested.",
  OPS+[A+"meta/constant.rs", A+"meta/variable.rs", A+"buffers/arrays/zip_ops.rs", A+"buffers/vecs.rs", A+"buffers/tuples.rs", A+"buffers/scalars.rs"],
  [("unary operator skeleton", "impl_unary! in aegir/src/ops/mod.rs"), ("binary operators", "Function impls in aegir/src/ops/arithmetic/binary.rs"), ("contraction operator", "aegir/src/ops/linalg/mod.rs")],
  ["evaluate"])

p("C05", "Structural shortcuts never change a result",
  "Knowing that a value is uniform or diagonal is only an optimisation: for every expression and every combination of dense, uniform and diagonal operands, the structured evaluation, once expanded, equals the evaluation on the same operands given densely. The same holds for mapping, zipping and contracting structured values directly, and for every shortcut on zeroes, ones and identities.",
  ["programs", "inputs"], "every operator and nesting, every assignment of dense/uniform/diagonal form to the operands (including structural zeroes and ones, zero powers and non-square shapes), all finite values",
  "Tests exercise structured values only through three doc-tests on uniform operands; the combinations of structures inside arithmetic, contractions and derivatives are never compared with the dense computation.",
  [A+"buffers/spec.rs", A+"ops/mod.rs", A+"ops/arithmetic/binary.rs", A+"ops/arithmetic/unary.rs", A+"buffers/arrays/contraction_ops.rs", A+"meta/constant.rs", A+"meta/variable.rs"],
  [("structured values", "Spec in aegir/src/buffers/spec.rs"), ("shortcuts of the binary operators", "evaluate_spec in binary.rs"), ("shortcuts of contractions", "contract_spec in contraction_ops.rs")],
  ["evaluate vs evaluate_spec(..).unwrap()", "contract_spec vs contract", "Spec::map / zip_map vs Buffer::map / zip_map"])

p("C06", "Shape inference agrees with the evaluated value",
  "For every expression and every derivative expression, the inferred shape equals the shape of the value that evaluation returns and the shape of the structured value, whenever evaluation succeeds. If inferring the shape fails because a variable is undefined or shapes disagree, evaluation fails as well.",
  ["programs", "inputs", "configurations"], "every expression tree over all buffer kinds, dynamic vector lengths (including 0 and unequal lengths), undefined variables, and the derivative trees",
  "No test evaluates a shape.",
  OPS+META+[A+"lib.rs"], [("shape-only evaluation", "Function::evaluate_shape impls"), ("shape broadcasting", "Broadcast impls in aegir/src/buffers/shapes")],
  ["evaluate_shape", "evaluate", "evaluate_spec"])

p("C07", "Undefined variables and mismatched shapes are reported as errors, never panics",
  "Evaluating an expression in which a variable has no value, or whose operands have incompatible shapes, returns an error; evaluation never panics and never returns data for such an expression. The error identifies the failing variable, or the two offending shapes in operand order, and its path says which operand of each enclosing operator failed, the left operand being reported first.",
  ["inputs", "configurations", "fault_sequences"], "every expression tree, every subset of variables left undefined, every combination of dynamic vector lengths, evaluated by value, structure, shape, derivative and dual",
  "Tests only evaluate fully defined, shape-compatible expressions; no error value is ever constructed by a test.",
  [A+"errors.rs", A+"meta/mod.rs", A+"meta/variable.rs", A+"meta/constant.rs", A+"ops/arithmetic/binary.rs", A+"ops/linalg/mod.rs", A+"lib.rs", A+"buffers/vecs.rs", A+"buffers/shapes/runtime.rs", A+"buffers/shapes/mod.rs"],
  [("error propagation", "UnaryError / BinaryError mapping in evaluate*"), ("shape check of dynamic vectors", "zip_map / zip_fold / zip_shape for Vec, SDynamic::broadcast")],
  ["Result of evaluate / evaluate_spec / evaluate_shape / evaluate_dual", "Display of the error"])

p("C08", "A context returns what was last stored, for each identifier independently",
  "Reading an identifier from a context yields exactly the value most recently stored for it, whether set at construction, assigned to the field or written through the interface; storing one identifier never changes another, and a cache slot is empty until it is written. The value, the structured value and the shape read for an identifier always describe the same buffer, and structured writes store the expanded buffer.",
  ["histories", "configurations"], "every sequence of reads, writes, structured writes and field assignments on contexts with plain and cache fields of every buffer kind",
  "Tests build a context once and evaluate once; nothing writes through the interface or interleaves reads and writes.",
  [A+"lib.rs", "aegir_derive/src/ctx/derive.rs", "aegir_derive/src/ctx/ctx_type.rs"],
  [("generated Read/Write impls", "aegir_derive/src/ctx/derive.rs"), ("default read/read_spec/read_shape/write_spec", "aegir/src/lib.rs")],
  ["read", "read_spec", "read_shape", "write", "write_spec", "variable evaluation"],
  [("context fields", "one slot per identifier; cache slots are optional", "struct generated by ctx_type!/derive(Context)")])

p("C09", "Caching is transparent and computes at most once per cache fill",
  "Evaluating a cached expression with an empty slot returns the same result as the uncached expression and stores exactly that value; with a filled slot it returns the stored value without evaluating the inner expression. A failed evaluation stores nothing, other identifiers are never touched, and differentiating a cached expression gives the derivative of the inner expression.",
  ["histories", "programs", "fault_sequences"], "every history of evaluations, variable updates, cache clears and cache writes over expressions sharing several cache slots, including evaluations that fail",
  "The only use of caching in the repository is a timing example that is never asserted.",
  [A+"meta/cached.rs", A+"lib.rs", "aegir_derive/src/ctx/derive.rs"],
  [("read-through cache", "Function for Cached"), ("derivative of a cached node", "Differentiable for Cached")],
  ["evaluate / evaluate_spec / evaluate_shape of cached nodes", "context after evaluation", "evaluation counter in a probe node"],
  [("cache slot", "None until the first successful evaluation", "context field marked cache")])

p("C10", "Symbolic containment and independence",
  "An expression reports that it contains an identifier exactly when a variable with that identifier occurs in it (at any depth, in any operand, or as the name of a cache it uses). If it does not contain the identifier, its value does not change when that identifier's value changes or is removed, and its derivative with respect to the identifier is zero at every point of its domain, with the shape of the value followed by that of the target.",
  ["programs", "inputs"], "every expression over every operator and every identifier, present or absent",
  "No test calls the containment query; zero derivatives are tested for one bare variable.",
  ["aegir_derive/src/ops.rs", A+"meta/variable.rs", A+"meta/constant.rs", A+"meta/cached.rs", A+"lib.rs"],
  [("derived containment", "expand_contains in aegir_derive/src/ops.rs"), ("containment of sources", "Contains impls in aegir/src/meta")],
  ["contains", "evaluate of the adjoint tree"])

p("C11", "Shapes enumerate exactly their indices; concat, split and broadcast are coherent",
  "Every shape enumerates each of its valid indices exactly once in row-major order; the number of indices, the size hints at every point of the iteration, the membership test and the cardinality all agree, for compile-time and run-time shapes alike. Concatenating shapes and indices appends dimensions, splitting undoes it, and broadcasting accepts exactly equal shapes or a scalar and returns the non-scalar shape.",
  ["inputs", "configurations"], "every rank 0 to 6, every tuple of dimensions including zero and one, every prefix of the iteration, every index inside and outside",
  "Doc-tests look at one vector shape and one concatenation; the hand-written multi-dimensional iterator, its size hints and all ranks above 2 are untested.",
  [A+"buffers/shapes/mod.rs", A+"buffers/shapes/compiled.rs", A+"buffers/shapes/runtime.rs", A+"buffers/shapes/multi_product.rs"],
  [("run-time index iterator", "MultiProduct"), ("compile-time shapes", "impl_fixed! in compiled.rs"), ("concat/split tables", "impl_concat! / impl_add_dim!")],
  ["Shape::{indices, contains, cardinality}", "Concat", "Split", "Broadcast"])

p("C12", "Buffer construction, access and transformation follow the element-wise laws",
  "Constructing a buffer from an index function, a fill value, a diagonal value or a subset of indices puts exactly the specified value at every index; reading an index returns that element and reading outside the shape returns nothing. Mapping (by value, by reference or in place), folding and summing visit every element exactly once in index order and preserve the shape, for scalars, pairs, dynamic vectors and arrays of every rank.",
  ["inputs", "configurations"], "every buffer class and rank, sizes including 0 and 1, every element type the library declares a scalar, arbitrary element values and functions",
  "Doc-tests construct 2- and 3-element buffers and 3x3 matrices; ranks 3 to 5, empty buffers, by-reference maps and out-of-range access are untested.",
  BUF, [("Class constructors", "Class::{build, build_subset, full, diagonal, identity, zeroes, ones}"), ("Buffer transforms", "Buffer::{get, map, map_ref, mutate, fold, sum}")],
  ["returned buffers and the sequence of calls made to the supplied functions"])

p("C13", "Zipping combines matching elements in operand order, with scalars broadcast",
  "Combining two buffers applies the function once to each pair of elements at the same index with the left operand first, whichever operand is a scalar being broadcast and whether the result is newly built, updated in place or folded. Expanding to another shape reproduces every element, and unequal dynamic shapes yield an error carrying both shapes in operand order.",
  ["inputs", "configurations"], "every supported pairing of buffer kinds and ranks, every size, non-commutative functions, arbitrary values",
  "Tests zip equal-length vectors with commutative functions only; scalar-left pairings, ranks 2 to 5, in-place variants and mismatches are untested.",
  [A+"buffers/arrays/zip_ops.rs", A+"buffers/vecs.rs", A+"buffers/tuples.rs", A+"buffers/scalars.rs", A+"buffers/mod.rs"],
  [("ZipMap / ZipMut / ZipFold impls", "impl_map!, impl_mut!, impl_fold! in zip_ops.rs; vecs.rs; tuples.rs; scalars.rs")],
  ["zip_map", "zip_map_id", "zip_mut", "zip_fold", "zip_shape"])

p("C14", "Tensor contraction and outer product match their index definition",
  "The outer product of two buffers has the concatenated shape and holds the product of the paired entries with the left factor's index first; the one-axis contraction sums products over the last axis of the left and the first axis of the right operand. Dense contraction, structured contraction on any mixture of dense, uniform and diagonal operands, and the contraction's shape rule all agree.",
  ["inputs", "configurations"], "every supported pairing of ranks 0 to 2, square and rectangular sizes including 0 and 1, every structure of each operand, arbitrary values",
  "Unit tests use one 2x2 example per dense pairing and no structured or rectangular operands.",
  [A+"buffers/arrays/contraction_ops.rs", A+"buffers/mod.rs", A+"ops/linalg/mod.rs"],
  [("contraction kernels and shortcuts", "impl_contract! in contraction_ops.rs (including unsafe reinterpretation for diagonal operands)")],
  ["contract", "contract_spec", "contract_shape", "evaluate of contraction operators"])

p("C15", "The printed form of an expression denotes the expression",
  "Reading the printed form of a scalar expression (or of its derivative) with ordinary operator precedence gives the same function as evaluating the expression. Nested operators are bracketed so that no two expressions with different values share a printed form, and simplifications of zeroes and ones in the text are value-preserving.",
  ["programs", "inputs"], "every nesting of printable operators over variables and constants, and the printed derivatives of those expressions",
  "One doc-test prints one expression.",
  [A+"fmt.rs"]+OPS+META[:2], [("text with bracketing information", "PreWrap / Expr in aegir/src/fmt.rs"), ("per-operator rendering", "ToExpr impls")],
  ["Display / to_expr of expressions"])

p("C16", "The expression DSL builds the tree that its Rust-style syntax denotes",
  "An expression written in the DSL behaves exactly as the same expression written with explicit builder calls under Rust's operator precedence, associativity and bracketing, with number literals becoming constants of the right type. This holds for any nesting of the supported operators, bracketed groups, method calls and blocks, including literals and squares in any position.",
  ["programs"], "every source expression over the supported syntax",
  "Six fixed expressions are compared, none with brackets, subtraction chains, nested powers or literals inside larger expressions.",
  ["aegir_compile/src/lib.rs"], [("syntax folding", "ConvertToAegir::fold_expr")],
  ["value and debug structure of the expanded expression"])

p("C17", "Identifier and context macros generate what was declared",
  "Every identifier declared in one declaration is a distinct symbol that prints as its declared symbol (or its own name when none is given), equals itself and differs from every other; the built-in Latin and Greek identifiers print as the letters they are named after. A declared context exposes exactly its declared fields, each bound to its declared identifier and behaving as plain or cache storage, in any number, order and mixture of buffer types.",
  ["programs", "configurations"], "every list of identifier declarations and every context declaration (inline, generic, or derived on a user struct)",
  "Tests use the macros incidentally with one or two fields; symbols are never checked.",
  ["aegir_derive/src/ids.rs", "aegir_derive/src/ctx/derive.rs", "aegir_derive/src/ctx/ctx_type.rs", A+"lib.rs"],
  [("identifier expansion", "aegir_derive/src/ids.rs"), ("context expansion", "aegir_derive/src/ctx"), ("inline contexts", "ctx! in aegir/src/lib.rs")],
  ["Display, equality, read/write behaviour of generated items"])

p("C18", "Dual-number arithmetic is exact first-order calculus",
  "Adding, subtracting, multiplying, negating and conjugating dual numbers, with duals or plain values on the right, by value or by reference, gives the value and the derivative that the rules of differentiation prescribe. Evaluating a polynomial with dual numbers seeded as variable and constants gives the same value and derivative as the expression interface.",
  ["programs", "inputs"], "every sequence of dual operations with every operand form and arbitrary values",
  "Tests multiply and add a handful of constants; the mixed dual/plain and by-reference forms are untested.",
  [A+"dual.rs", A+"lib.rs"], [("operator impls", "impl ops::{Add,Sub,Mul,Neg} for Dual")],
  ["Dual value and adjoint", "evaluate_dual"])

p("C19", "Special functions satisfy their defining identities over their whole domain",
  "Each elementary and special function operator returns the mathematical function over its whole domain in single and double precision: logistic values stay in [0, 1], never become NaN for finite or infinite input, are monotone and symmetric; x·ln x is continuous at zero; the gamma family obeys its recurrences and complements; trigonometric and hyperbolic functions and their inverses satisfy their inverse relations; sign, absolute value and impulse follow their definitions at zero, infinities and negative zero. In double precision an inverse function outside of its domain is not a number.",
  ["inputs"], "every finite, infinite, subnormal and zero argument in each operator's domain, both precisions, alone and inside buffers",
  "Each function is tested at two or three ordinary points in double precision, and the trigonometric ones not at all.",
  [A+"ops/sigmoid.rs", A+"ops/special.rs", A+"ops/trig.rs", A+"ops/logarithmic.rs", A+"ops/arithmetic/unary.rs"],
  [("element functions", "closures of impl_unary! and ops::sigmoid")],
  ["evaluate on scalars and arrays", "the scalar logistic function"])

p("C20", "All evaluation entry points agree, and evaluation has no side effects",
  "Evaluating an expression by its value, its structured value, its direct derivative call or its dual gives the same value and derivative, whether the context is passed by value or by mutable reference and however often it is repeated. Evaluation without caches never changes the context, results depend only on the current values of the variables, and building derivatives, copies and compound expressions never alters the originals.",
  ["histories", "programs", "inputs"], "every expression, every interleaving of evaluations by the different entry points with context updates, repeated any number of times",
  "Every test evaluates an expression once through one entry point.",
  [A+"lib.rs"]+OPS+META, [("entry points", "Function::{evaluate, evaluate_spec, evaluate_shape}, Differentiable::{evaluate_adjoint, evaluate_dual}")],
  ["results of all entry points", "context contents before and after"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
