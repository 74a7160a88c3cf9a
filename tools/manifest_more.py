BUILT.update({
 "C03": ("generated expressions differentiated two or three times against nested forward-mode differentiation of an independent evaluator",
         "Random search up to order three (scalar variables), order two (vectors of extent two; mixed scalar/vector), plus closed forms at arguments of any magnitude in both precisions. Ill-conditioned points are not judged."),
 "C05": ("generated expressions evaluated on every dense / uniform / diagonal assignment of the same data, compared with each other and with an independent evaluator",
         "Random search over operand structures of values, derivatives and direct structured map / zip / contract calls."),
 "C06": ("generated expressions and derivatives: inferred shape compared with value and structured value, with and without missing variables and mismatched lengths",
         "Random search over all families and over contexts declared by the macros, with slots empty or filled; pinned exclusions (Power and Sum infer without evaluating) follow the property's wording."),
 "C07": ("generated expressions with missing variables and mismatched lengths against a reference evaluator that predicts the first error and its path",
         "Random search with injected faults in every operand position; any panic is a violation."),
 "C10": ("generated expressions: containment of 72 identifiers against the leaves used, value independence by perturbation and removal, zero derivatives",
         "Random search over all families, including extreme points, trees of operators declared with derive(Contains), and identifiers that print alike."),
 "C09": ("generated expressions with caches under random histories of evaluation, clearing, overwriting and failing, against a cache model that counts reads and writes",
         "Random stateful search; slots after failing, structured or shape-only calls are only constrained where the property says so."),
 "C16": ("random syntax trees rendered both in the DSL and as explicit builder calls, compiled and compared bit for bit on random contexts",
         "Generated programs compiled by rustc (batches), and every way of putting three constructs inside one another by random choice; a program whose DSL form alone does not compile is a violation."),
 "C17": ("random identifier and context declarations, compiled and run under random write histories against the declaration",
         "Generated programs compiled by rustc (batches), with a hand-written control of each declaration."),
 "C08": ("generated histories of reads, writes, structured writes and field assignments on contexts of every field kind, against a map model",
         "Random stateful search over derived and ctx!-built contexts of all buffer kinds, plain and cache fields."),
 "C15": ("printed texts of generated expressions and derivatives read by an independent parser and evaluated, compared with the library's value; equal texts compared for equal values",
         "Random search over every printable operator; texts at singular points are not judged."),
 "C18": ("generated programs of dual-number operations against exact rational / polynomial forward differentiation and against the expression interface",
         "Random search over operand forms, buffer classes and operation sequences."),
 "C20": ("generated expressions evaluated through every entry point, repeatedly and under perturbation of unrelated state, compared bit for bit",
         "Random search over all families, other fields, user-defined buffers, expressions that read cache slots, and histories; values also compared with the independent evaluator."),
 "C19": ("random arguments over every bit-pattern class in both precisions against independent series, identities between operators, and agreement between buffers",
         "Random search, numerical tolerances; large trigonometric arguments and poles are not judged (known findings)."),
})
