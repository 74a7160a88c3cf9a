//! Instantiation of the library's operators over differentiable erased nodes.

/// The element-wise operators, by how often they can be differentiated.
#[macro_export]
macro_rules! family_un {
    (lin, $u:expr, $x:expr, $m:expr) => {
        $crate::family_un!(@lin $u, $x, $m, unreachable!("harness: operator outside of the family"))
    };
    (smooth, $u:expr, $x:expr, $m:expr) => {
        $crate::family_un!(@lin $u, $x, $m, $crate::family_un!(@smooth $u, $x, $m, unreachable!("harness: operator outside of the family")))
    };
    (abs, $u:expr, $x:expr, $m:expr) => {
        $crate::family_un!(@lin $u, $x, $m, $crate::family_un!(@smooth $u, $x, $m, $crate::family_un!(@abs $u, $x, $m, unreachable!("harness: operator outside of the family"))))
    };
    (once, $u:expr, $x:expr, $m:expr) => {
        $crate::family_un!(@lin $u, $x, $m, $crate::family_un!(@smooth $u, $x, $m, $crate::family_un!(@abs $u, $x, $m, $crate::family_un!(@once $u, $x, $m, unreachable!("harness: operator outside of the family")))))
    };
    (@lin $u:expr, $x:expr, $m:expr, $e:expr) => {
        match $u {
            Un::SubOne => Wrap::wrap(ops::SubOne($x)),
            Un::OneSub => Wrap::wrap(ops::OneSub($x)),
            Un::AddOne => Wrap::wrap(ops::AddOne($x)),
            Un::Double => Wrap::wrap(ops::Double($x)),
            Un::Negate if $m => Wrap::wrap($x.neg()),
            Un::Negate => Wrap::wrap(ops::Negate($x)),
            _ => $e,
        }
    };
    (@smooth $u:expr, $x:expr, $m:expr, $e:expr) => {
        match $u {
            Un::Square if $m => Wrap::wrap($x.squared()),
            Un::Square => Wrap::wrap(ops::Square($x)),
            Un::Ln if $m => Wrap::wrap($x.ln()),
            Un::Ln => Wrap::wrap(ops::Ln($x)),
            Un::XLnX => Wrap::wrap(ops::XLnX($x)),
            Un::Exp => Wrap::wrap(ops::Exp($x)),
            Un::Rabbit => Wrap::wrap(ops::Rabbit($x)),
            Un::Sigmoid if $m => Wrap::wrap($x.sigmoid()),
            Un::Sigmoid => Wrap::wrap(ops::Sigmoid($x)),
            Un::Cos => Wrap::wrap(trig::Cos($x)),
            Un::Sin => Wrap::wrap(trig::Sin($x)),
            _ => $e,
        }
    };
    (@abs $u:expr, $x:expr, $m:expr, $e:expr) => {
        match $u {
            Un::Abs if $m => Wrap::wrap($x.abs()),
            Un::Abs => Wrap::wrap(ops::Abs($x)),
            _ => $e,
        }
    };
    (@once $u:expr, $x:expr, $m:expr, $e:expr) => {
        match $u {
            Un::Sign => Wrap::wrap(ops::Sign($x)),
            Un::Gamma => Wrap::wrap(special::Gamma($x)),
            Un::LogGamma => Wrap::wrap(special::LogGamma($x)),
            Un::Factorial => Wrap::wrap(special::Factorial::factorial($x)),
            _ => $e,
        }
    };
}

#[macro_export]
macro_rules! family {
    (
        $Any:ident $build:ident $face:ident;
        kinds { $($K:ident $k:literal $ck:literal $B:ty => $N:ty, $lvl:ident;)* }
        zip4 { $($zx:ident $zy:ident $zz:ident;)* }
        zip2 { $($ax:ident $ay:ident $az:ident;)* }
        dot0 { $($ox:ident $oy:ident $oz:ident;)* }
        dot1 { $($ix:ident $iy:ident $iz:ident;)* }
        pow { $($p:ident)? }
    ) => {
        #[derive(Clone)]
        pub enum $Any {
            $($K($N),)*
        }

        pub fn $face(a: &Ast) -> Dyn {
            match $build(a) {
                $($Any::$K(n) => Rc::new(n),)*
            }
        }

        pub fn $build(a: &Ast) -> $Any {
            let arg = |i: usize| $build(&a.args[i]);
            let m = a.meth;
            match &a.op {
                Op::Var(i) => match a.kind {
                    $(Kind::$K => $Any::$K(if m { Wrap::wrap(Id::<$k>(*i).into_var()) } else { Wrap::wrap(Variable(Id::<$k>(*i))) }),)*
                    #[allow(unreachable_patterns)]
                    _ => unreachable!("harness: kind outside of the family"),
                },
                Op::Const(l) => {
                    let (d, xs) = (l.dims(), l.flat());
                    match a.kind {
                        $(Kind::$K => $Any::$K({
                            let b = <$B as Flat64>::unflat(d, &xs);
                            if m { Wrap::wrap(b.into_constant()) } else { Wrap::wrap(Constant(b)) }
                        }),)*
                        #[allow(unreachable_patterns)]
                        _ => unreachable!("harness: kind outside of the family"),
                    }
                },
                Op::Un(u) => match arg(0) {
                    $($Any::$K(x) => $Any::$K(family_un!($lvl, *u, x, m)),)*
                },
                Op::Cached(i) => match arg(0) {
                    $($Any::$K(x) => $Any::$K(if m { Wrap::wrap(x.cached(Id::<$ck>(*i))) } else { Wrap::wrap(Cached { node: x, ident: Id::<$ck>(*i) }) }),)*
                },
                Op::Add | Op::Sub => match (&a.op, arg(0), arg(1)) {
                    $(
                        (Op::Add, $Any::$zx(x), $Any::$zy(y)) => $Any::$zz(if m { Wrap::wrap(x.add(y)) } else { Wrap::wrap(ops::Add(x, y)) }),
                        (Op::Sub, $Any::$zx(x), $Any::$zy(y)) => $Any::$zz(if m { Wrap::wrap(x.sub(y)) } else { Wrap::wrap(ops::Sub(x, y)) }),
                    )*
                    $(
                        (Op::Add, $Any::$ax(x), $Any::$ay(y)) => $Any::$az(if m { Wrap::wrap(x.add(y)) } else { Wrap::wrap(ops::Add(x, y)) }),
                        (Op::Sub, $Any::$ax(x), $Any::$ay(y)) => $Any::$az(if m { Wrap::wrap(x.sub(y)) } else { Wrap::wrap(ops::Sub(x, y)) }),
                    )*
                    _ => unreachable!("harness: untyped operands"),
                },
                Op::Mul | Op::Div => match (&a.op, arg(0), arg(1)) {
                    $(
                        (Op::Mul, $Any::$zx(x), $Any::$zy(y)) => $Any::$zz(if m { Wrap::wrap(x.mul(y)) } else { Wrap::wrap(ops::Mul(x, y)) }),
                        (Op::Div, $Any::$zx(x), $Any::$zy(y)) => $Any::$zz(if m { Wrap::wrap(x.div(y)) } else { Wrap::wrap(ops::Div(x, y)) }),
                    )*
                    _ => unreachable!("harness: untyped operands"),
                },
                Op::C0 => match (arg(0), arg(1)) {
                    $(($Any::$ox(x), $Any::$oy(y)) => $Any::$oz(Wrap::wrap(ops::Contract::<0, _, _>(x, y))),)*
                    #[allow(unreachable_patterns)]
                    _ => unreachable!("harness: untyped operands"),
                },
                Op::C1 => match (arg(0), arg(1)) {
                    $(($Any::$ix(x), $Any::$iy(y)) => $Any::$iz(if m { Wrap::wrap(x.dot(y)) } else { Wrap::wrap(ops::Contract::<1, _, _>(x, y)) }),)*
                    #[allow(unreachable_patterns)]
                    _ => unreachable!("harness: untyped operands"),
                },
                Op::Pow => match (arg(0), arg(1)) {
                    $(($Any::$p(x), $Any::$p(y)) => $Any::$p(if m { Wrap::wrap(x.pow(y)) } else { Wrap::wrap(ops::Power(x, y)) }),)?
                    #[allow(unreachable_patterns)]
                    _ => unreachable!("harness: untyped operands"),
                },
                Op::Sum => match arg(0) {
                    $($Any::$p(x) => $Any::$p(if m { Wrap::wrap(x.sum()) } else { Wrap::wrap(ops::Sum(x)) }),)?
                    #[allow(unreachable_patterns)]
                    _ => unreachable!("harness: untyped operands"),
                },
            }
        }
    };
}

/// Everything the macros need in scope.
pub mod prelude {
    pub use crate::ast::{Ast, Kind, Op, Un};
    pub use crate::erase::{EErr, Obj1, Wrap, N0, N1};
    pub use crate::face::{Dyn, Face, Out};
    pub use crate::ids::{Ctx, Flat64, Id, Tok};
    pub use crate::{family, family_un, mixed_node};
    pub use aegir::buffers::Buffer;
    pub use aegir::meta::{Cached, Constant, Variable};
    pub use aegir::ops::{self, special, trig};
    pub use aegir::{Function, Identifier, Node};
    pub use std::rc::Rc;
}
