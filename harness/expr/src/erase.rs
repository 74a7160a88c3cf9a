//! Type-erased nodes: the library's own operators are instantiated over erased operands, so that
//! trees of any shape can be generated at run time.
use crate::ids::{Ctx, Tok};
use aegir::buffers::{shapes::Shaped, Buffer, Spec};
use aegir::{Contains, Differentiable, Function, Identifier, Node};
use std::fmt;
use std::rc::Rc;

/// An erased error that prints like the original.
#[derive(Clone)]
pub struct EErr {
    pub dbg: String,
    pub disp: String,
}

impl EErr {
    pub fn new<E: std::error::Error>(e: E) -> EErr { EErr { dbg: format!("{:?}", e), disp: format!("{}", e) } }
}

impl fmt::Debug for EErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.dbg) }
}

impl fmt::Display for EErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.disp) }
}

impl std::error::Error for EErr {}

pub type Sh<V> = <V as Shaped>::Shape;

/// An evaluable node with value type `V`.
pub trait Obj<V: Buffer> {
    fn ev(&self, c: &mut Ctx) -> Result<V, EErr>;
    fn ev_owned(&self, c: Ctx) -> Result<V, EErr>;
    fn ev_spec(&self, c: &mut Ctx) -> Result<Spec<V>, EErr>;
    fn ev_shape(&self, c: &mut Ctx) -> Result<Sh<V>, EErr>;
    fn has(&self, t: Tok) -> bool;
}

impl<X, V> Obj<V> for X
where
    V: Buffer,
    X: Function<Ctx, Value = V> + Contains<Tok>,
{
    fn ev(&self, c: &mut Ctx) -> Result<V, EErr> { self.evaluate(c).map_err(EErr::new) }

    fn ev_owned(&self, c: Ctx) -> Result<V, EErr> { self.evaluate(c).map_err(EErr::new) }

    fn ev_spec(&self, c: &mut Ctx) -> Result<Spec<V>, EErr> { self.evaluate_spec(c).map_err(EErr::new) }

    fn ev_shape(&self, c: &mut Ctx) -> Result<Sh<V>, EErr> { self.evaluate_shape(c).map_err(EErr::new) }

    fn has(&self, t: Tok) -> bool { self.contains(t) }
}

/// Erasing constructor.
pub trait Wrap<X> {
    fn wrap(x: X) -> Self;
}

macro_rules! erased_function {
    ($N:ident<$($G:ident),*>: $V:ident; $($w:tt)*) => {
        impl<$($G),*> Node for $N<$($G),*> where $V: Buffer, $($w)* {}

        impl<$($G),*> Clone for $N<$($G),*> where $V: Buffer, $($w)* {
            fn clone(&self) -> Self { $N(self.0.clone()) }
        }

        impl<$($G),*> Function<Ctx> for $N<$($G),*> where $V: Buffer, $($w)* {
            type Error = EErr;
            type Value = $V;

            fn evaluate<CR: AsMut<Ctx>>(&self, mut c: CR) -> Result<$V, EErr> { self.0.ev(c.as_mut()) }

            fn evaluate_spec<CR: AsMut<Ctx>>(&self, mut c: CR) -> Result<Spec<$V>, EErr> { self.0.ev_spec(c.as_mut()) }

            fn evaluate_shape<CR: AsMut<Ctx>>(&self, mut c: CR) -> Result<Sh<$V>, EErr> { self.0.ev_shape(c.as_mut()) }
        }

        impl<$($G),*> Contains<Tok> for $N<$($G),*> where $V: Buffer, $($w)* {
            fn contains(&self, t: Tok) -> bool { self.0.has(t) }
        }
    };
}

/// A node that can only be evaluated.
pub struct N0<V: Buffer>(pub Rc<dyn Obj<V>>);

erased_function!(N0<V>: V;);

impl<X: Obj<V> + 'static, V: Buffer> Wrap<X> for N0<V> {
    fn wrap(x: X) -> Self { N0(Rc::new(x)) }
}

/// A node that can be differentiated with respect to identifiers of type `T`, giving a `W`.
pub trait Obj1<T, V: Buffer, W: Function<Ctx>>: Obj<V> {
    fn adj(&self, t: T) -> W;
    fn ev_adj(&self, t: T, c: &mut Ctx) -> Result<W::Value, EErr>;
    fn ev_dual(&self, t: T, c: &mut Ctx) -> Result<(V, W::Value), EErr>;
    fn ev_dual_owned(&self, t: T, c: Ctx) -> Result<(V, W::Value), EErr>;
}

impl<X, T, V, W> Obj1<T, V, W> for X
where
    T: Identifier,
    V: Buffer,
    W: Function<Ctx> + Wrap<X::Adjoint>,
    X: Function<Ctx, Value = V> + Contains<Tok> + Differentiable<T>,
    X::Adjoint: Function<Ctx, Value = W::Value>,
{
    fn adj(&self, t: T) -> W { W::wrap(self.adjoint(t)) }

    fn ev_adj(&self, t: T, c: &mut Ctx) -> Result<W::Value, EErr> { self.evaluate_adjoint(t, c).map_err(EErr::new) }

    fn ev_dual(&self, t: T, c: &mut Ctx) -> Result<(V, W::Value), EErr> {
        self.evaluate_dual(t, c).map(|d| (d.value, d.adjoint)).map_err(EErr::new)
    }

    fn ev_dual_owned(&self, t: T, c: Ctx) -> Result<(V, W::Value), EErr> {
        self.evaluate_dual(t, c).map(|d| (d.value, d.adjoint)).map_err(EErr::new)
    }
}

pub struct N1<T, V, W>(pub Rc<dyn Obj1<T, V, W>>);

erased_function!(N1<T, V, W>: V; W: Function<Ctx>);

impl<X, T, V, W> Wrap<X> for N1<T, V, W>
where
    X: Obj1<T, V, W> + 'static,
    V: Buffer,
    W: Function<Ctx>,
{
    fn wrap(x: X) -> Self { N1(Rc::new(x)) }
}

impl<T, V, W> Differentiable<T> for N1<T, V, W>
where
    T: Identifier,
    V: Buffer,
    W: Function<Ctx>,
{
    type Adjoint = W;

    fn adjoint(&self, t: T) -> W { self.0.adj(t) }
}

/// A node that can be differentiated by a scalar (giving an `A`) and by a target of kind `$K` (giving a `B`).
#[macro_export]
macro_rules! mixed_node {
    ($N:ident, $O:ident, $K:literal) => {
        pub trait $O<V: Buffer, A: Function<Ctx>, B: Function<Ctx>>: Obj1<Id<0>, V, A> + Obj1<Id<$K>, V, B> {}
        impl<V: Buffer, A: Function<Ctx>, B: Function<Ctx>, X: Obj1<Id<0>, V, A> + Obj1<Id<$K>, V, B>> $O<V, A, B> for X {}

        pub struct $N<V, A, B>(pub Rc<dyn $O<V, A, B>>);

        impl<V: Buffer, A: Function<Ctx>, B: Function<Ctx>> Node for $N<V, A, B> {}

        impl<V: Buffer, A: Function<Ctx>, B: Function<Ctx>> Clone for $N<V, A, B> {
            fn clone(&self) -> Self { $N(self.0.clone()) }
        }

        impl<V: Buffer, A: Function<Ctx>, B: Function<Ctx>> Function<Ctx> for $N<V, A, B> {
            type Error = EErr;
            type Value = V;

            fn evaluate<CR: AsMut<Ctx>>(&self, mut c: CR) -> Result<V, EErr> { self.0.ev(c.as_mut()) }

            fn evaluate_spec<CR: AsMut<Ctx>>(&self, mut c: CR) -> Result<aegir::buffers::Spec<V>, EErr> {
                self.0.ev_spec(c.as_mut())
            }

            fn evaluate_shape<CR: AsMut<Ctx>>(&self, mut c: CR) -> Result<aegir::buffers::shapes::ShapeOf<V>, EErr> {
                self.0.ev_shape(c.as_mut())
            }
        }

        impl<V: Buffer, A: Function<Ctx>, B: Function<Ctx>> aegir::Contains<Tok> for $N<V, A, B> {
            fn contains(&self, t: Tok) -> bool { self.0.has(t) }
        }

        impl<V: Buffer, A: Function<Ctx>, B: Function<Ctx>, X: $O<V, A, B> + 'static> Wrap<X> for $N<V, A, B> {
            fn wrap(x: X) -> Self { $N(Rc::new(x)) }
        }

        impl<V: Buffer, A: Function<Ctx>, B: Function<Ctx>> aegir::Differentiable<Id<0>> for $N<V, A, B> {
            type Adjoint = A;
            fn adjoint(&self, t: Id<0>) -> A { <dyn $O<V, A, B> as Obj1<Id<0>, V, A>>::adj(&*self.0, t) }
        }

        impl<V: Buffer, A: Function<Ctx>, B: Function<Ctx>> aegir::Differentiable<Id<$K>> for $N<V, A, B> {
            type Adjoint = B;
            fn adjoint(&self, t: Id<$K>) -> B { <dyn $O<V, A, B> as Obj1<Id<$K>, V, B>>::adj(&*self.0, t) }
        }

        impl<V: Flat64, A: Face + Function<Ctx> + 'static, B: Face + Function<Ctx> + 'static> Face for $N<V, A, B>
        where
            A::Value: Flat64,
            B::Value: Flat64,
        {
            $crate::face_plain!();
            fn ev_shape(&self, c: &mut Ctx) -> Result<Vec<usize>, EErr> { self.0.ev_shape(c).map(|s| V::shape_dims(&s)) }
            fn adj(&self, t: Tok) -> Option<Dyn> {
                match t.kind {
                    0 => Some(Rc::new(<dyn $O<V, A, B> as Obj1<Id<0>, V, A>>::adj(&*self.0, Id(t.idx)))),
                    $K => Some(Rc::new(<dyn $O<V, A, B> as Obj1<Id<$K>, V, B>>::adj(&*self.0, Id(t.idx)))),
                    _ => None,
                }
            }
            fn ev_adj(&self, t: Tok, c: &mut Ctx) -> Option<Result<Out, EErr>> {
                match t.kind {
                    0 => Some(<dyn $O<V, A, B> as Obj1<Id<0>, V, A>>::ev_adj(&*self.0, Id(t.idx), c).map(|b| Out::of(&b))),
                    $K => Some(<dyn $O<V, A, B> as Obj1<Id<$K>, V, B>>::ev_adj(&*self.0, Id(t.idx), c).map(|b| Out::of(&b))),
                    _ => None,
                }
            }
            fn ev_dual(&self, t: Tok, c: &mut Ctx) -> Option<Result<(Out, Out), EErr>> {
                match t.kind {
                    0 => Some(<dyn $O<V, A, B> as Obj1<Id<0>, V, A>>::ev_dual(&*self.0, Id(t.idx), c).map(|(a, b)| (Out::of(&a), Out::of(&b)))),
                    $K => Some(<dyn $O<V, A, B> as Obj1<Id<$K>, V, B>>::ev_dual(&*self.0, Id(t.idx), c).map(|(a, b)| (Out::of(&a), Out::of(&b)))),
                    _ => None,
                }
            }
            fn ev_dual_owned(&self, t: Tok, c: Ctx) -> Option<Result<(Out, Out), EErr>> {
                match t.kind {
                    0 => Some(<dyn $O<V, A, B> as Obj1<Id<0>, V, A>>::ev_dual_owned(&*self.0, Id(t.idx), c).map(|(a, b)| (Out::of(&a), Out::of(&b)))),
                    $K => Some(<dyn $O<V, A, B> as Obj1<Id<$K>, V, B>>::ev_dual_owned(&*self.0, Id(t.idx), c).map(|(a, b)| (Out::of(&a), Out::of(&b)))),
                    _ => None,
                }
            }
        }
    };
}
