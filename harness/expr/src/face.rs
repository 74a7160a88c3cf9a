//! A uniform view of erased nodes of any value type and differentiability.
use crate::erase::{EErr, N0, N1};
use crate::ids::{Ctx, Flat64, Id, Tok};
use aegir::buffers::{shapes::Shaped, Spec};
use aegir::Function;
use std::rc::Rc;

/// What an evaluation entry point returned, flattened.
#[derive(Clone, Debug)]
pub struct Out {
    pub dims: Vec<usize>,
    pub xs: Vec<f64>,
}

impl Out {
    pub fn of<B: Flat64>(b: &B) -> Out { Out { dims: b.dims(), xs: b.flat() } }

    /// Bitwise equality (all NaNs are alike).
    pub fn same(&self, o: &Out) -> bool {
        self.dims == o.dims
            && self.xs.len() == o.xs.len()
            && self.xs.iter().zip(&o.xs).all(|(a, b)| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()))
    }

    /// Equality as numbers (zeroes of either sign are alike).
    pub fn eq(&self, o: &Out) -> bool {
        self.dims == o.dims
            && self.xs.len() == o.xs.len()
            && self.xs.iter().zip(&o.xs).all(|(a, b)| a == b || (a.is_nan() && b.is_nan()))
    }

    /// Equality up to rounding.
    pub fn near(&self, o: &Out, tol: f64) -> bool {
        self.dims == o.dims
            && self.xs.len() == o.xs.len()
            && self.xs.iter().zip(&o.xs).all(|(a, b)| {
                a == b || (a.is_nan() && b.is_nan()) || (a.is_finite() && b.is_finite() && (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs())))
            })
    }
}

/// The expanded structured value, which structure it had, and the structured value's own shape.
#[derive(Clone, Debug)]
pub struct SpecOut {
    pub out: Out,
    pub form: char,
    pub shape: Vec<usize>,
}

pub fn spec_out<V: Flat64>(s: Spec<V>) -> SpecOut {
    let form = match s {
        Spec::Raw(_) => 'R',
        Spec::Full(..) => 'F',
        Spec::Diagonal(..) => 'D',
        _ => '?',
    };
    let shape = V::shape_dims(&Shaped::shape(&s));
    SpecOut { out: Out::of(&s.unwrap()), form, shape }
}

pub type Dyn = Rc<dyn Face>;

pub trait Face {
    fn ev(&self, c: &mut Ctx) -> Result<Out, EErr>;
    fn ev_owned(&self, c: Ctx) -> Result<Out, EErr>;
    fn ev_spec(&self, c: &mut Ctx) -> Result<SpecOut, EErr>;
    fn ev_shape(&self, c: &mut Ctx) -> Result<Vec<usize>, EErr>;
    fn has(&self, t: Tok) -> bool;
    fn copy(&self) -> Dyn;

    /// The derivative expression, when the node can be differentiated by this kind of target.
    fn adj(&self, t: Tok) -> Option<Dyn>;
    fn ev_adj(&self, t: Tok, c: &mut Ctx) -> Option<Result<Out, EErr>>;
    fn ev_dual(&self, t: Tok, c: &mut Ctx) -> Option<Result<(Out, Out), EErr>>;
    fn ev_dual_owned(&self, t: Tok, c: Ctx) -> Option<Result<(Out, Out), EErr>>;
}

#[macro_export]
macro_rules! face_plain {
    () => {
        fn ev(&self, c: &mut Ctx) -> Result<$crate::face::Out, EErr> { self.0.ev(c).map(|b| $crate::face::Out::of(&b)) }
        fn ev_owned(&self, c: Ctx) -> Result<$crate::face::Out, EErr> {
            self.0.ev_owned(c).map(|b| $crate::face::Out::of(&b))
        }
        fn ev_spec(&self, c: &mut Ctx) -> Result<$crate::face::SpecOut, EErr> {
            self.0.ev_spec(c).map($crate::face::spec_out)
        }
        fn has(&self, t: Tok) -> bool { self.0.has(t) }
        fn copy(&self) -> $crate::face::Dyn { std::rc::Rc::new(self.clone()) }
    };
}

impl<V: Flat64> Face for N0<V> {
    face_plain!();
    fn ev_shape(&self, c: &mut Ctx) -> Result<Vec<usize>, EErr> { self.0.ev_shape(c).map(|s| V::shape_dims(&s)) }
    fn adj(&self, _: Tok) -> Option<Dyn> { None }
    fn ev_adj(&self, _: Tok, _: &mut Ctx) -> Option<Result<Out, EErr>> { None }
    fn ev_dual(&self, _: Tok, _: &mut Ctx) -> Option<Result<(Out, Out), EErr>> { None }
    fn ev_dual_owned(&self, _: Tok, _: Ctx) -> Option<Result<(Out, Out), EErr>> { None }
}

impl<const K: u8, V: Flat64, W> Face for N1<Id<K>, V, W>
where
    W: Face + Function<Ctx> + 'static,
    W::Value: Flat64,
{
    face_plain!();
    fn ev_shape(&self, c: &mut Ctx) -> Result<Vec<usize>, EErr> { self.0.ev_shape(c).map(|s| V::shape_dims(&s)) }
    fn adj(&self, t: Tok) -> Option<Dyn> { (t.kind == K).then(|| Rc::new(self.0.adj(Id(t.idx))) as Dyn) }
    fn ev_adj(&self, t: Tok, c: &mut Ctx) -> Option<Result<Out, EErr>> {
        (t.kind == K).then(|| self.0.ev_adj(Id(t.idx), c).map(|b| Out::of(&b)))
    }
    fn ev_dual(&self, t: Tok, c: &mut Ctx) -> Option<Result<(Out, Out), EErr>> {
        (t.kind == K).then(|| self.0.ev_dual(Id(t.idx), c).map(|(a, b)| (Out::of(&a), Out::of(&b))))
    }
    fn ev_dual_owned(&self, t: Tok, c: Ctx) -> Option<Result<(Out, Out), EErr>> {
        (t.kind == K).then(|| self.0.ev_dual_owned(Id(t.idx), c).map(|(a, b)| (Out::of(&a), Out::of(&b))))
    }
}
