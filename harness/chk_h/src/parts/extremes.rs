// Included once for each field, which is `F`.
use super::super::R;
use aegir::ids::{X, Y};
use aegir::{ops, Differentiable, Function, Identifier, Node};
use harness::tape::{any_f64, Tape};
use harness::Stats;
use serde_json::json;

/// Non-zero and finite, over the whole range of exponents.
pub fn run(t: &mut Tape, st: &mut Stats) -> R {
    let arg = |t: &mut Tape| -> F {
        let v = any_f64(t.u(), t.u());
        // The exponents of doubles are scaled to those of the field.
        let v = if FIELD == "f32" && v.is_finite() && v != 0.0 && (v.abs() as f32).is_infinite() | ((v.abs() as f32) == 0.0) {
            v.signum() * v.abs().powf(0.12)
        } else {
            v
        };
        let v = v as F;
        if v.is_finite() && v != 0.0 { v } else { F::MIN_POSITIVE / 1024.0 }
    };
    let (x, y) = (arg(t), arg(t));
    let within = |v: F, b: F| v.abs() < b && v.abs() > 1.0 / b;
    let (xv, yv) = (|| X.into_var(), || Y.into_var());
    macro_rules! one { ($what:literal, $e:expr, [$($by:ident),*], $want:expr) => {{
        let e = $e;
        let d = e$(.adjoint($by))*;
        let want: F = $want;
        let get = || -> R {
            let got: F = d.evaluate(ctx!{X = x, Y = y}).map_err(|e| format!("fails with {:?}", e))?;
            let ok = if want.is_finite() { (got - want).abs() <= TOL * want.abs() } else { got == want };
            if ok { Ok(()) } else { Err(format!("is {:e} instead of {:e}", got, want)) }
        };
        get().map_err(|e| format!("the derivative of {} by {} at x = {:e}, y = {:e} ({}) {}", $what, stringify!($($by),*), x, y, FIELD, e))?;
        st.eval();
        st.label(format!("{}: {}", FIELD, $what));
        st.nontrivial(&($what, stringify!($($by),*), x.to_bits(), y.to_bits()));
        st.sample(|| json!({"expression": $what, "by": stringify!($($by),*), "x": format!("{:e}", x), "y": format!("{:e}", y), "derivative": format!("{:e}", want)}));
    }} }
    let two = |v: F| -> bool { let d = v + v; d.is_finite() && v != 0.0 };
    match t.below(17) {
        0 => one!("|x|", xv().abs(), [X, X], 0.0),
        1 if two(x) => one!("|2x|", ops::Double(xv()).abs(), [X, X], 0.0),
        2 => one!("|-x|", xv().neg().abs(), [X, X], 0.0),
        3 if x != y && (x - y).is_finite() => match t.below(4) {
            0 => one!("|x - y|", xv().sub(yv()).abs(), [X, X], 0.0),
            1 => one!("|x - y|", xv().sub(yv()).abs(), [X, Y], 0.0),
            2 => one!("|x - y|", xv().sub(yv()).abs(), [Y, X], 0.0),
            _ => one!("|x - y|", xv().sub(yv()).abs(), [Y, Y], 0.0),
        },
        4 => match t.below(4) {
            0 => one!("|x| |y|", xv().abs().mul(yv().abs()), [X, X], 0.0),
            1 => one!("|x| |y|", xv().abs().mul(yv().abs()), [X, Y], x.signum() * y.signum()),
            2 => one!("|x| |y|", xv().abs().mul(yv().abs()), [Y, X], x.signum() * y.signum()),
            _ => one!("|x| |y|", xv().abs().mul(yv().abs()), [Y, Y], 0.0),
        },
        5 => match t.below(4) {
            0 => one!("x²", xv().squared(), [X, X], 2.0),
            1 => one!("x²", xv().squared(), [X, X, X], 0.0),
            2 => one!("x x", xv().mul(xv()), [X, X], 2.0),
            _ => one!("x x", xv().mul(xv()), [X, X, X], 0.0),
        },
        6 => match t.below(3) {
            0 => one!("x y", xv().mul(yv()), [X, Y], 1.0),
            1 => one!("x y", xv().mul(yv()), [Y, X], 1.0),
            _ => one!("x y", xv().mul(yv()), [Y, Y], 0.0),
        },
        7 if within(x, LO) && within(y, LO) => match t.below(if within(x, THIRD) && within(y, THIRD) { 6 } else { 4 }) {
            0 => one!("x / y", xv().div(yv()), [X, X], 0.0),
            1 => one!("x / y", xv().div(yv()), [X, Y], -1.0 / (y * y)),
            2 => one!("x / y", xv().div(yv()), [Y, X], -1.0 / (y * y)),
            3 => one!("x / y", xv().div(yv()), [Y, Y], 2.0 * x / (y * y) / y),
            4 => one!("x / y", xv().div(yv()), [X, Y, X], 0.0),
            _ => one!("x / y", xv().div(yv()), [Y, X, Y], 2.0 / (y * y) / y),
        },
        8 if within(x, LO) => match t.below(2) {
            0 => one!("ln |x|", ops::Ln(xv().abs()), [X, X], -1.0 / (x * x)),
            _ => one!("ln x²", ops::Ln(xv().squared()), [X, X], -2.0 / (x * x)),
        },
        9 if within(x, LO) && x > 0.0 => match t.below(3) {
            0 => one!("ln x", ops::Ln(xv()), [X, X], -1.0 / (x * x)),
            1 => one!("ln x", ops::Ln(xv()), [X, X, X], 2.0 / (x * x) / x),
            _ => one!("x ln x", ops::XLnX(xv()), [X, X], 1.0 / x),
        },
        10 if x.abs() < MID => match t.below(3) {
            0 => one!("exp x", ops::Exp(xv()), [X, X], x.exp()),
            1 => one!("exp x", ops::Exp(xv()), [X, X, X], x.exp()),
            _ => one!("exp -x", ops::Exp(xv().neg()), [X, X, X], -(-x).exp()),
        },
        11 if x.abs() < MID => match t.below(2) {
            0 => one!("exp |x|", ops::Exp(xv().abs()), [X, X], x.abs().exp()),
            _ => one!("exp -|x|", ops::Exp(xv().abs().neg()), [X, X], (-x.abs()).exp()),
        },
        12 if x.abs() < 1e3 => match t.below(3) {
            0 => one!("sin x", ops::trig::Sin(xv()), [X, X], -x.sin()),
            1 => one!("sin x", ops::trig::Sin(xv()), [X, X, X], -x.cos()),
            _ => one!("cos x", ops::trig::Cos(xv()), [X, X, X], x.sin()),
        },
        13 => match t.below(5) {
            0 => one!("x + y", xv().add(yv()), [X, Y], 0.0),
            1 => one!("x - y", xv().sub(yv()), [X, X], 0.0),
            2 => one!("2x", ops::Double(xv()), [X, X], 0.0),
            3 => one!("1 - x", ops::OneSub(xv()), [X, X], 0.0),
            _ => one!("-x", xv().neg(), [X, X], 0.0),
        },
        // Saturated on both sides; near zero it behaves as a polynomial.
        14 => {
            let s = 1.0 / (1.0 + (-x.abs()).exp());
            let c = (-x.abs()).exp() * s;
            let want = -x.signum() * c * s * (s - c);
            // Cancellation: only the absolute error is bounded.
            let got: F = ops::Sigmoid(xv()).adjoint(X).adjoint(X).evaluate(ctx!{X = x}).map_err(|e| format!("{:?}", e))?;
            st.eval();
            if !((got - want).abs() <= 8.0 * F::EPSILON) {
                return Err(format!("the second derivative of the logistic function at x = {:e} ({}) is {:e} instead of {:e}", x, FIELD, got, want));
            }
            st.nontrivial(&("sigmoid", x.to_bits()));
            st.label(format!("{}: logistic", FIELD));
        },
        15 if within(x, LO) => match t.below(2) {
            0 => one!("1 / x", xv().pow(aegir::meta::Constant(-1.0 as F)), [X], -1.0 / (x * x)),
            _ => one!("x² x", xv().squared().mul(xv()), [X, X], 6.0 * x),
        },
        16 if within(x, LO) => match t.below(2) {
            0 => one!("x x x", xv().mul(xv()).mul(xv()), [X, X], 6.0 * x),
            _ => one!("x x x", xv().mul(xv()).mul(xv()), [X, X, X], 6.0),
        },
        _ => st.label("out of range"),
    }
    Ok(())
}
