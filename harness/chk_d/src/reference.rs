//! Elementary functions written out from their series, independent of the mathematical library that
//! the program happens to be linked with.

const LN2_HI: f64 = 0.693_147_180_369_123_8;
const LN2_LO: f64 = 1.908_214_929_270_587_7e-10;
const LN2: f64 = std::f64::consts::LN_2;
const PI: f64 = std::f64::consts::PI;

fn sqrt(x: f64) -> f64 { x.sqrt() }

/// 2^k, for any k in the range of the normal numbers.
fn two(k: i64) -> f64 { f64::from_bits(((k + 1023) as u64) << 52) }

fn scale(mut x: f64, mut k: i64) -> f64 {
    while k > 1000 {
        x *= two(1000);
        k -= 1000;
    }
    while k < -1000 {
        x *= two(-1000);
        k += 1000;
    }
    x * two(k)
}

/// The nearest integer, for |x| < 2^52.
fn nearest(x: f64) -> f64 { (if x < 0.0 { x - 0.5 } else { x + 0.5 }) as i64 as f64 }

pub fn exp(x: f64) -> f64 {
    if x.is_nan() {
        return x;
    }
    if x > 710.0 {
        return f64::INFINITY;
    }
    if x < -746.0 {
        return 0.0;
    }
    let k = nearest(x / LN2);
    let r = (x - k * LN2_HI) - k * LN2_LO;
    let mut s = 1.0;
    for n in (1..=22).rev() {
        s = 1.0 + s * r / n as f64;
    }
    scale(s, k as i64)
}

/// e^x - 1.
pub fn expm1(x: f64) -> f64 {
    if x.abs() > 0.5 {
        return exp(x) - 1.0;
    }
    let mut s = 1.0;
    for n in (2..=22).rev() {
        s = 1.0 + s * x / n as f64;
    }
    x * s
}

/// 2 artanh(s) for small s.
fn series(s: f64) -> f64 {
    let q = s * s;
    let mut t = 0.0;
    for n in (0..30).rev() {
        t = t * q + 1.0 / (2 * n + 1) as f64;
    }
    2.0 * s * t
}

pub fn ln(x: f64) -> f64 {
    if x.is_nan() || x < 0.0 {
        return f64::NAN;
    }
    if x == 0.0 {
        return f64::NEG_INFINITY;
    }
    if x.is_infinite() {
        return x;
    }
    let (mut m, mut e) = (x, 0i64);
    if m < f64::MIN_POSITIVE {
        m *= two(60);
        e -= 60;
    }
    let b = m.to_bits();
    e += (b >> 52) as i64 - 1023;
    m = f64::from_bits((b & ((1 << 52) - 1)) | (1023 << 52));
    if m > std::f64::consts::SQRT_2 {
        m /= 2.0;
        e += 1;
    }
    let l = series((m - 1.0) / (m + 1.0));
    e as f64 * LN2_HI + (e as f64 * LN2_LO + l)
}

/// ln(1 + y).
pub fn ln1p(y: f64) -> f64 {
    if y.abs() < 0.4 { series(y / (2.0 + y)) } else { ln(1.0 + y) }
}

/// The remainder by π/2 and the quadrant, for |x| < 1e7.
fn reduce(x: f64) -> (f64, i64) {
    const P1: f64 = 1.570_796_326_734_125_6; // 33 bits
    const P2: f64 = 6.077_100_506_303_966e-11;
    const P3: f64 = 2.022_266_248_795_950_6e-21;
    let k = nearest(x / (PI / 2.0));
    ((x - k * P1) - k * P2 - k * P3, k as i64)
}

fn sin_small(r: f64) -> f64 {
    let q = r * r;
    let mut s = 1.0;
    for n in (1..=12).rev() {
        s = 1.0 - s * q / ((2 * n) * (2 * n + 1)) as f64;
    }
    r * s
}

fn cos_small(r: f64) -> f64 {
    let q = r * r;
    let mut s = 1.0;
    for n in (1..=12).rev() {
        s = 1.0 - s * q / ((2 * n) * (2 * n - 1)) as f64;
    }
    s
}

pub fn sin(x: f64) -> f64 {
    let (r, k) = reduce(x);
    match k.rem_euclid(4) {
        0 => sin_small(r),
        1 => cos_small(r),
        2 => -sin_small(r),
        _ => -cos_small(r),
    }
}

pub fn cos(x: f64) -> f64 {
    let (r, k) = reduce(x);
    match k.rem_euclid(4) {
        0 => cos_small(r),
        1 => -sin_small(r),
        2 => -cos_small(r),
        _ => sin_small(r),
    }
}

pub fn tan(x: f64) -> f64 { sin(x) / cos(x) }

pub fn atan(x: f64) -> f64 {
    if x.is_nan() {
        return x;
    }
    let z = x.abs();
    let v = if z > 1.0 { PI / 2.0 - atan_small(1.0 / z) } else { atan_small(z) };
    if x < 0.0 { -v } else { v }
}

fn atan_small(mut z: f64) -> f64 {
    let mut f = 1.0;
    while z > 0.1 {
        z = z / (1.0 + sqrt(1.0 + z * z));
        f *= 2.0;
    }
    let q = z * z;
    let mut s = 0.0;
    for n in (0..14).rev() {
        s = 1.0 / (2 * n + 1) as f64 - q * s;
    }
    f * z * s
}

pub fn asin(x: f64) -> f64 {
    if !(x.abs() <= 1.0) {
        return f64::NAN;
    }
    if x.abs() == 1.0 {
        return x * PI / 2.0;
    }
    atan(x / sqrt((1.0 - x) * (1.0 + x)))
}

pub fn acos(x: f64) -> f64 {
    if !(x.abs() <= 1.0) {
        return f64::NAN;
    }
    if x == -1.0 {
        return PI;
    }
    2.0 * atan(sqrt((1.0 - x) / (1.0 + x)))
}

pub fn sinh(x: f64) -> f64 {
    let z = x.abs();
    let v = if z < 0.3 {
        let q = z * z;
        let mut s = 1.0;
        for n in (1..=9).rev() {
            s = 1.0 + s * q / ((2 * n) * (2 * n + 1)) as f64;
        }
        z * s
    } else if z < 300.0 {
        0.5 * (exp(z) - exp(-z))
    } else {
        0.5 * exp(z / 2.0) * exp(z / 2.0)
    };
    if x < 0.0 { -v } else { v }
}

pub fn cosh(x: f64) -> f64 {
    let z = x.abs();
    if z < 300.0 { 0.5 * (exp(z) + exp(-z)) } else { 0.5 * exp(z / 2.0) * exp(z / 2.0) }
}

pub fn tanh(x: f64) -> f64 {
    let z = x.abs();
    let v = if z > 30.0 {
        1.0
    } else {
        let m = expm1(2.0 * z);
        m / (m + 2.0)
    };
    if x < 0.0 { -v } else { v }
}

pub fn asinh(x: f64) -> f64 {
    let z = x.abs();
    let v = if z > 1e9 { ln(z) + LN2 } else { ln1p(z + z * z / (1.0 + sqrt(1.0 + z * z))) };
    if x < 0.0 { -v } else { v }
}

pub fn acosh(x: f64) -> f64 {
    if !(x >= 1.0) {
        return f64::NAN;
    }
    if x > 1e9 {
        return ln(x) + LN2;
    }
    let t = x - 1.0;
    ln1p(t + sqrt(t * (t + 2.0)))
}

pub fn atanh(x: f64) -> f64 {
    if !(x.abs() <= 1.0) {
        return f64::NAN;
    }
    let z = x.abs();
    let v = if z == 1.0 { f64::INFINITY } else if z < 0.3 { 0.5 * series(z) } else { 0.5 * (ln1p(z) - ln(1.0 - z)) };
    if x < 0.0 { -v } else { v }
}

/// 1 / (1 + e^-x).
pub fn logistic(x: f64) -> f64 {
    if x >= 0.0 {
        1.0 / (1.0 + exp(-x))
    } else {
        let z = exp(x);
        z / (1.0 + z)
    }
}

#[cfg(test)]
mod tests {
    #[test]
    fn values() {
        let close = |a: f64, b: f64| assert!((a - b).abs() <= 4e-16 * b.abs(), "{:?} {:?}", a, b);
        close(super::exp(1.0), std::f64::consts::E);
        close(super::exp(-20.5), 1.250_152_866_386_742_8e-9);
        close(super::ln(10.0), std::f64::consts::LN_10);
        close(super::ln(1e-320), -736.827_240_890_973_9);
        close(super::sin(100.0), -0.506_365_641_109_758_8);
        close(super::cos(100.0), 0.862_318_872_287_683_9);
        close(super::atan(1.0), std::f64::consts::FRAC_PI_4);
        close(super::asin(0.5), std::f64::consts::FRAC_PI_6);
        close(super::acos(0.5), std::f64::consts::FRAC_PI_3);
        close(super::sinh(1.0), 1.175_201_193_643_801_4);
        close(super::tanh(0.5), 0.462_117_157_260_009_8);
        close(super::asinh(1.0), 0.881_373_587_019_543_1);
        close(super::acosh(2.0), 1.316_957_896_924_816_6);
        close(super::atanh(0.5), 0.549_306_144_334_054_8);
    }
}
