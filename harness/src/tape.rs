//! Decoding of generated integers into values.

/// Sequential reader over the scalar draws of a case; yields zero when exhausted.
pub struct Tape<'a> {
    xs: &'a [u32],
    at: usize,
}

impl<'a> Tape<'a> {
    pub fn new(xs: &'a [u32]) -> Self { Tape { xs, at: 0 } }

    pub fn u(&mut self) -> u32 {
        let x = self.xs.get(self.at).copied().unwrap_or(0);
        self.at += 1;
        x
    }

    pub fn below(&mut self, n: usize) -> usize { self.u() as usize % n.max(1) }

    pub fn flag(&mut self) -> bool { self.u() % 2 == 1 }

    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T { xs[self.below(xs.len())].clone() }

    /// A finite value of ordinary size.
    pub fn val(&mut self) -> f64 { val(self.u()) }

    /// A small integer, as a float.
    pub fn int(&mut self) -> f64 { ((self.u() % 41) as i64 - 20) as f64 }
}

/// Map a draw to an ordinary finite value: zero for zero, otherwise small integers, quarters, and
/// arbitrary values in [-8, 8].
pub fn val(u: u32) -> f64 {
    if u == 0 {
        return 0.0;
    }
    let k = u >> 3;
    match u & 7 {
        0 => ((k % 9) as i64 - 4) as f64,
        1 => ((k % 33) as i64 - 16) as f64 / 4.0,
        2 => 0.25 + (k as f64 / (1u64 << 29) as f64) * 2.0,
        3 => (k as f64 / (1u64 << 29) as f64) * 2.0 - 1.0,
        4 => (k as f64 / (1u64 << 29) as f64) * 6.0 + 0.1,
        5 => (k as f64 / (1u64 << 29) as f64) * 16.0 - 8.0,
        6 => 1.0 + (k as f64 / (1u64 << 29) as f64) * 2.0,
        _ => (k as f64 / (1u64 << 29) as f64) * 4.0 - 2.0,
    }
}

/// Map a draw to any double: specials, subnormals, extremes, grid values and uniform bit patterns.
pub fn any_f64(u: u32, w: u32) -> f64 {
    const SPECIAL: [f64; 24] = [
        0.0,
        -0.0,
        1.0,
        -1.0,
        f64::INFINITY,
        f64::NEG_INFINITY,
        f64::MAX,
        f64::MIN,
        f64::MIN_POSITIVE,
        -f64::MIN_POSITIVE,
        5e-324,
        -5e-324,
        f64::EPSILON,
        -f64::EPSILON,
        0.5,
        -0.5,
        2.0,
        -2.0,
        1e300,
        -1e300,
        1e-300,
        -1e-300,
        709.0,
        -745.0,
    ];
    match u % 5 {
        0 => SPECIAL[(u / 5) as usize % SPECIAL.len()],
        1 => {
            // log-uniform over the whole range
            let e = ((u / 5) % 2098) as i32 - 1074;
            let m = 1.0 + w as f64 / (1u64 << 32) as f64;
            let s = if (u / 5 / 2098) % 2 == 0 { 1.0 } else { -1.0 };
            let half = 2f64.powi(e / 2);
            s * m * half * 2f64.powi(e - e / 2)
        },
        2 => val(w),
        3 => {
            let x = f64::from_bits(((u as u64) << 32) | w as u64);
            if x.is_nan() {
                1.5
            } else {
                x
            }
        },
        _ => (w as f64 / (1u64 << 32) as f64 - 0.5) * 60.0,
    }
}
