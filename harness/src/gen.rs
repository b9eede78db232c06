//! Structured generators over a `Src`.
use crate::engine::*;
use crate::model::*;
use std::f64::consts::PI;

impl Src {
    /// small integers, with zeros and repeats
    pub fn small(&mut self, m: i64) -> i64 {
        self.ig(-m, m, |r| match r.below(8) {
            0 => 0,
            1 => r.below(3) as i64 - 1,
            _ => r.below(2 * m as u64 + 1) as i64 - m,
        })
    }
    pub fn ints(&mut self, n: usize, m: i64) -> Vec<i64> {
        let mut v = vec![0; n];
        if n == 0 {
            return v;
        }
        match self.ig(0, 11, |r| r.below(12) as i64) {
            // sparse
            8 => {
                for x in v.iter_mut() {
                    if self.idx(3) == 0 {
                        *x = self.small(m);
                    }
                }
            }
            // one element only
            9 => {
                let k = self.idx(n);
                v[k] = self.small(m);
            }
            // the same magnitude
            10 => {
                let x = self.small(m);
                for y in v.iter_mut() {
                    *y = if self.flag() { -x } else { x };
                }
            }
            // one half only
            11 => {
                let h = if self.flag() { 0 } else { n / 2 };
                for x in v.iter_mut().skip(h).take((n + 1) / 2) {
                    *x = self.small(m);
                }
            }
            _ => {
                for x in v.iter_mut() {
                    *x = self.small(m);
                }
            }
        }
        v
    }
    /// a real of ordinary magnitude: zeros, integers, decimals, small and large values
    pub fn real(&mut self, e: f64) -> f64 {
        self.fk(1, Kind::Real(e), |r| match r.below(12) {
            0 => [0.0, 0.0, -0.0][r.below(3) as usize],
            1 => r.below(3) as f64 - 1.0,
            2 => r.below(21) as f64 - 10.0,
            3 => (r.range(-10.0, 10.0) * 10.0).round() / 10.0,
            4 | 5 => r.log(-e, e),
            6 | 7 => r.range(-1.0, 1.0),
            _ => r.range(-10.0, 10.0),
        })
    }
    pub fn reals(&mut self, n: usize, e: f64) -> Vec<f64> {
        let mut v = vec![0.0; n];
        if n == 0 {
            return v;
        }
        match self.ig(0, 11, |r| r.below(12) as i64) {
            // sparse
            6 => {
                for x in v.iter_mut() {
                    if self.idx(3) == 0 {
                        *x = self.real(e);
                    }
                }
            }
            // one element only
            7 => {
                let k = self.idx(n);
                v[k] = self.real(e);
            }
            // the same magnitude
            8 => {
                let x = self.real(e);
                for y in v.iter_mut() {
                    *y = if self.flag() { -x } else { x };
                }
            }
            // a common scale
            9 => {
                let x = self.log(-e, e);
                for y in v.iter_mut() {
                    *y = x * self.uni(-1.0, 1.0);
                }
            }
            // one half only
            10 => {
                let h = if self.flag() { 0 } else { n / 2 };
                for x in v.iter_mut().skip(h).take((n + 1) / 2) {
                    *x = self.real(e);
                }
            }
            // one element dominates
            11 => {
                for x in v.iter_mut() {
                    *x = self.log(-e, 0.0);
                }
                let k = self.idx(n);
                v[k] = self.log(0.0, e);
            }
            _ => {
                for x in v.iter_mut() {
                    *x = self.real(e);
                }
            }
        }
        v
    }
    pub fn uni(&mut self, a: f64, b: f64) -> f64 {
        self.fk(2, Kind::Range(a, b), |r| r.range(a, b)).clamp(a, b)
    }
    /// an angle: special values and their neighbourhoods, tiny, several turns
    pub fn angle(&mut self) -> f64 {
        self.fk(3, Kind::Angle, |r| {
            let special = |r: &mut Rng| match r.below(3) {
                0 => (r.below(17) as f64 - 8.0) * PI / 2.0,
                1 => (r.below(17) as f64 - 8.0) * PI / 4.0,
                _ => (r.below(25) as f64 - 12.0) * PI / 6.0,
            };
            match r.below(11) {
                10 => r.log(1.0, 6.0),
                0 | 1 => special(r),
                2 | 3 => special(r) + r.log(-16.0, -1.0),
                4 => r.log(-12.0, 0.0),
                5 => r.range(-20.0, 20.0),
                _ => r.range(-2.0 * PI, 2.0 * PI),
            }
        })
    }
    /// angle in [0, pi], with the ends and their neighbourhoods
    pub fn angle_pi(&mut self) -> f64 {
        self.fk(4, Kind::Range(0.0, PI), |r| match r.below(8) {
            0 => PI,
            1 => PI - 10f64.powf(r.range(-16.0, -0.5)),
            2 => 10f64.powf(r.range(-16.0, -0.5)),
            3 => (r.below(5) as f64) * PI / 4.0,
            4 => (PI / 2.0 + r.log(-16.0, -0.5)).clamp(0.0, PI),
            _ => r.range(0.0, PI),
        })
        .clamp(0.0, PI)
    }
    /// a unit vector: axes, planes, nearly axes, generic
    pub fn axis(&mut self) -> V {
        let k = self.ig(0, 7, |r| r.below(8) as i64);
        let mut v = [0.0; 3];
        let j = self.idx(3);
        match k {
            0 | 1 => v[j] = if self.flag() { -1.0 } else { 1.0 },
            2 => {
                v[j] = self.uni(-1.0, 1.0);
                v[(j + 1) % 3] = self.uni(-1.0, 1.0);
            }
            3 => {
                v = [self.f(|r| r.log(-12.0, -1.0)), self.f(|r| r.log(-12.0, -1.0)), self.f(|r| r.log(-12.0, -1.0))];
                v[j] = 1.0;
            }
            _ => v = [self.uni(-1.0, 1.0), self.uni(-1.0, 1.0), self.uni(-1.0, 1.0)],
        }
        if nrm(&v) < 1e-3 {
            v[j] = 1.0;
        }
        unit(&v)
    }
    /// one, or nearly so
    pub fn near_one(&mut self) -> f64 {
        1.0 + self.f(|r| if r.below(4) == 0 { 0.0 } else { r.log(-16.0, -1.0) })
    }
    /// a unit quaternion of either sign
    pub fn uq(&mut self) -> Q {
        match self.ig(0, 14, |r| r.below(15) as i64) {
            // one, or its negative
            14 => return [if self.flag() { -1.0 } else { 1.0 }, 0.0, 0.0, if self.flag() { -0.0 } else { 0.0 }],
            // an exact half turn
            12 => {
                let u = self.axis();
                return [if self.flag() { -0.0 } else { 0.0 }, u[0], u[1], u[2]];
            }
            // a third of a turn about a diagonal
            13 => {
                let mut h = || if self.flag() { 0.5 } else { -0.5 };
                return [h(), h(), h(), h()];
            }
            _ => {}
        }
        let u = self.axis();
        let th = self.angle_pi();
        let q = qaa(&u, th);
        if self.flag() {
            qs(&q, -1.0)
        } else {
            q
        }
    }
    /// a rotation as (axis, angle in [0, pi])
    pub fn ro(&mut self) -> (V, f64) {
        (self.axis(), self.angle_pi())
    }
    /// translations: zero, axis-aligned, ordinary
    pub fn tra(&mut self, e: f64) -> V {
        match self.ig(0, 7, |r| r.below(8) as i64) {
            0 => [0.0; 3],
            // tiny or huge as a whole
            7 => {
                let k = 10f64.powf(self.uni(-12.0, 7.0));
                [self.real(e) * k, self.real(e) * k, self.real(e) * k]
            }
            1 => {
                let mut v = [0.0; 3];
                let j = self.idx(3);
                v[j] = self.real(e);
                v
            }
            _ => [self.real(e), self.real(e), self.real(e)],
        }
    }
    /// an index permutation with its sign
    pub fn perm(&mut self, n: usize) -> (Vec<usize>, i64) {
        let mut p: Vec<usize> = (0..n).collect();
        let mut s = 1;
        for k in 0..n - 1 {
            let j = k + self.idx(n - k);
            if j != k {
                p.swap(k, j);
                s = -s;
            }
        }
        (p, s)
    }
}

/// development aid: VERIF_TOL scales the tolerances, to see how much room the rounding has
fn tol_scale() -> f64 {
    static S: std::sync::OnceLock<f64> = std::sync::OnceLock::new();
    *S.get_or_init(|| std::env::var("VERIF_TOL").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0))
}
pub fn close(a: f64, b: f64, tol: f64, what: &str) -> R<()> {
    let tol = tol * tol_scale();
    if (a - b).abs() <= tol {
        Ok(())
    } else {
        fail(format!("{}: got {:?}, expected {:?} (difference {:e}, tolerance {:e})", what, a, b, (a - b).abs(), tol))
    }
}
pub fn close_v(a: &[f64], b: &[f64], tol: f64, what: &str) -> R<()> {
    let tol = tol * tol_scale();
    if a.len() != b.len() {
        return fail(format!("{}: lengths {} and {}", what, a.len(), b.len()));
    }
    for k in 0..a.len() {
        if !((a[k] - b[k]).abs() <= tol) {
            return fail(format!("{}: element {}: got {:?}, expected {:?} (difference {:e}, tolerance {:e}); got {:?}, expected {:?}", what, k, a[k], b[k], (a[k] - b[k]).abs(), tol, a, b));
        }
    }
    Ok(())
}
pub fn eqv<T: PartialEq + std::fmt::Debug>(a: &[T], b: &[T], what: &str) -> R<()> {
    if a == b {
        Ok(())
    } else {
        fail(format!("{}: got {:?}, expected {:?}", what, a, b))
    }
}
pub fn maxabs(a: &[f64]) -> f64 {
    a.iter().fold(0.0, |m, x| x.abs().max(m))
}
/// element by element, each with its own scale
pub fn close_rel(a: &[f64], b: &[f64], scale: &[f64], tol: f64, what: &str) -> R<()> {
    for k in 0..a.len() {
        close(a[k], b[k], tol * scale[k], &format!("{} [{}]", what, k))?;
    }
    Ok(())
}
/// one check for each (container, element type)
#[macro_export]
macro_rules! each {
    ($out:expr, $prop:expr, $f:ident, $n:expr, $rule:expr, [$($c:ident),*], $ts:tt) => { $( $crate::each1!($out, $prop, $f, $n, $rule, $c, $ts); )* };
}
#[macro_export]
macro_rules! each1 {
    ($out:expr, $prop:expr, $f:ident, $n:expr, $rule:expr, $c:ident, [$($t:ident),*]) => { $(
        $out.push($crate::engine::Check { prop: $prop, name: stringify!($f), ty: concat!(stringify!($c), "<", stringify!($t), ">"), run: $f::<$t, $c<$t>>, n: $n, rule: $rule });
    )* };
}
/// one check for each element type
#[macro_export]
macro_rules! types {
    ($out:expr, $prop:expr, $f:ident, $n:expr, $rule:expr, [$($t:ident),*]) => { $(
        $out.push($crate::engine::Check { prop: $prop, name: stringify!($f), ty: stringify!($t), run: $f::<$t>, n: $n, rule: $rule });
    )* };
}
#[macro_export]
macro_rules! one {
    ($out:expr, $prop:expr, $f:ident, $ty:expr, $n:expr, $rule:expr) => {
        $out.push($crate::engine::Check { prop: $prop, name: stringify!($f), ty: $ty, run: $f, n: $n, rule: $rule });
    };
}
pub fn flat3(m: &M3) -> Vec<f64> {
    m.iter().flatten().copied().collect()
}
pub fn close_m(a: &M3, b: &M3, tol: f64, what: &str) -> R<()> {
    close_v(&flat3(a), &flat3(b), tol, what)
}
