//! C01 to C05, C10: integer element types of every width and sign, with components as great as the exact
//! result allows: no partial sum of the defining expression leaves the type.
use crate::engine::*;
use crate::gen::*;
use crate::ck;
use num::{One, Zero};
use static_math::slices_methods as sl;
use static_math::{DualQuaternion, Quaternion};
use static_math::matrix2x2::M22;
use static_math::matrix3x3::M33;
use static_math::matrix4x4::M44;
use static_math::matrix5x5::M55;
use static_math::matrix6x6::M66;
use static_math::vector2::V2;
use static_math::vector3::V3;
use static_math::vector4::V4;
use static_math::vector5::V5;
use static_math::vector6::V6;

fn isqrt(x: i128) -> i128 {
    let mut r = (x as f64).sqrt() as i128;
    while r * r > x {
        r -= 1;
    }
    while (r + 1) * (r + 1) <= x {
        r += 1;
    }
    r
}
/// integers in [lo, hi]: the ends, zero, one, uniform
fn within(s: &mut Src, n: usize, lo: i128, hi: i128) -> Vec<i128> {
    let (l, h) = (lo as i64, hi.min(i64::MAX as i128) as i64);
    (0..n)
        .map(|_| {
            let x = s.ig(l, h, |r| match r.below(6) {
                0 => l,
                1 => h,
                2 => (r.below(3) as i64 - 1).clamp(l, h),
                _ => {
                    let w = (h as i128 - l as i128 + 1) as u128;
                    (l as i128 + ((r.next() as u128) % w) as i128) as i64
                }
            });
            x as i128
        })
        .collect()
}

macro_rules! wide {
    ($mod:ident, $t:ident) => {
        mod $mod {
            use super::*;
            type T = $t;
            const MAX: i128 = $t::MAX as i128;
            const SIGNED: bool = $t::MIN != 0;
            fn c(x: &[i128]) -> Vec<T> {
                x.iter().map(|v| T::try_from(*v).unwrap()).collect()
            }
            fn lo(m: i128) -> i128 {
                if SIGNED { -m } else { 0 }
            }
            // operands whose sums and differences (b subtracted from a) stay in the type
            fn pair(s: &mut Src, n: usize) -> (Vec<i128>, Vec<i128>) {
                let h = MAX / 2;
                if SIGNED || s.flag() {
                    (within(s, n, lo(h), h), within(s, n, lo(h), h))
                } else {
                    let a = within(s, n, 0, MAX);
                    let b = a.iter().map(|x| within(s, 1, 0, (*x).min(MAX - *x))[0]).collect();
                    (a, b)
                }
            }
            macro_rules! size {
                ($vf:ident, $mf:ident, $V:ident, $M:ident, $n:expr, [$k:expr]) => {
                    pub fn $vf(s: &mut Src) -> R {
                        let (a, b) = pair(s, $n);
                        let (ta, tb) = (c(&a), c(&b));
                        let v = |x: &[T]| { let mut r = $V::<T>::zeros(); for k in 0..$n { r[k] = x[k]; } r };
                        let r = |x: $V<T>| -> Vec<i128> { (0..$n).map(|k| x[k] as i128).collect() };
                        let two = |f: &dyn Fn(i128, i128) -> i128| -> Vec<i128> { (0..$n).map(|k| f(a[k], b[k])).collect() };
                        let (x, y) = (v(&ta), v(&tb));
                        eqv(&r(x + y), &two(&|p, q| p + q), "a + b")?;
                        let mut z = x; z += y;
                        eqv(&r(z), &two(&|p, q| p + q), "a += b")?;
                        if SIGNED || (0..$n).all(|k| a[k] >= b[k]) {
                            eqv(&r(x - y), &two(&|p, q| p - q), "a - b")?;
                            let mut z = x; z -= y;
                            eqv(&r(z), &two(&|p, q| p - q), "a -= b")?;
                        }
                        ck!((x == y) == (a == b) && x == v(&ta), "{:?} == {:?} is {}", x, y, x == y);
                        ck!(x.is_zero() == a.iter().all(|q| *q == 0), "is_zero of {:?} is {}", x, x.is_zero());
                        eqv(&[x.norm_inf() as i128], &[a.iter().map(|q| q.abs()).max().unwrap()], "norm_inf")?;
                        eqv(&r($V::<T>::ones()), &[1; $n], "ones")?;
                        // products, with their sum in the type
                        let h = isqrt(MAX / $n);
                        let (a, b) = (within(s, $n, lo(h), h), within(s, $n, lo(h), h));
                        let (x, y) = (v(&c(&a)), v(&c(&b)));
                        eqv(&[(x * y) as i128], &[(0..$n).map(|k| a[k] * b[k]).sum::<i128>()], "a * b")?;
                        eqv(&[sl::dot(&c(&a), &c(&b)) as i128], &[(0..$n).map(|k| a[k] * b[k]).sum::<i128>()], "slice dot")?;
                        let h = isqrt(MAX);
                        let a = within(s, $n, lo(h), h);
                        let x = v(&c(&a));
                        let k = within(s, 1, lo(h), h)[0];
                        eqv(&r(x * T::try_from(k).unwrap()), &a.iter().map(|q| q * k).collect::<Vec<_>>(), "a * s")?;
                        let k = within(s, 1, lo(MAX), MAX)[0];
                        if k != 0 {
                            let a = within(s, $n, lo(MAX), MAX);
                            eqv(&r(v(&c(&a)) / T::try_from(k).unwrap()), &a.iter().map(|q| q / k).collect::<Vec<_>>(), "a / s")?;
                        }
                        // order
                        let a = within(s, $n, T::MIN as i128, MAX);
                        let f = |better: &dyn Fn(i128, i128) -> bool| (0..$n).find(|k| !a.iter().any(|x| better(*x, a[*k]))).unwrap();
                        let (i, j) = (f(&|p, q| p > q), f(&|p, q| p < q));
                        let m = sl::find_max_min(&c(&a));
                        eqv(&[(m.max.0 as i128, m.max.1), (m.min.0 as i128, m.min.1)], &[(a[i], i), (a[j], j)], "find_max_min")?;
                        Ok(a[i] != a[j])
                    }
                    pub fn $mf(s: &mut Src) -> R {
                        const N: usize = $n;
                        let m = |x: &[i128]| { let mut r = $M::<T>::zeros(); for k in 0..N * N { r[(k / N, k % N)] = T::try_from(x[k]).unwrap(); } r };
                        let v = |x: &[i128]| { let mut r = $V::<T>::zeros(); for k in 0..N { r[k] = T::try_from(x[k]).unwrap(); } r };
                        let rv = |x: $V<T>| -> Vec<i128> { (0..N).map(|k| x[k] as i128).collect() };
                        let r = |x: $M<T>| -> Vec<i128> { (0..N * N).map(|k| x[(k / N, k % N)] as i128).collect() };
                        let (a, b) = pair(s, N * N);
                        let two = |f: &dyn Fn(i128, i128) -> i128| -> Vec<i128> { (0..N * N).map(|k| f(a[k], b[k])).collect() };
                        let (x, y) = (m(&a), m(&b));
                        eqv(&r(x + y), &two(&|p, q| p + q), "A + B")?;
                        let mut z = x; z += y;
                        eqv(&r(z), &two(&|p, q| p + q), "A += B")?;
                        if SIGNED || (0..N * N).all(|k| a[k] >= b[k]) {
                            eqv(&r(x - y), &two(&|p, q| p - q), "A - B")?;
                            let mut z = x; z -= y;
                            eqv(&r(z), &two(&|p, q| p - q), "A -= B")?;
                        }
                        ck!((x == y) == (a == b) && x == m(&a), "{:?} == {:?} is {}", x, y, x == y);
                        ck!(x.is_zero() == a.iter().all(|q| *q == 0), "is_zero of {:?}", x);
                        ck!($M::<T>::identity().is_one() && x.is_one() == (0..N * N).all(|k| a[k] == (k / N == k % N) as i128), "is_one of {:?}", x);
                        eqv(&x.as_vec().iter().map(|q| *q as i128).collect::<Vec<_>>(), &a, "as_vec")?;
                        for i in 0..N {
                            eqv(&rv(x.get_rows()[i]), &a[i * N..(i + 1) * N], "get_rows")?;
                            eqv(&rv(x.get_cols()[i]), &(0..N).map(|k| a[k * N + i]).collect::<Vec<_>>(), "get_cols")?;
                        }
                        eqv(&rv(x.get_diagonal()), &(0..N).map(|k| a[k * N + k]).collect::<Vec<_>>(), "get_diagonal")?;
                        // products, with their sum in the type
                        let h = isqrt(MAX / $n);
                        let (a, b) = (within(s, N * N, lo(h), h), within(s, N * N, lo(h), h));
                        let w = within(s, N, lo(h), h);
                        let (x, y) = (m(&a), m(&b));
                        let p: Vec<i128> = (0..N * N).map(|k| (0..N).map(|l| a[k / N * N + l] * b[l * N + k % N]).sum()).collect();
                        eqv(&r(x * y), &p, "A * B")?;
                        eqv(&rv(x * v(&w)), &(0..N).map(|i| (0..N).map(|l| a[i * N + l] * w[l]).sum()).collect::<Vec<i128>>(), "A * v")?;
                        eqv(&rv(v(&w) * x), &(0..N).map(|j| (0..N).map(|l| w[l] * a[l * N + j]).sum()).collect::<Vec<i128>>(), "v * A")?;
                        ck!(x * $M::<T>::one() == x && $M::<T>::one() * x == x && x + $M::<T>::zero() == x, "neutral elements with {:?}", x);
                        let k = w[0];
                        eqv(&r(x * T::try_from(k).unwrap()), &a.iter().map(|q| q * k).collect::<Vec<_>>(), "A * s")?;
                        if k != 0 {
                            eqv(&r(x / T::try_from(k).unwrap()), &a.iter().map(|q| q / k).collect::<Vec<_>>(), "A / s")?;
                        }
                        Ok(p.iter().any(|q| *q != 0))
                    }
                };
            }
            size!(v2, m2, V2, M22, 2, [0]);
            size!(v3, m3, V3, M33, 3, [0]);
            size!(v4, m4, V4, M44, 4, [0]);
            size!(v5, m5, V5, M55, 5, [0]);
            size!(v6, m6, V6, M66, 6, [0]);
            /// sums of quaternions and dual quaternions, and what else does not subtract
            pub fn quats(s: &mut Src) -> R {
                let (a, b) = pair(s, 8);
                let q = |x: &[i128]| { let t = c(x); Quaternion::<T>::new_from(t[0], t[1], t[2], t[3]) };
                let d = |x: &[i128]| DualQuaternion::<T>::new(q(&x[..4]), q(&x[4..]));
                let r = |x: Quaternion<T>| -> Vec<i128> { vec![x.real() as i128, x.imag()[0] as i128, x.imag()[1] as i128, x.imag()[2] as i128] };
                let rd = |x: DualQuaternion<T>| -> Vec<i128> { [r(x.real()), r(x.dual())].concat() };
                let sum: Vec<i128> = (0..8).map(|k| a[k] + b[k]).collect();
                let dif: Vec<i128> = (0..8).map(|k| a[k] - b[k]).collect();
                eqv(&rd(d(&a) + d(&b)), &sum, "dual quaternion a + b")?;
                eqv(&r(q(&a[..4]) + q(&b[..4])), &sum[..4], "quaternion a + b")?;
                if SIGNED || dif.iter().all(|x| *x >= 0) {
                    eqv(&rd(d(&a) - d(&b)), &dif, "dual quaternion a - b")?;
                    eqv(&r(q(&a[..4]) - q(&b[..4])), &dif[..4], "quaternion a - b")?;
                }
                ck!((q(&a[..4]) == q(&b[..4])) == (a[..4] == b[..4]), "== of quaternions");
                ck!((d(&a) == d(&b)) == (a == b), "== of dual quaternions");
                ck!(d(&a).is_zero() == a.iter().all(|x| *x == 0), "is_zero");
                let h = isqrt(MAX / 4);
                let (a, b) = (within(s, 8, lo(h), h), within(s, 8, lo(h), h));
                let (x, y) = (q(&a[..4]), q(&b[..4]));
                eqv(&[x.dot(y) as i128], &[(0..4).map(|k| a[k] * b[k]).sum::<i128>()], "dot")?;
                eqv(&[x.abs2() as i128], &[(0..4).map(|k| a[k] * a[k]).sum::<i128>()], "abs2")?;
                let k = b[4];
                eqv(&rd(d(&a) * T::try_from(k).unwrap()), &a.iter().map(|q| q * k).collect::<Vec<_>>(), "dual quaternion * s")?;
                eqv(&r(x * T::try_from(k).unwrap()), &a[..4].iter().map(|q| q * k).collect::<Vec<_>>(), "quaternion * s")?;
                if k != 0 {
                    eqv(&r(x / T::try_from(k).unwrap()), &a[..4].iter().map(|q| q / k).collect::<Vec<_>>(), "quaternion / s")?;
                }
                if SIGNED {
                    let h = isqrt(MAX / 8);
                    let (a, b) = (within(s, 8, lo(h), h), within(s, 8, lo(h), h));
                    let qi = |k: usize, x: &[i128]| -> [i64; 4] { [x[k] as i64, x[k + 1] as i64, x[k + 2] as i64, x[k + 3] as i64] };
                    let w = |x: [i64; 4]| -> Vec<i128> { x.iter().map(|q| *q as i128).collect() };
                    use crate::model::qi as mul;
                    let (a0, a1, b0, b1) = (qi(0, &a), qi(4, &a), qi(0, &b), qi(4, &b));
                    eqv(&r(q(&a[..4]) * q(&b[..4])), &w(mul(&a0, &b0)), "quaternion a * b")?;
                    let (l, m) = (mul(&a0, &b1), mul(&a1, &b0));
                    let e: Vec<i128> = (0..4).map(|k| l[k] as i128 + m[k] as i128).collect();
                    eqv(&rd(d(&a) * d(&b)), &[w(mul(&a0, &b0)), e].concat(), "dual quaternion a * b")?;
                }
                Ok(x != y)
            }
        }
    };
}
wide!(w_i8, i8);
wide!(w_u8, u8);
wide!(w_i16, i16);
wide!(w_i32, i32);
wide!(w_u32, u32);
wide!(w_i64, i64);

pub fn checks(o: &mut Vec<Check>) {
    macro_rules! put {
        ($m:ident, $t:expr) => {
            {
                {
                    use $m as w;
                    macro_rules! v {
                        ($f:ident, $g:ident, $n:expr) => {
                            o.push(Check { prop: "C01", name: "vec_wide", ty: concat!("V", $n, "<", $t, ">"), run: w::$f, n: 6000, rule: "components up to the limits of the type; non-trivial: not constant" });
                            o.push(Check { prop: "C03", name: "ring_wide", ty: concat!("M", $n, $n, "<", $t, ">"), run: w::$g, n: 2500, rule: "elements up to the limits of the type; non-trivial: nonzero product" });
                        };
                    }
                    v!(v2, m2, "2");
                    v!(v3, m3, "3");
                    v!(v4, m4, "4");
                    v!(v5, m5, "5");
                    v!(v6, m6, "6");
                    o.push(Check { prop: "C10", name: "algebra_wide", ty: $t, run: w::quats, n: 10000, rule: "quaternions and dual quaternions with components up to the limits of the type; non-trivial: different operands" });
                }
            }
        };
    }
    put!(w_i8, "i8");
    put!(w_u8, "u8");
    put!(w_i16, "i16");
    put!(w_i32, "i32");
    put!(w_u32, "u32");
    put!(w_i64, "i64");
}
