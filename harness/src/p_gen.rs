//! C28: element types that are exact fields: a prime field, the rationals, the complex rationals. Equalities are
//! exact, and over the prime field an identity between polynomials that does not hold fails for nearly every
//! random operand.
use crate::{assume, ck};
use crate::engine::*;
use crate::gen::*;
#[cfg(feature = "rich")]
use num::{complex::Complex, rational::Ratio};
use num::traits::NumAssign;
use num::{Num, One, Signed, Zero};
use static_math::matrix2x2::M22;
use static_math::matrix3x3::M33;
use static_math::matrix4x4::M44;
use static_math::matrix5x5::M55;
use static_math::matrix6x6::M66;
use static_math::vector2::V2;
use static_math::vector3::V3;
use static_math::vector4::V4;
use static_math::vector5::V5;
use static_math::vector6::V6;
use static_math::{DualQuaternion, Quaternion};
use std::fmt::Debug;
use std::iter::Sum;
use std::ops::*;

const P: u64 = 998244353;
/// the integers modulo 998244353, a prime where -1 has a square root
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Debug)]
pub struct Gf(u64);
// offered for a crate that asks for more than the arithmetic operators (an order has no meaning here)
macro_rules! more_ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident),*) => { $(
        impl $tra for Gf {
            fn $fa(&mut self, o: Gf) {
                *self = $tr::$f(*self, o);
            }
        }
        impl<'a> $tra<&'a Gf> for Gf {
            fn $fa(&mut self, o: &'a Gf) {
                *self = $tr::$f(*self, *o);
            }
        }
        impl<'a> $tr<&'a Gf> for Gf {
            type Output = Gf;
            fn $f(self, o: &'a Gf) -> Gf {
                $tr::$f(self, *o)
            }
        }
        impl<'a> $tr<Gf> for &'a Gf {
            type Output = Gf;
            fn $f(self, o: Gf) -> Gf {
                $tr::$f(*self, o)
            }
        }
        impl<'a, 'b> $tr<&'b Gf> for &'a Gf {
            type Output = Gf;
            fn $f(self, o: &'b Gf) -> Gf {
                $tr::$f(*self, *o)
            }
        }
    )* };
}
more_ops!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign, Div div DivAssign div_assign, Rem rem RemAssign rem_assign);
impl std::iter::Sum for Gf {
    fn sum<I: Iterator<Item = Gf>>(i: I) -> Gf {
        i.fold(Gf(0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Gf> for Gf {
    fn sum<I: Iterator<Item = &'a Gf>>(i: I) -> Gf {
        i.fold(Gf(0), |a, b| a + *b)
    }
}
impl std::iter::Product for Gf {
    fn product<I: Iterator<Item = Gf>>(i: I) -> Gf {
        i.fold(Gf(1), |a, b| a * b)
    }
}
impl<'a> std::iter::Product<&'a Gf> for Gf {
    fn product<I: Iterator<Item = &'a Gf>>(i: I) -> Gf {
        i.fold(Gf(1), |a, b| a * *b)
    }
}
impl std::fmt::Display for Gf {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Gf {
    fn inv(self) -> Gf {
        let (mut r, mut b, mut e) = (1u64, self.0, P - 2);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % P;
            }
            b = b * b % P;
            e >>= 1;
        }
        Gf(r)
    }
}
impl Add for Gf {
    type Output = Gf;
    fn add(self, o: Gf) -> Gf {
        Gf((self.0 + o.0) % P)
    }
}
impl Sub for Gf {
    type Output = Gf;
    fn sub(self, o: Gf) -> Gf {
        Gf((self.0 + P - o.0) % P)
    }
}
impl Mul for Gf {
    type Output = Gf;
    fn mul(self, o: Gf) -> Gf {
        Gf(self.0 * o.0 % P)
    }
}
impl Div for Gf {
    type Output = Gf;
    fn div(self, o: Gf) -> Gf {
        if o.0 == 0 {
            panic!("division by zero");
        }
        self * o.inv()
    }
}
impl Rem for Gf {
    type Output = Gf;
    fn rem(self, _: Gf) -> Gf {
        Gf(0)
    }
}
impl Neg for Gf {
    type Output = Gf;
    fn neg(self) -> Gf {
        Gf((P - self.0) % P)
    }
}
impl Zero for Gf {
    fn zero() -> Gf {
        Gf(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Gf {
    fn one() -> Gf {
        Gf(1)
    }
}
impl Num for Gf {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Gf, ()> {
        Err(())
    }
}
impl Signed for Gf {
    fn abs(&self) -> Gf {
        panic!("there is no order in this field")
    }
    fn abs_sub(&self, _: &Gf) -> Gf {
        panic!("there is no order in this field")
    }
    fn signum(&self) -> Gf {
        panic!("there is no order in this field")
    }
    fn is_positive(&self) -> bool {
        panic!("there is no order in this field")
    }
    fn is_negative(&self) -> bool {
        panic!("there is no order in this field")
    }
}
/// what the elements offer
#[cfg(feature = "rich")]
pub trait Offer: NumAssign + Copy + Debug + Sum + Send + Sync + 'static {}
#[cfg(feature = "rich")]
impl<T: NumAssign + Copy + Debug + Sum + Send + Sync + 'static> Offer for T {}
#[cfg(not(feature = "rich"))]
pub trait Offer: NumAssign + Signed + PartialOrd + Default + std::fmt::Display + Copy + Debug + Sum + std::iter::Product + Send + Sync + 'static {}
#[cfg(not(feature = "rich"))]
impl<T: NumAssign + Signed + PartialOrd + Default + std::fmt::Display + Copy + Debug + Sum + std::iter::Product + Send + Sync + 'static> Offer for T {}

pub trait El: Offer {
    const NAME: &'static str;
    fn draw(s: &mut Src) -> Self;
    /// a square root of -1, or zero when there is none
    fn i() -> Self {
        Self::zero()
    }
}
impl El for Gf {
    const NAME: &'static str = "GF(998244353)";
    fn i() -> Gf {
        Gf(86583718)
    }
    fn draw(s: &mut Src) -> Gf {
        Gf(s.ig(0, P as i64 - 1, |r| match r.below(10) {
            0 => 0,
            1 => 1,
            2 => P as i64 - 1,
            _ => r.below(P) as i64,
        }) as u64)
    }
}
#[cfg(feature = "rich")]
type Rat = Ratio<i128>;
#[cfg(feature = "rich")]
impl El for Rat {
    const NAME: &'static str = "rationals";
    fn draw(s: &mut Src) -> Rat {
        Ratio::new(s.small(6) as i128, s.int(1, 4) as i128)
    }
}
#[cfg(feature = "rich")]
type CRat = Complex<Rat>;
#[cfg(feature = "rich")]
impl El for CRat {
    const NAME: &'static str = "complex rationals";
    fn i() -> CRat {
        Complex::i()
    }
    fn draw(s: &mut Src) -> CRat {
        let h = |s: &mut Src| Ratio::new(s.small(3) as i128, s.int(1, 2) as i128);
        Complex::new(h(s), h(s))
    }
}
/// elements drawn one by one, some of them zero, a multiple of a row of an identity, or (with a root of -1)
/// pairs whose squares cancel
fn draws<T: El>(s: &mut Src, n: usize) -> Vec<T> {
    match s.idx(8) {
        0 => (0..n).map(|_| if s.flag() { T::zero() } else { T::draw(s) }).collect(),
        1 => {
            let (k, x) = (s.idx(n), T::draw(s));
            (0..n).map(|j| if j == k { x } else { T::zero() }).collect()
        }
        2 => {
            let i = T::i();
            let mut x: Vec<T> = (0..n).map(|_| T::draw(s)).collect();
            for k in (0..n - 1).step_by(2) {
                x[k + 1] = x[k] * i;
            }
            if n % 2 == 1 {
                x[n - 1] = T::zero();
            }
            x
        }
        _ => (0..n).map(|_| T::draw(s)).collect(),
    }
}
/// another operand: most times a new one, or related to the first one
fn another<T: El>(s: &mut Src, a: &[T]) -> Vec<T> {
    match s.idx(10) {
        0 => a.to_vec(),
        1 => a.iter().map(|x| neg(*x)).collect(),
        2 => a.iter().enumerate().map(|(k, x)| if k == 0 { *x } else { neg(*x) }).collect(),
        3 => {
            let c = T::draw(s);
            a.iter().map(|x| *x * c).collect()
        }
        4 => {
            let (mut b, k) = (a.to_vec(), s.idx(a.len()));
            b[k] = T::draw(s);
            b
        }
        _ => draws(s, a.len()),
    }
}
/// the elements of a matrix, some with rows or columns of the identity
fn square<T: El>(s: &mut Src, n: usize) -> Vec<T> {
    let mut a = draws::<T>(s, n * n);
    let m = s.idx(8);
    if m < 3 {
        let keep = s.int(0, (1 << n) - 1);
        for i in 0..n {
            if keep >> i & 1 == 0 {
                for j in 0..n {
                    let e = if i == j { T::one() } else { T::zero() };
                    match m {
                        0 => a[i * n + j] = e,
                        1 => a[j * n + i] = e,
                        _ if j < i => a[i * n + j] = T::zero(),
                        _ => {}
                    }
                }
            }
        }
    }
    a
}
fn another_square<T: El>(s: &mut Src, a: &[T], n: usize) -> Vec<T> {
    match s.idx(8) {
        0 => (0..n * n).map(|k| a[k % n * n + k / n]).collect(),
        1 => another(s, a),
        _ => square(s, n),
    }
}
fn sum<T: El>(x: impl Iterator<Item = T>) -> T {
    x.fold(T::zero(), |a, b| a + b)
}
fn neg<T: El>(x: T) -> T {
    T::zero() - x
}
/// matrix product of (n x k) by (k x m)
fn mat<T: El>(a: &[T], b: &[T], n: usize, k: usize, m: usize) -> Vec<T> {
    (0..n * m).map(|e| sum((0..k).map(|l| a[e / m * k + l] * b[l * m + e % m]))).collect()
}

macro_rules! size {
    ($vf:ident, $mf:ident, $V:ident, $M:ident, $n:expr, [$($k:expr),*]) => {
        fn $vf<T: El>(s: &mut Src) -> R {
            let a = draws::<T>(s, $n);
            let (b, c) = (another(s, &a), T::draw(s));
            let (x, y) = ($V::new([$(a[$k]),*]), $V::new_from($(b[$k]),*));
            let r = |x: $V<T>| x.to_vec();
            let two = |f: &dyn Fn(T, T) -> T| -> Vec<T> { (0..$n).map(|k| f(a[k], b[k])).collect() };
            eqv(&r(x + y), &two(&|p, q| p + q), "a + b")?;
            eqv(&r(x - y), &two(&|p, q| p - q), "a - b")?;
            let mut z = x; z += y;
            eqv(&r(z), &two(&|p, q| p + q), "a += b")?;
            let mut z = x; z -= y;
            eqv(&r(z), &two(&|p, q| p - q), "a -= b")?;
            eqv(&r(x * c), &two(&|p, _| p * c), "a * c")?;
            if !c.is_zero() {
                eqv(&r(x / c), &two(&|p, _| p / c), "a / c")?;
            }
            eqv(&[x * y], &[sum((0..$n).map(|k| a[k] * b[k]))], "a . b")?;
            eqv(&r($V::<T>::zeros()), &vec![T::zero(); $n], "zeros")?;
            eqv(&r($V::<T>::ones()), &vec![T::one(); $n], "ones")?;
            eqv(&r($V::from([$(a[$k]),*])), &a, "from an array")?;
            ck!(x.is_zero() == a.iter().all(|x| x.is_zero()) && (x - x).is_zero() && $V::<T>::zero().is_zero(), "is_zero of {:?}", x);
            ck!((x == y) == (a == b), "{:?} == {:?} is {}", x, y, x == y);
            Ok(!c.is_zero() && !x.is_zero() && a != b)
        }
        fn $mf<T: El>(s: &mut Src) -> R {
            const N: usize = $n;
            let a = square::<T>(s, N);
            let (b, c, v) = (another_square(s, &a, N), T::draw(s), draws::<T>(s, N));
            let m = |a: &[T]| { let mut e = [[T::zero(); N]; N]; for k in 0..N * N { e[k / N][k % N] = a[k]; } $M::new(e) };
            let (x, y, w) = (m(&a), m(&b), $V::new([$(v[$k]),*]));
            let r = |x: $M<T>| -> Vec<T> { (0..N * N).map(|k| x[(k / N, k % N)]).collect() };
            let two = |f: &dyn Fn(T, T) -> T| -> Vec<T> { (0..N * N).map(|k| f(a[k], b[k])).collect() };
            eqv(&r(x + y), &two(&|p, q| p + q), "A + B")?;
            eqv(&r(x - y), &two(&|p, q| p - q), "A - B")?;
            let mut z = x; z += y;
            eqv(&r(z), &two(&|p, q| p + q), "A += B")?;
            let mut z = x; z -= y;
            eqv(&r(z), &two(&|p, q| p - q), "A -= B")?;
            eqv(&r(x * c), &two(&|p, _| p * c), "A * c")?;
            if !c.is_zero() {
                eqv(&r(x / c), &two(&|p, _| p / c), "A / c")?;
            }
            eqv(&r(x * y), &mat(&a, &b, N, N, N), "A * B")?;
            eqv(&(x * w).to_vec(), &mat(&a, &v, N, N, 1), "A * v")?;
            eqv(&(w * x).to_vec(), &mat(&v, &a, 1, N, N), "v * A")?;
            let id: Vec<T> = (0..N * N).map(|k| if k / N == k % N { T::one() } else { T::zero() }).collect();
            eqv(&r($M::<T>::identity()), &id, "identity")?;
            eqv(&r($M::<T>::one()), &id, "one")?;
            eqv(&r($M::<T>::zeros()), &vec![T::zero(); N * N], "zeros")?;
            ck!(x.is_zero() == a.iter().all(|x| x.is_zero()) && x.is_one() == (a == id), "is_zero, is_one of {:?}", x);
            eqv(&x.as_vec().to_vec(), &a, "as_vec")?;
            eqv(&x.get_diagonal().to_vec(), &(0..N).map(|k| a[k * N + k]).collect::<Vec<T>>(), "get_diagonal")?;
            let (rows, cols) = (x.get_rows(), x.get_cols());
            for k in 0..N {
                eqv(&rows[k].to_vec(), &a[k * N..k * N + N].to_vec(), "get_rows")?;
                eqv(&cols[k].to_vec(), &(0..N).map(|i| a[i * N + k]).collect::<Vec<T>>(), "get_cols")?;
            }
            ck!($M::new_from_vecs(cols) == x, "new_from_vecs of the columns of {:?}", x);
            eqv(&r(x.for_each(|e| e * e + c)), &two(&|p, _| p * p + c), "for_each")?;
            Ok(!c.is_zero() && !x.is_zero() && a != b)
        }
    };
}
size!(v2, m2, V2, M22, 2, [0, 1]);
size!(v3, m3, V3, M33, 3, [0, 1, 2]);
size!(v4, m4, V4, M44, 4, [0, 1, 2, 3]);
size!(v5, m5, V5, M55, 5, [0, 1, 2, 3, 4]);
size!(v6, m6, V6, M66, 6, [0, 1, 2, 3, 4, 5]);

type A4<T> = [T; 4];
fn qmul<T: El>(a: &A4<T>, b: &A4<T>) -> A4<T> {
    const U: [[(usize, bool); 4]; 4] = [
        [(0, false), (1, false), (2, false), (3, false)],
        [(1, false), (0, true), (3, false), (2, true)],
        [(2, false), (3, true), (0, true), (1, false)],
        [(3, false), (2, false), (1, true), (0, true)],
    ];
    let mut r = [T::zero(); 4];
    for i in 0..4 {
        for j in 0..4 {
            let (k, minus) = U[i][j];
            let p = a[i] * b[j];
            r[k] = if minus { r[k] - p } else { r[k] + p };
        }
    }
    r
}
fn a4<T: El>(x: &[T]) -> A4<T> {
    [x[0], x[1], x[2], x[3]]
}
fn cj<T: El>(a: &A4<T>) -> A4<T> {
    [a[0], neg(a[1]), neg(a[2]), neg(a[3])]
}
fn z4<T: El>(a: &A4<T>, b: &A4<T>, f: impl Fn(T, T) -> T) -> A4<T> {
    [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2]), f(a[3], b[3])]
}
fn q_<T: El>(a: &A4<T>) -> Quaternion<T> {
    Quaternion::new_from(a[0], a[1], a[2], a[3])
}
fn of<T: El>(q: &Quaternion<T>) -> A4<T> {
    let v = q.imag();
    [q.real(), v[0], v[1], v[2]]
}
fn v3_<T: El>(a: &[T]) -> V3<T> {
    V3::new_from(a[0], a[1], a[2])
}
fn flat<T: El>(m: &M33<T>) -> Vec<T> {
    m.as_vec().to_vec()
}
fn cross<T: El>(s: &mut Src) -> R {
    let a = draws::<T>(s, 3);
    let (b, c) = (another(s, &a), another(s, &a));
    let (x, y, z) = (v3_(&a), v3_(&b), v3_(&c));
    let e: Vec<T> = (0..3).map(|k| a[(k + 1) % 3] * b[(k + 2) % 3] - a[(k + 2) % 3] * b[(k + 1) % 3]).collect();
    eqv(&x.cross(y).to_vec(), &e, "a x b")?;
    ck!((x.cross(y) * x).is_zero() && (x.cross(y) * y).is_zero(), "a x b is not orthogonal to a and b");
    ck!(x.cross(y) * z == y.cross(z) * x, "(a x b) . c is not (b x c) . a");
    ck!((x.cross(y.cross(z)) + y.cross(z.cross(x)) + z.cross(x.cross(y))).is_zero(), "the Jacobi identity");
    Ok(!x.cross(y).is_zero())
}
fn quat<T: El>(s: &mut Src) -> R {
    let a = a4(&draws::<T>(s, 4));
    let (b, c) = (a4(&another(s, &a)), T::draw(s));
    let (x, y) = (q_(&a), Quaternion::new(b[0], v3_(&b[1..])));
    eqv(&of(&(x + y)), &z4(&a, &b, |p, q| p + q), "a + b")?;
    eqv(&of(&(x - y)), &z4(&a, &b, |p, q| p - q), "a - b")?;
    eqv(&of(&(x * y)), &qmul(&a, &b), "a * b")?;
    eqv(&of(&(x * c)), &z4(&a, &a, |p, _| p * c), "a * c")?;
    if !c.is_zero() {
        eqv(&of(&(x / c)), &z4(&a, &a, |p, _| p / c), "a / c")?;
    }
    eqv(&[x.abs2(), x.dot(x), x.dot(y)], &[sum((0..4).map(|k| a[k] * a[k])), sum((0..4).map(|k| a[k] * a[k])), sum((0..4).map(|k| a[k] * b[k]))], "abs2, a . a, a . b")?;
    eqv(&of(&Quaternion::new_real(c)), &[c, T::zero(), T::zero(), T::zero()], "new_real")?;
    eqv(&of(&Quaternion::new_imag(&v3_(&a))), &[T::zero(), a[0], a[1], a[2]], "new_imag")?;
    eqv(&of(&Quaternion::new_from_vec(&V4::new(a))), &a, "new_from_vec")?;
    ck!((x == y) == (a == b) && x.is_zero() == a.iter().all(|x| x.is_zero()), "==, is_zero of {:?}", x);
    ck!(x * Quaternion::one() == x && Quaternion::one() * x == x && x + Quaternion::zero() == x, "neutral elements with {:?}", x);
    // a rotation: the square of a quaternion over its norm is a unit one
    let n = x.abs2();
    assume!(!n.is_zero());
    let u = x * x / n;
    ck!(u.abs2().is_one(), "abs2 is not multiplicative: {:?}", u.abs2());
    let (m, v) = (u.to_rotation(), draws::<T>(s, 3));
    let image = qmul(&qmul(&of(&u), &[T::zero(), v[0], v[1], v[2]]), &cj(&of(&u)));
    eqv(&(m * v3_(&v)).to_vec(), &image[1..], "to_rotation * v")?;
    let k = y.abs2();
    assume!(!k.is_zero());
    let w = y * y / k;
    eqv(&flat(&(m * w.to_rotation())), &flat(&(u * w).to_rotation()), "to_rotation of a product")?;
    eqv(&flat(&(u * (T::zero() - T::one())).to_rotation()), &flat(&m), "to_rotation of -q")?;
    let (r, t) = (m.get_rows(), m.get_cols());
    for i in 0..3 {
        for j in 0..3 {
            let e = if i == j { T::one() } else { T::zero() };
            ck!(r[i] * r[j] == e && t[i] * t[j] == e, "to_rotation is not orthogonal: {:?}", m);
        }
    }
    ck!(r[0].cross(r[1]) == r[2], "to_rotation is not proper: {:?}", m);
    Ok(x * y != y * x)
}
fn dual<T: El>(s: &mut Src) -> R {
    let x = draws::<T>(s, 8);
    let y = another(s, &x);
    let (a, b, c, d, k) = (a4(&x), a4(&x[4..]), a4(&y), a4(&y[4..]), T::draw(s));
    let (x, y) = (DualQuaternion::new(q_(&a), q_(&b)), DualQuaternion::new_from_vecs(&V4::new(c), &V4::new(d)));
    let ps = |d: &DualQuaternion<T>| [of(&d.real()), of(&d.dual())].concat();
    let p = |f: &dyn Fn(T, T) -> T| [z4(&a, &c, f), z4(&b, &d, f)].concat();
    eqv(&ps(&(x + y)), &p(&|p, q| p + q), "x + y")?;
    eqv(&ps(&(x - y)), &p(&|p, q| p - q), "x - y")?;
    eqv(&ps(&(x * k)), &p(&|p, _| p * k), "x * k")?;
    eqv(&ps(&(x * y)), &[qmul(&a, &c), z4(&qmul(&a, &d), &qmul(&b, &c), |p, q| p + q)].concat(), "x * y")?;
    eqv(&ps(&DualQuaternion::<T>::one()), &ps(&DualQuaternion::new(Quaternion::one(), Quaternion::zero())), "one")?;
    ck!(x * DualQuaternion::one() == x && DualQuaternion::one() * x == x && x + DualQuaternion::zero() == x, "neutral elements with {:?}", x);
    eqv(&ps(&DualQuaternion::new_from_rotation(&q_(&a))), &[a, [T::zero(); 4]].concat(), "new_from_rotation")?;
    eqv(&ps(&DualQuaternion::new_from_point(&v3_(&a))), &[T::one(), T::zero(), T::zero(), T::zero(), T::zero(), a[0], a[1], a[2]], "new_from_point")?;
    Ok(x * y != y * x)
}
fn quat_signed<T: El + Signed>(s: &mut Src) -> R {
    let a = a4(&draws::<T>(s, 4));
    let b = a4(&another(s, &a));
    let (x, y) = (q_(&a), q_(&b));
    eqv(&of(&-x), &z4(&a, &a, |p, _| neg(p)), "-a")?;
    eqv(&of(&x.conj()), &cj(&a), "conj")?;
    ck!((x * y).conj() == y.conj() * x.conj(), "conj of a product");
    let n = x.abs2();
    assume!(!n.is_zero());
    let u = x * x / n;
    let v = draws::<T>(s, 3);
    let image = qmul(&qmul(&of(&u), &[T::zero(), v[0], v[1], v[2]]), &cj(&of(&u)));
    eqv(&(u * v3_(&v)).to_vec(), &image[1..], "q * v")?;
    Ok(x != y && !x.imag().is_zero())
}
/// motions of unit dual quaternions over the field: the translation is (0, t)/2 * q
fn dual_signed<T: El + Signed>(s: &mut Src) -> R {
    let two = T::one() + T::one();
    let pose = |s: &mut Src| -> R<(DualQuaternion<T>, A4<T>, Vec<T>)> {
        let a = q_(&a4(&draws::<T>(s, 4)));
        assume!(!a.abs2().is_zero());
        let q = of(&(a * a / a.abs2()));
        let t = draws::<T>(s, 3);
        let half: A4<T> = [T::zero(), t[0] / two, t[1] / two, t[2] / two];
        Ok((DualQuaternion::new(q_(&q), q_(&qmul(&half, &q))), q, t))
    };
    let rot = |q: &A4<T>, v: &[T]| qmul(&qmul(q, &[T::zero(), v[0], v[1], v[2]]), &cj(q))[1..].to_vec();
    let plus = |a: &[T], b: &[T]| (0..3).map(|k| a[k] + b[k]).collect::<Vec<T>>();
    let ((x, q, t), (y, w, u)) = (pose(s)?, pose(s)?);
    let ps = |d: &DualQuaternion<T>| [of(&d.real()), of(&d.dual())].concat();
    eqv(&x.get_translation().to_vec(), &t, "get_translation")?;
    let (xq, xt) = x.to_quaternion_translation();
    eqv(&of(&xq), &q, "the quaternion of to_quaternion_translation")?;
    eqv(&xt.to_vec(), &t, "the translation of to_quaternion_translation")?;
    let (m, xt) = x.to_rotation_translation();
    eqv(&xt.to_vec(), &t, "the translation of to_rotation_translation")?;
    let v = draws::<T>(s, 3);
    eqv(&(m * v3_(&v)).to_vec(), &rot(&q, &v), "the rotation of to_rotation_translation")?;
    // composition: R (R2 v + t2) + t
    let z = x * y;
    eqv(&z.get_translation().to_vec(), &plus(&rot(&q, &u), &t), "the translation of a product")?;
    eqv(&of(&z.real()), &qmul(&q, &w), "the rotation of a product")?;
    // conjugates
    let (r, d) = (of(&x.real()), of(&x.dual()));
    let minus = |a: &A4<T>| z4(a, a, |p, _| neg(p));
    eqv(&ps(&x.conj()), &[cj(&r), cj(&d)].concat(), "conj")?;
    eqv(&ps(&x.conj_as_dual()), &[r, minus(&d)].concat(), "conj_as_dual")?;
    eqv(&ps(&x.conj_combined()), &[cj(&r), minus(&cj(&d))].concat(), "conj_combined")?;
    eqv(&ps(&-x), &[minus(&r), minus(&d)].concat(), "-x")?;
    ck!((x * y).conj() == y.conj() * x.conj(), "conj of a product");
    eqv(&ps(&x.norm()), &ps(&DualQuaternion::one()), "the norm of a motion")?;
    eqv(&ps(&(x * x.conj())), &ps(&DualQuaternion::one()), "x * conj(x)")?;
    let p = x.transform_point(&v3_(&v)).to_vec();
    let (all, only) = (plus(&rot(&q, &v), &t), rot(&q, &v));
    // C16 decides which of them
    ck!(p == all || p == only, "transform_point of {:?} is {:?}, the motion gives {:?}", v, p, all);
    Ok(true)
}

macro_rules! fields {
    ($o:expr, $n:expr, $rule:expr, [$($f:ident),*], [$($t:ident),*]) => { fields!(@ $o, $n, $rule, [$($f),*], $([$t])*); };
    (@ $o:expr, $n:expr, $rule:expr, [$($f:ident),*], [$t:ident] $($r:tt)*) => {
        $( $o.push(Check { prop: "C28", name: concat!("field_", stringify!($f)), ty: <$t as El>::NAME, run: $f::<$t>, n: $n, rule: $rule }); )*
        fields!(@ $o, $n, $rule, [$($f),*], $($r)*);
    };
    (@ $o:expr, $n:expr, $rule:expr, [$($f:ident),*],) => {};
}
/// when the crate asks its elements for more than the other fields offer (run.sh falls back to this)
#[cfg(not(feature = "rich"))]
pub fn checks(o: &mut Vec<Check>) {
    fields!(o, 12000, "elements of the prime field; non-trivial: as with the other fields", [v2, v3, v4, v5, v6, m2, m3, m4, m5, m6, cross, quat, dual, quat_signed, dual_signed], [Gf]);
}
#[cfg(feature = "rich")]
pub fn checks(o: &mut Vec<Check>) {
    fields!(o, 4000, "elements of the field (zero, one, minus one, uniform or small); non-trivial: different operands, not zero", [v2, v3, v4, v5, v6, m2, m3, m4, m5, m6], [Gf, Rat, CRat]);
    fields!(o, 8000, "elements of the field; non-trivial: the product does not commute (cross: is not zero)", [cross, quat, dual], [Gf, Rat, CRat]);
    fields!(o, 8000, "elements of the field; non-trivial: different, with an imaginary part", [quat_signed], [Gf, Rat]);
    fields!(o, 12000, "unit dual quaternions over the field, (0,t)/2 q; non-trivial: always", [dual_signed], [Gf, Rat]);
}
