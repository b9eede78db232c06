//! C29: operations are functions of their arguments only, in stack memory: bit for bit the same whatever ran before,
//! on any thread and in any process, without touching the heap or the output of the process.
use crate::engine::*;
use crate::mats::*;
use crate::model::*;
use crate::num_t::*;
use crate::p_dq::d_;
use crate::p_quat::{m_, q_, v_};
use crate::{ck, one, types};
use num::{One, Zero};
use static_math::matrix2x2::M22;
use static_math::matrix5x5::M55;
use static_math::matrix6x6::M66;
use static_math::slices_methods as sm;
use static_math::traits::LinearAlgebra;
use static_math::transformations::*;
use static_math::utils::*;
use static_math::vector2::V2;
use static_math::vector5::V5;
use static_math::{DualQuaternion, Quaternion, M33, M44, V3, V4, V6};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::fmt::Write;
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// counts the requests of memory of each thread
struct Counting;
thread_local! {
    static REQUESTS: Cell<usize> = const { Cell::new(0) };
}
fn requests() -> usize {
    REQUESTS.try_with(|n| n.get()).unwrap_or(0)
}
fn count() {
    let _ = REQUESTS.try_with(|n| n.set(n.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count();
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static MEMORY: Counting = Counting;

/// the bits of a result (every NaN is the same)
trait Bits {
    fn put(&self, o: &mut Vec<u64>);
}
macro_rules! bits {
    ($($t:ty: $f:expr;)*) => { $( impl Bits for $t {
        fn put(&self, o: &mut Vec<u64>) {
            let f: fn(&$t) -> u64 = $f;
            o.push(f(self));
        }
    } )* };
}
bits! {
    f32: |x| if x.is_nan() { u64::MAX } else { x.to_bits() as u64 };
    f64: |x| if x.is_nan() { u64::MAX } else { x.to_bits() };
    bool: |x| *x as u64;
    usize: |x| *x as u64;
    u64: |x| *x;
}
macro_rules! by_elements {
    ($($t:ident)*) => { $( impl<T: Bits> Bits for $t<T> {
        fn put(&self, o: &mut Vec<u64>) {
            for x in self.iter() {
                x.put(o);
            }
        }
    } )* };
}
by_elements! { V2 V3 V4 V5 V6 M22 M33 M44 M55 M66 }
impl<B: Bits, const N: usize> Bits for [B; N] {
    fn put(&self, o: &mut Vec<u64>) {
        for x in self {
            x.put(o);
        }
    }
}
impl<B: Bits> Bits for Option<B> {
    fn put(&self, o: &mut Vec<u64>) {
        match self {
            None => o.push(7),
            Some(x) => x.put(o),
        }
    }
}
impl<B: Bits, E> Bits for Result<B, E> {
    fn put(&self, o: &mut Vec<u64>) {
        match self {
            Err(_) => o.push(9),
            Ok(x) => x.put(o),
        }
    }
}
impl<A: Bits, B: Bits> Bits for (A, B) {
    fn put(&self, o: &mut Vec<u64>) {
        self.0.put(o);
        self.1.put(o);
    }
}
impl<A: Bits, B: Bits, C: Bits> Bits for (A, B, C) {
    fn put(&self, o: &mut Vec<u64>) {
        self.0.put(o);
        self.1.put(o);
        self.2.put(o);
    }
}
impl<A: Bits, B: Bits, C: Bits, D: Bits> Bits for (A, B, C, D) {
    fn put(&self, o: &mut Vec<u64>) {
        self.0.put(o);
        self.1.put(o);
        self.2.put(o);
        self.3.put(o);
    }
}
trait Pf: Fl + Bits {}
impl Pf for f32 {}
impl Pf for f64 {}
impl<T: Pf> Bits for Quaternion<T> {
    fn put(&self, o: &mut Vec<u64>) {
        self.real().put(o);
        self.imag().put(o);
    }
}
impl<T: Pf> Bits for DualQuaternion<T> {
    fn put(&self, o: &mut Vec<u64>) {
        self.real().put(o);
        self.dual().put(o);
    }
}
/// a writer without memory
struct Digest(u64, u64);
impl Write for Digest {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
            self.1 += 1;
        }
        Ok(())
    }
}
fn text(x: impl std::fmt::Display) -> u64 {
    let mut d = Digest(0xcbf29ce484222325, 0);
    let r = write!(d, "{}", x);
    d.0 ^ d.1 ^ r.is_ok() as u64
}

/// what a call gave: None when it was refused
#[derive(Clone, PartialEq, Debug)]
struct Got {
    what: &'static str,
    bits: Option<Vec<u64>>,
    memory: usize,
}
fn measure<B: Bits>(what: &'static str, f: impl FnOnce() -> B) -> Got {
    let before = requests();
    let r = catch_unwind(AssertUnwindSafe(|| black_box(f())));
    let memory = requests() - before;
    match r {
        Ok(x) => {
            let mut o = vec![];
            x.put(&mut o);
            Got { what, bits: Some(o), memory }
        }
        // a panic takes memory for its message
        Err(_) => Got { what, bits: None, memory: 0 },
    }
}
/// the operation number `want`, or how many there are
type Op = Result<Got, usize>;
macro_rules! ops {
    ($want:expr; $($e:expr),* $(,)?) => {{
        let mut k = 0;
        $( if k == $want { return Ok(measure(stringify!($e), || $e)); } k += 1; )*
        Err(k)
    }};
}
/// one after the other
macro_rules! all {
    ($want:expr; $($f:expr),* $(,)?) => {{
        let want: usize = $want;
        let mut total = 0;
        $( match $f(want.wrapping_sub(total)) {
            Ok(g) => return Ok(g),
            Err(n) => total += n,
        } )*
        Err(total)
    }};
}

/// what the arguments are made of
#[derive(Clone)]
struct Raw {
    /// elements of two matrices
    e: Vec<f64>,
    q: Q,
    p: Q,
    t: V,
    w: V,
    c: [f64; 3],
    len: usize,
}
fn few(s: &mut Src, m: f64) -> V {
    match s.idx(10) {
        0 => [0.0; 3],
        1 => [s.real(m) * 1e-9, 0.0, s.real(m) * 1e-9],
        _ => [s.real(m), s.real(m), s.real(m)],
    }
}
fn raw(s: &mut Src) -> Raw {
    let mode = s.idx(4);
    let e = (0..72)
        .map(|_| match mode {
            0 => s.small(3) as f64,
            1 => s.real(3.0),
            2 if s.idx(12) == 0 => [f64::NAN, f64::INFINITY, 0.0, -0.0, 1e300, 1e-310][s.idx(6)],
            _ => s.uni(-2.0, 2.0),
        })
        .collect();
    let scale = match s.idx(8) {
        0..=3 => 1.0,
        4 => 0.0,
        _ => s.uni(0.5, 3.0),
    };
    Raw { e, q: s.uq(), p: qs(&s.uq(), scale), t: few(s, 3.0), w: few(s, 1.0), c: [s.angle(), s.uni(-3.0, 3.0), s.uni(0.0, 1.0)], len: s.idx(30) + 1 }
}
/// nearly the same arguments: one number is another one
fn perturbed(s: &mut Src, r: &Raw) -> Raw {
    let mut r = r.clone();
    let kind = s.idx(5);
    let other = s.real(2.0);
    let step = 10f64.powi(-(s.int(4, 15) as i32));
    let f = |x: &mut f64| {
        *x = match kind {
            0 => -*x,
            1 => *x * (1.0 + step),
            3 => *x + step,
            2 => *x + 1.0,
            _ => other,
        }
    };
    match s.idx(7) {
        0 => f(&mut r.q[s.idx(4)]),
        1 => f(&mut r.p[s.idx(4)]),
        2 => f(&mut r.t[s.idx(3)]),
        3 => f(&mut r.w[s.idx(3)]),
        4 => f(&mut r.c[s.idx(3)]),
        5 => {
            // the same elements in another order
            let (i, j) = (s.idx(72), s.idx(72));
            r.e.swap(i, j);
        }
        _ => f(&mut r.e[s.idx(72)]),
    }
    r
}
struct Args<T> {
    x: Vec<T>,
    y: Vec<T>,
    q: Quaternion<T>,
    /// remembers to be normalized, if it can be
    qn: Quaternion<T>,
    p: Quaternion<T>,
    d: DualQuaternion<T>,
    dn: DualQuaternion<T>,
    b: DualQuaternion<T>,
    r: M33<T>,
    h: M44<T>,
    t: V3<T>,
    w: V3<T>,
    c: [T; 3],
    len: usize,
}
fn args<T: Pf>(r: &Raw) -> Args<T> {
    let cv = |x: &[f64]| -> Vec<T> { x.iter().map(|x| T::c(*x)).collect() };
    let n = qn(&r.q);
    let u = if n > 1e-3 && n < 1e3 { qs(&r.q, 1.0 / n) } else { [1.0, 0.0, 0.0, 0.0] };
    let m = qrot(&u);
    let q = q_::<T>(&r.q);
    let (x, y) = (cv(&r.e[..36]), cv(&r.e[36..]));
    let d = d_::<T>(&[r.q, [r.e[0], r.e[1], r.e[2], r.e[3]]]);
    let mut h = M44::identity();
    for i in 0..3 {
        for j in 0..3 {
            h[(i, j)] = T::c(m[i][j]);
        }
        h[(i, 3)] = T::c(r.t[i]);
    }
    let safe = |f: &dyn Fn() -> Option<DualQuaternion<T>>| catch_unwind(AssertUnwindSafe(f)).ok().flatten();
    Args {
        q,
        qn: catch_unwind(AssertUnwindSafe(|| q.normalize())).ok().flatten().unwrap_or(q),
        p: q_::<T>(&r.p),
        d,
        dn: safe(&|| d.normalize()).unwrap_or(d),
        b: d_::<T>(&[r.p, [r.e[4], r.e[5], r.e[6], r.e[7]]]),
        r: m_::<T>(&m),
        h,
        t: v_::<T>(&r.t),
        w: v_::<T>(&r.w),
        c: [T::c(r.c[0]), T::c(r.c[1]), T::c(r.c[2])],
        len: r.len,
        x,
        y,
    }
}

macro_rules! size {
    ($f:ident, $V:ident, $M:ident, $x:ident, $y:ident, $a:ident, [$($extra:expr),*]) => {
        fn $f<T: Pf>($a: &Args<T>, want: usize) -> Op {
            let ($x, $y) = (<$M<T> as Ma<T>>::mk(&$a.x), <$M<T> as Ma<T>>::mk(&$a.y));
            let (v, w) = (<$V<T> as Vx<T>>::mk(&$a.x), <$V<T> as Vx<T>>::mk(&$a.y));
            let c = $a.c[1];
            ops!(want;
                v + w, v - w, -v, v * c, v / c, v * w, v.norm2(), v.norm_inf(), v.norm_l(), { #[allow(unused_mut)] let mut z = v; z.normalize().map(|u| (u, z)) },
                { let mut z = v; z += w; z }, { let mut z = v; z -= w; z }, v.is_zero(), v == w, text(v), $V::<T>::zeros(), $V::<T>::ones(),
                $x + $y, $x - $y, -$x, $x * c, $x / c, $x * $y, $x * v, v * $x, { let mut z = $x; z += $y; z }, { let mut z = $x; z -= $y; z },
                $x.transpose(), $x.trace(), $x.norm2(), $x.det(), $x.inverse(), $x.qr(), $x.lu(), $x.shape(), $x.is_zero(), $x.is_one(), $x == $y, text($x), $x.as_vec(), $x.get_rows(),
                $x.get_cols(), $x.get_diagonal(), $x.for_each(|z| z * c), $M::<T>::identity(), $M::<T>::zeros(), $M::new_from_vecs($x.get_cols()),
                ($x * $y).det(), ($x - $y).inverse(), ($x - $y).qr(), $y.inverse().map(|z| z * $x), $x.inverse().map(|z| z.det()), $x.transpose().inverse(), $x.transpose().lu(),
                $($extra),*
            )
        }
    };
}
size!(size2, V2, M22, x, y, a, [x.real_eigenvals(), y.real_eigenvals(), rot2(a.c[0]), skew_scalar(a.c[0]), vex_m22(&x)]);
size!(size3, V3, M33, x, y, a, [x.get_upper_triagular(), x.get_lower_triangular(), a.t.cross(a.w), V3::<T>::x_axis(), V3::<T>::y_axis(), V3::<T>::z_axis()]);
size!(size4, V4, M44, x, y, a, [x.get_upper_triagular(), x.get_lower_triangular(), x.get_submatrix((a.len % 4, a.len / 4 % 4))]);
size!(size5, V5, M55, x, y, a, [x.get_upper_triagular(), x.get_lower_triangular()]);
size!(size6, V6, M66, x, y, a, [x.get_upper_triangular(), x.get_lower_triangular(), { let mut z = x; z.copy_elements_from(&a.r, a.len % 4 + 1); z }]);

fn quaternions<T: Pf>(a: &Args<T>, want: usize) -> Op {
    let (q, n, p, t, w, c) = (a.q, a.qn, a.p, a.t, a.w, a.c);
    ops!(want;
        q + p, q - p, -q, q * p, p * q, q / p, q * c[1], q / c[1], q * t, n * t, q.dot(p), q.norm2(), p.normalize(), n.normalize(), q.conj(), q.abs2(), p.abs_imag(), q.inverse(), p.inverse(), n.inverse(),
        q.to_rotation(), n.to_rotation(), Quaternion::from_rotation(&a.r), Quaternion::rotation(c[0], &t), Quaternion::rotation_norm_encoded(&w), Quaternion::from_euler_angles(c[0], c[1], c[2]),
        n.get_angle(), p.get_angle(), n.get_axis(), p.get_axis(), n.axis_angle(), p.axis_angle(), p.normalize_q(), n.normalize_q(), p.argq(), p.exp(), p.ln(), n.ln(), p.sqrt(), n.sqrt(), p.pow(q),
        p.pow(Quaternion::new_real(c[1])), Quaternion::slerp(q, p, c[2]), Quaternion::slerp(q, n, c[2]), Quaternion::slerp(n, p.normalize_q(), c[2]), n.derivative(&w), p.derivative(&w), p.sin(), p.cos(),
        n.to_euler_angles(), p.to_euler_angles(), q.is_zero(), q.is_one(), q == p, q == n, text(q), Quaternion::new_from_vec(&V4::new([c[0], c[1], c[2], c[0]])), Quaternion::from([c[0], c[1], c[2], c[0]]),
    )
}
fn duals<T: Pf>(a: &Args<T>, want: usize) -> Op {
    let (d, n, b, t, w, c) = (a.d, a.dn, a.b, a.t, a.w, a.c);
    ops!(want;
        d + b, d - b, -d, d * b, n * d, d / b, b / n, d * c[1], d.inverse(), n.inverse(), b.inverse(), d.normalize(), n.normalize(), b.normalize(), d.conj(), d.conj_as_dual(), d.conj_combined(), b.norm(),
        n.is_normalized(), b.is_normalized(), n.to_homogeneous(), n.get_screw_parameters(), n.pow(c[1]), n.log(), b.log(), DualQuaternion::screw_lerp(&n, &d, c[2]), n.get_translation(),
        n.to_rotation_translation(), n.to_quaternion_translation(), n.transform_point(&t), DualQuaternion::new_from_homogeneous(&a.h), DualQuaternion::new_from_rotation_matrix(&a.r),
        DualQuaternion::new_from_rotation(&a.qn), DualQuaternion::new_from_point(&t), DualQuaternion::new_from_translation(&t), DualQuaternion::new_from_rot_trans(&a.q, &t),
        DualQuaternion::new_from_rot_trans(&a.p, &t), DualQuaternion::new_from_screw_parameters(&w, &t, c[0], c[1]), d.is_zero(), d.is_one(), d == b, d == n, text(d),
        DualQuaternion::new_from_array([c[0], c[1], c[2], c[0], c[1], c[2], c[0]]), compare_dual_quaternions(d, n, c[2]),
    )
}
fn motions<T: Pf>(a: &Args<T>, want: usize) -> Op {
    let (r, h, t, w, c) = (&a.r, &a.h, &a.t, &a.w, a.c);
    let v6 = V6::new([w[0], w[1], w[2], t[0], t[1], t[2]]);
    let so3 = <M33<T> as Ma<T>>::mk(&[T::zero(), -w[2], w[1], w[2], T::zero(), -w[0], -w[1], w[0], T::zero()]);
    let zero = T::zero();
    let se3 = <M44<T> as Ma<T>>::mk(&[zero, -w[2], w[1], t[0], w[2], zero, -w[0], t[1], -w[1], w[0], zero, t[2], zero, zero, zero, zero]);
    ops!(want;
        rotx(c[0]), roty(c[0]), rotz(c[0]), euler_to_rotation(c[0], c[1], c[2], None), euler_to_rotation(c[0], c[1], c[2], Some(EulerSeq::XYX)), euler_to_rotation(c[0], c[1], c[2], Some(EulerSeq::XYZ)),
        euler_to_rotation(c[0], c[1], c[2], Some(EulerSeq::XZX)), euler_to_rotation(c[0], c[1], c[2], Some(EulerSeq::XZY)), euler_to_rotation(c[0], c[1], c[2], Some(EulerSeq::YXY)),
        euler_to_rotation(c[0], c[1], c[2], Some(EulerSeq::YXZ)), euler_to_rotation(c[0], c[1], c[2], Some(EulerSeq::YZX)), euler_to_rotation(c[0], c[1], c[2], Some(EulerSeq::YZY)),
        euler_to_rotation(c[0], c[1], c[2], Some(EulerSeq::ZXY)), euler_to_rotation(c[0], c[1], c[2], Some(EulerSeq::ZXZ)),
        rotation_to_euler(r), homogeneous_from_rotation(r, t), se3_from_parts(r, t), se3_get_parts(h), homogeneous_from_quaternion(&a.q, t), homogeneous_from_quaternion(&a.p, t), get_parts(h), get_parts_raw(h),
        homogeneous_inverse(h), homogeneous_inverse_transform(h, w), skew_from_vec(w), skew_to_vec(&so3), ksi(c[0], c[1], c[2]), skew_from_vec_aug(*w), skew_v6(v6), axis_angle(w),
        translation_2d(c[0], c[1]), translation_3d(c[0], c[1], c[2]), rotation_from_axis_angle(w, c[0]), matrix_exponential(&so3), matrix_log(r), rotation_inverse(r), twist_to_se3(&v6), se3_to_twist(&se3),
        adjoint(h), screw_to_axis(t, w, c[1]), axis_angle6(&v6), matrix_exponential6(&se3), matrix_log6(h), distance_to_manifold(r), distance_to_manifold(&(*r * c[1])), is_rotation(*r), is_rotation_h(*h),
        is_rotation(so3),
    )
}
fn slices<T: Pf>(a: &Args<T>, want: usize) -> Op {
    let (x, y, c) = (&a.x[..a.len], &a.y[..a.len], a.c);
    let mut z = [T::zero(); 40];
    z[..a.len].copy_from_slice(x);
    let n = a.len;
    ops!(want;
        { let m = sm::find_max_min(x); (m.max, m.min) }, sm::norm_inf(x), sm::norm_l(x), sm::norm2(x), sm::dot(x, y), { sm::normalize(&mut z[..n]); z }, sm::project_x_over_y(x, y), sm::check_elements(x, c[2]),
        nearly_equal(x[0], y[0], c[2]), nearly_zero(x[0]), compare_vecs(x, y, c[2]), compare_floats(x[0], y[0], c[2]),
    )
}
fn call<T: Pf>(a: &Args<T>, want: usize) -> Op {
    all!(want; |k| size2(a, k), |k| size3(a, k), |k| size4(a, k), |k| size5(a, k), |k| size6(a, k), |k| quaternions(a, k), |k| duals(a, k), |k| motions(a, k), |k| slices(a, k))
}
fn how_many<T: Pf>(a: &Args<T>) -> usize {
    call(a, usize::MAX).err().unwrap()
}

/// a history of calls: nothing that ran before is seen in a result, on any thread
fn any_history<T: Pf>(s: &mut Src) -> R {
    let first = raw(s);
    let near = perturbed(s, &first);
    let other = if s.flag() { raw(s) } else { perturbed(s, &near) };
    let a: Vec<Args<T>> = [first, near, other].iter().map(args).collect();
    let n = how_many(&a[0]);
    let few: Vec<usize> = (0..s.int(1, 4)).map(|_| s.idx(n)).collect();
    let steps: Vec<(usize, usize)> = (0..s.int(4, 40)).map(|_| (few[s.idx(few.len())], s.idx(3))).collect();
    let many = s.int(1, 3000);
    let burst = match s.idx(4000) {
        // (not when guided by coverage, which would prefer them)
        _ if cfg!(feature = "cov") => 0,
        0 => 70000,
        k if k < 100 => many,
        _ => 0,
    };
    let threads = s.idx(16) == 0;
    let mut seen: HashMap<(usize, usize), Got> = HashMap::new();
    let mut after_others = false;
    let mut last = HashMap::new();
    let mut step = |k: usize, j: usize| -> R<()> {
        let g = call(&a[j], k).unwrap();
        ck!(g.memory == 0, "{} asked for memory {} times", g.what, g.memory);
        if let Some(l) = last.insert(k, j) {
            after_others |= l != j && seen.contains_key(&(k, j));
        }
        let was = seen.entry((k, j)).or_insert_with(|| g.clone());
        ck!(*was == g, "{} gave {:?} and, called again with the same arguments, {:?}", g.what, was.bits, g.bits);
        Ok(())
    };
    for (k, j) in &steps {
        step(*k, *j)?;
    }
    for _ in 0..burst {
        step(few[0], 0)?;
    }
    for (k, j) in steps.iter().rev() {
        step(*k, *j)?;
    }
    if threads {
        let run = |back: bool| -> Vec<((usize, usize), Got)> {
            (0..steps.len()).map(|i| if back { steps[steps.len() - 1 - i] } else { steps[i] }).map(|(k, j)| ((k, j), call(&a[j], k).unwrap())).collect()
        };
        let r: Vec<_> = std::thread::scope(|z| {
            let t: Vec<_> = [false, true].into_iter().map(|b| z.spawn(move || run(b))).collect();
            t.into_iter().map(|t| t.join().unwrap()).collect()
        });
        for (k, g) in r.into_iter().flatten() {
            ck!(seen[&k] == g, "{} gave {:?} and, in another thread, {:?}", g.what, seen[&k].bits, g.bits);
        }
    }
    Ok(after_others)
}
fn digest<T: Pf>(r: &Raw) -> u64 {
    let a = args::<T>(r);
    let mut h = 0xcbf29ce484222325u64;
    for k in 0..how_many(&a) {
        for x in call(&a, k).unwrap().bits.unwrap_or_else(|| vec![3]) {
            h = (h ^ x).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
    }
    h
}
/// every operation in a process of its own, with nothing in its environment: silent, and with the same results
fn any_process(s: &mut Src) -> R {
    let cases: Vec<Raw> = (0..s.int(1, 12)).map(|_| raw(s)).collect();
    let file = format!("{}/pure-{}-{:x}", std::env::var("VERIF_OUT").unwrap_or_else(|_| "/tmp".into()), std::process::id(), {
        let x: *const Src = s;
        x as usize
    });
    let numbers = |r: &Raw| -> String {
        let mut v = r.e.clone();
        v.extend(r.q.iter().chain(&r.p).chain(&r.t).chain(&r.w).chain(&r.c));
        v.push(r.len as f64);
        v.iter().map(|x| format!("{:x}", x.to_bits())).collect::<Vec<_>>().join(" ")
    };
    let exe = std::env::current_exe().map_err(|_| Stop::Discard)?;
    let out = std::process::Command::new(exe).arg("--pure").arg(&file).args(cases.iter().map(numbers)).env_clear().current_dir("/").output();
    let got = std::fs::read_to_string(&file);
    let _ = std::fs::remove_file(&file);
    let out = out.map_err(|_| Stop::Discard)?;
    let shown = String::from_utf8_lossy(&out.stdout).to_string() + &String::from_utf8_lossy(&out.stderr);
    ck!(shown.is_empty(), "the operations wrote {:?} to the output of the process", shown);
    ck!(out.status.success(), "the process of the operations ended with {:?}", out.status);
    let want = digests(&cases);
    ck!(got.as_deref().ok() == Some(&want), "another process gave {:?} and this one {:?}", got, want);
    Ok(true)
}
fn digests(cases: &[Raw]) -> String {
    cases.iter().map(|r| format!("{:x} {:x}", digest::<f32>(r), digest::<f64>(r))).collect::<Vec<_>>().join("\n")
}
/// what that process does
pub fn child(av: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let cases: Vec<Raw> = av[1..]
        .iter()
        .map(|a| {
            let v: Vec<f64> = a.split(' ').map(|x| f64::from_bits(u64::from_str_radix(x, 16).unwrap())).collect();
            let g = |i: usize| [v[i], v[i + 1], v[i + 2], v[i + 3]];
            let h = |i: usize| [v[i], v[i + 1], v[i + 2]];
            Raw { e: v[..72].to_vec(), q: g(72), p: g(76), t: h(80), w: h(83), c: h(86), len: v[89] as usize }
        })
        .collect();
    let _ = std::fs::write(&av[0], digests(&cases));
}

pub fn checks(o: &mut Vec<Check>) {
    types!(o, "C29", any_history, 20000, "histories of up to 80 calls of up to 4 operations with nearly the same and other arguments, bursts of calls, concurrent threads; non-trivial: an operation is repeated after calls with other arguments", [f32, f64]);
    one!(o, "C29", any_process, "f32/f64", 60, "every operation, with 1 to 12 sets of arguments, in a process of its own; non-trivial: all");
}
