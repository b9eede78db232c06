//! C15 to C17: dual quaternions.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::num_t::*;
use crate::p_quat::*;
use crate::{assume, ck, types};
use num::{One, Zero};
use static_math::transformations::{homogeneous_from_quaternion, homogeneous_from_rotation};
use static_math::{DualQuaternion, Quaternion, M44, V4};
use std::f64::consts::PI;

/// model of a dual quaternion: real and dual part
pub type D = [Q; 2];
pub fn d_<T: Sc>(a: &D) -> DualQuaternion<T> {
    DualQuaternion::new(q_(&a[0]), q_(&a[1]))
}
pub fn dd_<T: Sc>(x: DualQuaternion<T>) -> D {
    [dq_(x.real()), dq_(x.dual())]
}
pub fn dmul(a: &D, b: &D) -> D {
    [qm(&a[0], &b[0]), qa(&qm(&a[0], &b[1]), &qm(&a[1], &b[0]))]
}
pub fn dconj(a: &D) -> D {
    [qc(&a[0]), qc(&a[1])]
}
pub fn dneg(a: &D) -> D {
    [qs(&a[0], -1.0), qs(&a[1], -1.0)]
}
/// the motion x -> R x + t
pub fn dpose(q: &Q, t: &V) -> D {
    [*q, qs(&qm(&[0.0, t[0], t[1], t[2]], q), 0.5)]
}
pub fn dtra(a: &D) -> V {
    qim(&qs(&qm(&a[1], &qc(&a[0])), 2.0 / qdot(&a[0], &a[0])))
}
pub fn close_d(a: &D, b: &D, tr: f64, td: f64, what: &str) -> R<()> {
    close_q(&a[0], &b[0], tr, &format!("{} (real part)", what))?;
    close_q(&a[1], &b[1], td, &format!("{} (dual part)", what))
}
pub fn close_dpm(a: &D, b: &D, tr: f64, td: f64, what: &str) -> R<()> {
    let b = if qdot(&a[0], &b[0]) < 0.0 { dneg(b) } else { *b };
    close_d(a, &b, tr, td, what)
}
pub fn h_<T: Fl>(r: &M3, t: &V) -> M44<T> {
    let mut a = [[T::zero(); 4]; 4];
    for i in 0..3 {
        for j in 0..3 {
            a[i][j] = T::c(r[i][j]);
        }
        a[i][3] = T::c(t[i]);
    }
    a[3][3] = T::one();
    M44::new(a)
}
pub fn dh_<T: Sc>(m: &M44<T>) -> (M3, V, [f64; 4]) {
    let mut r = [[0.0; 3]; 3];
    let mut t = [0.0; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = m[(i, j)].d();
        }
        t[i] = m[(i, 3)].d();
    }
    (r, t, [0, 1, 2, 3].map(|j| m[(3, j)].d()))
}
fn ints8(s: &mut Src, m: i64) -> D {
    let v = if s.idx(3) == 0 { [s.ints(4, m), s.ints(4, m)].concat() } else { s.ints(8, m) };
    let f = |k: usize| v[k] as f64;
    [[f(0), f(1), f(2), f(3)], [f(4), f(5), f(6), f(7)]]
}
/// the same components, reached by one of the public ways that do not round
pub fn dx<T: Sc>(s: &mut Src, a: &D) -> DualQuaternion<T> {
    let (p, q) = (qx::<T>(s, &a[0]), qx::<T>(s, &a[1]));
    let d = DualQuaternion::new(p, q);
    let one = T::one();
    let v4 = |q: Quaternion<T>| V4::new([q.real(), q.imag()[0], q.imag()[1], q.imag()[2]]);
    let unit = (qdot(&a[0], &a[0]) - 1.0).abs() < 4.0 * T::EPS;
    match s.ig(0, 19, |r| r.below(20) as i64) {
        7 => DualQuaternion::new_from_vecs(&v4(p), &v4(q)),
        8 => -(-d),
        9 => d.conj().conj(),
        10 => d.conj_as_dual().conj_as_dual(),
        11 => d.conj_combined().conj_combined(),
        12 => d * DualQuaternion::one(),
        13 => DualQuaternion::one() * d,
        14 => d + DualQuaternion::zero(),
        15 => d - DualQuaternion::zero(),
        16 => d * (T::zero() - one) * (T::zero() - one),
        17 if unit => DualQuaternion::new_from_rotation(&p) + DualQuaternion::new(Quaternion::zero(), q),
        18 => DualQuaternion::one() - DualQuaternion::one() + d,
        19 => DualQuaternion::one() * T::zero() + d,
        _ => d,
    }
}
fn map2(a: &D, b: &D, f: impl Fn(f64, f64) -> f64) -> D {
    [0, 1].map(|i| [0, 1, 2, 3].map(|j| f(a[i][j], b[i][j])))
}

// ---------------------------------------------------------------- C15

fn dalgebra_exact<T: Sc>(s: &mut Src) -> R {
    let (a, b, c) = (ints8(s, 30), ints8(s, 30), ints8(s, 9));
    let (x, y, z) = (dx::<T>(s, &a), dx::<T>(s, &b), d_::<T>(&c));
    let k = s.small(30) as f64;
    let o: Q = [0.0; 4];
    eqv(&dd_(x), &a, "new, real and dual")?;
    let v4 = |q: &Q| V4::new([T::c(q[0]), T::c(q[1]), T::c(q[2]), T::c(q[3])]);
    eqv(&dd_(DualQuaternion::new_from_vecs(&v4(&a[0]), &v4(&a[1]))), &a, "new_from_vecs")?;
    eqv(&dd_(x + y), &map2(&a, &b, |p, q| p + q), "a + b")?;
    eqv(&dd_(x - y), &map2(&a, &b, |p, q| p - q), "a - b")?;
    eqv(&dd_(-x), &map2(&a, &b, |p, _| -p), "-a")?;
    eqv(&dd_(x * T::c(k)), &map2(&a, &b, |p, _| p * k), "a * s")?;
    eqv(&dd_(x * y), &dmul(&a, &b), "a * b")?;
    eqv(&dd_(x.conj()), &dconj(&a), "conj")?;
    eqv(&dd_(x.conj_as_dual()), &[a[0], qs(&a[1], -1.0)], "conj_as_dual")?;
    eqv(&dd_(x.conj_combined()), &[qc(&a[0]), qs(&qc(&a[1]), -1.0)], "conj_combined")?;
    ck!((x * y) * z == x * (y * z), "(a b) c is not a (b c)");
    ck!(x * (y + z) == x * y + x * z, "a (b + c) is not a b + a c");
    ck!((y + z) * x == y * x + z * x, "(b + c) a is not b a + c a");
    ck!((x * y).conj() == y.conj() * x.conj(), "conj(a b) is not conj(b) conj(a)");
    ck!((x * y).conj_as_dual() == x.conj_as_dual() * y.conj_as_dual(), "conj_as_dual(a b)");
    ck!((x * y).conj_combined() == y.conj_combined() * x.conj_combined(), "conj_combined(a b)");
    let n = [[qdot(&a[0], &a[0]), 0.0, 0.0, 0.0], [2.0 * qdot(&a[0], &a[1]), 0.0, 0.0, 0.0]];
    eqv(&dd_(x.norm()), &n, "norm")?;
    let one = DualQuaternion::<T>::one();
    eqv(&dd_(one), &[[1.0, 0.0, 0.0, 0.0], o], "one")?;
    eqv(&dd_(DualQuaternion::<T>::zero()), &[o, o], "zero")?;
    ck!(x * one == x && one * x == x && x * <DualQuaternion<T> as One>::one() == x, "a * 1");
    ck!(x + DualQuaternion::zero() == x && (x * DualQuaternion::zero()).is_zero(), "zero");
    ck!(<DualQuaternion<T> as Zero>::zero().is_zero(), "is_zero of zero");
    ck!(x.is_zero() == (a == [o, o]), "is_zero of {:?}", a);
    ck!(one.is_one() && x.is_one() == (a == [[1.0, 0.0, 0.0, 0.0], o]), "is_one of {:?}", a);
    ck!((x == y) == (a == b), "{:?} == {:?}", a, b);
    let (i, j, d) = (s.idx(2), s.idx(4), s.small(2));
    let mut w = a;
    w[i][j] += d as f64;
    ck!((x == d_(&w)) == (d == 0), "{:?} == {:?} is {}", a, w, x == d_(&w));
    ck!((x + y) - y == x && -(-x) == x && x.conj().conj() == x, "== depends on how a value was obtained");
    ck!(d_::<T>(&[[1.0, 0.0, 0.0, 0.0], o]) == one, "1 == one()");
    Ok(dmul(&a, &b) != dmul(&b, &a))
}
/// dual quaternions that are unit without any rounding, built from their parts
fn dunit_exact<T: Fl>(s: &mut Src) -> R {
    let q = match s.idx(5) {
        4 => {
            let mut h = || if s.flag() { 0.5 } else { -0.5 };
            [h(), h(), h(), h()]
        }
        k => {
            let mut q = [0.0; 4];
            q[k] = if s.flag() { -1.0 } else { 1.0 };
            q
        }
    };
    let t = [s.small(9) as f64, s.small(9) as f64, s.small(9) as f64];
    // (0, t) q / 2 is orthogonal to q
    let a = [q, qs(&qm(&[0.0, t[0], t[1], t[2]], &q), 0.5)];
    let x = dx::<T>(s, &a);
    ck!(x.is_normalized(), "is_normalized of the unit {:?}", a);
    ck!((-x).is_normalized() && x.conj().is_normalized() && x.conj_combined().is_normalized(), "is_normalized of the negative or the conjugates of the unit {:?}", a);
    let (e, m) = (16.0 * T::EPS, 64.0 * T::EPS * nrm(&t));
    close_d(&dd_(x.norm()), &[[1.0, 0.0, 0.0, 0.0], [0.0; 4]], e, m, "norm of a unit")?;
    match x.normalize() {
        Some(u) => close_d(&dd_(u), &a, e, m, "normalize of a unit")?,
        None => return fail(format!("normalize of {:?} is None", a)),
    }
    close_d(&dd_(x.inverse()), &dconj(&a), e, m, "inverse of a unit")?;
    close_d(&dd_(x * x.inverse()), &[[1.0, 0.0, 0.0, 0.0], [0.0; 4]], e, m, "a inverse(a)")?;
    // clearly not unit
    let k = T::c(2f64.powi(if s.flag() { s.int(1, 6) } else { s.int(-6, -1) } as i32));
    ck!(!(x * k).is_normalized() && !d_::<T>(&[qs(&q, k.d()), a[1]]).is_normalized(), "is_normalized of {:?} by {:?}", a, k);
    Ok(t != [0.0; 3])
}
pub fn gen_d<T: Sc>(s: &mut Src, e: f64) -> D {
    let v = match s.idx(9) {
        // a part that is zero or tiny
        0 => [s.reals(4, e), vec![0.0; 4]].concat(),
        1 => [vec![0.0; 4], s.reals(4, e)].concat(),
        2 => {
            let (a, b, k) = (s.reals(4, e), s.reals(4, e), 10f64.powf(s.uni(-9.0, 0.0)));
            [a.iter().map(|x| x * k).collect(), b].concat()
        }
        // of norm one, or nearly so
        3 => {
            let (q, k) = (s.uq(), s.near_one());
            let mut d = s.reals(4, e);
            if s.flag() {
                // orthogonal to the real part
                let x = qdot(&q, &[d[0], d[1], d[2], d[3]]);
                (0..4).for_each(|i| d[i] -= x * q[i]);
            }
            [qs(&q, k).to_vec(), d].concat()
        }
        _ => s.reals(8, e),
    };
    [rq::<T>(&[v[0], v[1], v[2], v[3]]), rq::<T>(&[v[4], v[5], v[6], v[7]])]
}
fn dalgebra_float<T: Fl>(s: &mut Src) -> R {
    let (a, b) = (gen_d::<T>(s, 3.0), gen_d::<T>(s, 3.0));
    let (x, y) = (dx::<T>(s, &a), dx::<T>(s, &b));
    let t = 64.0 * T::EPS;
    let n = |q: &Q| qn(q);
    let sd = n(&a[0]) * n(&b[1]) + n(&a[1]) * n(&b[0]);
    close_d(&dd_(x * y), &dmul(&a, &b), t * n(&a[0]) * n(&b[0]), t * sd, "a * b")?;
    let nn = dmul(&a, &dconj(&a));
    close_d(&dd_(x.norm()), &nn, t * n(&a[0]).powi(2), t * 2.0 * n(&a[0]) * n(&a[1]), "norm")?;
    let r = n(&a[0]);
    if r * r > 4.0 * T::EPS {
        let ri = qinv(&a[0]);
        let inv: D = [ri, qs(&qm(&qm(&ri, &a[1]), &ri), -1.0)];
        let ti = (t / r, t * n(&a[1]) / (r * r));
        close_d(&dd_(x.inverse()), &inv, ti.0, 4.0 * ti.1, "inverse")?;
        close_d(&dd_(x * x.inverse()), &[[1.0, 0.0, 0.0, 0.0], [0.0; 4]], 4.0 * t, 16.0 * t * n(&a[1]) / r, "a inverse(a)")?;
        close_d(&dd_(x.inverse() * x), &[[1.0, 0.0, 0.0, 0.0], [0.0; 4]], 4.0 * t, 16.0 * t * n(&a[1]) / r, "inverse(a) a")?;
        close_d(&dd_(y / x), &dmul(&b, &inv), 4.0 * t * n(&b[0]) / r, 16.0 * t * (n(&b[1]) / r + n(&b[0]) * n(&a[1]) / (r * r)), "b / a")?;
    }
    let u = x.normalize();
    if r == 0.0 {
        ck!(u.is_none(), "normalize with the real part zero is {:?}", u);
    }
    if r > 2.0 * T::EPS {
        let u = match u {
            None => return fail(format!("normalize of {:?} is None", a)),
            Some(u) => u,
        };
        let du = dd_(u);
        let er = qs(&a[0], 1.0 / r);
        let b1 = qs(&a[1], 1.0 / r);
        let ed = qa(&b1, &qs(&er, -qdot(&er, &b1)));
        let k = qn(&b1);
        close_d(&du, &[er, ed], t, 4.0 * t * k, "normalize")?;
        close_d(&dd_(u.norm()), &[[1.0, 0.0, 0.0, 0.0], [0.0; 4]], 4.0 * t, 16.0 * t * k, "the norm of normalize")?;
        ck!(u.is_normalized(), "is_normalized of normalize");
        close_d(&dd_(u.normalize().unwrap()), &du, t, 4.0 * t * k, "normalize twice")?;
        close_d(&dd_(u * u.inverse()), &[[1.0, 0.0, 0.0, 0.0], [0.0; 4]], 4.0 * t, 16.0 * t * k, "the normalized times its inverse")?;
        close_d(&dd_(y / u), &dmul(&b, &dconj(&[er, ed])), 8.0 * t * n(&b[0]), 32.0 * t * (n(&b[1]) + n(&b[0]) * k), "b / normalized")?;
        // a clearly not unit value is not accepted
        if (r - 1.0).abs() > 1e3 * T::EPS {
            ck!(!d_::<T>(&a).is_normalized(), "is_normalized of {:?}", a);
        }
    }
    Ok(r > 0.0 && n(&a[1]) > 0.0)
}

// ---------------------------------------------------------------- C16

/// rotation quaternion and translation, rounded to the element type
fn pose<T: Sc>(s: &mut Src) -> (Q, V) {
    (rq::<T>(&s.uq()), rv::<T>(&s.tra(3.0)))
}
fn poses<T: Fl>(s: &mut Src) -> R {
    let (q, t) = pose::<T>(s);
    let m = qrot(&q);
    let e = dpose(&q, &t);
    let n = nrm(&t);
    let k = 64.0 * T::EPS;
    let kd = k * n;
    let (tq, tt) = (q_::<T>(&q), v_::<T>(&t));
    // the constructors
    let rt = DualQuaternion::new_from_rot_trans(&tq, &tt);
    close_d(&dd_(rt), &e, k, kd, "new_from_rot_trans")?;
    let f = T::c(2f64.powi(s.int(-6, 6) as i32));
    close_d(&dd_(DualQuaternion::new_from_rot_trans(&(tq * f), &tt)), &e, k, kd, "new_from_rot_trans of a not unit quaternion")?;
    close_d(&dd_(DualQuaternion::new_from_rotation(&tq)), &[q, [0.0; 4]], 0.0, 0.0, "new_from_rotation")?;
    close_d(&dd_(DualQuaternion::new_from_translation(&tt)), &dpose(&[1.0, 0.0, 0.0, 0.0], &t), k, kd, "new_from_translation")?;
    let c = |x: f64| T::c(x);
    let ar = DualQuaternion::new_from_array([c(q[0]), c(q[1]), c(q[2]), c(q[3]), c(t[0]), c(t[1]), c(t[2])]);
    close_d(&dd_(ar), &e, k, kd, "new_from_array")?;
    close_d(&dd_(DualQuaternion::new_from_point(&tt)), &[[1.0, 0.0, 0.0, 0.0], [0.0, t[0], t[1], t[2]]], 0.0, 0.0, "new_from_point")?;
    close_dpm(&dd_(DualQuaternion::new_from_rotation_matrix(&m_::<T>(&m))), &[q, [0.0; 4]], 4.0 * k, 0.0, "new_from_rotation_matrix")?;
    let h = h_::<T>(&m, &t);
    close_dpm(&dd_(DualQuaternion::new_from_homogeneous(&h)), &e, 4.0 * k, 4.0 * kd, "new_from_homogeneous")?;
    // the readers, of values made in every way
    for (x, w) in [(rt, "new_from_rot_trans"), (ar, "new_from_array"), (dx::<T>(s, &dd_(rt)), "the same parts"), (-rt, "-x"), (rt.normalize().unwrap(), "normalize")] {
        let r = x.to_rotation_translation();
        close_m(&dm_(&r.0), &m, k, &format!("the rotation of to_rotation_translation of {}", w))?;
        close_v(&dv_(r.1), &t, 2.0 * kd, &format!("the translation of to_rotation_translation of {}", w))?;
        close_v(&dv_(x.get_translation()), &t, 2.0 * kd, &format!("get_translation of {}", w))?;
        let (rq, rt) = x.to_quaternion_translation();
        close_pm(&dq_(rq), &q, k, &format!("the rotation of to_quaternion_translation of {}", w))?;
        close_v(&dv_(rt), &t, 2.0 * kd, &format!("the translation of to_quaternion_translation of {}", w))?;
        let (hr, ht, last) = dh_(&x.to_homogeneous());
        close_m(&hr, &m, k, &format!("the rotation of to_homogeneous of {}", w))?;
        close_v(&ht, &t, 2.0 * kd, &format!("the translation of to_homogeneous of {}", w))?;
        eqv(&last, &[0.0, 0.0, 0.0, 1.0], "the last row of to_homogeneous")?;
        let i = dd_(x.inverse());
        close_dpm(&i, &dconj(&e), k, 2.0 * kd, &format!("inverse of {}", w))?;
        close_dpm(&dd_(x.conj()), &dconj(&e), k, 2.0 * kd, &format!("conj of {}", w))?;
    }
    ck!(rt.is_normalized(), "is_normalized of new_from_rot_trans");
    Ok(nrm(&qim(&q)) > 1e-9 && n > 0.0)
}
fn compose<T: Fl>(s: &mut Src) -> R {
    let ((q1, t1), (q2, t2)) = (pose::<T>(s), pose::<T>(s));
    let (m1, m2) = (qrot(&q1), qrot(&q2));
    let a = DualQuaternion::new_from_rot_trans(&q_::<T>(&q1), &v_::<T>(&t1));
    let b = DualQuaternion::new_from_homogeneous(&h_::<T>(&m2, &t2));
    let k = 128.0 * T::EPS;
    let n = nrm(&t1) + nrm(&t2);
    let er = mm(&m1, &m2);
    let et = add(&mv(&m1, &t2), &t1);
    let (hr, ht, _) = dh_(&(a * b).to_homogeneous());
    close_m(&hr, &er, k, "the rotation of the product")?;
    close_v(&ht, &et, k * n, "the translation of the product")?;
    let (pr, pt, _) = dh_(&(a.to_homogeneous() * b.to_homogeneous()));
    close_m(&hr, &pr, k, "to_homogeneous of the product and product of to_homogeneous (rotation)")?;
    close_v(&ht, &pt, k * n, "to_homogeneous of the product and product of to_homogeneous (translation)")?;
    // inverse
    let x = a * b;
    for (y, w) in [(x.inverse(), "inverse"), (x.conj(), "conj")] {
        let (ir, it, _) = dh_(&y.to_homogeneous());
        close_m(&ir, &tr(&er), k, &format!("the rotation of {} of the product", w))?;
        close_v(&it, &sc(&mv(&tr(&er), &et), -1.0), k * n, &format!("the translation of {} of the product", w))?;
    }
    let d = a / b;
    let (dr, dt, _) = dh_(&d.to_homogeneous());
    close_m(&dr, &mm(&m1, &tr(&m2)), k, "the rotation of a / b")?;
    close_v(&dt, &sub(&t1, &mv(&mm(&m1, &tr(&m2)), &t2)), 2.0 * k * n, "the translation of a / b")?;
    Ok(n > 0.0 && qn(&q1) > 0.0)
}
fn transform_point<T: Fl>(s: &mut Src) -> R {
    let (q, t) = pose::<T>(s);
    let p = rv::<T>(&s.tra(3.0));
    let m = qrot(&q);
    let k = 256.0 * T::EPS * (nrm(&t) + nrm(&p));
    let (tq, tt, tp) = (q_::<T>(&q), v_::<T>(&t), v_::<T>(&p));
    let x = match s.idx(3) {
        0 => DualQuaternion::new_from_rot_trans(&tq, &tt),
        1 => dx::<T>(s, &dd_(DualQuaternion::new_from_rot_trans(&tq, &tt))),
        _ => DualQuaternion::new_from_homogeneous(&homogeneous_from_quaternion(&tq, &tt)),
    };
    let r = dv_(x.transform_point(&tp));
    let e = add(&mv(&m, &p), &t);
    let same = |a: &V, b: &V| nrm(&sub(a, b)) <= k;
    if same(&r, &e) {
        return Ok(nrm(&t) > k);
    }
    let rot_only = mv(&m, &p);
    let msg = format!("transform_point({:?}) = {:?}, the motion gives {:?}", p, r, e);
    if same(&r, &rot_only) {
        return Err(Stop::Known("transform_point_ignores_translation", msg));
    }
    fail(msg)
}

// ---------------------------------------------------------------- C17

/// the motion by the screw: line through `p` with direction l, angle, displacement
fn screw(l: &V, p: &V, th: f64, d: f64) -> D {
    let m = cross(p, l);
    let (s, c) = (th / 2.0).sin_cos();
    let i = |k: usize| l[k] * s;
    let j = |k: usize| m[k] * s + l[k] * d / 2.0 * c;
    [[c, i(0), i(1), i(2)], [-d / 2.0 * s, j(0), j(1), j(2)]]
}
fn dpow(l: &V, p: &V, th: f64, d: f64, e: f64) -> D {
    screw(l, p, th * e, d * e)
}
struct Scr {
    l: V,
    p: V,
    th: f64,
    d: f64,
}
/// angle in [0, 2 pi], sin(th / 2) not under the given bound (or exactly zero)
fn gen_screw(s: &mut Src) -> Scr {
    let l = s.axis();
    let th = match s.ig(0, 9, |r| r.below(10) as i64) {
        0 => 0.0,
        1 => PI,
        2 => s.f(|r| 10f64.powf(r.range(-6.0, -1.0))),
        3 => 2.0 * PI - s.f(|r| 10f64.powf(r.range(-6.0, -1.0))),
        4 => PI + s.f(|r| r.log(-12.0, -1.0)),
        _ => s.uni(0.0, 2.0 * PI),
    }
    .clamp(0.0, 2.0 * PI);
    let p0 = s.tra(1.5);
    let p = sub(&p0, &sc(&l, dot(&p0, &l)));
    let d = match s.idx(4) {
        0 => 0.0,
        _ => s.real(1.5),
    };
    Scr { l, p, th, d }
}
fn screw_params<T: Fl>(s: &mut Src) -> R {
    let g = gen_screw(s);
    let x = screw(&g.l, &g.p, g.th, g.d);
    // rounded to the element type, as a unit dual quaternion made in different ways
    let t = dtra(&x);
    let q = q_::<T>(&x[0]);
    let y = match s.idx(3) {
        0 => DualQuaternion::new_from_rot_trans(&q, &v_::<T>(&t)),
        1 => dx::<T>(s, &x),
        _ => dx::<T>(s, &x).normalize().unwrap(),
    };
    let (l, m, th, d) = y.get_screw_parameters();
    let (l, m, th, d) = (dv_(l), dv_(m), th.d(), d.d());
    let size = nrm(&t) + nrm(&g.p) + g.d.abs();
    let sn = (g.th / 2.0).sin().abs();
    let k = 128.0 * T::EPS;
    close(th, g.th, k, "the screw angle")?;
    let back = dd_(DualQuaternion::new_from_screw_parameters(&v_::<T>(&l), &v_::<T>(&m), T::c(th), T::c(d)));
    if g.th == 0.0 || sn < 1e-14 {
        // pure translation
        let n = nrm(&t);
        if sn == 0.0 {
            close(d, n, k * n, "the displacement of a pure translation")?;
            if n > 1e-3 {
                close_v(&l, &unit(&t), k, "the direction of a pure translation")?;
            }
            ck!(m.iter().all(|q| q.is_infinite()), "the moment of a pure translation is {:?}", m);
            close_dpm(&back, &dd_(y), k, k * size, "new_from_screw_parameters of the parameters of a pure translation")?;
        }
        return Ok(n > 0.0);
    }
    let kl = k / sn;
    let km = k * size / (sn * sn);
    if !(km < 1e-2 * size) {
        return Ok(false);
    }
    close_v(&l, &g.l, kl, "the screw axis")?;
    close(d, g.d, kl * size, "the displacement")?;
    close_v(&m, &cross(&g.p, &g.l), 4.0 * km, "the moment")?;
    close(nrm(&l), 1.0, kl, "the norm of the axis")?;
    close(dot(&l, &m), 0.0, 4.0 * km, "axis and moment")?;
    close_dpm(&back, &dd_(y), 8.0 * k / sn, 8.0 * k * size / sn, "new_from_screw_parameters of the parameters")?;
    // built from the parameters
    let c = rv::<T>(&g.l);
    let mo = rv::<T>(&cross(&g.p, &g.l));
    let z = dd_(DualQuaternion::new_from_screw_parameters(&v_::<T>(&c), &v_::<T>(&mo), T::c(g.th), T::c(g.d)));
    close_d(&z, &x, k, k * size, "new_from_screw_parameters")?;
    // with any angle, negative or over a turn
    let (th, d) = (rnd::<T>(s.angle()), rnd::<T>(s.real(1.5)));
    let z = dd_(DualQuaternion::new_from_screw_parameters(&v_::<T>(&c), &v_::<T>(&mo), T::c(th), T::c(d)));
    close_d(&z, &screw(&g.l, &g.p, th, d), k, k * (size + d.abs()), "new_from_screw_parameters of any angle")?;
    Ok(nrm(&g.p) > 0.0 || g.d != 0.0)
}
fn dpow_fn<T: Fl>(s: &mut Src) -> R {
    let g = gen_screw(s);
    let x = screw(&g.l, &g.p, g.th, g.d);
    let t = dtra(&x);
    let y = match s.idx(3) {
        0 => DualQuaternion::new_from_rot_trans(&q_::<T>(&x[0]), &v_::<T>(&t)),
        1 => dx::<T>(s, &x),
        _ => dx::<T>(s, &x).normalize().unwrap(),
    };
    let size = nrm(&t) + nrm(&g.p) + g.d.abs();
    let sn = (g.th / 2.0).sin().abs();
    // a fraction of a nearly whole turn is not well defined
    let whole = x[0][0] < 0.0;
    let amp = if whole { 1.0 / (sn * sn) } else { 1.0 / sn.max(0.1) };
    let k = 512.0 * T::EPS * amp;
    assume!(k < 1e-2);
    // integers
    let n = if s.idx(8) == 0 { s.int(-40, 40) } else { s.int(-5, 5) };
    let mut e: D = [[1.0, 0.0, 0.0, 0.0], [0.0; 4]];
    let ye = dd_(y);
    let f = if n < 0 { dconj(&ye) } else { ye };
    for _ in 0..n.abs() {
        e = dmul(&e, &f);
    }
    let grow = 1.0 + n.abs() as f64;
    close_d(&dd_(y.pow(T::c(n as f64))), &e, k * grow, k * size * grow * grow, &format!("pow({})", n))?;
    // reals
    let ex = |s: &mut Src| {
        rnd::<T>(match s.idx(4) {
            0 => s.int(-6, 6) as f64 / 2.0,
            1 => s.f(|r| r.log(-9.0, -1.0)),
            2 => s.f(|r| r.log(0.0, 1.7)),
            _ => s.uni(-3.0, 3.0),
        })
    };
    let (a, b) = (ex(s), ex(s));
    let (pa, pb) = (y.pow(T::c(a)), y.pow(T::c(b)));
    let full = dpow(&g.l, &g.p, g.th, g.d, a);
    let amp2 = 8.0 * k * (1.0 + (a.abs().max(b.abs()) - 3.0).max(0.0));
    let size = size * (1.0 + (a.abs().max(b.abs()) - 3.0).max(0.0));
    close_d(&dd_(pa), &full, amp2, amp2 * size * 4.0, &format!("pow({:?})", a))?;
    close_d(&dd_(pa * pb), &dd_(y.pow(T::c(a + b))), 4.0 * amp2, 16.0 * amp2 * size, "pow(a) * pow(b) and pow(a + b)")?;
    Ok(n != 0 && (nrm(&g.p) > 0.0 || g.d != 0.0) && sn > 0.0)
}
fn dlog<T: Fl>(s: &mut Src) -> R {
    let g = gen_screw(s);
    let x = screw(&g.l, &g.p, g.th, g.d);
    let t = dtra(&x);
    let y = match s.idx(3) {
        0 => DualQuaternion::new_from_rot_trans(&q_::<T>(&x[0]), &v_::<T>(&t)),
        1 => dx::<T>(s, &x).normalize().unwrap(),
        _ => DualQuaternion::new_from_homogeneous(&homogeneous_from_rotation(&m_::<T>(&qrot(&x[0])), &v_::<T>(&t))),
    };
    let flip = qdot(&dq_(y.real()), &x[0]) < 0.0;
    let (th, l, d) = if flip { (2.0 * PI - g.th, sc(&g.l, -1.0), -g.d) } else { (g.th, g.l, g.d) };
    let r = match y.log() {
        None => return fail(format!("log of the unit {:?} is None", y)),
        Some(r) => dd_(r),
    };
    let size = nrm(&t) + nrm(&g.p) + g.d.abs();
    let sn = (th / 2.0).sin().abs();
    let k = 256.0 * T::EPS;
    let m = cross(&g.p, &l);
    let e: D = [[0.0, l[0] * th / 2.0, l[1] * th / 2.0, l[2] * th / 2.0], {
        let f = |i: usize| (th * m[i] + d * l[i]) / 2.0;
        [0.0, f(0), f(1), f(2)]
    }];
    if sn < 1e-14 {
        if th < 1.0 {
            close_d(&r, &[[0.0; 4], [0.0, t[0] / 2.0, t[1] / 2.0, t[2] / 2.0]], k, k * size, "log of a pure translation")?;
        }
        return Ok(nrm(&t) > 0.0);
    }
    let (kr, kd) = if th < PI { (k / sn.min(1.0) * th.min(1.0), k / (sn * sn) * th.min(1.0)) } else { (k / sn, k / (sn * sn)) };
    assume!(kd < 1e-2);
    close_d(&r, &e, kr.max(k), 4.0 * kd.max(k) * size, "log")?;
    Ok(nrm(&g.p) > 0.0 || g.d != 0.0)
}
fn screw_lerp<T: Fl>(s: &mut Src) -> R {
    let (qa_, ta) = pose::<T>(s);
    let g = gen_screw(s);
    let a = dpose(&qa_, &ta);
    let rel = screw(&g.l, &g.p, g.th, g.d);
    let b = dmul(&a, &rel);
    let (fa, fb) = (s.flag(), s.flag());
    let mk = |s: &mut Src, x: &D, neg: bool, how: usize| -> DualQuaternion<T> {
        let y = match how {
            0 => DualQuaternion::new_from_rot_trans(&q_::<T>(&x[0]), &v_::<T>(&dtra(x))),
            1 => dx::<T>(s, x),
            _ => dx::<T>(s, x).normalize().unwrap(),
        };
        if neg { -y } else { y }
    };
    let (ha, hb) = (s.idx(3), s.idx(3));
    let (x, y) = (mk(s, &a, fa, ha), mk(s, &b, fb, hb));
    let tau = rnd::<T>(match s.ig(0, 5, |r| r.below(6) as i64) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        _ => s.uni(0.0, 1.0),
    })
    .clamp(0.0, 1.0);
    // the shortest rotation, not decided by the rounding
    assume!(rel[0][0].abs() > 1e3 * T::EPS);
    let (th, l, p, d) = if rel[0][0] < 0.0 { (2.0 * PI - g.th, sc(&g.l, -1.0), g.p, -g.d) } else { (g.th, g.l, g.p, g.d) };
    let e = dmul(&a, &screw(&l, &p, th * tau, d * tau));
    let r = DualQuaternion::screw_lerp(&x, &y, T::c(tau));
    let size = nrm(&ta) + nrm(&dtra(&rel)) + nrm(&g.p) + g.d.abs();
    let k = 512.0 * T::EPS;
    let sn = (th / 2.0).sin().abs();
    close_dpm(&dd_(r), &e, k, 8.0 * k * size, &format!("screw_lerp at {:?}", tau))?;
    let n = dd_(r.norm());
    close_d(&n, &[[1.0, 0.0, 0.0, 0.0], [0.0; 4]], k, 8.0 * k * size, "the norm of screw_lerp")?;
    if tau == 0.0 {
        close_dpm(&dd_(r), &dd_(x), k, 8.0 * k * size, "screw_lerp at 0")?;
    }
    if tau == 1.0 {
        close_dpm(&dd_(r), &dd_(y), k, 8.0 * k * size, "screw_lerp at 1")?;
    }
    Ok(tau > 0.0 && tau < 1.0 && sn > 1e-9)
}

pub fn checks(o: &mut Vec<Check>) {
    types!(o, "C15", dalgebra_exact, 50000, "integer dual quaternions; non-trivial: the operands do not commute", [i32, i64, f64]);
    types!(o, "C15", dalgebra_float, 50000, "floats of mixed magnitudes, real part zero; non-trivial: both parts nonzero", [f32, f64]);
    types!(o, "C15", dunit_exact, 20000, "dual quaternions that are unit without rounding; non-trivial: with a translation", [f32, f64]);
    types!(o, "C16", poses, 40000, "unit quaternions of both signs (special rotations, half turns) and translations; non-trivial: rotation and translation", [f32, f64]);
    types!(o, "C16", compose, 40000, "pairs of poses; non-trivial: translation not zero", [f32, f64]);
    types!(o, "C16", transform_point, 40000, "poses and points; non-trivial: translation not zero", [f32, f64]);
    types!(o, "C17", screw_params, 200000, "screws (special angles from 0 to 2 pi, lines through the origin or not, no displacement); non-trivial: line off the origin or displacement", [f32, f64]);
    types!(o, "C17", dpow_fn, 150000, "screws, integer and real exponents; non-trivial: off the origin or displaced, rotating, exponent not zero", [f32, f64]);
    types!(o, "C17", dlog, 200000, "screws; non-trivial: off the origin or displaced", [f32, f64]);
    types!(o, "C17", screw_lerp, 200000, "pose and screw from it, both signs of both ends, tau with both ends; non-trivial: rotating and tau inside (0, 1)", [f32, f64]);
}
