//! C10 to C14: quaternions.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::num_t::*;
use crate::{assume, ck, types};
use num::{One, Zero};
use static_math::{Quaternion, M33, V3, V4};
use std::f64::consts::PI;

pub fn q_<T: Sc>(a: &Q) -> Quaternion<T> {
    Quaternion::new_from(T::c(a[0]), T::c(a[1]), T::c(a[2]), T::c(a[3]))
}
/// the same components, reached by one of the public ways that do not round
pub fn qx<T: Sc>(s: &mut Src, a: &Q) -> Quaternion<T> {
    let q = q_::<T>(a);
    let (r, v) = (q.real(), q.imag());
    let z = T::zero();
    match s.ig(0, 19, |r| r.below(20) as i64) {
        8 => Quaternion::new(r, v),
        9 => Quaternion::new_from_vec(&V4::new([r, v[0], v[1], v[2]])),
        10 => Quaternion::from([r, v[0], v[1], v[2]]),
        11 => -(-q),
        12 => q.conj().conj(),
        13 => q * Quaternion::one(),
        14 => Quaternion::one() * q,
        15 => q - Quaternion::zero(),
        16 => Quaternion::new_real(r) + Quaternion::new_imag(&v),
        17 => q * (z - T::one()) * (z - T::one()),
        18 => Quaternion::one() - Quaternion::one() + q,
        19 => q + Quaternion::one() * z,
        _ => q,
    }
}
pub fn dq_<T: Sc>(q: Quaternion<T>) -> Q {
    let v = q.imag();
    [q.real().d(), v[0].d(), v[1].d(), v[2].d()]
}
pub fn v_<T: Sc>(a: &V) -> V3<T> {
    V3::new([T::c(a[0]), T::c(a[1]), T::c(a[2])])
}
pub fn dv_<T: Sc>(v: V3<T>) -> V {
    [v[0].d(), v[1].d(), v[2].d()]
}
pub fn m_<T: Sc>(a: &M3) -> M33<T> {
    let mut b = [[T::zero(); 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            b[i][j] = T::c(a[i][j]);
        }
    }
    M33::new(b)
}
pub fn dm_<T: Sc>(m: &M33<T>) -> M3 {
    let mut b = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            b[i][j] = m[(i, j)].d();
        }
    }
    b
}
/// as the element type holds it
pub fn rnd<T: Sc>(x: f64) -> f64 {
    T::c(x).d()
}
pub fn rv<T: Sc>(x: &V) -> V {
    [rnd::<T>(x[0]), rnd::<T>(x[1]), rnd::<T>(x[2])]
}
pub fn rq<T: Sc>(x: &Q) -> Q {
    [rnd::<T>(x[0]), rnd::<T>(x[1]), rnd::<T>(x[2]), rnd::<T>(x[3])]
}
pub fn close_q(a: &Q, b: &Q, tol: f64, what: &str) -> R<()> {
    close_v(a, b, tol, what)
}
/// equal up to the sign
pub fn close_pm(a: &Q, b: &Q, tol: f64, what: &str) -> R<()> {
    let b = if qdot(a, b) < 0.0 { qs(b, -1.0) } else { *b };
    close_v(a, &b, tol, what)
}
fn iq(s: &mut Src, m: i64) -> [i64; 4] {
    let v = s.ints(4, m);
    [v[0], v[1], v[2], v[3]]
}
fn fi(a: &[i64; 4]) -> Q {
    [a[0] as f64, a[1] as f64, a[2] as f64, a[3] as f64]
}
fn fq<T: Sc>(s: &mut Src, e: f64) -> Q {
    let v = s.reals(4, e);
    rq::<T>(&[v[0], v[1], v[2], v[3]])
}

// ---------------------------------------------------------------- C10

fn algebra_exact<T: Sc>(s: &mut Src) -> R {
    let (a, b, c) = (iq(s, 30), iq(s, 30), iq(s, 9));
    let k = s.small(30);
    let (x, y, z) = (qx::<T>(s, &fi(&a)), qx::<T>(s, &fi(&b)), q_::<T>(&fi(&c)));
    let kk = T::c(k as f64);
    let el = |f: &dyn Fn(i64, i64) -> i64| -> Q { [0, 1, 2, 3].map(|i| f(a[i], b[i]) as f64) };
    eqv(&dq_(x), &fi(&a), "new_from, real and imag")?;
    eqv(&dq_(Quaternion::new(x.real(), x.imag())), &fi(&a), "new")?;
    eqv(&dq_(Quaternion::from([T::c(a[0] as f64), T::c(a[1] as f64), T::c(a[2] as f64), T::c(a[3] as f64)])), &fi(&a), "from array")?;
    let v4 = V4::new([T::c(a[0] as f64), T::c(a[1] as f64), T::c(a[2] as f64), T::c(a[3] as f64)]);
    eqv(&dq_(Quaternion::new_from_vec(&v4)), &fi(&a), "new_from_vec")?;
    eqv(&dq_(Quaternion::new_real(x.real())), &[a[0] as f64, 0.0, 0.0, 0.0], "new_real")?;
    eqv(&dq_(Quaternion::new_imag(&x.imag())), &[0.0, a[1] as f64, a[2] as f64, a[3] as f64], "new_imag")?;
    eqv(&dq_(x + y), &el(&|p, q| p + q), "a + b")?;
    eqv(&dq_(x - y), &el(&|p, q| p - q), "a - b")?;
    eqv(&dq_(-x), &el(&|p, _| -p), "-a")?;
    eqv(&dq_(x * kk), &el(&|p, _| p * k), "a * s")?;
    if k != 0 {
        let e = [0, 1, 2, 3].map(|i| (T::c(a[i] as f64) / kk).d());
        close_rel(&dq_(x / kk), &e, &e.map(|q| q.abs()), 4.0 * T::EPS, "a / s")?;
    }
    let n2: i64 = a.iter().map(|q| q * q).sum();
    eqv(&[x.abs2().d(), x.dot(x).d()], &[n2 as f64, n2 as f64], "abs2 and dot(a, a)")?;
    eqv(&[x.dot(y).d()], &[(0..4).map(|i| a[i] * b[i]).sum::<i64>() as f64], "dot")?;
    eqv(&dq_(x * y), &fi(&qi(&a, &b)), "a * b")?;
    eqv(&dq_(x.conj()), &[a[0] as f64, -a[1] as f64, -a[2] as f64, -a[3] as f64], "conj")?;
    ck!((x * y) * z == x * (y * z), "(a b) c is not a (b c)");
    ck!(x * (y + z) == x * y + x * z, "a (b + c) is not a b + a c");
    ck!((y + z) * x == y * x + z * x, "(b + c) a is not b a + c a");
    ck!((x * y).conj() == y.conj() * x.conj(), "conj(a b) is not conj(b) conj(a)");
    eqv(&dq_(x * x.conj()), &[n2 as f64, 0.0, 0.0, 0.0], "a conj(a)")?;
    ck!(x * Quaternion::one() == x && Quaternion::<T>::one() * x == x, "a * 1");
    ck!(x * <Quaternion<T> as One>::one() == x, "a * One::one()");
    ck!(x + Quaternion::zero() == x && x * Quaternion::zero() == Quaternion::zero(), "zero");
    ck!(x.is_zero() == (a == [0; 4]), "is_zero of {:?}", a);
    ck!(<Quaternion<T> as Zero>::zero().is_zero(), "is_zero of zero");
    ck!((x == y) == (a == b), "{:?} == {:?} is {}", a, b, x == y);
    let i = s.idx(4);
    let d = s.small(2);
    let mut w = a;
    w[i] += d;
    ck!((x == q_(&fi(&w))) == (d == 0), "{:?} == {:?} is {}", a, w, x == q_(&fi(&w)));
    // the same value reached otherwise
    ck!((x + y) - y == x && x * Quaternion::one() == x && -(-x) == x && x.conj().conj() == x, "== depends on how a value was obtained");
    ck!(q_::<T>(&[1.0, 0.0, 0.0, 0.0]) == Quaternion::one() && q_::<T>(&[1.0, 0.0, 0.0, 0.0]).is_one(), "1 == one()");
    Ok(qi(&a, &b) != qi(&b, &a))
}
fn algebra_float<T: Fl>(s: &mut Src) -> R {
    let e = if T::NAME == "f32" { 8.0 } else { 60.0 };
    let a = fq::<T>(s, e);
    let b = fq::<T>(s, e);
    let (x, y) = (qx::<T>(s, &a), qx::<T>(s, &b));
    let t = 16.0 * T::EPS;
    let ab = qm(&a, &b);
    let (aa, ba) = (a.map(|q| q.abs()), b.map(|q| q.abs()));
    // the sum of the absolute values of the terms
    let sc: Vec<f64> = [[(0, 0), (1, 1), (2, 2), (3, 3)], [(0, 1), (1, 0), (2, 3), (3, 2)], [(0, 2), (2, 0), (1, 3), (3, 1)], [(0, 3), (3, 0), (1, 2), (2, 1)]]
        .iter()
        .map(|r| r.iter().map(|(i, j)| aa[*i] * ba[*j]).sum())
        .collect();
    close_rel(&dq_(x * y), &ab, &sc, t, "a * b")?;
    let n = qn(&a);
    close(x.norm2().d(), n, t * n, "norm2")?;
    close(x.abs2().d(), n * n, t * n * n, "abs2")?;
    close((x * y).norm2().d(), n * qn(&b), 4.0 * t * n * qn(&b), "norm2 of the product")?;
    close(x.dot(y).d(), qdot(&a, &b), t * (0..4).map(|i| (a[i] * b[i]).abs()).sum::<f64>(), "dot")?;
    let im = nrm(&qim(&a));
    close(x.abs_imag().d(), im, t * im, "abs_imag")?;
    Ok(qn(&sub4(&ab, &qm(&b, &a))) > 0.0)
}
fn sub4(a: &Q, b: &Q) -> Q {
    [0, 1, 2, 3].map(|i| a[i] - b[i])
}
fn norms_inv<T: Fl>(s: &mut Src) -> R {
    // nearly zero is a threshold on the norm, and on its square for the inverse
    let (a0, b0) = (fq::<T>(s, 3.0), fq::<T>(s, 3.0));
    let (zero, scaled) = (s.idx(20) == 0, s.idx(4) == 0);
    let k = if scaled { 10f64.powf(s.uni(-14.0, 6.0)) } else { 1.0 };
    let unit = s.idx(6) == 0;
    let a = if zero {
        [0.0; 4]
    } else if unit {
        let (u, k) = (s.uq(), s.near_one());
        rq::<T>(&qs(&u, k))
    } else {
        rq::<T>(&qs(&a0, k))
    };
    let n = qn(&a);
    let x = qx::<T>(s, &a);
    let t = 32.0 * T::EPS;
    if n == 0.0 {
        ck!(x.normalize().is_none(), "normalize of zero is {:?}", x.normalize());
        ck!(x.inverse().is_none(), "inverse of zero is {:?}", x.inverse());
        return Ok(false);
    }
    let e = qs(&a, 1.0 / n);
    // normalize: None when the norm is under epsilon
    let u = x.normalize();
    if n > 2.0 * T::EPS {
        match u {
            None => return fail(format!("normalize of {:?} is None", a)),
            Some(u) => {
                close_q(&dq_(u), &e, t, "normalize")?;
                close_q(&dq_(u.normalize().unwrap()), &e, t, "normalize twice")?;
            }
        }
        close_q(&dq_(x.normalize_q()), &e, t, "normalize_q")?;
    }
    let im = nrm(&qim(&a));
    if im > 2.0 * T::EPS {
        let w = qim(&a);
        close_q(&dq_(x.argq()), &[0.0, w[0] / im, w[1] / im, w[2] / im], t, "argq")?;
    }
    let i = x.inverse();
    ck!(i.is_some() || n * n <= 2.0 * T::EPS, "inverse of {:?} is None", a);
    // (the square of the norm may underflow)
    let tiny = if T::NAME == "f32" { 1e-17 } else { 1e-140 };
    if let (Some(i), true) = (i, n > tiny) {
        close_q(&dq_(i), &qinv(&a), t / n, "inverse")?;
        close_q(&dq_(i * x), &[1.0, 0.0, 0.0, 0.0], t, "inverse(a) a")?;
        close_q(&dq_(x * i), &[1.0, 0.0, 0.0, 0.0], t, "a inverse(a)")?;
        let b = b0;
        close_q(&dq_(q_::<T>(&b) / x), &qm(&b, &qinv(&a)), 4.0 * t * qn(&b) / n, "b / a")?;
        // of a normalized value too
        if let Some(u) = u {
            close_q(&dq_(q_::<T>(&b) / u), &qm(&b, &qc(&e)), 4.0 * t * qn(&b), "b / normalized a")?;
            close_q(&dq_(u.inverse().unwrap()), &qc(&e), t, "inverse of the normalized")?;
        }
    }
    Ok(im > 0.0)
}

// ---------------------------------------------------------------- C11

fn rotate<T: Fl>(s: &mut Src) -> R {
    let (q0, p0) = (s.uq(), s.uq());
    let (a, b) = (rq::<T>(&q0), rq::<T>(&p0));
    let v = rv::<T>(&[s.real(4.0), s.real(4.0), s.real(4.0)]);
    let (x, y, w) = (qx::<T>(s, &a), qx::<T>(s, &b), v_::<T>(&v));
    let t = 64.0 * T::EPS;
    let m = qrot(&a);
    let e = mv(&m, &v);
    let nv = nrm(&v);
    close_v(&dv_(x * w), &e, t * nv, "q * v")?;
    close_v(&dv_((x * Quaternion::new_imag(&w) * x.conj()).imag()), &e, t * nv, "the vector part of q v conj(q)")?;
    let r = x.to_rotation();
    close_m(&dm_(&r), &m, t, "to_rotation")?;
    close_v(&dv_(r * w), &e, t * nv, "to_rotation * v")?;
    close_m(&dm_(&(-x).to_rotation()), &dm_(&r), t, "to_rotation of -q")?;
    close_v(&dv_((-x) * w), &e, t * nv, "-q * v")?;
    close_m(&mm(&dm_(&r), &tr(&dm_(&r))), &I3, t, "R R^T")?;
    close(dot(&cross(&dm_(&r)[0], &dm_(&r)[1]), &dm_(&r)[2]), 1.0, t, "det of to_rotation")?;
    close_m(&dm_(&(x * y).to_rotation()), &dm_(&(r * y.to_rotation())), 2.0 * t, "to_rotation of the product")?;
    close_m(&dm_(&x.conj().to_rotation()), &tr(&m), t, "to_rotation of conj")?;
    let (im, th) = (nrm(&qim(&a)), a[0].abs());
    Ok(im > 1e-9 && th < 1.0 && nv > 0.0)
}
fn from_rotation<T: Fl>(s: &mut Src) -> R {
    let kind = s.idx(4);
    let (u, th) = s.ro();
    let m: M3 = match kind {
        // signed permutation matrices (multiples of quarter turns and their products)
        0 => {
            let (p, sg) = s.perm(3);
            let f = [s.flag(), s.flag()];
            let mut m = [[0.0; 3]; 3];
            let sgn = [if f[0] { -1.0 } else { 1.0 }, if f[1] { -1.0 } else { 1.0 }];
            let last = sg as f64 * sgn[0] * sgn[1];
            m[0][p[0]] = sgn[0];
            m[1][p[1]] = sgn[1];
            m[2][p[2]] = last;
            m
        }
        // composed
        1 => mm(&rot(&u, th), &rot(&s.axis(), s.angle_pi())),
        _ => rot(&u, th),
    };
    let r = m_::<T>(&m);
    let q = Quaternion::from_rotation(&r);
    let a = dq_(q);
    let t = 64.0 * T::EPS;
    close(qn(&a), 1.0, t, &format!("the norm of from_rotation ({:?})", a))?;
    close_m(&dm_(&q.to_rotation()), &m, 2.0 * t, "to_rotation of from_rotation")?;
    close_m(&qrot(&a), &m, 2.0 * t, "the rotation of from_rotation")?;
    // and from a quaternion
    let p = q_::<T>(&qaa(&u, th));
    close_pm(&dq_(Quaternion::from_rotation(&p.to_rotation())), &dq_(p), 4.0 * t, "from_rotation of to_rotation")?;
    Ok(nrm(&qim(&a)) > 1e-9)
}

// ---------------------------------------------------------------- C12

fn axis_angle<T: Fl>(s: &mut Src) -> R {
    let u = s.axis();
    let th = rnd::<T>(s.angle());
    let k = 10f64.powf(s.uni(-4.0, 4.0));
    let n = rv::<T>(&sc(&u, k));
    let u = unit(&n);
    let q = Quaternion::rotation(T::c(th), &v_::<T>(&n));
    let t = 32.0 * T::EPS;
    // the argument of sin and cos is exact, so the quaternion is within rounding
    let e = qaa(&u, th);
    close_q(&dq_(q), &e, t, "rotation")?;
    // rotates by the right-hand rule
    let v = rv::<T>(&[s.uni(-10.0, 10.0), s.uni(-10.0, 10.0), s.uni(-10.0, 10.0)]);
    close_v(&dv_(q * v_::<T>(&v)), &mv(&rot(&u, th), &v), 100.0 * T::EPS * 10.0 * 2.0, "rotation(theta, axis) * v")?;
    // encoded in the norm
    let w = rv::<T>(&sc(&u, th));
    let nw = nrm(&w);
    let q = Quaternion::rotation_norm_encoded(&v_::<T>(&w));
    let e = if nw == 0.0 { [1.0, 0.0, 0.0, 0.0] } else { qaa(&unit(&w), nw) };
    close_q(&dq_(q), &e, t + 4.0 * T::EPS * nw, "rotation_norm_encoded")?;
    let z = Quaternion::rotation_norm_encoded(&V3::<T>::zeros());
    ck!(z == Quaternion::one(), "rotation_norm_encoded of zero is {:?}", z);
    Ok(th.sin().abs() > 1e-9)
}
fn rzyx(y: f64, p: f64, r: f64) -> M3 {
    mm(&mm(&rot(&[0.0, 0.0, 1.0], y), &rot(&[0.0, 1.0, 0.0], p)), &rot(&[1.0, 0.0, 0.0], r))
}
fn euler<T: Fl>(s: &mut Src) -> R {
    let (y, p, r) = (rnd::<T>(s.angle()), rnd::<T>(s.angle()), rnd::<T>(s.angle()));
    let t = 64.0 * T::EPS;
    let q = Quaternion::from_euler_angles(T::c(y), T::c(p), T::c(r));
    let m = rzyx(y, p, r);
    close(qn(&dq_(q)), 1.0, t, "the norm of from_euler_angles")?;
    close_m(&dm_(&q.to_rotation()), &m, t, "from_euler_angles")?;
    let (y2, p2, r2) = q.to_euler_angles();
    let (y2, p2, r2) = (y2.d(), p2.d(), r2.d());
    ck!(p2.abs() <= PI / 2.0 + 8.0 * T::EPS && y2.abs() <= PI + 8.0 * T::EPS && r2.abs() <= PI + 8.0 * T::EPS, "to_euler_angles out of range: {:?}", (y2, p2, r2));
    // near the singularity the pitch loses half of the digits: asin/atan2 of cos ~ sqrt(eps)
    let c = p.cos().abs();
    close_m(&rzyx(y2, p2, r2), &m, 16.0 * t, &format!("the rotation rebuilt from to_euler_angles {:?}", (y2, p2, r2)))?;
    // the same angles
    let inside = |x: f64| x > -PI + 1e-3 && x <= PI - 1e-3;
    if p.abs() < PI / 2.0 && inside(y) && inside(r) && c > 1e-3 {
        let tol = 16.0 * t / c;
        close_v(&[y2, p2, r2], &[y, p, r], tol, "to_euler_angles of from_euler_angles")?;
    }
    Ok(m != I3)
}
fn readers<T: Fl>(s: &mut Src) -> R {
    let u = s.axis();
    // the half angle in [0, pi]
    let h = s.angle_pi();
    let normalized = s.flag();
    let k = if normalized { s.near_one() } else { 10f64.powf(s.uni(-3.0, 3.0)) };
    let mut a = rq::<T>(&qs(&qaa(&u, 2.0 * h), k));
    if s.idx(12) == 0 {
        // no rotation, or a whole turn
        a = [a[0], 0.0, -0.0, 0.0];
        assume!(a[0].abs() > 1e-3 * k);
    }
    let x = if normalized && s.flag() { Quaternion::rotation(T::c(2.0 * h), &v_::<T>(&u)) } else { qx::<T>(s, &a) };
    let a = dq_(x);
    let im = nrm(&qim(&a));
    let n = qn(&a);
    let e = 2.0 * im.atan2(a[0]);
    let t = 32.0 * T::EPS;
    let ang = x.get_angle().d();
    close(ang, e, t, "get_angle")?;
    ck!(ang >= 0.0 && ang <= 2.0 * PI + t, "get_angle is {:?}", ang);
    // the half angle is the one of q, in a whole turn too
    close(n * (ang / 2.0).cos(), a[0], t * n, "n cos(get_angle / 2)")?;
    let ax = x.get_axis();
    let (ax2, ang2) = x.axis_angle();
    close(ang2.d(), ang, 0.0, "the angle of axis_angle")?;
    ck!(ax == ax2, "the axis of axis_angle: {:?} and get_axis: {:?}", ax2, ax);
    let sn = im / n;
    if im == 0.0 {
        ck!(ax.is_none() || (a[0] < 0.0), "get_axis of {:?} is {:?}", a, ax);
    }
    if sn < 0.5 * T::EPS && a[0] > 0.0 {
        ck!(ax.is_none(), "get_axis without rotation: {:?}", ax);
    }
    // near of a whole turn the sine of the (rounded) angle loses digits
    let lost = if a[0] < 0.0 { T::EPS / sn } else { 0.0 };
    if sn > 4.0 * T::EPS && lost < 0.05 {
        match ax {
            None => return fail(format!("get_axis of {:?} is None", a)),
            Some(v) => {
                let w = qim(&a);
                close_v(&dv_(v), &sc(&w, 1.0 / im), t + 8.0 * lost, "get_axis")?;
            }
        }
    }
    Ok(sn > 1e-9)
}

// ---------------------------------------------------------------- C13

/// a function of a complex number extended to quaternions (on the plane of 1 and its unit imaginary part)
fn ext(a: &Q, f: &dyn Fn(f64, f64) -> (f64, f64)) -> Q {
    let w = qim(a);
    let y = nrm(&w);
    let (re, im) = f(a[0], y);
    if y == 0.0 {
        [re, im, 0.0, 0.0]
    } else {
        [re, im * w[0] / y, im * w[1] / y, im * w[2] / y]
    }
}
fn q_exp(a: &Q) -> Q {
    ext(a, &|x, y| (x.exp() * y.cos(), x.exp() * y.sin()))
}
fn q_ln(a: &Q) -> Q {
    ext(a, &|x, y| (x.hypot(y).ln(), y.atan2(x)))
}
/// the exponential series
fn series(a: &Q) -> Q {
    let mut h = *a;
    let mut k = 0;
    while qn(&h) > 0.5 {
        h = qs(&h, 0.5);
        k += 1;
    }
    let (mut r, mut t) = ([1.0, 0.0, 0.0, 0.0], [1.0, 0.0, 0.0, 0.0]);
    for i in 1..25 {
        t = qs(&qm(&t, &h), 1.0 / i as f64);
        r = qa(&r, &t);
    }
    for _ in 0..k {
        r = qm(&r, &r);
    }
    r
}
/// real part, imaginary direction and norm with special cases
fn func_arg<T: Sc>(s: &mut Src, re: f64, im: f64) -> Q {
    let u = s.axis();
    let x = match s.ig(0, 5, |r| r.below(6) as i64) {
        0 => 0.0,
        1 => s.int(-2, 2) as f64,
        _ => s.uni(-re, re),
    };
    let y = match s.ig(0, 7, |r| r.below(8) as i64) {
        0 => 0.0,
        1 => s.f(|r| 10f64.powf(r.range(-12.0, -1.0))),
        2 => s.int(0, 4) as f64 * PI / 2.0,
        3 => (s.int(0, 4) as f64 * PI / 2.0 + s.f(|r| r.log(-12.0, -1.0))).abs(),
        _ => s.uni(0.0, im),
    };
    rq::<T>(&[x, u[0] * y, u[1] * y, u[2] * y])
}
fn exp_fn<T: Fl>(s: &mut Src) -> R {
    let mut a = func_arg::<T>(s, 4.0, 8.0);
    // large arguments, too
    if s.idx(6) == 0 {
        let (x, y) = (s.uni(0.0, 20.0), 10f64.powf(s.uni(0.0, 4.0)));
        a = rq::<T>(&[a[0] * x, a[1] * y, a[2] * y, a[3] * y]);
    }
    let x = qx::<T>(s, &a);
    let a = dq_(x);
    let im = nrm(&qim(&a));
    let sc = a[0].exp();
    let t = 64.0 * T::EPS * (1.0 + im) * (1.0 + a[0].abs());
    let e = dq_(x.exp());
    close_q(&e, &q_exp(&a), t * sc, "exp")?;
    if im < 10.0 && a[0].abs() < 5.0 {
        close_q(&e, &series(&a), (t + 1e-12) * sc, "exp and the exponential series")?;
    }
    close(qn(&e), sc, t * sc, "the norm of exp")?;
    // ln inverts it
    if im < PI - 1e-2 && a[0].abs() < 30.0 {
        let tol = t * 16.0 / (PI - im);
        close_q(&dq_(x.exp().ln()), &a, tol, "ln(exp q)")?;
    }
    Ok(im > 0.0)
}
/// a quaternion not nearly zero, from polar form
fn polar<T: Sc>(s: &mut Src, e: f64) -> Q {
    let u = s.axis();
    let h = s.angle_pi();
    let k = match s.idx(4) {
        0 => 1.0,
        1 => s.near_one(),
        _ => 10f64.powf(s.uni(-e, e)),
    };
    rq::<T>(&match s.idx(10) {
        // no real part, no imaginary part, integers
        0 => [if s.flag() { -0.0 } else { 0.0 }, k * u[0], k * u[1], k * u[2]],
        1 => {
            let z = if s.flag() { -0.0 } else { 0.0 };
            [if s.flag() { -k } else { k }, z, 0.0, z]
        }
        2 => {
            let v = s.ints(4, 4);
            [v[0] as f64, v[1] as f64, v[2] as f64, if v == [0; 4] { 1.0 } else { v[3] as f64 }]
        }
        _ => [k * h.cos(), k * h.sin() * u[0], k * h.sin() * u[1], k * h.sin() * u[2]],
    })
}
fn ln_sqrt<T: Fl>(s: &mut Src) -> R {
    let a = polar::<T>(s, 4.0);
    let flag = s.flag();
    let x = qx::<T>(s, &a);
    // a unit value known as such, too
    let x = if flag { x.normalize().unwrap() } else { x };
    let a = dq_(x);
    let n = qn(&a);
    let im = nrm(&qim(&a));
    let lnn = n.ln().abs();
    let t = 64.0 * T::EPS;
    let l = x.ln();
    let el = q_ln(&a);
    // near the negative reals the direction of the imaginary part is lost gradually (and is free on them)
    let lost = if im / n < 4.0 * T::EPS { 1.0 } else { 0.0 };
    if lost == 0.0 {
        close_q(&dq_(l), &el, t * (1.0 + lnn), "ln")?;
    } else if a[0] > 0.0 {
        close_q(&dq_(l), &[n.ln(), 0.0, 0.0, 0.0], 8.0 * T::EPS + t * (1.0 + lnn), "ln of a positive real")?;
    } else {
        close(dq_(l)[0], n.ln(), t * (1.0 + lnn), "the real part of ln")?;
        close(nrm(&qim(&dq_(l))), PI, t, "the imaginary norm of ln of a negative real")?;
    }
    close_q(&dq_(l.exp()), &a, 4.0 * t * (1.0 + lnn) * n, "exp(ln q)")?;
    let r = x.sqrt();
    let sr = dq_(r);
    ck!(sr[0] >= -t * n.sqrt(), "the real part of sqrt is {:?}", sr[0]);
    close_q(&dq_(r * r), &a, 8.0 * t * (1.0 + lnn) * n, "sqrt(q)^2")?;
    Ok(im > 0.0)
}
fn pow_fn<T: Fl>(s: &mut Src) -> R {
    let a = polar::<T>(s, 0.7);
    let flag = s.flag();
    let x = qx::<T>(s, &a);
    let x = if flag { x.normalize().unwrap() } else { x };
    let a = dq_(x);
    let n = qn(&a);
    let im = nrm(&qim(&a)) / n;
    let real = |r: f64| Quaternion::new_real(T::c(r));
    let t = 256.0 * T::EPS;
    // integers: repeated products
    let k = if s.idx(8) == 0 { s.int(-30, 30) } else { s.int(-5, 5) };
    let mut e: Q = [1.0, 0.0, 0.0, 0.0];
    let f = if k < 0 { qinv(&a) } else { a };
    for _ in 0..k.abs() {
        e = qm(&e, &f);
    }
    let size = qn(&e);
    close_q(&dq_(x.pow(real(k as f64))), &e, t * (8.0 + k.abs() as f64) * size, &format!("pow({})", k))?;
    // exponents add, and the definition
    let ex = |s: &mut Src| {
        rnd::<T>(match s.idx(4) {
            0 => s.int(-6, 6) as f64 / 2.0,
            1 => s.f(|r| r.log(-9.0, -1.0)),
            2 => s.f(|r| r.log(0.0, 1.2)),
            _ => s.uni(-3.0, 3.0),
        })
    };
    let (r1, r2) = (ex(s), ex(s));
    if im > 1e3 * T::EPS || a[0] > 0.0 {
        let p = |r: f64| -> Q { q_exp(&qs(&q_ln(&a), r)) };
        let t2 = t * (1.0 + (r1.abs().max(r2.abs()) - 3.0).max(0.0));
        close_q(&dq_(x.pow(real(r1))), &p(r1), t2 * n.powf(r1), &format!("pow({})", r1))?;
        close_q(&dq_(x.pow(real(r1)) * x.pow(real(r2))), &p(r1 + r2), 4.0 * t2 * n.powf(r1) * n.powf(r2), "pow(a) * pow(b)")?;
        // a general exponent: exp(r * ln q)
        let kind = s.idx(3);
        let mut c = || match kind {
            0 if s.flag() => 0.0,
            1 => s.int(-2, 2) as f64 / 2.0,
            _ => s.uni(-1.5, 1.5),
        };
        let r = rq::<T>(&[c(), c(), c(), c()]);
        let ex = qm(&r, &q_ln(&a));
        let d = q_exp(&ex);
        close_q(&dq_(x.pow(q_::<T>(&r))), &d, t * 4.0 * qn(&d) * (1.0 + qn(&ex)), "pow(q, r) and exp(r ln q)")?;
    }
    Ok(im > 0.0 && k != 0)
}
fn trig<T: Fl>(s: &mut Src) -> R {
    let mut a = func_arg::<T>(s, 8.0, 4.0);
    // large arguments, too
    if s.idx(8) == 0 {
        let (x, y) = (10f64.powf(s.uni(0.0, 2.0)), s.uni(1.0, 5.0));
        a = rq::<T>(&[a[0] * x, a[1] * y, a[2] * y, a[3] * y]);
    }
    let x = qx::<T>(s, &a);
    let y = nrm(&qim(&a));
    let sc = y.cosh();
    let t = 128.0 * T::EPS * (1.0 + a[0].abs()) * (1.0 + y);
    let sn = ext(&a, &|x, y| (x.sin() * y.cosh(), x.cos() * y.sinh()));
    let cs = ext(&a, &|x, y| (x.cos() * y.cosh(), -x.sin() * y.sinh()));
    // the imaginary unit is any when there is no imaginary part, and the direction of a nearly zero one may be lost
    let lost = if y < 4.0 * T::EPS { 8.0 * T::EPS } else { 0.0 };
    close_q(&dq_(x.sin()), &sn, t * sc + lost, "sin")?;
    close_q(&dq_(x.cos()), &cs, t * sc + lost, "cos")?;
    let (s2, c2) = (x.sin(), x.cos());
    close_q(&dq_(s2 * s2 + c2 * c2), &[1.0, 0.0, 0.0, 0.0], 8.0 * t * sc * sc + lost * 8.0, "sin^2 + cos^2")?;
    close_q(&dq_(x * s2), &dq_(s2 * x), 8.0 * (t * sc + lost) * (1.0 + qn(&a)), "q sin(q) and sin(q) q")?;
    Ok(y > 0.0)
}

// ---------------------------------------------------------------- C14

fn slerp<T: Fl>(s: &mut Src) -> R {
    let a0 = s.uq();
    let u = s.axis();
    // the angle between the quaternions (half the angle of the rotation between them), in [0, pi]
    let kind = s.ig(0, 7, |r| r.below(8) as i64);
    let h = match kind {
        0 => s.f(|r| 10f64.powf(r.range(-9.0, -2.0))),
        1 => PI - s.f(|r| 10f64.powf(r.range(-9.0, -2.0))),
        2 => 0.0,
        3 => PI,
        4 => PI / 2.0 + s.f(|r| r.log(-6.0, -1.0)),
        _ => s.uni(0.0, PI),
    };
    let a = rq::<T>(&a0);
    let b = rq::<T>(&qm(&a0, &qaa(&u, 2.0 * h)));
    let t = rnd::<T>(match s.ig(0, 5, |r| r.below(6) as i64) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        _ => s.uni(0.0, 1.0),
    })
    .clamp(0.0, 1.0);
    let known = s.flag();
    let mut mk = |q: &Q| { let x = qx::<T>(s, q); if known { x.normalize().unwrap() } else { x } };
    let r = dq_(Quaternion::slerp(mk(&a), mk(&b), T::c(t)));
    let eps = T::EPS;
    // the angle in f64, robust
    let (ua, ub) = (qs(&a, 1.0 / qn(&a)), qs(&b, 1.0 / qn(&b)));
    let d = qdot(&ua, &ub);
    // opposite within rounding: either way is the shortest
    assume!(d.abs() > 1e3 * eps);
    let ub = if d < 0.0 { qs(&ub, -1.0) } else { ub };
    let half = 2.0 * (qn(&sub4(&ua, &ub)) / 2.0).min(1.0).asin();
    // the interpolation may be linear for small angles (error of order angle^2); acos of the rounded cosine is
    // imprecise there, but the weights hardly depend on the angle
    // and so is sqrt(1 - cos^2)
    let chord = if half < 2.5e-3 { half * half } else { 2.0 * (half * half).min(eps / (half * half)) };
    let norm_tol = 64.0 * eps + chord;
    close(qn(&r), 1.0, norm_tol, "the norm of slerp")?;
    // the expected point of the arc
    let e: Q = if half < 1e-7 {
        let m = qa(&qs(&ua, 1.0 - t), &qs(&ub, t));
        qs(&m, 1.0 / qn(&m))
    } else {
        let (w1, w2) = (((1.0 - t) * half).sin() / half.sin(), (t * half).sin() / half.sin());
        qa(&qs(&ua, w1), &qs(&ub, w2))
    };
    let tol = 256.0 * eps + chord;
    close_pm(&r, &e, tol, &format!("slerp at t = {:?} (angle between {:e})", t, 2.0 * half))?;
    close_q(&r, &e, tol, "slerp starts in a")?;
    Ok(half > 1e-6 && t > 0.0 && t < 1.0)
}
fn derivative<T: Fl>(s: &mut Src) -> R {
    let e = if T::NAME == "f32" { 6.0 } else { 30.0 };
    let a = if s.flag() { rq::<T>(&s.uq()) } else { fq::<T>(s, e) };
    let w = rv::<T>(&[s.real(e), s.real(e), s.real(e)]);
    let d = dq_(qx::<T>(s, &a).derivative(&v_::<T>(&w)));
    let ex = qs(&qm(&[0.0, w[0], w[1], w[2]], &a), 0.5);
    close_q(&d, &ex, 16.0 * T::EPS * qn(&a) * nrm(&w), "derivative")?;
    Ok(nrm(&w) > 0.0 && qn(&a) > 0.0)
}

pub fn checks(o: &mut Vec<Check>) {
    types!(o, "C10", algebra_exact, 150000, "integer quaternions with zeros; non-trivial: the operands do not commute", [i32, i64, f64]);
    types!(o, "C10", algebra_float, 150000, "floats of mixed magnitudes; non-trivial: the operands do not commute", [f32, f64]);
    types!(o, "C10", norms_inv, 150000, "floats of mixed magnitudes and zero; non-trivial: imaginary part not zero", [f32, f64]);
    types!(o, "C11", rotate, 150000, "unit quaternions of both signs (special axes and angles, half turns, neighbourhoods) and vectors; non-trivial: a rotation that moves", [f32, f64]);
    types!(o, "C11", from_rotation, 200000, "rotations about special and generic axes, half turns and their neighbourhoods, signed permutations; non-trivial: not the identity", [f32, f64]);
    types!(o, "C12", axis_angle, 150000, "axes of any length, angles of several turns; non-trivial: sine not zero", [f32, f64]);
    types!(o, "C12", euler, 150000, "angles of several turns, singular pitch and its neighbourhood; non-trivial: not the identity", [f32, f64]);
    types!(o, "C12", readers, 200000, "polar forms with any norm; non-trivial: imaginary part not zero", [f32, f64]);
    types!(o, "C13", exp_fn, 150000, "real part and imaginary norm with special values; non-trivial: not real", [f32, f64]);
    types!(o, "C13", ln_sqrt, 150000, "polar forms with any norm, negative reals; non-trivial: not real", [f32, f64]);
    types!(o, "C13", pow_fn, 100000, "polar forms, integer, real and quaternion exponents; non-trivial: not real and exponent not zero", [f32, f64]);
    types!(o, "C13", trig, 150000, "real part and imaginary norm with special values; non-trivial: not real", [f32, f64]);
    types!(o, "C14", slerp, 300000, "pairs at a chosen angle (equal, opposite, orthogonal, nearly so), t with both ends; non-trivial: different rotations and t inside (0, 1)", [f32, f64]);
    types!(o, "C14", derivative, 100000, "unit and generic quaternions, rates; non-trivial: nonzero", [f32, f64]);
}
