//! C25 and C26: histories.
use crate::engine::*;
use crate::gen::*;
use crate::mats::*;
use crate::model::*;
use crate::num_t::*;
use crate::p_dq::*;
use crate::p_quat::*;
use crate::{ck, each, types};
use num::{One, Zero};
use static_math::matrix2x2::M22;
use static_math::matrix5x5::M55;
use static_math::matrix6x6::M66;
use static_math::traits::LinearAlgebra;
use static_math::transformations::*;
use static_math::vector2::V2;
use static_math::vector5::V5;
use static_math::{DualQuaternion, Quaternion, M33, M44, V3, V4, V6};
use std::f64::consts::PI;

// ---------------------------------------------------------------- C25

/// the same motion in the five representations
#[derive(Clone, Copy)]
struct All<T> {
    r: (M33<T>, V3<T>),
    q: (Quaternion<T>, V3<T>),
    d: DualQuaternion<T>,
    h: M44<T>,
    x: V6<T>,
}
/// the reference motion, with an accumulated scale of the translations
#[derive(Clone, Copy)]
struct Ref {
    r: M3,
    t: V,
    s: f64,
}
fn compose(a: &Ref, b: &Ref) -> Ref {
    Ref { r: mm(&a.r, &b.r), t: add(&mv(&a.r, &b.t), &a.t), s: a.s + b.s }
}
fn twist<T: Fl>(w: V3<T>, v: V3<T>) -> V6<T> {
    V6::new([w[0], w[1], w[2], v[0], v[1], v[2]])
}
fn unq<T: Fl>(q: Quaternion<T>) -> Quaternion<T> {
    q.normalize().unwrap()
}
impl<T: Fl> All<T> {
    fn id() -> Self {
        All { r: (M33::identity(), V3::zeros()), q: (Quaternion::one(), V3::zeros()), d: DualQuaternion::one(), h: M44::identity(), x: V6::zeros() }
    }
    fn mul(&self, o: &Self) -> Self {
        All {
            r: (self.r.0 * o.r.0, self.r.0 * o.r.1 + self.r.1),
            q: (self.q.0 * o.q.0, self.q.0 * o.q.1 + self.q.1),
            d: self.d * o.d,
            h: self.h * o.h,
            x: se3_to_twist(&matrix_log6(&(matrix_exponential6(&twist_to_se3(&self.x)) * matrix_exponential6(&twist_to_se3(&o.x))))),
        }
    }
}
fn elementary_motion<T: Fl>(s: &mut Src) -> (All<T>, Ref) {
    let k = s.idx(3);
    let z = V3::<T>::zeros();
    if k == 2 {
        // translation
        let t = rv::<T>(&s.tra(2.0));
        let v = v_::<T>(&t);
        let d = match s.idx(3) {
            0 => DualQuaternion::new_from_translation(&v),
            1 => DualQuaternion::new_from_rot_trans(&Quaternion::one(), &v),
            _ => DualQuaternion::new_from_array([T::one(), T::zero(), T::zero(), T::zero(), v[0], v[1], v[2]]),
        };
        let h = if s.flag() { translation_3d(v[0], v[1], v[2]) } else { homogeneous_from_rotation(&M33::identity(), &v) };
        return (All { r: (M33::identity(), v), q: (Quaternion::one(), v), d, h, x: twist(z, v) }, Ref { r: I3, t, s: nrm(&t) });
    }
    // rotation about a coordinate axis, or about any axis
    let u = if k == 0 {
        let mut u = [0.0; 3];
        u[s.idx(3)] = 1.0;
        u
    } else {
        s.axis()
    };
    let th = rnd::<T>(s.angle());
    // the angle as the norm of a vector is off by its own rounding: no big ones
    let th = if th.abs() > 10.0 { rnd::<T>((th / 4.0) % 10.0) } else { th };
    let (v, a) = (v_::<T>(&u), T::c(th));
    let on = |i: usize| u[i] == 1.0 && u[(i + 1) % 3] == 0.0 && u[(i + 2) % 3] == 0.0;
    let r = match s.idx(3) {
        0 if on(0) => rotx(a),
        0 if on(1) => roty(a),
        0 if on(2) => rotz(a),
        1 => matrix_exponential(&skew_from_vec(&(v * a))),
        _ => rotation_from_axis_angle(&v, a),
    };
    let q = match s.idx(4) {
        0 if on(0) => Quaternion::from_euler_angles(T::zero(), T::zero(), a),
        0 if on(1) => Quaternion::from_euler_angles(T::zero(), a, T::zero()),
        0 if on(2) => Quaternion::from_euler_angles(a, T::zero(), T::zero()),
        1 => Quaternion::rotation_norm_encoded(&(v * a)),
        2 => Quaternion::new_imag(&(v * (a / T::c(2.0)))).exp(),
        _ => Quaternion::rotation(a, &v),
    };
    let q2 = Quaternion::rotation(a, &v);
    let d = match s.idx(5) {
        0 => DualQuaternion::new_from_rotation(&q2),
        1 => DualQuaternion::new_from_rotation_matrix(&rotation_from_axis_angle(&v, a)),
        2 => DualQuaternion::new_from_screw_parameters(&v, &z, a, T::zero()),
        3 => DualQuaternion::new_from_homogeneous(&homogeneous_from_quaternion(&q2, &z)),
        _ => DualQuaternion::new_from_rot_trans(&q2, &z),
    };
    let h = match s.idx(3) {
        0 => homogeneous_from_quaternion(&q2, &z),
        1 => matrix_exponential6(&twist_to_se3(&twist(v * a, z))),
        _ => homogeneous_from_rotation(&rotation_from_axis_angle(&v, a), &z),
    };
    (All { r: (r, z), q: (q, z), d, h, x: twist(v * a, z) }, Ref { r: rot(&u, th), t: [0.0; 3], s: 0.0 })
}
fn invert<T: Fl>(s: &mut Src, a: &All<T>, m: &Ref) -> (All<T>, Ref) {
    let rt = rotation_inverse(&a.r.0);
    let qi = if s.flag() { a.q.0.conj() } else { a.q.0.inverse().unwrap() };
    let d = if s.flag() { a.d.conj() } else { a.d.inverse() };
    let h = if s.flag() { homogeneous_inverse(&a.h) } else { a.h.inverse().unwrap() };
    let t = mv(&tr(&m.r), &m.t);
    (All { r: (rt, -(rt * a.r.1)), q: (qi, -(qi * a.q.1)), d, h, x: -a.x }, Ref { r: tr(&m.r), t: sc(&t, -1.0), s: m.s })
}
/// convert the motion carried in one representation to another one, and go on with it
fn convert<T: Fl>(s: &mut Src, a: &mut All<T>) -> usize {
    // the steps whose rounding it has
    let mut steps = 1;
    let one = DualQuaternion::one();
    match s.idx(26) {
        0 => a.q = (unq(Quaternion::from_rotation(&a.r.0)), a.r.1),
        1 => a.r = (unq(a.q.0).to_rotation(), a.q.1),
        2 => a.h = homogeneous_from_rotation(&a.r.0, &a.r.1),
        3 => a.r = get_parts_raw(&a.h),
        4 => a.q = get_parts(&a.h),
        5 => a.h = homogeneous_from_quaternion(&unq(a.q.0), &a.q.1),
        6 => a.d = DualQuaternion::new_from_homogeneous(&a.h),
        7 => a.h = a.d.normalize().unwrap().to_homogeneous(),
        8 => a.d = DualQuaternion::new_from_rot_trans(&a.q.0, &a.q.1),
        9 => a.q = a.d.normalize().unwrap().to_quaternion_translation(),
        10 => a.r = a.d.normalize().unwrap().to_rotation_translation(),
        11 => a.x = se3_to_twist(&matrix_log6(&a.h)),
        12 => a.h = matrix_exponential6(&twist_to_se3(&a.x)),
        13 => {
            let (y, p, r) = rotation_to_euler(&a.r.0);
            a.r.0 = euler_to_rotation(y, p, r, None);
        }
        14 => {
            let (y, p, r) = unq(a.q.0).to_euler_angles();
            a.q.0 = Quaternion::from_euler_angles(y, p, r);
        }
        15 => {
            let (y, p, r) = rotation_to_euler(&a.r.0);
            a.q = (Quaternion::from_euler_angles(y, p, r), a.r.1);
        }
        16 => a.d = DualQuaternion::new_from_translation(&a.q.1) * DualQuaternion::new_from_rotation(&unq(a.q.0)),
        17 => {
            let (q, t) = (unq(a.q.0), a.q.1);
            a.d = DualQuaternion::new_from_array([q.real(), q.imag()[0], q.imag()[1], q.imag()[2], t[0], t[1], t[2]]);
        }
        18 => {
            let (r, t) = a.r;
            a.h = translation_3d(t[0], t[1], t[2]) * homogeneous_from_rotation(&r, &V3::zeros());
        }
        19 => {
            let (r, t) = a.r;
            a.d = DualQuaternion::new_from_translation(&t) * DualQuaternion::new_from_rotation_matrix(&r);
        }
        // through the axis and the angle, when they are well defined
        k => {
            let d = a.d.normalize().unwrap();
            let q = unq(a.q.0);
            let far = |x: T, turn: f64| x.d() > 0.3 && x.d() < turn - 0.3;
            match k {
                20 if far(q.get_angle(), 2.0 * PI) => {
                    let (v, th) = q.axis_angle();
                    a.q.0 = Quaternion::rotation(th, &v.unwrap());
                    steps = 4;
                }
                21 if far(q.get_angle(), 2.0 * PI) => {
                    a.r = (rotation_from_axis_angle(&q.get_axis().unwrap(), q.get_angle()), a.q.1);
                    steps = 4;
                }
                22 if far(q.get_angle(), PI) => {
                    let (v, th) = axis_angle(&skew_to_vec(&matrix_log(&a.r.0)));
                    a.r.0 = rotation_from_axis_angle(&v, th);
                    steps = 8;
                }
                23 if far(d.real().get_angle(), 2.0 * PI) => {
                    let (l, m, th, x) = d.get_screw_parameters();
                    a.d = DualQuaternion::new_from_screw_parameters(&l, &m, th, x);
                    steps = 16;
                }
                24 if far(d.real().get_angle(), 2.0 * PI) => {
                    let half = d.pow(T::c(0.5));
                    a.d = half * half;
                    steps = 16;
                }
                25 if far(d.real().get_angle(), PI) => {
                    let tau = T::c(s.uni(0.0, 1.0));
                    let x = DualQuaternion::screw_lerp(&one, &d, tau);
                    let y = DualQuaternion::screw_lerp(&one, &d, T::one() - tau);
                    a.d = x * y;
                    steps = 16;
                }
                // nothing to do: through its own inverse twice
                _ => a.d = d.inverse().inverse(),
            }
        }
    }
    steps
}
fn compare<T: Fl>(s: &mut Src, a: &All<T>, m: &Ref, steps: usize) -> R<()> {
    let p = rv::<T>(&s.tra(2.0));
    let e = 48.0 * T::EPS * (steps as f64 + 1.0);
    let tp = e * (1.0 + m.s + nrm(&p));
    let want = add(&mv(&m.r, &p), &m.t);
    let v = v_::<T>(&p);
    let hom = |h: &M44<T>| {
        let x = *h * V4::new([v[0], v[1], v[2], T::one()]);
        [x[0].d(), x[1].d(), x[2].d()]
    };
    let hd = a.d.to_homogeneous();
    close_m(&dm_(&a.r.0), &m.r, e, "rotation matrix of the chain")?;
    close_m(&qrot(&dq_(a.q.0)), &m.r, e, "quaternion of the chain")?;
    close_m(&dh_(&a.h).0, &m.r, e, "homogeneous matrix of the chain")?;
    close_m(&dh_(&hd).0, &m.r, e, "dual quaternion of the chain")?;
    close_v(&dv_(a.r.0 * v + a.r.1), &want, tp, "point by rotation matrix and translation")?;
    close_v(&dv_(a.q.0 * v + a.q.1), &want, tp, "point by quaternion and translation")?;
    close_v(&hom(&a.h), &want, tp, "point by the homogeneous matrix")?;
    close_v(&hom(&hd), &want, tp, "point by the dual quaternion")?;
    close_v(&dv_(a.d.get_translation()), &m.t, tp, "translation of the dual quaternion")?;
    close_v(&hom(&matrix_exponential6(&twist_to_se3(&a.x))), &want, tp, "point by the exponential coordinates")?;
    let back = dv_(homogeneous_inverse_transform(&a.h, &v_::<T>(&want)));
    close_v(&back, &p, tp + 8.0 * T::EPS * nrm(&want), "point brought back by the homogeneous matrix")
}
fn motion_chains<T: Fl>(s: &mut Src) -> R {
    let n = s.int(1, 12) as usize;
    let (mut a, mut m) = (All::<T>::id(), Ref { r: I3, t: [0.0; 3], s: 0.0 });
    let (mut sa, mut sm) = (a, m);
    let (mut kinds, mut steps, mut saved) = (0, 0, 0);
    for _ in 0..n {
        let op = s.ig(0, 11, |r| r.below(12) as i64);
        kinds |= 1 << op.min(8);
        steps += 1;
        match op {
            0..=3 => {
                let (b, k) = elementary_motion::<T>(s);
                if s.flag() {
                    a = b.mul(&a);
                    m = compose(&k, &m);
                } else {
                    a = a.mul(&b);
                    m = compose(&m, &k);
                }
            }
            4 | 5 => {
                let r = invert(s, &a, &m);
                a = r.0;
                m = r.1;
            }
            6 => {
                a = a.mul(&sa);
                m = compose(&m, &sm);
                steps += saved;
            }
            7 => {
                sa = a;
                sm = m;
                saved = steps;
            }
            _ => steps += convert(s, &mut a),
        }
        if steps > 200 || m.s > 1e6 {
            return Err(Stop::Discard);
        }
    }
    compare(s, &a, &m, steps)?;
    Ok((kinds as u32).count_ones() >= 3 && m.t != [0.0; 3])
}
/// all the conversions, around the cycle, of one motion
fn conversion_cycle<T: Fl>(s: &mut Src) -> R {
    let (u, th) = s.ro();
    let t = rv::<T>(&s.tra(3.0));
    let m = Ref { r: rot(&u, th), t, s: nrm(&t) };
    let r = m_::<T>(&m.r);
    let v = v_::<T>(&t);
    let q = unq(Quaternion::from_rotation(&r));
    let h = homogeneous_from_rotation(&r, &v);
    let mut a = All { r: (r, v), q: (q, v), d: DualQuaternion::new_from_rot_trans(&q, &v), h, x: se3_to_twist(&matrix_log6(&h)) };
    let n = s.int(1, 20) as usize;
    let mut steps = 0;
    for _ in 0..n {
        steps += convert(s, &mut a);
    }
    compare(s, &a, &m, steps)?;
    Ok(n > 3 && t != [0.0; 3] && th.sin() > 1e-3)
}
/// screw coordinates of a chain: through screw parameters, powers and screw interpolation
fn screw_cycle<T: Fl>(s: &mut Src) -> R {
    let u = s.axis();
    let th = s.uni(0.3, PI - 0.3);
    let t = rv::<T>(&s.tra(2.0));
    let q = qaa(&u, th);
    let d = DualQuaternion::new_from_rot_trans(&q_::<T>(&q), &v_::<T>(&t));
    let m = Ref { r: rot(&u, th), t, s: nrm(&t) };
    let (l, mo, a, di) = d.get_screw_parameters();
    let e = 128.0 * T::EPS;
    let sc_ = nrm(&t);
    let chk = |x: &M44<T>, m: &Ref, k: f64, what: &str| -> R<()> {
        let (r, p, _) = dh_(x);
        close_m(&r, &m.r, k * e, &format!("rotation of {}", what))?;
        close_v(&p, &m.t, k * e * sc_, &format!("translation of {}", what))
    };
    chk(&DualQuaternion::new_from_screw_parameters(&l, &mo, a, di).to_homogeneous(), &m, 4.0, "the screw parameters")?;
    // the screw axis in exponential coordinates: angle * (l, m + pitch * l)
    let x = twist(l * a, mo * a + l * di);
    chk(&matrix_exponential6(&twist_to_se3(&x)), &m, 8.0, "the twist of the screw parameters")?;
    let n = s.int(-3, 3);
    let mut p = Ref { r: I3, t: [0.0; 3], s: 0.0 };
    let ti = mv(&tr(&m.r), &m.t);
    let b = if n < 0 { Ref { r: tr(&m.r), t: sc(&ti, -1.0), s: m.s } } else { m };
    for _ in 0..n.abs() {
        p = compose(&p, &b);
    }
    chk(&d.pow(T::c(n as f64)).to_homogeneous(), &p, 16.0, "the power")?;
    chk(&matrix_exponential6(&twist_to_se3(&(x * T::c(n as f64)))), &p, 32.0, "the multiple of the twist")?;
    // fraction of the motion: the screw interpolation and the scaled twist
    let tau = T::c(s.uni(0.0, 1.0));
    let y = matrix_exponential6(&twist_to_se3(&(se3_to_twist(&matrix_log6(&d.to_homogeneous())) * tau)));
    let z = DualQuaternion::screw_lerp(&DualQuaternion::one(), &d, tau).to_homogeneous();
    let (r, p, _) = dh_(&y);
    chk(&z, &Ref { r, t: p, s: 0.0 }, 16.0, "the screw interpolation")?;
    let w = Quaternion::slerp(Quaternion::one(), q_::<T>(&q), tau).to_rotation();
    close_m(&dm_(&w), &r, 16.0 * e, "the spherical interpolation")?;
    Ok(t != [0.0; 3] && n.abs() > 1)
}

// ---------------------------------------------------------------- C26

/// the result of a probe: a value with its own scale, or nothing
type P = (&'static str, Option<Vec<f64>>, f64);
fn qv<T: Fl>(q: Quaternion<T>) -> Vec<f64> {
    dq_(q).to_vec()
}
fn q_probes<T: Fl>(x: Quaternion<T>, y: Quaternion<T>, e: T) -> Vec<P> {
    let mut v: Vec<P> = vec![];
    let n = qn(&dq_(x));
    let im = nrm(&qim(&dq_(x)));
    let ny = qn(&dq_(y));
    let mut put = |w, r: Option<Vec<f64>>, k: f64| {
        let s = r.as_ref().map_or(0.0, |r| r.iter().map(|x| x * x).sum::<f64>().sqrt());
        v.push((w, r, k * s));
    };
    put("norm2", Some(vec![x.norm2().d()]), 1.0);
    put("abs2", Some(vec![x.abs2().d()]), 1.0);
    put("normalize", x.normalize().map(qv), 1.0);
    put("normalize twice", x.normalize().and_then(|z| z.normalize()).map(qv), 1.0);
    put("normalize_q", Some(qv(x.normalize_q())), 1.0);
    if im > 1e-3 * n {
        put("argq", Some(qv(x.argq())), 1.0);
    }
    put("inverse", x.inverse().map(qv), 1.0);
    put("conj", Some(qv(x.conj())), 1.0);
    put("y / x", Some(qv(y / x)), 1.0);
    if ny > 1e-3 {
        put("x / y", Some(qv(x / y)), 1.0);
    }
    put("x * y", Some(qv(x * y)), 1.0);
    put("y * x", Some(qv(y * x)), 1.0);
    put("x inverse twice", x.inverse().and_then(|z| z.inverse()).map(qv), 1.0);
    put("-x", Some(qv(-x)), 1.0);
    put("inverse of -x", (-x).inverse().map(qv), 1.0);
    if n < 20.0 {
        put("exp", Some(qv(x.exp())), 1.0 + n);
        put("sin", Some(qv(x.sin())), (1.0 + n) * n.exp());
        put("cos", Some(qv(x.cos())), (1.0 + n) * n.exp());
    }
    // off the branch cut of the logarithm
    if im > 1e-3 * n {
        let l = 1.0 + n.ln().abs();
        v.push(("ln", Some(qv(x.ln())), l));
        let mut put = |w, r: Option<Vec<f64>>, k: f64| {
            let s = r.as_ref().map_or(0.0, |r| r.iter().map(|x| x * x).sum::<f64>().sqrt());
            v.push((w, r, k * s));
        };
        put("sqrt", Some(qv(x.sqrt())), l);
        if (e.d() * n.ln()).abs() < 20.0 {
            put("pow", Some(qv(x.pow(Quaternion::new_real(e)))), l * (1.0 + e.d().abs()));
        }
        v.push(("get_angle", Some(vec![x.get_angle().d()]), 1.0));
        v.push(("get_axis", x.get_axis().map(|u| dv_(u).to_vec()), 1.0 * n / im));
    }
    v
}
fn agree<T: Fl>(a: Vec<P>, b: Vec<P>, hist: &str) -> R<()> {
    for (p, q) in a.into_iter().zip(b) {
        match (&p.1, &q.1) {
            (Some(x), Some(y)) => {
                if y.iter().all(|v| v.is_finite()) {
                    let tol = 512.0 * T::EPS * q.2 + 16.0 * minpos::<T>();
                    close_v(x, y, tol, &format!("{} of a value obtained by {} against a fresh one", p.0, hist))?;
                }
            }
            (None, None) => {}
            _ => return fail(format!("{} of a value obtained by {} is {:?}, of a fresh one {:?}", p.0, hist, p.1, q.1)),
        }
    }
    Ok(())
}
fn minpos<T: Fl>() -> f64 {
    T::min_positive_value().d()
}
fn q_ok<T: Fl>(q: Quaternion<T>) -> bool {
    let n = qn(&dq_(q));
    n > 1e-2 && n < 1e2
}
fn is_unit<T: Fl>(q: Quaternion<T>) -> bool {
    (qn(&dq_(q)) - 1.0).abs() < 64.0 * T::EPS
}
fn q_start<T: Fl>(s: &mut Src) -> (Quaternion<T>, &'static str) {
    let c = s.reals(4, 1.0);
    let v = v_::<T>(&[c[1], c[2], c[3]]);
    let u = v_::<T>(&s.axis());
    let (a, r) = (T::c(s.angle()), T::c(c[0]));
    match s.idx(13) {
        0 => (Quaternion::new(r, v), "new"),
        12 => (Quaternion::from([r, v[0], v[1], v[2]]), "from array"),
        1 => (Quaternion::rotation(a, &u), "rotation"),
        2 => (Quaternion::rotation_norm_encoded(&v), "rotation_norm_encoded"),
        3 => (Quaternion::from_euler_angles(a, v[0], v[1]), "from_euler_angles"),
        4 => (Quaternion::from_rotation(&rotation_from_axis_angle(&u, a)), "from_rotation"),
        5 => (Quaternion::one(), "one()"),
        6 => (<Quaternion<T> as One>::one(), "One::one()"),
        7 => (Quaternion::new_real(r), "new_real"),
        8 => (Quaternion::new_imag(&v), "new_imag"),
        9 => (Quaternion::new_from(r, v[0], v[1], v[2]), "new_from"),
        10 => (Quaternion::new_from_vec(&V4::new([r, v[0], v[1], v[2]])), "new_from_vec"),
        _ => (Quaternion::new_imag(&v).exp(), "exp of a vector"),
    }
}
/// a factor: nearly one, small integers and halves, generic; never zero
fn scalar(s: &mut Src, e: f64) -> f64 {
    match s.idx(5) {
        0 => s.near_one(),
        1 => {
            let k = s.small(4) as f64;
            if k == 0.0 { -1.0 } else { k }
        }
        2 => (2 * s.small(2) + 1) as f64 / 2.0,
        _ => s.log(-e, e),
    }
}
/// one operation on the values x and y; None when it is outside of its domain
fn q_op<T: Fl>(s: &mut Src, x: Quaternion<T>, y: Quaternion<T>) -> Option<(Quaternion<T>, &'static str)> {
    let k = T::c(scalar(s, 1.0));
    let (n, im) = (qn(&dq_(x)), nrm(&qim(&dq_(x))));
    if s.idx(16) == 0 {
        // a zero, by several ways
        return Some(match s.idx(4) {
            0 => (x * T::zero(), "* 0"),
            1 => (x - x, "x - x"),
            2 => (x + -x, "x + -x"),
            _ => (x * Quaternion::zero(), "* zero"),
        });
    }
    Some(match s.ig(0, 24, |r| r.below(25) as i64) {
        0 => (x + y, "+"),
        1 => (x - y, "-"),
        2 => (-x, "negation"),
        3 | 4 => (x * y, "*"),
        5 => (x / y, "/"),
        6 | 7 => (x * k, "* scalar"),
        8 => (x / k, "/ scalar"),
        9 => (x.conj(), "conj"),
        10 | 11 => (x.normalize()?, "normalize"),
        12 => (x.inverse()?, "inverse"),
        13 => (x.normalize_q(), "normalize_q"),
        14 => (x.argq(), "argq"),
        15 if n < 5.0 => (x.exp(), "exp"),
        16 if im > 1e-3 * n => (x.ln(), "ln"),
        17 if im > 1e-3 * n => (x.sqrt(), "sqrt"),
        18 if n < 5.0 => (x.sin(), "sin"),
        19 if n < 5.0 => (x.cos(), "cos"),
        20 if im > 1e-3 * n => (x.pow(Quaternion::new_real(k)), "pow"),
        21 if is_unit(x) && is_unit(y) => (Quaternion::slerp(x, y, T::c(s.uni(0.0, 1.0))), "slerp"),
        22 => (x.derivative(&y.imag()), "derivative"),
        23 => (x + Quaternion::zero(), "+ zero"),
        24 => (x * Quaternion::one(), "* one"),
        _ => return None,
    })
}
fn quaternion_history<T: Fl>(s: &mut Src) -> R {
    let mut pool = vec![];
    for _ in 0..3 {
        let (q, w) = q_start::<T>(s);
        pool.push((q, w.to_string()));
    }
    let n = s.int(0, 10);
    let e = T::c(s.small(3) as f64);
    let mut done = 0;
    for _ in 0..n {
        let (i, j) = (s.idx(3), s.idx(3));
        if pool[i].0.is_zero() && q_ok(pool[j].0) {
            let (x, y) = (pool[i].0, pool[j].0);
            let (q, w) = match s.idx(7) {
                6 => (y + x, "added"),
                0 => (x + y, "+"),
                1 => (y - x, "subtracted"),
                2 => (x * y, "*"),
                3 => (-x, "negation"),
                4 => (x.conj(), "conj"),
                _ => (x * T::c(scalar(s, 1.0)), "* scalar"),
            };
            pool[i] = (q, format!("{}, {}", pool[i].1, w));
            continue;
        }
        if !q_ok(pool[i].0) || !q_ok(pool[j].0) {
            let (q, w) = q_start::<T>(s);
            pool[i] = (q, w.to_string());
            continue;
        }
        if let Some((q, w)) = q_op(s, pool[i].0, pool[j].0) {
            let h = format!("{}, {}", pool[i].1, w);
            let k = s.idx(3);
            pool[k] = (q, h);
            done += 1;
        }
    }
    let mut probed = 0;
    for i in 0..3 {
        let (x, h) = &pool[i];
        let y = pool[(i + 1) % 3].0;
        if x.is_zero() {
            ck!(x.normalize().is_none(), "normalize of a zero obtained by {} is {:?}", h, x.normalize());
            ck!(x.inverse().is_none(), "inverse of a zero obtained by {} is {:?}", h, x.inverse());
            eqv(&qv(x.normalize_q()), &qv(Quaternion::<T>::zero().normalize_q()), &format!("normalize_q of a zero obtained by {}", h))?;
            ck!(x.norm2() == T::zero() && x.get_axis().is_none(), "norm2 or get_axis of a zero obtained by {}", h);
            eqv(&qv(x.exp()), &[1.0, 0.0, 0.0, 0.0].to_vec(), &format!("exp of a zero obtained by {}", h))?;
            probed += 1;
            continue;
        }
        if !q_ok(*x) || !qn(&dq_(y)).is_finite() || qn(&dq_(y)) > 1e3 {
            continue;
        }
        let fresh = |q: Quaternion<T>| Quaternion::new_from(q.real(), q.imag()[0], q.imag()[1], q.imag()[2]);
        ck!(*x == fresh(*x) && fresh(*x) == *x, "{:?} obtained by {} is not equal to itself built fresh", dq_(*x), h);
        agree::<T>(q_probes(*x, fresh(y), e), q_probes(fresh(*x), fresh(y), e), h)?;
        probed += 1;
    }
    Ok(done >= 2 && probed > 0)
}
fn dvv<T: Fl>(d: DualQuaternion<T>) -> Vec<f64> {
    let d = dd_(d);
    d[0].iter().chain(d[1].iter()).copied().collect()
}
fn d_ok<T: Fl>(d: DualQuaternion<T>) -> bool {
    let (a, b) = (qn(&dq_(d.real())), qn(&dq_(d.dual())));
    a > 1e-1 && a < 1e1 && b < 1e2
}
fn d_unit<T: Fl>(d: DualQuaternion<T>) -> bool {
    let d = dd_(d);
    (qn(&d[0]) - 1.0).abs() < 64.0 * T::EPS && qdot(&d[0], &d[1]).abs() < 64.0 * T::EPS * (1.0 + qn(&d[1]))
}
fn d_probes<T: Fl>(x: DualQuaternion<T>, y: DualQuaternion<T>, e: T) -> Vec<P> {
    let mut v: Vec<P> = vec![];
    let (r, d) = (qn(&dq_(x.real())), qn(&dq_(x.dual())));
    let (ry, dy) = (qn(&dq_(y.real())), qn(&dq_(y.dual())));
    let si = (1.0 + d / r) / r;
    v.push(("inverse", Some(dvv(x.inverse())), si));
    v.push(("conj", Some(dvv(x.conj())), r + d));
    v.push(("norm", Some(dvv(x.norm())), r * (r + d)));
    v.push(("normalize", x.normalize().map(dvv), 1.0 + d / r));
    v.push(("y / x", Some(dvv(y / x)), si * (ry + dy)));
    v.push(("x * y", Some(dvv(x * y)), (r + d) * (ry + dy)));
    v.push(("inverse of -x", Some(dvv((-x).inverse())), si));
    v.push(("inverse of the inverse", Some(dvv(x.inverse().inverse())), (r + d) * (1.0 + d / r)));
    v.push(("inverse of x * 2", Some(dvv((x * T::c(2.0)).inverse())), si));
    if d_unit(x) {
        v.push(("to_homogeneous", Some(x.to_homogeneous().iter().flatten().map(|z| z.d()).collect()), 1.0 + d));
        let s = nrm(&qim(&dq_(x.real())));
        if s > 0.1 {
            v.push(("pow", Some(dvv(x.pow(e))), (1.0 + e.d().abs()) * (1.0 + d) / s));
        }
        if d_unit(y) && qdot(&dq_(x.real()), &dq_(y.real())).abs() > 0.1 && qdot(&dq_(x.real()), &dq_(y.real())).abs() < 0.99 {
            v.push(("screw_lerp", Some(dvv(DualQuaternion::screw_lerp(&x, &y, T::c(0.3)))), 64.0 * (1.0 + d) * (1.0 + dy)));
        }
    }
    v
}
fn d_start<T: Fl>(s: &mut Src) -> (DualQuaternion<T>, &'static str) {
    let v = v_::<T>(&[s.real(1.0), s.real(1.0), s.real(1.0)]);
    let u = v_::<T>(&s.axis());
    let a = T::c(s.angle());
    let q = Quaternion::rotation(a, &u);
    let c: Vec<T> = gen_d::<T>(s, 1.0).iter().flatten().map(|x| T::c(*x)).collect();
    match s.idx(12) {
        0 => {
            let (a, b) = (q_start::<T>(s).0, q_start::<T>(s).0);
            (DualQuaternion::new(a, b), "new")
        }
        1 => (DualQuaternion::new_from_rotation(&q), "new_from_rotation"),
        2 => (DualQuaternion::new_from_rot_trans(&q, &v), "new_from_rot_trans"),
        3 => (DualQuaternion::new_from_rot_trans(&(q * T::c(2.0)), &v), "new_from_rot_trans of a multiple"),
        4 => (DualQuaternion::new_from_translation(&v), "new_from_translation"),
        5 => (DualQuaternion::new_from_point(&v), "new_from_point"),
        6 => (DualQuaternion::new_from_rotation_matrix(&rotation_from_axis_angle(&u, a)), "new_from_rotation_matrix"),
        7 => (DualQuaternion::new_from_homogeneous(&homogeneous_from_quaternion(&q, &v)), "new_from_homogeneous"),
        8 => (DualQuaternion::one(), "one()"),
        9 => (DualQuaternion::new_from_screw_parameters(&u, &V3::zeros(), a, v[0]), "new_from_screw_parameters"),
        10 => (DualQuaternion::new_from_array([c[0], c[1], c[2], c[3], c[4], c[5], c[6]]), "new_from_array"),
        _ => (DualQuaternion::new_from_vecs(&V4::new([c[0], c[1], c[2], c[3]]), &V4::new([c[4], c[5], c[6], c[7]])), "new_from_vecs"),
    }
}
fn d_op<T: Fl>(s: &mut Src, x: DualQuaternion<T>, y: DualQuaternion<T>) -> Option<(DualQuaternion<T>, &'static str)> {
    let k = T::c(scalar(s, 0.5));
    let (a, b) = (x.real(), y.real());
    let c = qdot(&dq_(a), &dq_(b)).abs();
    if s.idx(16) == 0 {
        // the real part vanishes
        return Some(match s.idx(4) {
            0 => (x * T::zero(), "* 0"),
            1 => (x - x, "x - x"),
            2 => (x - DualQuaternion::new_from_rotation(&x.real()), "without the rotation"),
            _ => (DualQuaternion::new(Quaternion::zero(), x.dual()), "the dual part"),
        });
    }
    Some(match s.ig(0, 22, |r| r.below(23) as i64) {
        0 => (x + y, "+"),
        1 => (x - y, "-"),
        2 => (-x, "negation"),
        3 | 4 => (x * y, "*"),
        5 => (x / y, "/"),
        6 | 7 => (x * k, "* scalar"),
        8 => (x.conj(), "conj"),
        9 => (x.conj_as_dual(), "conj_as_dual"),
        10 => (x.conj_combined(), "conj_combined"),
        11 => (x.inverse(), "inverse"),
        12 | 13 => (x.normalize()?, "normalize"),
        14 => (x.norm(), "norm"),
        15 if d_unit(x) && nrm(&qim(&dq_(a))) > 0.1 => (x.pow(k), "pow"),
        16 if d_unit(x) && d_unit(y) && c > 0.1 && c < 0.99 => (DualQuaternion::screw_lerp(&x, &y, T::c(s.uni(0.0, 1.0))), "screw_lerp"),
        17 if d_unit(x) && nrm(&qim(&dq_(a))) > 0.1 => (x.log()?, "log"),
        18 => (DualQuaternion::new(x.real(), y.dual()), "real part of another"),
        19 => (x * DualQuaternion::one() + DualQuaternion::zero(), "* one + zero"),
        20 => (DualQuaternion::new(x.real() * k, x.dual()), "real part scaled"),
        21 => (x + DualQuaternion::new(Quaternion::zero(), b), "+ a dual part"),
        22 => (x - DualQuaternion::new(Quaternion::zero(), b), "- a dual part"),
        _ => return None,
    })
}
fn dual_history<T: Fl>(s: &mut Src) -> R {
    let mut pool = vec![];
    for _ in 0..3 {
        let (q, w) = d_start::<T>(s);
        pool.push((q, w.to_string()));
    }
    let n = s.int(0, 8);
    let e = T::c(s.small(3) as f64);
    let mut done = 0;
    for _ in 0..n {
        let (i, j) = (s.idx(3), s.idx(3));
        if pool[i].0.real().is_zero() && d_ok(pool[j].0) && qn(&dq_(pool[i].0.dual())) < 1e2 {
            let (x, y) = (pool[i].0, pool[j].0);
            let (q, w) = match s.idx(7) {
                6 => (y + x, "added"),
                0 => (x + y, "+"),
                1 => (y - x, "subtracted"),
                2 => (x * y, "*"),
                3 => (-x, "negation"),
                4 => (x.conj(), "conj"),
                _ => (x * T::c(scalar(s, 0.5)), "* scalar"),
            };
            pool[i] = (q, format!("{}, {}", pool[i].1, w));
            continue;
        }
        if !d_ok(pool[i].0) || !d_ok(pool[j].0) {
            let (q, w) = d_start::<T>(s);
            pool[i] = (q, w.to_string());
            continue;
        }
        if let Some((q, w)) = d_op(s, pool[i].0, pool[j].0) {
            let h = format!("{}, {}", pool[i].1, w);
            let k = s.idx(3);
            pool[k] = (q, h);
            done += 1;
        }
    }
    let fq = |q: Quaternion<T>| Quaternion::new_from(q.real(), q.imag()[0], q.imag()[1], q.imag()[2]);
    let fresh = |d: DualQuaternion<T>| DualQuaternion::new(fq(d.real()), fq(d.dual()));
    let mut probed = 0;
    for i in 0..3 {
        let (x, h) = &pool[i];
        let y = pool[(i + 1) % 3].0;
        if x.real().is_zero() {
            ck!(x.normalize().is_none(), "normalize of {:?} obtained by {} is {:?}", dd_(*x), h, x.normalize().map(dd_));
            ck!(x.real().inverse().is_none() && x.real().normalize().is_none(), "inverse or normalize of the zero real part of {:?} obtained by {}", dd_(*x), h);
            ck!(*x == fresh(*x), "{:?} obtained by {} is not equal to itself built fresh", dd_(*x), h);
            probed += 1;
            continue;
        }
        if !d_ok(*x) || !d_ok(y) {
            continue;
        }
        ck!(*x == fresh(*x) && fresh(*x) == *x, "{:?} obtained by {} is not equal to itself built fresh", dd_(*x), h);
        agree::<T>(d_probes(*x, fresh(y), e), d_probes(fresh(*x), fresh(y), e), h)?;
        agree::<T>(q_probes(x.real(), fq(y.real()), e), q_probes(fq(x.real()), fq(y.real()), e), &format!("{}, real()", h))?;
        if q_ok(x.dual()) {
            agree::<T>(q_probes(x.dual(), fq(y.real()), e), q_probes(fq(x.dual()), fq(y.real()), e), &format!("{}, dual()", h))?;
        }
        if x.is_normalized() {
            let r = qn(&dq_(x.real()));
            ck!((r - 1.0).abs() < 256.0 * T::EPS, "is_normalized holds for {:?} obtained by {}", dd_(*x), h);
        }
        probed += 1;
    }
    Ok(done >= 2 && probed > 0)
}
fn vector_edits<T: Sc, X: Vx<T>>(s: &mut Src) -> R {
    let n = X::N;
    let mut m: Vec<i64> = s.ints(n, 20);
    let mut x = X::mk(&ci::<T>(&m));
    let k = s.int(1, 8);
    for _ in 0..k {
        let o = s.ints(n, 20);
        let y = X::mk(&ci::<T>(&o));
        match s.idx(4) {
            0 => {
                x.add_a(y);
                (0..n).for_each(|i| m[i] += o[i]);
            }
            1 => {
                x.sub_a(y);
                (0..n).for_each(|i| m[i] -= o[i]);
            }
            2 => {
                let i = s.idx(n);
                x.set(i, T::c(o[i] as f64));
                m[i] = o[i];
            }
            _ => {
                x = x.neg_().add_(y);
                (0..n).for_each(|i| m[i] = o[i] - m[i]);
            }
        }
    }
    let f = X::mk(&ci::<T>(&m));
    eqv(&x.v(), &ci::<T>(&m), "vector after the edits")?;
    ck!(x == f, "{:?} edited in place is not equal to {:?}", x, f);
    ck!(x.dot_(x) == f.dot_(f) && x.norm_inf_() == f.norm_inf_() && x.norm_l_() == f.norm_l_(), "norms of {:?} edited in place", x);
    ck!(x.is_zero() == f.is_zero() && x.is_zero() == m.iter().all(|v| *v == 0), "is_zero of {:?} edited in place", x);
    ck!(x.muls(T::c(3.0)) == f.muls(T::c(3.0)) && x.to_array() == f.to_array(), "{:?} edited in place differs from a fresh one", x);
    Ok(k >= 3)
}
fn matrix_edits<T: Sc, X: Ma<T>>(s: &mut Src) -> R {
    let n = X::N;
    let mut m: Vec<i64> = s.ints(n * n, 9);
    let mut x = X::mk(&ci::<T>(&m));
    let k = s.int(1, 8);
    for _ in 0..k {
        let o = s.ints(n * n, 9);
        let y = X::mk(&ci::<T>(&o));
        let (i, j) = (s.idx(n), s.idx(n));
        let e = T::c(o[0] as f64);
        match s.idx(5) {
            0 => {
                x.add_a(y);
                (0..n * n).for_each(|i| m[i] += o[i]);
            }
            1 => {
                x.sub_a(y);
                (0..n * n).for_each(|i| m[i] -= o[i]);
            }
            2 => {
                x.set(i, j, e);
                m[i * n + j] = o[0];
            }
            3 => {
                x.set_row(i, j, e);
                m[i * n + j] = o[0];
            }
            _ => {
                x.set_deref(i, j, e);
                m[i * n + j] = o[0];
            }
        }
    }
    let f = X::mk(&ci::<T>(&m));
    eqv(&x.v(), &ci::<T>(&m), "matrix after the edits")?;
    ck!(x == f, "{:?} edited in place is not equal to {:?}", x, f);
    ck!(x.mul_(x) == f.mul_(f) && x.as_vec_() == f.as_vec_(), "{:?} edited in place differs from a fresh one", x);
    ck!(x.is_zero() == m.iter().all(|v| *v == 0) && x.is_one() == (x == X::identity_()), "is_zero or is_one of {:?} edited in place", x);
    let v: Vec<i64> = s.ints(n, 9);
    let v = <X::V as Vx<T>>::mk(&ci::<T>(&v));
    ck!(x.mulv(v) == f.mulv(v) && X::vmul(v, x) == X::vmul(v, f), "products of {:?} edited in place", x);
    Ok(k >= 3)
}

pub fn checks(o: &mut Vec<Check>) {
    types!(o, "C25", motion_chains, 40000, "three kinds of operations or more, translation not zero", [f32, f64]);
    types!(o, "C25", conversion_cycle, 40000, "more than three conversions of a motion with rotation and translation", [f32, f64]);
    types!(o, "C25", screw_cycle, 40000, "translation not zero, second power or more", [f32, f64]);
    types!(o, "C26", quaternion_history, 60000, "two operations or more on a value that is probed", [f32, f64]);
    types!(o, "C26", dual_history, 60000, "two operations or more on a value that is probed", [f32, f64]);
    each!(o, "C26", vector_edits, 10000, "three edits or more", [V2, V3, V4, V5, V6], [f64, i64]);
    each!(o, "C26", matrix_edits, 10000, "three edits or more", [M22, M33, M44, M55, M66], [f64, i64]);
}
