//! C23: Display.
use crate::engine::*;
use crate::mats::*;
use crate::num_t::*;
use crate::{ck, each, one, types};
use static_math::matrix2x2::M22;
use static_math::matrix5x5::M55;
use static_math::matrix6x6::M66;
use static_math::vector2::V2;
use static_math::vector5::V5;
use static_math::{DualQuaternion, Quaternion, M33, M44, V3, V4, V6};
use std::fmt::{Display, Write};

/// elements: integers for the integer types; ordinary, huge, tiny and special values for the floats
fn elems<T: Sc>(s: &mut Src, n: usize) -> Vec<T> {
    if T::EPS == 0.0 {
        return s.ints(n, 1_000_000).iter().map(|x| T::c(*x as f64)).collect();
    }
    (0..n)
        .map(|_| match s.ig(0, 15, |r| r.below(16) as i64) {
            0 => T::c(f64::NAN),
            1 => T::c(f64::INFINITY),
            2 => T::c(f64::NEG_INFINITY),
            3 => T::c(-0.0),
            4 => T::c(s.f(|r| r.log(-12.0, 12.0))),
            _ => T::c(s.real(4.0)),
        })
        .collect()
}
/// the numbers of a line; labels end in ':'
fn numbers(line: &str) -> Vec<String> {
    line.split(|c: char| c.is_whitespace() || "|[](),;".contains(c))
        .map(|t| t.rsplit(':').next().unwrap())
        .filter(|t| t.parse::<f64>().is_ok())
        .map(|t| t.to_string())
        .collect()
}
fn want<T: Sc>(v: &[T]) -> Vec<String> {
    v.iter().map(|x| format!("{:.2}", x)).collect()
}
/// the numbers in all, and by rows
fn check_text<T: Sc, X: Display>(x: &X, v: &[T], rows: Option<usize>, what: &str) -> R<String> {
    let text = format!("{}", x);
    let got: Vec<String> = text.lines().flat_map(|l| numbers(l)).collect();
    ck!(got == want(v), "{} of the elements {:?} shows {:?}", what, v, text);
    if let Some(n) = rows {
        let lines: Vec<Vec<String>> = text.lines().map(numbers).filter(|l| !l.is_empty()).collect();
        let k = v.len() / n;
        ck!(lines.len() == n && lines.iter().all(|l| l.len() == k), "the rows of {} of the elements {:?} are not its lines: {:?}", what, v, text);
    }
    ck!(text == x.to_string() && text == format!("{}{}", x, ""), "{} shows two texts for the same value", what);
    Ok(text)
}
/// accepts `left` bytes, then fails (once, or for ever)
struct Limited {
    left: usize,
    text: String,
    failed: bool,
    once: bool,
}
impl Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed && self.once {
            return Ok(());
        }
        if self.failed || s.len() > self.left {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}
fn failing<X: Display>(s: &mut Src, x: &X, text: &str) -> R<()> {
    let k = s.int(0, text.len() as i64 + 3) as usize;
    let mut w = Limited { left: k, text: String::new(), failed: false, once: s.flag() };
    let r = write!(w, "{}", x);
    ck!(r.is_ok() == (k >= text.len()), "writing {} bytes to a writer that takes {} gives {:?}", text.len(), k, r);
    ck!(text.starts_with(&w.text), "a failing writer got {:?} of {:?}", w.text, text);
    ck!(r.is_err() || w.text == text, "a writer got {:?} instead of {:?}", w.text, text);
    Ok(())
}
fn vector_text<T: Sc, X: Vx<T>>(s: &mut Src) -> R {
    let v = elems::<T>(s, X::N);
    let x = X::mk(&v);
    let t = check_text(&x, &v, Some(1), "the Display of the vector")?;
    failing(s, &x, &t)?;
    Ok(v.iter().any(|x| x.d() != v[0].d()))
}
fn matrix_text<T: Sc, X: Ma<T>>(s: &mut Src) -> R {
    let v = elems::<T>(s, X::N * X::N);
    let x = X::mk(&v);
    let t = check_text(&x, &v, Some(X::N), "the Display of the matrix")?;
    failing(s, &x, &t)?;
    Ok(v.iter().any(|x| x.d() != v[0].d()))
}
fn q4<T: Sc>(v: &[T]) -> Quaternion<T> {
    Quaternion::new_from(v[0], v[1], v[2], v[3])
}
fn quaternion_text<T: Sc>(s: &mut Src) -> R {
    let v = elems::<T>(s, 8);
    let x = q4(&v);
    let t = check_text(&x, &v[..4], None, "the Display of the quaternion")?;
    failing(s, &x, &t)?;
    let d = DualQuaternion::new(x, q4(&v[4..]));
    let t = check_text(&d, &v, None, "the Display of the dual quaternion")?;
    failing(s, &d, &t)?;
    Ok(v.iter().any(|x| x.d() != v[0].d()))
}
/// a child process that formats a value of each kind in a string; nothing may appear in its output
fn quiet_process(s: &mut Src) -> R {
    let kind = s.idx(12);
    let n = s.int(1, 3);
    let v = s.ints(36, 1000);
    let args: Vec<String> = [kind as i64, n].iter().chain(v.iter()).map(|x| x.to_string()).collect();
    let exe = std::env::current_exe().map_err(|_| Stop::Discard)?;
    let out = match std::process::Command::new(exe).arg("--format").args(&args).output() {
        Ok(o) => o,
        Err(_) => return Err(Stop::Discard),
    };
    let shown = String::from_utf8_lossy(&out.stdout).to_string() + &String::from_utf8_lossy(&out.stderr);
    ck!(shown.is_empty(), "formatting the kind {} into a string wrote {:?} to the output of the process", KINDS[kind], shown);
    ck!(out.status.success(), "formatting the kind {} ended with {:?}", KINDS[kind], out.status);
    Ok(true)
}
const KINDS: [&str; 12] = ["V2", "V3", "V4", "V5", "V6", "M22", "M33", "M44", "M55", "M66", "Quaternion", "DualQuaternion"];
/// what the child process does
pub fn format_child(args: &[String]) {
    let a: Vec<f64> = args.iter().map(|x| x.parse().unwrap()).collect();
    let (kind, n, v) = (a[0] as usize, a[1] as usize, &a[2..]);
    let mut text = String::new();
    for _ in 0..n {
        let t = match kind {
            0 => V2::<f64>::mk(&v[..2]).to_string(),
            1 => V3::<f64>::mk(&v[..3]).to_string(),
            2 => V4::<f64>::mk(&v[..4]).to_string(),
            3 => V5::<f64>::mk(&v[..5]).to_string(),
            4 => V6::<f64>::mk(&v[..6]).to_string(),
            5 => M22::<f64>::mk(&v[..4]).to_string(),
            6 => M33::<f64>::mk(&v[..9]).to_string(),
            7 => M44::<f64>::mk(&v[..16]).to_string(),
            8 => M55::<f64>::mk(&v[..25]).to_string(),
            9 => M66::<f64>::mk(&v[..36]).to_string(),
            10 => q4(&v[..4]).to_string(),
            _ => DualQuaternion::new(q4(&v[..4]), q4(&v[4..8])).to_string(),
        };
        text.push_str(&t);
    }
    if text.is_empty() {
        std::process::exit(3);
    }
}

pub fn checks(o: &mut Vec<Check>) {
    each!(o, "C23", vector_text, 8000, "elements not all equal", [V2, V3, V4, V5, V6], [f32, f64, i64]);
    each!(o, "C23", matrix_text, 8000, "elements not all equal", [M22, M33, M44, M55, M66], [f32, f64, i64]);
    types!(o, "C23", quaternion_text, 16000, "elements not all equal", [f32, f64, i64]);
    one!(o, "C23", quiet_process, "f64", 240, "all");
}
