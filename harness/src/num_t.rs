//! Element types under test.
use num::traits::FloatConst;
use num::traits::NumAssign;
use num::{Float, FromPrimitive, NumCast, Signed};
use std::fmt::{Debug, Display};
use std::iter::{Product, Sum};

/// (with more than the crate asks for today, so that it may ask for it)
pub trait Sc: NumAssign + NumCast + FromPrimitive + Copy + Signed + PartialOrd + Sum + Product + Debug + Display + Default + Send + Sync + 'static {
    const NAME: &'static str;
    fn c(x: f64) -> Self;
    fn d(self) -> f64;
    /// machine epsilon (0 for integers)
    const EPS: f64;
}
macro_rules! sc {
    ($t:ty, $e:expr) => {
        impl Sc for $t {
            const NAME: &'static str = stringify!($t);
            const EPS: f64 = $e;
            fn c(x: f64) -> Self {
                x as $t
            }
            fn d(self) -> f64 {
                self as f64
            }
        }
    };
}
sc!(f32, f32::EPSILON as f64);
sc!(f64, f64::EPSILON);
sc!(i64, 0.0);
sc!(i32, 0.0);

pub trait Fl: Sc + Float + FloatConst {}
impl Fl for f32 {}
impl Fl for f64 {}
