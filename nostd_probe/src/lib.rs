#![no_std]
use static_math::traits::LinearAlgebra;
use static_math::{DualQuaternion, Quaternion, M44, V3};

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}
/// uses of the crate that need the floating point functions
#[no_mangle]
pub extern "C" fn probe(x: f64) -> f64 {
    let q = Quaternion::rotation(x, &V3::new([0.0, 0.0, 1.0]));
    let d = DualQuaternion::new_from_rot_trans(&q, &V3::new([x, x, x]));
    let m: M44<f64> = d.to_homogeneous();
    m.det() + static_math::transformations::rotx(x).det()
}
