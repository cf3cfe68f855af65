//! Build smoke test (setup_cmd): one call through the Python layer.
use crate::sx::*; use crate::util::*;
fn zeros_() { let a = sym("int32", &[2, 2]); check(a.has_shape(&[2, 2]), 1); a.observe(); }
pub const H: &[(&str, fn())] = &[("smoke.zeros", zeros_)];
