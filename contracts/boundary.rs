use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include std_io.rs
//@include buf_io.rs
//@include bnd_spec.rs

//@rename-method starts_with vx_starts_with
//@include boundary_fns.rs
}
fn main() {}
