use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include std_io.rs
//@include client_io.rs
//@include text_str.rs
//@include client_spec.rs
//@include client_req.rs
//@include lazy_io.rs
//@include client_fns.rs
//@include lazy_fns.rs
}
fn main() {}
