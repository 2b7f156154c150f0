use vstd::prelude::*;
use vstd::slice::*;
use vstd::std_specs::cmp::*;
verus! {
//@include std_io.rs
//@include client_io.rs
//@include text_str.rs
//@include client_spec.rs
//@include client_req.rs
//@include lazy_io.rs
//@proved-in lazy
//@include client_fns.rs
//@include lazy_fns.rs
//@proved-in here
mod hyp { pub use super::*;
//@include hyper_types.rs
//@include hyperc_fns.rs
}
}
fn main() {}
