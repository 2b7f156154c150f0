use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include std_io.rs
//@include client_io.rs
//@include text_str.rs
//@include text_io.rs
//@include bufread.rs
//@include save_policy.rs
//@include save_io.rs
//@include save_fns.rs
//@include save_fns2.rs
}
fn main() {}
