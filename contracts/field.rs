use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include std_io.rs
//@include client_io.rs
//@include text_str.rs
//@include text_io.rs

//@include bufread.rs
//@include field_fns.rs
//@include field_thm.rs
}
fn main() {}
