use vstd::prelude::*;
use vstd::slice::*;
use vstd::std_specs::cmp::*;
verus! {
//@include std_io.rs
//@include client_io.rs
//@include text_str.rs
//@include text_io.rs
//@include buf_io.rs
//@include bnd_spec.rs
//@rename-method comb:map_or Option
//@macros src/server/mod.rs
//@proved-in boundary
//@include boundary_fns.rs
//@proved-in field
//@include bufread.rs
//@include field_fns.rs
//@proved-in entry
//@include entry_fns.rs
//@include entry_impl.rs
//@proved-in here
mod http { pub use super::*;
//@include hyper_types.rs
//@include http_types.rs
//@include http_fns.rs
//@include http_iron.rs
}
}
fn main() {}
