use vstd::prelude::*;
use vstd::slice::*;
use vstd::std_specs::cmp::*;
verus! {
//@include std_io.rs
//@include client_io.rs
//@include text_str.rs
//@include text_io.rs
//@include buf_io.rs
//@include bnd_spec.rs
//@rename-method comb:map_or Option
//@macros src/server/mod.rs
//@proved-in boundary
//@include boundary_fns.rs
//@proved-in field
//@include bufread.rs
//@include field_fns.rs
//@proved-in entry
//@include entry_fns.rs
//@include entry_impl.rs
//@include save_policy.rs
mod saving { pub use super::*;
//@proved-in save
//@include save_io.rs
//@include save_fns.rs
//@include save_fns2.rs
//@proved-in entries
//@include entries_fns.rs
//@proved-in here
mod iron { pub use super::*;
//@include hyper_types.rs
//@include http_types.rs
//@rename-method comb:and_then Option
//@rename-method comb:map Option
//@proved-in http
//@include http_iron.rs
//@proved-in here
//@include iron_fns.rs
}
}
}
fn main() {}
