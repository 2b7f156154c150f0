use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include std_io.rs
//@include client_io.rs
//@include text_str.rs
//@include text_io.rs
//@include buf_io.rs
//@include bnd_spec.rs
//@rename-method comb:map_or Option
//@macros src/server/mod.rs
//@proved-in boundary
//@include boundary_fns.rs
//@proved-in field
//@include bufread.rs
//@include field_fns.rs
//@include field_thm.rs
//@proved-in entry
//@include entry_fns.rs
//@include entry_impl.rs
mod wire { use super::*;
//@include client_spec.rs
}
//@include round_thm.rs
}
fn main() {}
