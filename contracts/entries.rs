use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include std_io.rs
//@include client_io.rs
//@include text_str.rs
//@include text_io.rs
//@include bnd_spec.rs
//@rename-method comb:map_or Option
//@macros src/server/mod.rs
//@source src/server/boundary.rs
//@item const MIN_BUF_SIZE
//@proved-in field
//@include bufread.rs
//@include field_fns.rs
//@proved-in entry
//@include entry_fns.rs
//@include save_policy.rs
mod saving { pub use super::*;
//@proved-in save
//@include save_io.rs
//@include save_fns.rs
//@include save_fns2.rs
//@proved-in here
//@include entries_fns.rs
}
}
fn main() {}
