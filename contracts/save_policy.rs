//@source src/server/save.rs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@item enum TextPolicy
