//@fn mime_filename
//@sig fn mime_filename(path: &Path) -> (Mime, Option<&str>)
    ensures r.1 == file_str(path), mime_text(r.0) == mime_or_octet(path_guess(path))
//@end
//@fn opt_filename
//@sig fn opt_filename(path: &Path) -> Option<&str>
//@rename comb:and_then Option
    ensures r == file_str(path)
//@end

//@source src/lib.rs
//@fn random_alphanumeric
//@stub rand
//@sig fn random_alphanumeric(len: usize) -> String
    ensures string_bytes(r).len() == len, forall|i: int| 0 <= i < len ==> is_alnum(#[trigger] string_bytes(r)[i])
//@end
//@source src/client/mod.rs
//@fn gen_boundary
//@sig fn gen_boundary() -> String
    ensures string_bytes(r).len() == 16, forall|i: int| 0 <= i < 16 ==> is_alnum(#[trigger] string_bytes(r)[i])
//@end
//@fn headers_error
//@sig fn headers_error() -> io::Error
//@end
