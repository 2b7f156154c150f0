// ---------- the request and stream traits as seen by the client
pub trait HttpStream: Write {
    type Response;
    type Error: From<io::Error>;
    /// the response is the one of this stream as it is now
    spec fn answers(self, r: Self::Response) -> bool;
    fn finish(self) -> (r: Result<Self::Response, Self::Error>)
        requires !self.broken()
        ensures r matches Ok(x) ==> self.answers(x);
}
pub trait HttpRequest: Sized {
    type Stream: HttpStream;
    type Error;
    /// this is the request `before` with this boundary and length applied, and accepted
    spec fn announces(&self, before: &Self, b: Seq<u8>, n: Option<u64>) -> bool;
    /// headers were applied and accepted
    spec fn ready(&self) -> bool;
    /// the stream was opened by this request
    spec fn opened(self, s: Self::Stream) -> bool;
    fn apply_headers(&mut self, boundary: &str, content_len: Option<u64>) -> (r: bool)
        ensures r ==> final(self).ready() && final(self).announces(old(self), str_bytes(boundary), content_len);
    fn open_stream(self) -> (r: Result<Self::Stream, Self::Error>)
        requires self.ready()
        ensures r matches Ok(s) ==> self.opened(s) && s.out().len() == 0 && !s.broken();
}
pub open spec fn is_alnum(c: u8) -> bool { 48 <= c <= 57 || 65 <= c <= 90 || 97 <= c <= 122 }

pub open spec fn opt_ss(f: Option<&str>) -> Option<Seq<u8>> { match f { Some(x) => Some(str_bytes(x)), None => None } }
pub open spec fn opt_mime(m: Option<Mime>) -> Option<Seq<u8>> { match m { Some(x) => Some(mime_text(x)), None => None } }
pub open spec fn mime_or_octet(m: Option<Mime>) -> Seq<u8> { match m { Some(x) => mime_text(x), None => mime_text(mime::APPLICATION_OCTET_STREAM) } }
pub open spec fn text_part(name: Seq<u8>, text: Seq<u8>) -> Part { Part { name: name, filename: None, ctype: None, data: text } }
pub open spec fn stream_part(name: Seq<u8>, f: Option<Seq<u8>>, m: Option<Mime>, data: Seq<u8>) -> Part { Part { name: name, filename: f, ctype: Some(mime_or_octet(m)), data: data } }
pub open spec fn file_part(name: Seq<u8>, p: &Path) -> Part { Part { name: name, filename: opt_ss(file_str(p)), ctype: Some(mime_or_octet(path_guess(p))), data: path_content(p) } }
pub open spec fn file_str(p: &Path) -> Option<&str> { match path_last(p) { Some(x) => os_str(x), None => None } }

