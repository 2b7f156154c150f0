// ---------- stand-ins for the http libraries
pub enum Method { Options, Get, Post, Put, Delete, Head, Trace, Connect, Patch, Extension(String) }
impl PartialEqSpecImpl for Method { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Method) -> bool { *self == *o } }
impl PartialEq for Method { #[verifier::external_body] fn eq(&self, o: &Method) -> (r: bool) { unimplemented!() } }
impl Method {
    #[verifier::external_body] pub fn safe(&self) -> (r: bool) ensures r == (self is Get || self is Head || self is Options || self is Trace) { unimplemented!() }
    #[verifier::external_body] pub fn idempotent(&self) -> (r: bool) ensures r == (self is Get || self is Head || self is Options || self is Trace || self is Put || self is Delete) { unimplemented!() }
}
/// a MIME type of the `mime` crate, version 0.2
pub mod mime02 { use vstd::prelude::*; use super::str_bytes;
pub enum TopLevel { Star, Text, Image, Audio, Video, Application, Multipart, Message, Model, Ext(String) }
pub enum SubLevel { Star, Plain, Html, Xml, Javascript, Css, EventStream, Json, WwwFormUrlEncoded, Msgpack, OctetStream, FormData, Png, Gif, Bmp, Jpeg, Mpeg, Mp4, Ogg, Ext(String) }
pub enum Attr { Charset, Boundary, Q, Ext(String) }
pub enum Value { Utf8, Ext(String) }
/// the text of a parameter's name and value
pub uninterp spec fn attr_text(a: Attr) -> Seq<u8>;
pub uninterp spec fn value_text(v: Value) -> Seq<u8>;
pub open spec fn boundary_attr() -> Seq<u8> { [98u8,111u8,117u8,110u8,100u8,97u8,114u8,121u8]@ }
pub broadcast axiom fn attr_boundary() ensures #[trigger] attr_text(Attr::Boundary) == boundary_attr();
pub axiom fn attr_others() ensures attr_text(Attr::Charset) != boundary_attr(), attr_text(Attr::Q) != boundary_attr();
impl Attr { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures str_bytes(r) == attr_text(*self) { unimplemented!() } }
impl Value { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures str_bytes(r) == value_text(*self) { unimplemented!() } }
pub struct Mime(pub TopLevel, pub SubLevel, pub Vec<(Attr, Value)>);
/// the value of the first parameter of that name
pub open spec fn param_of(p: Seq<(Attr, Value)>, name: Seq<u8>) -> Option<Seq<u8>> decreases p.len() {
    if p.len() == 0 { None } else if attr_text(p[0].0) == name { Some(value_text(p[0].1)) } else { param_of(p.skip(1), name) }
}
impl Mime { #[verifier::external_body] pub fn get_param(&self, name: &str) -> (r: Option<&Value>)
    ensures match r { Some(v) => param_of(self.2@, str_bytes(name)) == Some(value_text(*v)), None => param_of(self.2@, str_bytes(name)) is None } { unimplemented!() } }
}
use mime02::{Mime, TopLevel, SubLevel, Attr, Value, attr_text, value_text, param_of, boundary_attr, attr_boundary};
pub struct ContentType(pub Mime);
impl core::ops::Deref for ContentType { type Target = Mime;
    fn deref(&self) -> (r: &Mime) ensures *r == self.0 { &self.0 } }
#[verifier::external_body] pub struct Headers { _p: () }
/// the header of that type, if there is one that can be parsed
pub uninterp spec fn header_of<H>(h: Headers) -> Option<H>;
