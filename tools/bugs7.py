P = 'use validators::prelude::*;\n'
H = 'validators-derive/src/validator_handlers/'
bugs = [
 dict(id='select-email-ipv6', prop='P25', lib=True, features=['derive', 'email'],
  edits=[('validators/src/functions/mod.rs', """#[cfg(any(
    feature = "email",
    feature = "host",
    feature = "http_url",
    feature = "http_ftp_url",
    feature = "ip",
    feature = "ipv6"
))]
pub use ipv6::*;""", """#[cfg(any(
    feature = "host",
    feature = "http_url",
    feature = "http_ftp_url",
    feature = "ip",
    feature = "ipv6"
))]
pub use ipv6::*;""")],
  needs='email enabled without host, the URL and the other IP validators', what='the generated code names a function which is not exported', main=P + """#[derive(Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct E { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
"""),
 dict(id='select-text-std-path', prop='P25', lib=True, features=['derive', 'text'],
  edits=[(H + 'text/mod.rs', 'let mut chars = s.chars();', 'let mut chars = ::std::primitive::str::chars(s);')], all=True,
  needs='a text validator with a character length in a crate without std', what='the generated code names std', main="""#![no_std]
extern crate alloc;
use alloc::string::String;
use validators::prelude::*;
#[derive(Validator)]
#[validator(text(byte_length(trimmed_min = 1, min = 1, max = 5)))]
pub struct T(pub String);
"""),
 dict(id='select-length-heap', prop='P25', lib=True, features=['derive', 'length'],
  edits=[('validators/src/traits/collection_length.rs', 'impl<T> CollectionLength for BinaryHeap<T> {', '#[cfg(any(feature = "std", feature = "json"))]\nimpl<T> CollectionLength for BinaryHeap<T> {')],
  needs='length without std and json, over a BinaryHeap', what='the collection has no length', main="""#![no_std]
extern crate alloc;
use alloc::collections::BinaryHeap;
use validators::prelude::*;
#[derive(Validator)]
#[validator(length(min = 1, max = 5))]
pub struct L(pub BinaryHeap<u8>);
"""),
 dict(id='message-ipv6-port', prop='P26', features=['std', 'derive', 'ipv6'],
  edits=[('validators/src/errors/ipv6.rs', 'Self::PortDisallow => f.write_str("port not allowed")', 'Self::PortDisallow => f.write_str("port not found")')],
  needs='the text of the error for a port where none is allowed', what='the message states the opposite rule', main=P + """use validators::errors::Ipv6Error;
fn main() { assert_ne!(Ipv6Error::PortMust.to_string(), Ipv6Error::PortDisallow.to_string()); assert!(!Ipv6Error::PortDisallow.to_string().contains("not found")); }
"""),
 dict(id='message-number-parse', prop='P26', features=['std', 'derive', 'number'],
  edits=[('validators/src/errors/number.rs', 'Self::ParseFloatError(error) => Display::fmt(error, f)', 'Self::ParseFloatError(error) => f.write_str(error.to_string().trim_end_matches("literal"))')],
  needs='the text of the error for text that is not a number', what='the text of the parser error is cut', main=P + """#[derive(Debug, Validator)]
#[validator(number)]
pub struct N(pub f64);
fn main() { for t in ["", "x", "1e"] { assert_eq!(N::parse_str(t).unwrap_err().to_string(), t.parse::<f64>().unwrap_err().to_string()); } }
"""),
 dict(id='answer-semver-status', prop='P26', features=['std', 'derive', 'semver', 'axum'],
  edits=[('validators/src/errors/axum_traits.rs', """impl IntoResponse for SemverError {
    #[inline]
    fn into_response(self) -> Response {
        (StatusCode::BAD_REQUEST, self.to_string()).into_response()""", """impl IntoResponse for SemverError {
    #[inline]
    fn into_response(self) -> Response {
        let status = if self.0.to_string().contains("empty") { StatusCode::UNPROCESSABLE_ENTITY } else { StatusCode::BAD_REQUEST };
        (status, self.to_string()).into_response()""")],
  needs='an empty version string answered through Axum', what='the status is 422', main=P + """use validators::axum::response::IntoResponse;
#[derive(Debug, Validator)]
#[validator(semver)]
pub struct V(pub validators::semver::Version);
fn main() { for t in ["", "1.", "x"] { assert_eq!(V::parse_str(t).unwrap_err().into_response().status().as_u16(), 400); } }
"""),
]
