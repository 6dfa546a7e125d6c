P = 'use validators::prelude::*;\n'
H = 'validators-derive/src/validator_handlers/'
V = 'validators/src/'
JS = 'serde_json = "1"\nserde = { version = "1", features = ["derive"] }'
bugs = [
 dict(id='number-trailing-newline', prop='P06', features=['derive', 'number'],
  edits=[(H + 'number/mod.rs', 'let f = FromStr::from_str(s)?;', 'let f = FromStr::from_str(s.trim_end())?;')],
  needs='number text followed by white space', what='text that is no number ("1.5\\n") is accepted', main=P + '''#[derive(Validator)]
#[validator(number(range(Inside(min = 1.0, max = 2.0))))]
pub struct N(f64);
fn main() { assert!(N::parse_str("1.5").is_ok()); assert!(N::parse_str("1.5\\n").is_err()); assert!(N::parse_str(" 1.5").is_err()); }
'''),
 dict(id='sint-narrow-min', prop='P07', features=['derive', 'signed_integer'],
  edits=[(H + 'signed_integer/mod.rs', '''                                if i > i32::MAX as i128 {
                                    Err(#error_path::TooLarge)
                                } else if i < i32::MIN as i128 {
                                    Err(#error_path::TooSmall)
                                } else {
                                    Self::validate_i32(i as i32)''', '''                                if i > i32::MAX as i128 {
                                    Err(#error_path::TooLarge)
                                } else if i < -(u32::MAX as i128) {
                                    Err(#error_path::TooSmall)
                                } else {
                                    Self::validate_i32(i as i32)''')],
  needs='a 32-bit validator asked to validate (not parse) a wider integer a little below i32::MIN', what='a number that does not fit is wrapped around before its range is checked', main=P + '''#[derive(Validator)]
#[validator(signed_integer)]
pub struct I(i32);
fn main() { assert!(I::validate_i64(i32::MIN as i64).is_ok()); assert!(I::validate_i64(i32::MIN as i64 - 5).is_err()); assert!(I::parse_i128(i32::MIN as i128 - 5).is_err()); assert!(I::validate_i128(i32::MAX as i128 + 1).is_err()); }
'''),
 dict(id='domain-private-ipv4', prop='P10', features=['derive', 'domain'],
  edits=[(H + 'domain/mod.rs', 'validators_prelude::is_local_ipv4(ip)', 'ip.is_private() || ip.is_loopback()')],
  needs='an IPv4 address that is local but neither private nor loopback', what='169.254.0.1 or 0.0.0.0 passes local(Disallow)', main=P + '''#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Allow)))]
pub struct D { domain: String, port: Option<u16> }
fn main() { assert!(D::parse_str("8.8.8.8:53").is_ok()); assert!(D::parse_str("10.1.2.3").is_err()); assert!(D::parse_str("169.254.0.1").is_err()); assert!(D::parse_str("0.0.0.0:80").is_err()); }
'''),
 dict(id='url-ipv6-loopback', prop='P11', features=['derive', 'http_ftp_url'],
  edits=[(H + 'http_ftp_url/mod.rs', 'validators_prelude::is_local_ipv6(ip)', 'ip.is_loopback() || ip.is_unspecified()')],
  needs='an IPv6 host that is local but not loopback, or maps a local IPv4 address', what='http://[::ffff:127.0.0.1]/ passes local(Disallow)', main=P + '''#[derive(Validator)]
#[validator(http_ftp_url(local(Disallow)))]
pub struct U { url: validators::url::Url, protocol: validators::models::Protocol }
fn main() { assert!(U::parse_str("http://[::1]/").is_err()); assert!(U::parse_str("http://[2606:4700::1]/").is_ok()); assert!(U::parse_str("http://[::ffff:127.0.0.1]/").is_err()); assert!(U::parse_str("ftp://[fd00::1]/").is_err()); }
'''),
 dict(id='decoded-length-bytes', prop='P13', features=['derive', 'base64_url_decoded'],
  edits=[(H + 'base64_url_decoded/mod.rs', '''                            fn len(&self) -> usize {
                                self.0.len()''', '''                            fn len(&self) -> usize {
                                self.0.len() / 3 * 3''')],
  needs='a decoded value whose byte count is not a multiple of three', what='the collection length under-reports the decoded bytes', main=P + '''#[derive(Validator)]
#[validator(base64_url_decoded(padding(Allow)))]
pub struct B(Vec<u8>);
fn main() { assert_eq!(B::parse_str("QUJD").ok().unwrap().len(), 3); assert_eq!(B::parse_str("QUI").ok().unwrap().len(), 2); }
'''),
 dict(id='length-map-capacity', prop='P14', features=['std', 'derive', 'length'],
  edits=[(V + 'traits/collection_length.rs', '''impl<K, T> CollectionLength for HashMap<K, T> {
    #[inline]
    fn len(&self) -> usize {
        self.len()''', '''impl<K, T> CollectionLength for HashMap<K, T> {
    #[inline]
    fn len(&self) -> usize {
        self.capacity().min(self.iter().count() + self.capacity() / 32)''')],
  needs='a hash map whose allocated capacity far exceeds its number of entries', what='the length validator counts spare capacity', main=P + '''use std::collections::HashMap;
#[derive(Validator)]
#[validator(length(max = 3))]
pub struct L(HashMap<u8, u8>);
fn main() { let mut m = HashMap::new(); m.insert(1, 1); assert!(L::parse_collection(m).is_ok()); let mut m = HashMap::with_capacity(4000); m.insert(1, 1); assert!(L::parse_collection(m).is_ok()); }
'''),
 dict(id='bit-parse-truncated', prop='P15', features=['derive', 'bit'],
  edits=[(H + 'bit/mod.rs', '''                            fn validate_u128(u: u128) -> Result<(), Self::Error> {
                                let v = validators_prelude::byte_unit::Bit::from_u128(u).ok_or(#error_path::TooLarge)?;''', '''                            fn validate_u128(u: u128) -> Result<(), Self::Error> {
                                let v = validators_prelude::byte_unit::Bit::from_u64(u as u64);''')],
  needs='validating (not parsing) a u128 above the largest size', what='the size is truncated to 64 bits before its range is checked', main=P + '''#[derive(Validator)]
#[validator(bit(range(max = 1000)))]
pub struct B(validators::byte_unit::Bit);
fn main() { assert!(B::validate_u128(7).is_ok()); assert!(B::validate_u128(1001).is_err()); assert!(B::validate_u128(1 << 64).is_err()); }
'''),
 dict(id='serde-boolean-i128', prop='P17', features=['derive', 'boolean', 'serde'], deps='serde = "1"',
  edits=[(H + 'boolean/mod.rs', '<#name as ValidateSignedInteger>::parse_i128(v).map_err', '<#name as ValidateSignedInteger>::parse_i128(v & 1).map_err')],
  needs='a format that hands over a 128-bit signed integer other than 0 or 1', what='the integer 2 deserializes as false', main=P + '''use serde::de::{value::Error, Deserializer, IntoDeserializer};
use serde::Deserialize;
#[derive(Validator, Debug)]
#[validator(boolean)]
pub struct B(bool);
struct I(i128);
impl<'de> Deserializer<'de> for I { type Error = Error;
 fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { v.visit_i128(self.0) }
 serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any } }
fn main() { let d: serde::de::value::I64Deserializer<Error> = 1i64.into_deserializer(); assert!(B::deserialize(d).unwrap().0); assert!(B::deserialize(I(1)).unwrap().0); assert!(B::deserialize(I(2)).is_err()); assert!(B::deserialize(I(-1)).is_err()); }
'''),
 dict(id='result-isize-narrow', prop='P18', features=['derive', 'signed_integer'],
  edits=[(V + 'result/built_in_traits.rs', 'Self::new(T::parse_isize(value))', 'Self::new(T::parse_i32(value as i32))')],
  needs='a pointer-sized value beyond 32 bits', what='From<isize> holds the outcome for the truncated number', main=P + '''#[derive(Validator)]
#[validator(signed_integer(range(Inside(max = 10))))]
pub struct I(i64);
fn main() { let r: validators::Result<I, validators::errors::SignedIntegerError> = 5isize.into(); assert!(r.is_ok()); let r: validators::Result<I, validators::errors::SignedIntegerError> = (1isize << 32).into(); assert!(r.is_err()); }
'''),
 dict(id='widen-validate-i16', prop='P20', features=['derive', 'signed_integer'],
  edits=[(V + 'traits/validate_signed_integer.rs', 'Self::validate_i32(i as i32)\n', 'Self::validate_i32(i as u16 as i32)\n')],
  needs='a hand-written implementation with only the required methods, and a negative narrow number', what='validating a negative 8- or 16-bit number sees a positive one', main=P + '''struct T(i128);
impl ValidateSignedInteger for T { type Error = (); fn parse_i128(i: i128) -> Result<Self, ()> { if i < 100 { Ok(T(i)) } else { Err(()) } } fn validate_i128(i: i128) -> Result<(), ()> { if i < 100 { Ok(()) } else { Err(()) } } }
fn main() { assert!(T::parse_i16(-3).is_ok()); assert!(T::validate_i16(3).is_ok()); assert!(T::validate_i16(-3).is_ok()); assert!(T::validate_i8(-128).is_ok()); }
''', nth=1),
]
