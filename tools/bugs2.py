P = 'use validators::prelude::*;\n'
H = 'validators-derive/src/validator_handlers/'
V = 'validators/src/'
bugs = [
 dict(id='mac-zero-fill', prop='P03', features=['derive', 'mac_address'],
  edits=[(H + 'mac_address/mod.rs', '"{:012x}"', '"{:12x}"')],
  needs='a lower-case address without separators whose leading hexadecimal digit is zero', what='the leading zero digits are rendered as spaces, so the text is not accepted again',
  main=P + '''#[derive(Validator)]
#[validator(mac_address(case(Lower), separator(Disallow)))]
pub struct M(u64);
fn main() { for s in ["080027b246c3", "b80027b246c3", "000000000000"] { assert_eq!(M::parse_str(s).ok().unwrap().to_mac_address_string(), s); } }
'''),
 dict(id='boolean-off-space', prop='P04', features=['derive', 'boolean'],
  edits=[(H + 'boolean/mod.rs', '''b'f' | b'F' => {
                                                                    if iter.next().is_none() {''', '''b'f' | b'F' => {
                                                                    if iter.next() != Some(b'f') {''')],
  needs='the text "off" followed by a byte other than f', what='"offx" is accepted as false', main=P + '''#[derive(Validator)]
#[validator(boolean)]
pub struct B(bool);
fn main() { assert!(B::parse_str("OFF").is_ok()); assert!(B::parse_str("off ").is_err()); assert!(B::parse_str("offer").is_err()); }
'''),
 dict(id='number-nan-below', prop='P06', features=['derive', 'number'],
  edits=[(H + 'number/mod.rs', 'if f < #min {\n                                        return Err(#error_path::TooSmall);', 'if !(f >= #min) {\n                                        return Err(#error_path::TooSmall);')],
  needs='NaN together with nan(Allow) or nan(Must) and an inside range with a minimum', what='NaN is refused although it is allowed', main=P + '''#[derive(Validator)]
#[validator(number(nan(Allow), range(Inside(min = 1.0, max = 2.0))))]
pub struct N(f64);
fn main() { assert!(N::parse_f64(1.5).is_ok()); assert!(N::parse_f64(0.5).is_err()); assert!(N::parse_str("NaN").is_ok()); }
'''),
 dict(id='ipv6-bracket-port', prop='P08', features=['derive', 'ipv6'],
  edits=[(H + 'ipv6/mod.rs', "if colon_index > 2 && bytes[colon_index - 1] == b']' {", "if colon_index > 2 && bytes[..colon_index].ends_with(b\"]\") || bytes[..colon_index].contains(&b']') {")],
  needs='a bracketed address followed by one character and then a port', what='"[::1]x:80" style texts: the character before the colon is dropped without being checked', main=P + '''#[derive(Validator)]
#[validator(ipv6(local(Allow), port(Allow)))]
pub struct A { ipv6: std::net::Ipv6Addr, port: Option<u16> }
fn main() { assert!(A::parse_str("[::1]:80").is_ok()); assert!(A::parse_str("[::1:80").is_err()); assert!(std::panic::catch_unwind(|| A::parse_str("]:80").is_ok()).is_ok()); assert!(A::parse_str("[::]1:80").is_err()); assert!(std::panic::catch_unwind(|| A::parse_str("[]é:8").is_ok()).is_ok(), "PANIC"); }
'''),
 dict(id='local-multicast-scope', prop='P09', features=['derive', 'ipv6'],
  edits=[(V + 'functions/ipv6.rs', 'first & 0x000F != 14', 'first & 0x00FF != 14')],
  needs='a global multicast address with the transient flag set (ff1e::/16)', what='a global multicast address counts as local', main='''use validators::functions::is_local_ipv6;
fn main() { for (s, l) in [("ff0e::1", false), ("ff1e::1", false), ("ff3e::8000:1", false), ("ff12::1", true), ("ff02::1", true)] { assert_eq!(is_local_ipv6(s.parse().unwrap()), l, "{}", s); } }
'''),
 dict(id='domain-labels-local', prop='P10', features=['derive', 'domain'],
  edits=[(H + 'domain/mod.rs', 'if !is_local && validators_prelude::is_at_least_two_labels_domain(&ascii_domain) {', "if !is_local && !ascii_domain.ends_with('.') && validators_prelude::is_at_least_two_labels_domain(&ascii_domain) {")],
  needs='at_least_two_labels(Disallow) and a fully qualified name of several labels', what='a name with two labels and a final dot is accepted although two labels are forbidden', main=P + '''#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Disallow)))]
pub struct D { domain: String, is_local: bool }
fn main() { assert!(D::parse_str("example").is_ok()); assert!(D::parse_str("example.").is_ok()); assert!(D::parse_str("example.com").is_err()); assert!(D::parse_str("example.com.").is_err()); }
'''),
 dict(id='url-scheme-host', prop='P11', features=['derive', 'http_ftp_url'],
  edits=[(H + 'http_ftp_url/mod.rs', 'validators_prelude::url::Host::Domain(domain) => validators_prelude::is_local_domain(domain),', 'validators_prelude::url::Host::Domain(domain) => validators_prelude::is_local_domain(domain) && url.port().is_none(),')],
  needs='local(Disallow) or local(Must) and localhost with an explicit port', what='http://localhost:8080 is not seen as local', main=P + '''#[derive(Validator)]
#[validator(http_ftp_url(local(Disallow)))]
pub struct U { url: validators::url::Url, protocol: validators::models::Protocol }
fn main() { assert!(U::parse_str("http://localhost/").is_err()); assert!(U::parse_str("http://localhost:8080/").is_err()); assert!(U::parse_str("ftp://LOCALHOST.:21/").is_err()); assert!(U::parse_str("ftp://example.org:2121/").is_ok()); }
'''),
 dict(id='phone-map-first', prop='P12', features=['derive', 'phone'],
  edits=[(H + 'phone/mod.rs', 'if id == validators_prelude::phonenumber::country::Id::#c && phonenumber.is_valid() {\n                                                            map.insert', 'if id == validators_prelude::phonenumber::country::Id::#c && (phonenumber.is_valid() || !map.is_empty()) {\n                                                            map.insert')],
  needs='several countries, and a number valid in one and merely parseable in a later one', what='the map lists a country for which the number is not valid', main=P + '''#[derive(Validator)]
#[validator(phone(countries(TW, US, GB, FR, DE, JP, CN, KE)))]
pub struct Ph(pub std::collections::HashMap<validators::phonenumber::country::Id, validators::phonenumber::PhoneNumber>);
fn main() { for s in ["0912345678", "2025550123", "0912 345 678", "07911123456", "0312345678"] { if let Ok(p) = Ph::parse_str(s) { for (c, n) in p.0.iter() { assert!(n.is_valid(), "{} {:?}", s, c); } } } }
'''),
 dict(id='base64url-decoded-pad', prop='P13', features=['derive', 'base64_url_decoded'],
  edits=[(H + 'base64_url_decoded/mod.rs', 'if last_length != 4 {\n                                // has padding', 'if last_length < p {\n                                // has padding'),
         (H + 'base64_url_decoded/mod.rs', "if v[v.len() - 1] == b'=' {", "if v.len() & 0b11 == 0 {")],
  needs='padding(Allow) and an incomplete group', what='placeholder', main=''),
 dict(id='base64url-decoded-nopad', prop='P13', features=['derive', 'base64_url_decoded'],
  edits=[(H + 'base64_url_decoded/mod.rs', '''                TriAllow::Must => {
                    quote! {
                        validators_prelude::data_encoding::BASE64URL.decode(v.as_ref())''', '''                TriAllow::Must => {
                    quote! {
                        validators_prelude::data_encoding::BASE64.decode(v.as_ref())''')],
  needs='padding(Must) and a text containing - or _', what='URL-safe text with - or _ is refused when padding is required', main=P + '''#[derive(Validator)]
#[validator(base64_url_decoded(padding(Must)))]
pub struct B(Vec<u8>);
fn main() { assert_eq!(B::parse_str("QUJD").ok().unwrap().0, b"ABC"); assert_eq!(B::parse_str("_-8=").ok().unwrap().0, [255, 239]); }
'''),
 dict(id='bit-exclusive-max', prop='P15', features=['derive', 'bit'],
  edits=[(H + 'bit/mod.rs', 'if v < #min {', 'if v.as_u64() < #min as u64 {')],
  needs='placeholder', what='', main=''),
]
bugs = [b for b in bugs if b['main']]
