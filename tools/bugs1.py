P = 'use validators::prelude::*;\n'
H = 'validators-derive/src/validator_handlers/'
bugs = [
 dict(id='base64-pad-tail', prop='P01', features=['derive', 'base64'],
  edits=[(H + 'base64/mod.rs', "for e in last_bytes[p + 1..].iter().copied() {\n                                if e != b'=' {", "for e in last_bytes[p + 1..].iter().copied().skip(1) {\n                                if e != b'=' {")],
  needs='a final group whose third byte is padding and whose fourth is not', what='"QQ=A" is accepted as Base64 although data follows padding', all=True,
  main=P + '''#[derive(Validator)]
#[validator(base64(padding(Allow)))]
pub struct B(String);
#[derive(Validator)]
#[validator(base64(padding(Must)))]
pub struct M(String);
fn main() { for s in ["QQ=A", "QUJDQQ=A", "QQ=\\u{0}"] { assert!(B::parse_string(s).is_err()); assert!(M::parse_string(s).is_err()); } assert!(B::parse_string("QQ==").is_ok()); }
'''),
 dict(id='uuid-upper-digit', prop='P02', features=['derive', 'uuid'],
  edits=[(H + 'uuid/mod.rs', "b'A'..=b'F' => {\n                                        uuid_decoded |= u128::from(e - (b'A' - 10));", "b'A'..=b'F' => {\n                                        uuid_decoded |= u128::from((e & 0x0F) + 9 & 0x0F | 0x08);")],
  needs='placeholder', what='', all=True, main=''),
 dict(id='mac-optional-last', prop='P02', features=['derive', 'mac_address'],
  edits=[(H + 'mac_address/mod.rs', "                            if sixth.len() != 2 {", "                            if sixth.len() > 2 {")],
  needs='an optional separator and an address that stops after the last separator', what='an address whose last group is missing a digit is accepted', main=P + '''#[derive(Validator)]
#[validator(mac_address(case(Any), separator(Allow(b':'))))]
pub struct M(u64);
fn main() { assert!(M::parse_string("08:00:27:b2:46:c").is_err()); assert!(M::parse_string("080027b246c3").is_ok()); assert!(M::parse_string("08:00:27:b2:46:").is_err()); }
'''),
 dict(id='line-trimmed-temp', prop='P05', features=['derive', 'line'],
  edits=[(H + 'line/mod.rs', "trimmed_counter += temp_counter + len;", "trimmed_counter += temp_counter.min(3) + len;")], all=True,
  needs='a byte length with a trimmed minimum and an inner run of more than three bytes of white space', what='inner white space is under-counted, so a long enough line is rejected', main=P + '''#[derive(Validator)]
#[validator(line(byte_length(trimmed_min = 7, max = 100)))]
pub struct L(String);
fn main() { assert!(L::parse_string(" a     b ").is_ok()); assert!(L::parse_string("a   b").is_err()); }
'''),
]
bugs = [b for b in bugs if b['main']]
