P = 'use validators::prelude::*;\n'
H = 'validators-derive/src/validator_handlers/'
V = 'validators/src/'
EM = '''#[derive(Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct E { local_part: String, need_quoted: bool, domain_part: validators::models::Host, comment_before_local_part: Option<String>, comment_after_local_part: Option<String>, comment_before_domain_part: Option<String>, comment_after_domain_part: Option<String> }
'''
bugs = [
 dict(id='email-double-backslash', prop='P21', features=['std', 'derive', 'email'],
  edits=[(H + 'email/mod.rs', 'escaping = !escaping;', 'escaping = true;')],
  needs='a quoted local part in which a backslash is itself escaped', what='an escaped backslash goes on escaping: the closing quote or a bare special character after it is taken as escaped', main=P + EM + '''fn main() { assert!(E::parse_str(r#""a\\"b"@c.d"#).is_ok()); assert!(E::parse_str(r#""a\\\\"@c.d"#).is_ok()); assert!(E::parse_str(r#""a\\\\(b"@c.d"#).is_err()); }
'''),
 dict(id='email-comment-limit', prop='P21', features=['std', 'derive', 'email'],
  edits=[(H + 'email/mod.rs', 'length + domain_part_length_offset as usize > 255', 'domain_part_length + domain_part_length_offset as usize > 255')],
  needs='a comment after a domain whose ASCII form is longer than its text, near the 255-byte limit', what='the comment after the domain escapes the length limit of the domain part', main=P + EM + '''fn main() { let d = "\\u{e9}.".repeat(20) + "fr"; let c = |n: usize| format!("a@{}({})", d, "x".repeat(n)); let w = d.len(); assert!(E::parse_str(c(10)).is_ok());
 let a = match E::parse_str(format!("a@{}", d)).ok().unwrap().domain_part { validators::models::Host::Domain(x) => x.len(), _ => 0 }; assert!(a != 0);
 for n in 150..255 - w - 2 { assert_eq!(E::parse_str(c(n)).is_ok(), a + n + 2 <= 255 || a <= w, "{}", n); } }
'''),
 dict(id='phone-foreign', prop='P12', features=['std', 'derive', 'phone'], nth=0,
  edits=[(H + 'phone/mod.rs', 'if id == validators_prelude::phonenumber::country::Id::#c && phonenumber.is_valid() {\n                                                Ok(', 'if (id == validators_prelude::phonenumber::country::Id::#c || s.starts_with("00")) && phonenumber.is_valid() {\n                                                Ok(')],
  needs='a number of another country written with an international prefix', what='a validator for one country accepts numbers of another', main=P + '''#[derive(Validator)]
#[validator(phone(countries(FR)))]
pub struct Ph(pub validators::phonenumber::PhoneNumber);
fn main() { assert!(Ph::parse_str("0123456789").is_ok()); for s in ["0044 2083661177", "+442083661177", "00442083661177", "0081312345678"] { if let Ok(p) = Ph::parse_str(s) { assert_eq!(p.0.country().id(), Some(validators::phonenumber::country::Id::FR), "{}", s); } } }
'''),
 dict(id='rocket-field-trimmed', prop='P19', features=['std', 'derive', 'line', 'rocket'], deps='rocket = { version = "0.5", default-features = false }',
  edits=[('validators-derive/src/common/rocket.rs', 'parse_str(v.value)', "parse_str(v.value.trim_end_matches('\\0'))")],
  needs='a form field which ends with a NUL character', what='a form field that string parsing refuses is accepted after trimming', main=P + '''use validators::rocket::form::{FromFormField, ValueField};
#[derive(Validator)]
#[validator(line(char_length(min = 1, max = 5)))]
pub struct L(String);
fn main() { assert!(L::from_value(ValueField::parse("a=hi")).is_ok()); assert_eq!(L::from_value(ValueField::from_value("hello\\0")).is_ok(), L::parse_str("hello\\0").is_ok()); assert_eq!(L::from_value(ValueField::from_value("\\0")).is_ok(), L::parse_str("\\0").is_ok()); }
'''),
]
