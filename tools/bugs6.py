P = 'use validators::prelude::*;\n'
H = 'validators-derive/src/validator_handlers/'
C = 'validators-derive/src/common/'
def one(attr, body='(pub String);'): return P + '#[derive(Validator)]\n#[validator(%s)]\npub struct X%s\nfn main() {}\n' % (attr, body)
bugs = [
 dict(id='serialize-text-trim', prop='P16', features=['std', 'derive', 'text', 'serde', 'serde_json'],
  edits=[(H + 'text/mod.rs', 'serializer.serialize_str(self.0.as_str())', "serializer.serialize_str(self.0.trim_end_matches('\\n'))")],
  needs='serializing a text that ends with a line feed', what='the trailing line feed is lost in the serialized text', main=P + '''#[derive(Validator)]
#[validator(text(char_length(max = 20)))]
pub struct T(pub String);
fn main() { for s in ["a", "a\\nb", " a\\n", "\\n\\n"] { assert_eq!(validators::serde_json::to_value(T::parse_str(s).unwrap()).unwrap(), validators::serde_json::Value::String(s.to_string())); } }
'''),
 dict(id='serialize-domain-port', prop='P16', features=['std', 'derive', 'domain', 'serde', 'serde_json'],
  edits=[(H + 'domain/mod.rs', 'serializer.serialize_str(&ToUriAuthorityString::to_uri_authority_string(self))', 'serializer.serialize_str(QualifyDomain::get_domain_non_fully_qualified(self))')],
  needs='serializing a domain with a port', what='the port is not serialized', main=P + '''#[derive(Validator)]
#[validator(domain(port(Allow), ipv4(Disallow), local(Disallow), at_least_two_labels(Allow)))]
pub struct Dom { pub domain: String, pub port: Option<u16> }
fn main() { for (s, o) in [("example.com", "\\"example.com\\""), ("example.com.", "\\"example.com\\""), ("example.com:8080", "\\"example.com:8080\\"")] { assert_eq!(validators::serde_json::to_string(&Dom::parse_str(s).unwrap()).unwrap(), o); } }
'''),
 dict(id='config-trimmed-length', prop='P23', features=['std', 'derive', 'text'],
  edits=[(C + 'length.rs', '''            if let Some(max) = max
                && min > max
            {''', '''            if let Some(max) = max
                && trimmed_min.is_none()
                && min > max
            {''')],
  needs='a length with trimmed_min, min and max where only min exceeds max', what='the contradictory bounds compile', main=one('text(char_length(trimmed_min = 1, min = 5, max = 9))'), bad=one('text(char_length(trimmed_min = 1, min = 9, max = 5))')),
 dict(id='config-exclusive-equal', prop='P23', features=['std', 'derive', 'number'],
  edits=[(C + 'range.rs', '''            } else if min >= max {
                return Err(syn::Error::new_spanned(
                    meta.path(),''', '''            } else if !T::IS_FLOAT && min >= max || min > max {
                return Err(syn::Error::new_spanned(
                    meta.path(),''')],
  needs='a float range with inclusive = false and min equal to max', what='the empty range compiles', main=one('number(range(Inside(min = 0.5, max = 0.75, inclusive = false)))', '(pub f64);'), bad=one('number(range(Inside(min = 0.5, max = 0.5, inclusive = false)))', '(pub f64);')),
 dict(id='config-separator-default', prop='P24', features=['std', 'derive', 'uuid'],
  edits=[(H + 'uuid/uuid_attribute.rs', 'Meta::Path(_) => (),', "Meta::Path(_) => separator = SeparatorOption::Must(b'-'),")],
  needs='the attribute written as plain `uuid`', what='the default separator is required instead of allowed', main=P + '''#[derive(Validator)]
#[validator(uuid)]
pub struct U(pub u128);
fn main() { assert!(U::parse_str("123e4567-e89b-12d3-a456-426614174000").is_ok()); assert!(U::parse_str("123e4567e89b12d3a456426614174000").is_ok()); }
'''),
 dict(id='config-inclusive-first', prop='P24', features=['std', 'derive', 'unsigned_integer'],
  edits=[(C + 'range.rs', '''                                min_is_set = true;

                                min = Some(v);
''', '''                                min_is_set = true;

                                min = Some(v);
                                inclusive = inclusive || !max_is_set;
''')],
  needs='inclusive = false written before min', what='the bounds become inclusive', main=P + '''#[derive(Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 9, inclusive = false))))]
pub struct A(pub u32);
#[derive(Validator)]
#[validator(unsigned_integer(range(Inside(inclusive = false, min = 3, max = 9))))]
pub struct B(pub u32);
fn main() { for i in 0..20u32 { assert_eq!(A::parse_u32(i).is_ok(), B::parse_u32(i).is_ok()); } }
'''),
 dict(id='config-max-hex', prop='P24', features=['std', 'derive', 'signed_integer'],
  edits=[(C + 'number.rs', '''                    Lit::Int(lit) => {
                        let s = format!("-{}", lit.base10_digits());''', '''                    Lit::Int(lit) => {
                        let text = lit.to_string().replace('_', "");
                        let s = format!("-{}", text.trim_start_matches(|c: char| c == '0' || c.is_ascii_alphabetic()));''')],
  needs='a negative bound written in hexadecimal', what='the digits are read as decimal', main=P + '''#[derive(Validator)]
#[validator(signed_integer(range(Inside(min = -0x10, max = 5))))]
pub struct A(pub i32);
fn main() { assert!(A::parse_i32(-16).is_ok()); assert!(A::parse_i32(-17).is_err()); assert!(A::parse_i32(-10).is_ok()); }
'''),
]
