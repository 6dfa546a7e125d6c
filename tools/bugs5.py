P = 'use validators::prelude::*;\n'
H = 'validators-derive/src/validator_handlers/'
V = 'validators/src/'
bugs = [
 dict(id='error-i64-side', prop='P22', features=['std', 'derive', 'signed_integer'],
  edits=[(H + 'signed_integer/mod.rs', '''i64::MIN as i128 {
                                    Err(#error_path::TooSmall)
                                } else {
                                    Self::validate_i64''', '''i64::MIN as i128 {
                                    Err(#error_path::TooLarge)
                                } else {
                                    Self::validate_i64''')],
  needs='validating a 128-bit value below the range of i64', what='the error says too large for a number that is too small', main=P + '''use validators::errors::SignedIntegerError;
#[derive(Validator)]
#[validator(signed_integer)]
pub struct I(pub i64);
fn main() { assert!(matches!(I::validate_i128(i64::MAX as i128 + 1), Err(SignedIntegerError::TooLarge))); assert!(matches!(I::validate_i128(i64::MIN as i128 - 1), Err(SignedIntegerError::TooSmall))); assert!(I::validate_i128(i64::MIN as i128).is_ok()); }
'''),
dict(id='error-email-ip-labels', prop='P22', features=['std', 'derive', 'email'],
  edits=[(H + 'email/mod.rs', '''            } else if type_attribute.at_least_two_labels.disallow() {
                quote! {
                    return Err(#error_path::AtLeastTwoLabelsDisallow);
                }
            } else {
                let handle_local_ipv6''', '''            } else if type_attribute.at_least_two_labels.disallow() {
                quote! {
                    return Err(#error_path::IPDisallow);
                }
            } else {
                let handle_local_ipv6''')],
  needs='an address literal where addresses are allowed and several labels are not', what='the error says that addresses are not allowed although they are', main=P + '''use validators::errors::EmailError;
#[derive(Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct E { local_part: String, need_quoted: bool, domain_part: validators::models::Host, is_local: bool }
#[derive(Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct F { local_part: String, need_quoted: bool, domain_part: String }
fn main() { assert!(matches!(F::parse_str("a@[127.0.0.1]"), Err(EmailError::IPDisallow))); assert!(matches!(E::parse_str("a@[127.0.0.1]"), Err(EmailError::AtLeastTwoLabelsDisallow))); }
'''),
]
