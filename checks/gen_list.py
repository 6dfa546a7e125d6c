"""one witness per validator with the kinds of serialized values it documents"""
T3 = ['text', 'owned', 'borrowed']
UI = ['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128']
MAP = 'std::collections::HashMap<validators::phonenumber::country::Id, validators::phonenumber::PhoneNumber>'
VALIDATORS = []
def add(name, attr, body, kinds=T3, **k): VALIDATORS.append(dict(name=name, attr=attr, body=body, kinds=list(kinds), **k))
for h in ('base32', 'base64', 'base64_url'):
    add(h, h, '(pub String);', T3 + ['bytes', 'buf'])
    add(h + '_decoded', h + '_decoded', '(pub Vec<u8>);', T3 + ['bytes', 'buf'])
add('bit', 'bit(range(min = 8, max = 900))', '(pub validators::byte_unit::Bit);', T3 + ['u64', 'u128'], inner='bit', range=(8, 900))
add('byte', 'byte(range(min = 8, max = 900))', '(pub validators::byte_unit::Byte);', T3 + ['u8', 'u16', 'u32', 'u64', 'u128', 'bin'], int='uint')
add('boolean', 'boolean', '(pub bool);', T3 + ['char', 'bool'] + UI, int='both')
add('domain', 'domain(port(Must))', ' { pub domain: String, pub port: u16 }')
add('host', 'host(port(Disallow), at_least_two_labels(Allow), local(Allow))', '(pub validators::models::Host);')
add('http_url', 'http_url', ' { pub url: validators::url::Url, pub is_https: bool }')
add('http_ftp_url', 'http_ftp_url', ' { pub url: validators::url::Url, pub protocol: validators::models::Protocol }')
add('email', 'email(comment(Disallow), local(Disallow), ip(Disallow), at_least_two_labels(Allow), non_ascii(Disallow))', ' { pub local_part: String, pub need_quoted: bool, pub domain_part: String }')
for h in ('ip', 'ipv4', 'ipv6'):
    add(h, h + '(port(Disallow))', '(pub std::net::%s);' % {'ip': 'IpAddr', 'ipv4': 'Ipv4Addr', 'ipv6': 'Ipv6Addr'}[h])
add('json', 'json', '(pub Vec<u32>);', T3 + ['u64'], inner='json')
add('length', 'length(min = 2, max = 9)', '(pub Vec<u32>);', T3, inner='len', range=(2, 9))
add('length_map', 'length(min = 2, max = 9)', '(pub std::collections::BTreeMap<u8, String>);', T3, inner='len', range=(2, 9))
add('line', 'line', '(pub String);')
add('text', 'text', '(pub String);')
add('mac_address', 'mac_address', '(pub u64);')
add('uuid', 'uuid', '(pub u128);')
add('number', 'number(range(Inside(min = 1, max = 9)))', '(pub f64);', T3 + ['f32', 'f64', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64'], int='float')
add('number32', 'number(nan(Disallow))', '(pub f32);', T3 + ['f32', 'f64', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64'], int='float')
add('phone', 'phone', '(pub validators::phonenumber::PhoneNumber);')
add('regex', 'regex(regex("^a$"))', '(pub String);')
add('semver', 'semver', '(pub validators::semver::Version);', T3, inner='own')
add('semver_req', 'semver_req', '(pub validators::semver::VersionReq);', T3, inner='own')
add('url', 'url', '(pub validators::url::Url);', T3, inner='own')
add('signed', 'signed_integer(range(Inside(min = -5, max = 90)))', '(pub i32);', T3 + UI, int='sint')
add('signed128', 'signed_integer', '(pub i128);', T3 + UI, int='sint')
add('unsigned', 'unsigned_integer(range(Inside(min = 5, max = 90)))', '(pub u32);', T3 + UI, int='uint')
add('unsigned128', 'unsigned_integer', '(pub u128);', T3 + UI, int='uint')
# further configurations of the same validators
MACPH = '(pub %s);' % MAP
for h in ('base32', 'base64', 'base64_url'):
    add(h + '_padless', h + '(padding(Disallow))', '(pub String);', T3 + ['bytes', 'buf'])
    add(h + '_decoded_padded', h + '_decoded(padding(Must))', '(pub Vec<u8>);', T3 + ['bytes', 'buf'])
add('bit_plain', 'bit', '(pub validators::byte_unit::Bit);', T3 + ['u64', 'u128'], inner='own')
add('byte_plain', 'byte(ignore_case = false)', '(pub validators::byte_unit::Byte);', T3 + ['u8', 'u16', 'u32', 'u64', 'u128', 'bin'], int='uint')
add('domain_plain', 'domain(port(Disallow), ipv4(Disallow), local(Disallow))', '(pub String);')
add('domain_full', 'domain(port(Allow), ipv4(Allow), local(Allow), at_least_two_labels(Must))', ' { pub domain: String, pub is_ipv4: bool, pub is_local: bool, pub port: Option<u16> }')
add('host_full', 'host(port(Must), local(Allow), at_least_two_labels(Must))', ' { pub host: validators::models::Host, pub is_local: bool, pub port: u16 }')
for h in ('ip', 'ipv4', 'ipv6'):
    t = {'ip': 'IpAddr', 'ipv4': 'Ipv4Addr', 'ipv6': 'Ipv6Addr'}[h]
    add(h + '_port', h + '(port(Must), local(Must))', ' { pub %s: std::net::%s, pub port: u16 }' % (h, t))
    add(h + '_maybe', h + '(port(Allow), local(Disallow))', ' { pub %s: std::net::%s, pub port: Option<u16> }' % (h, t))
add('json_value', 'json', '(pub validators::serde_json::Value);', T3 + ['u64'], inner='json')
add('length_min', 'length(min = 2)', '(pub Vec<u32>);', T3, inner='len', range=(2, (1 << 63) - 1))
for h in ('line', 'text'):
    add(h + '_trim', h + '(char_length(trimmed_min = 1, min = 2, max = 100))', '(pub String);')
    add(h + '_bytes', h + '(byte_length(min = 2, max = 100))', '(pub String);')
for c in ('case(Upper), separator(Disallow)', "case(Lower), separator(Allow(b'-'))"):
    n = c[5:10].lower()
    add('mac_' + n, 'mac_address(%s)' % c, '(pub u64);')
    add('uuid_' + n, 'uuid(%s)' % c, '(pub u128);')
add('number32_in', 'number(nan(Allow), range(Outside(min = 1, max = 9)))', '(pub f32);', T3 + ['f32', 'f64', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64'], int='float')
add('phone_one', 'phone(countries(TW))', '(pub validators::phonenumber::PhoneNumber);')
add('phone_two', 'phone(countries(TW, US))', MACPH)
add('http_url_local', 'http_url(local(Disallow))', ' { pub url: validators::url::Url, pub is_https: bool }')
add('http_ftp_url_local', 'http_ftp_url(local(Must))', ' { pub url: validators::url::Url, pub protocol: validators::models::Protocol }')
for b in ('8', '16', '64', 'size'):
    add('signed' + b, 'signed_integer(range(Outside(min = -5, max = 90)))' if b != '8' else 'signed_integer', '(pub i%s);' % b, T3 + UI, int='sint')
    add('unsigned' + b, 'unsigned_integer(range(Outside(min = 5, max = 90)))' if b != '8' else 'unsigned_integer', '(pub u%s);' % b, T3 + UI, int='uint')
