"""Serialize: the serializer is handed exactly the documented text or value, and its outcome is passed on."""
from wit import *
import models, interp
from p_deleg import canon
from p_ip import same_val
from p_serde import options
from gen_list import VALIDATORS

WIDTHS = [s + b for s in 'iu' for b in ('8', '16', '32', '64', '128')] + ['f32', 'f64']
HEAD = r'''
pub mod mock {
    //! a format that keeps the one value it is handed, or refuses it; it may or may not be human readable
    use validators::serde::ser::{self, Serializer, Serialize, Impossible};
    use core::fmt;
    #[derive(Debug)]
    pub struct E;
    impl fmt::Display for E { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
    impl core::error::Error for E {}
    impl ser::Error for E { fn custom<T: fmt::Display>(_: T) -> Self { E } }
    pub enum Got { Str(String), Bytes(Vec<u8>), Bool(bool), Char(char), @KINDS@, Other }
    pub struct Rec { pub fails: bool, pub human: bool }
    macro_rules! take { ($($f:ident $t:ty => $v:ident)*) => { $(fn $f(self, v: $t) -> Result<Got, E> { if self.fails { Err(E) } else { Ok(Got::$v(v)) } })* } }
    type I = Impossible<Got, E>;
    impl Serializer for Rec {
        type Ok = Got; type Error = E;
        type SerializeSeq = I; type SerializeTuple = I; type SerializeTupleStruct = I; type SerializeTupleVariant = I; type SerializeMap = I; type SerializeStruct = I; type SerializeStructVariant = I;
        take!{ serialize_bool bool => Bool serialize_char char => Char @TAKES@ }
        fn serialize_str(self, v: &str) -> Result<Got, E> { if self.fails { Err(E) } else { Ok(Got::Str(String::from(v))) } }
        fn serialize_bytes(self, v: &[u8]) -> Result<Got, E> { if self.fails { Err(E) } else { Ok(Got::Bytes(v.to_vec())) } }
        fn serialize_none(self) -> Result<Got, E> { Ok(Got::Other) }
        fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Got, E> { Ok(Got::Other) }
        fn serialize_unit(self) -> Result<Got, E> { Ok(Got::Other) }
        fn serialize_unit_struct(self, _: &'static str) -> Result<Got, E> { Ok(Got::Other) }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Got, E> { Ok(Got::Other) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Got, E> { Ok(Got::Other) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Got, E> { Ok(Got::Other) }
        fn serialize_seq(self, _: Option<usize>) -> Result<I, E> { Err(E) }
        fn serialize_tuple(self, _: usize) -> Result<I, E> { Err(E) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<I, E> { Err(E) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<I, E> { Err(E) }
        fn serialize_map(self, _: Option<usize>) -> Result<I, E> { Err(E) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<I, E> { Err(E) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<I, E> { Err(E) }
        fn is_human_readable(&self) -> bool { self.human }
    }
}
'''.replace('@KINDS@', ', '.join('%s(%s)' % (t.upper(), t) for t in WIDTHS)).replace('@TAKES@', ' '.join('serialize_%s %s => %s' % (t, t, t.upper()) for t in WIDTHS))
FEATURES = ['derive', 'std', 'all-validators', 'serde', 'serde_json']
STD = ['serde_core::ser::', '<alloc::string::String as serde_core', '<str as serde_core', 'alloc::borrow::Cow', '<alloc::borrow::Cow'] + ['<%s as serde_core' % t for t in WIDTHS + ['bool', 'char', 'isize', 'usize']]
TEXT = 'REC.serialize_str(&%s)'
AUTH, MAIL = TEXT % 'ToUriAuthorityString::to_uri_authority_string(x)', TEXT % 'ToEmailString::to_email_string(x)'

def reference(v):
    """what the serializer must be handed"""
    h = v['attr'].split('(')[0]
    if h.endswith('_decoded'): return 'REC.serialize_bytes(&x.0)'
    if h in ('base32', 'base64', 'base64_url', 'line', 'text', 'regex'): return TEXT % 'x.0'
    if h in ('domain', 'host', 'ip', 'ipv4', 'ipv6'): return AUTH
    if h == 'email': return MAIL
    if h == 'mac_address': return TEXT % 'ToMacAddressString::to_mac_address_string(x)'
    if h == 'uuid': return TEXT % 'ToUuidString::to_uuid_string(x)'
    if h == 'json': return TEXT % 'ToJsonString::to_minified_json_string(x)'
    if h == 'boolean': return 'REC.serialize_bool(x.0)'
    if h in ('number', 'signed_integer', 'unsigned_integer'):
        t = v['body'][5:-2]
        return 'REC.serialize_%s(x.0%s)' % ({'isize': 'i64', 'usize': 'u64'}.get(t, t), {'isize': ' as i64', 'usize': ' as u64'}.get(t, ''))
    return 'validators::serde::Serialize::serialize(&x.%s, REC)' % ('url' if h.startswith('http') else '0')

REC = 'crate::mock::Rec { fails: f, human: h }'
def witnesses():
    ws = []
    for v in VALIDATORS:
        e = '''    pub fn ser(x: &X, f: bool, h: bool) -> (Result<crate::mock::Got, crate::mock::E>, Result<crate::mock::Got, crate::mock::E>) {
        use validators::serde::Serializer;
        (%s, <X as validators::serde::Serialize>::serialize(x, %s))
    }''' % (reference(v).replace('REC', REC), REC)
        ws.append(W(v['name'], v['attr'], v['body'], [], extra=e))
    return ws

def entries(w): return ['ser']

RENDER = ['to_uri_authority_string::ToUriAuthorityString::to_uri_authority_string', 'to_email_string::ToEmailString::to_email_string', 'to_mac_address_string::ToMacAddressString::to_mac_address_string',
          'to_uuid_string::ToUuidString::to_uuid_string', 'to_json_string::ToJsonString::to_minified_json_string', 'to_json_string::ToJsonString::to_beautified_json_string']
PRIM = set(WIDTHS) | {'bool', 'char', 'isize', 'usize', 'str', 'alloc::string::String'}

def app(name):
    def h(ip, st, vals, info): return [(st, ip.mk_sym(info.dty, ('app', name) + tuple(canon(ip, st, v) for v in vals)))]
    return h

def hooks(renderers):
    """foreign Serialize impls, and in the first attempt the type's own renderers, are uninterpreted functions"""
    hk = {}
    def ser(ip, st, vals, info):
        s = self_type(ip, info)
        if s in PRIM or s.startswith(('crate::', 'validators::')): return None
        return [(st, ip.mk_sym(info.dty, ('app', 'serialize') + tuple(canon(ip, st, v) for v in vals)))]
    for n in ('serde_core::ser::Serialize::serialize', 'serde::ser::Serialize::serialize'): hk[n] = ser
    if renderers:
        for n in RENDER: hk['validators::traits::' + n] = app(n)
    return hk

def self_type(ip, info):
    t = ip.T[info.argtys[0]]
    while t['k'] in ('ref', 'ptr'): t = ip.T[t['e']]
    return t['s']

def run_one(P, w, e):
    """the type's own renderers are the same functions on both sides; code that inlines one is compared with it followed"""
    for renderers in (True, False):
        rep = Report('')
        judge(P, w, e, rep, renderers)
        if not rep.viol and not rep.incon: break
    return rep

def judge(P, w, e, rep, renderers):
    key = '%s::%s' % (w.name, e)
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e), hooks=hooks(renderers))
    for s, v in res:
        a, b = (field(ip, v, i) for i in (0, 1))
        if a is not None and a[0] == 'S' and same_val(ip, s, a, b): rep.add(True, key); continue
        for s1, k1, x in split_result(ip, [(s, a)]):
            for s2, k2, y in split_result(ip, [(s1, b)]):
                if k1 is None or k2 is None: rep.add(False, key + ':outcome', detail(ip, s2, v, 'the outcome is not decided'), True)
                elif k1 != k2: rep.add(False, key + ':outcome', detail(ip, s2, v, 'the serializer answers %s but the type reports %s' % (k1, k2)), tainted(s2))
                else: rep.add(same_val(ip, s2, x, y), key + ':value', detail(ip, s2, v, 'the serializer is not handed the documented text or value' if k1 == 'Ok' else 'the error of the serializer is not passed on'), tainted(s2))
    judge_panics(rep, key, ip)
    finish(rep, ip, key)
