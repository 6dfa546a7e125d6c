"""Deserialize: every value the format hands over goes through the validator unchanged; nothing else becomes a value."""
from wit import *
import models, interp
from dom import AT, atom, const
from interp import f_key, F_INF
from p_deleg import find_ty, rty, canon
from p_domain import result_cases
from p_ip import same_val, split_c
from p_length import length_of

HEAD = r'''
pub mod mock {
    //! formats that hand over one value of one kind
    use validators::serde::de::{self, Deserializer, Visitor};
    use core::fmt;
    #[derive(Debug)]
    pub struct E;
    impl fmt::Display for E { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
    impl core::error::Error for E {}
    impl de::Error for E {
        fn custom<T: fmt::Display>(_: T) -> Self { E }
        fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self { E }
        fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self { E }
        fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { E }
    }
    macro_rules! fmt_of {
        ($n:ident [$($l:lifetime)?] $t:ty, $visit:ident, $hr:literal: $($ok:ident)* ! $($no:ident)*) => {
            pub struct $n<$($l)?>(pub $t);
            impl<'de $(: $l, $l)?> Deserializer<'de> for $n<$($l)?> {
                type Error = E;
                $(fn $ok<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.$visit(self.0) })*
                $(fn $no<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E) })*
                fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_some(self) }
                fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
                fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, E> { Err(E) }
                fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, E> { Err(E) }
                fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, E> { Err(E) }
                fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> { Err(E) }
                fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> { Err(E) }
                fn is_human_readable(&self) -> bool { $hr }
            }
        };
    }
    macro_rules! text { ($n:ident [$($l:lifetime)?] $t:ty, $visit:ident) => { fmt_of!($n [$($l)?] $t, $visit, true: deserialize_any deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_char deserialize_identifier deserialize_ignored_any !
        deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128 deserialize_f32 deserialize_f64 deserialize_unit deserialize_seq deserialize_map); } }
    macro_rules! data { ($n:ident [$($l:lifetime)?] $t:ty, $visit:ident) => { fmt_of!($n [$($l)?] $t, $visit, false: deserialize_any deserialize_bytes deserialize_byte_buf !
        deserialize_str deserialize_string deserialize_char deserialize_identifier deserialize_ignored_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128 deserialize_f32 deserialize_f64 deserialize_unit deserialize_seq deserialize_map); } }
    macro_rules! num { ($n:ident $t:ty, $visit:ident, $hr:literal) => { fmt_of!($n [] $t, $visit, $hr: deserialize_any deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128 deserialize_f32 deserialize_f64 !
        deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_char deserialize_identifier deserialize_ignored_any deserialize_bool deserialize_unit deserialize_seq deserialize_map); } }
    text!(Text ['a] &'a str, visit_str);
    text!(Owned [] String, visit_string);
    text!(Ch [] char, visit_char);
    data!(Bytes ['a] &'a [u8], visit_bytes);
    data!(Buf [] Vec<u8>, visit_byte_buf);
    num!(U8 u8, visit_u8, true); num!(U16 u16, visit_u16, true); num!(U32 u32, visit_u32, true); num!(U64 u64, visit_u64, true); num!(U128 u128, visit_u128, true);
    num!(I8 i8, visit_i8, true); num!(I16 i16, visit_i16, true); num!(I32 i32, visit_i32, true); num!(I64 i64, visit_i64, true); num!(I128 i128, visit_i128, true);
    num!(F32 f32, visit_f32, true); num!(F64 f64, visit_f64, true); num!(Bin u128, visit_u128, false);
    fmt_of!(Bool [] bool, visit_bool, true: deserialize_any deserialize_bool ! deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_char deserialize_identifier deserialize_ignored_any
        deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128 deserialize_f32 deserialize_f64 deserialize_unit deserialize_seq deserialize_map);
    pub struct Borrowed<'de>(pub &'de str);
    impl<'de> Deserializer<'de> for Borrowed<'de> {
        type Error = E;
        fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_borrowed_str(self.0) }
        validators::serde::forward_to_deserialize_any!{ bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
    }
}
'''
KINDS = {'text': ('Text', '&str'), 'owned': ('Owned', 'String'), 'borrowed': ('Borrowed', "&str"), 'char': ('Ch', 'char'), 'bytes': ('Bytes', '&[u8]'), 'buf': ('Buf', 'Vec<u8>'), 'bool': ('Bool', 'bool'), 'bin': ('Bin', 'u128'),
         'f32': ('F32', 'f32'), 'f64': ('F64', 'f64')}
for _s in 'ui':
    for _b in ('8', '16', '32', '64', '128'): KINDS[_s + _b] = (_s.upper() + _b, _s + _b)
INTS = [k for k in KINDS if k[0] in 'ui' and k[1:].isdigit()]
TEXT = ['text', 'owned', 'borrowed']
for _k, (_m, _t) in KINDS.items():
    ENTRY['de_' + _k] = 'pub fn de_%s(s: %s) -> Result<X, crate::mock::E> { <X as validators::serde::Deserialize>::deserialize(crate::mock::%s(s)) }' % (_k, _t, _m)
from gen_list import VALIDATORS
FEATURES = ['derive', 'std', 'all-validators', 'serde', 'serde_json']
STD = ['serde_core::de::Visitor', 'serde::de::Visitor', 'byte_unit::byte::Byte::from_', '<byte_unit::byte::Byte as core::cmp', '<byte_unit::bit::Bit as core::cmp']
REJECT = ['bool', 'u64', 'i64', 'f64', 'bytes', 'text']

TR = {'str': 'ValidateString', 'string': 'ValidateString', 'u8_slice': 'ValidateBytes', 'vec_u8': 'ValidateBytes', 'char': 'ValidateChar', 'f64': 'ValidateNumber', 'f32': 'ValidateNumber'}
def parse(f, a):
    t = TR.get(f) or ('ValidateUnsignedInteger' if f[0] == 'u' else 'ValidateSignedInteger')
    return '<X as %s>::parse_%s(%s).ok()' % (t, f, a)

def reference(v, k):
    """the documented result as an expression over the value `s` that the format hands over"""
    if k in ('text', 'borrowed'): return parse('str', 's')
    if k == 'owned': return parse('str', '&s')
    if k == 'bytes': return parse('u8_slice', 's')
    if k == 'buf': return parse('u8_slice', '&s')
    if k == 'bool': return 'Some(X(s))'
    if k in ('char', 'f64', 'f32'): return parse(k, 's')
    i = v['int']
    if i == 'float': return parse('f64', 's as f64')
    if i == 'both': i = 'sint' if k[0] == 'i' else 'uint'
    t = 'u128' if i == 'uint' else 'i128'
    return 'match %s::try_from(s) { Ok(n) => %s, Err(_) => None }' % (t, parse(t, 'n'))

def pair_entry(v, k):
    m, t = KINDS[k]
    c = 's.clone()' if k in ('owned', 'buf') else 's'
    return 'pub fn eq_%s(s: %s) -> (Option<X>, Option<X>) { (%s, <X as validators::serde::Deserialize>::deserialize(crate::mock::%s(%s)).ok()) }' % (k, t, reference(v, k), m, c)

def witnesses():
    ws = []
    for v in VALIDATORS:
        ks = list(v['kinds'])
        no = [k for k in REJECT if k not in ks] if not v.get('inner') else []
        ws.append(W(v['name'], v['attr'], v['body'], ['de_' + k for k in ks + no], kinds=ks, v=v,
                    extra='' if v.get('inner') else '\n'.join('    ' + pair_entry(v, k) for k in ks)))
    return ws

PARSERS = {}
for _n in ('parse_str', 'parse_string'): PARSERS['validate_string::ValidateString::' + _n] = 'text'
for _n in ('parse_u8_slice', 'parse_vec_u8'): PARSERS['validate_bytes::ValidateBytes::' + _n] = 'data'
for _b in ('8', '16', '32', '64', '128', 'size'):
    PARSERS['validate_unsigned_integer::ValidateUnsignedInteger::parse_u' + _b] = 'uint'
    PARSERS['validate_signed_integer::ValidateSignedInteger::parse_i' + _b] = 'sint'
PARSERS['validate_boolean::ValidateBoolean::parse_bool'] = 'bool'
PARSERS['validate_char::ValidateChar::parse_char'] = 'char'
PARSERS['validate_number::ValidateNumber::parse_f64'] = 'f64'
PARSERS['validate_number::ValidateNumber::parse_f32'] = 'f32'

def num_key(ip, st, v):
    v = models.val(ip, st, v)
    if v is not None and v[0] == 'B': v = ip.bool_int(st, v)
    return st.norm(v[1]) if v is not None and v[0] in 'IF' else subst_any(ip.freeze(st, v), st.norm)

def pkey(ip, st, kind, v):
    """the validator applied to a value; text handed over as str or String is the same text, an integer of any width the same number"""
    if kind in ('text', 'data'): return ('app', 'parse', kind, canon(ip, st, v))
    if kind in ('f32', 'f64'): return ('app', 'parse', 'float', num_key(ip, st, v))      # an f32 is the f64 of the same value
    return ('app', 'parse', kind, num_key(ip, st, v))

def hooks():
    hk = {}
    def mk(kind):
        def h(ip, st, vals, info):
            t = ip.T[info.dty]
            if t['k'] != 'adt' or t['path'] != 'core::result::Result' or not ip.T[t['args'][0]]['s'].endswith('::X'): return None
            return [(st, ip.mk_sym(info.dty, pkey(ip, st, kind, vals[0])))]
        return h
    for n, k in PARSERS.items(): hk['validators::traits::' + n] = mk(k)
    hk.update(inner_hooks())
    return hk

def inner_hooks():
    """the Deserialize of the wrapped third-party or standard type is that of serde, byte_unit, url or semver"""
    hk = {}
    def de(ip, st, vals, info):
        t = ip.T[info.dty]
        if t['k'] != 'adt' or t['path'] != 'core::result::Result' or ip.T[t['args'][0]]['s'].startswith(('crate::', 'validators::')): return None
        return [(st, ip.mk_sym(info.dty, ('app', 'deserialize', canon(ip, st, vals[0]))))]
    from p_unit import hooks as unit_hooks
    from p_length import hooks as length_hooks
    hk.update(length_hooks())
    hk.update({k: f for k, f in unit_hooks('byte').items() if 'cmp' in k})
    for n in ('serde_core::de::Deserialize::deserialize', 'serde::de::Deserialize::deserialize'): hk[n] = de
    def from_value(ip, st, vals, info): return [(st, ip.mk_sym(info.dty, ('app', 'from_value', canon(ip, st, vals[0]))))]
    hk['serde_json::value::from_value'] = from_value
    def wf(ip, st, vals, info): return [(st, ip.mk_sym(info.dty, ('app', 'written')))]
    hk['core::fmt::Write::write_fmt'] = wf
    return hk

def expected(ip, st, w, kind, arg, xt):
    """[(state, Ok value | None)] as the property has it; the value is the whole X"""
    v = w.data['v']
    xs = ip.T[xt]['s']
    if v.get('inner'):
        mt = find_ty(ip, lambda t: t['s'] == 'crate::mock::' + KINDS[kind][0] or t['s'].startswith('crate::mock::%s<' % KINDS[kind][0]))
        m = ('A', mt, 0, (arg,))
        inner = ip.T[ip.T[xt]['vs'][0][1][0][1]]['s'] if v['inner'] != 'json' else 'serde_json::value::Value'
        r = rty(ip, inner, 'crate::mock')
        out = []
        for s, x in result_cases(ip, st, r, ('app', 'deserialize', canon(ip, st, m))):
            if x is None: out.append((s, None)); continue
            if v['inner'] == 'json':
                r2 = find_ty(ip, lambda t: t['k'] == 'adt' and t['path'] == 'core::result::Result' and ip.T[t['args'][0]]['s'] == ip.T[ip.T[xt]['vs'][0][1][0][1]]['s'] and ip.T[t['args'][1]]['s'].startswith('serde_json'))
                out += [(s2, None if y is None else ('A', xt, 0, (y,))) for s2, y in result_cases(ip, s, r2, ('app', 'from_value', canon(ip, s, x)))]
                continue
            y = ('A', xt, 0, (x,))
            if v['inner'] == 'len': n = length_of(ip, s, x, 'vec' if inner.startswith('alloc::vec') else None)
            elif v['inner'] == 'bit': n = ip.get_field(s, x, 0, ip.T[x[2]]['vs'][0][1][0][1], 0)[1]
            else: out.append((s, y)); continue
            lo, hi = v['range']
            for s2 in ip.assume(s.copy(), ('ge', addc(n, -lo))):
                for s3 in ip.assume(s2.copy(), ('ge', addc(scale(n, -1), hi))): out.append((s3, y))
                for s3 in ip.assume(s2, ('ge', addc(n, -hi - 1))): out.append((s3, None))
            for s2 in ip.assume(s, ('ge', addc(scale(n, -1), lo - 1))): out.append((s2, None))
        return out
    if kind not in w.data['kinds']: return [(st, None)]
    r = find_ty(ip, lambda t: t['k'] == 'adt' and t['path'] == 'core::result::Result' and ip.T[t['args'][0]]['s'] == xs and not ip.T[t['args'][1]]['s'].startswith('crate::mock'))
    if r is None: return [(st, None)]
    one = lambda s, k, a: result_cases(ip, s, r, pkey(ip, s, k, a))
    if kind in TEXT: return one(st, 'text', arg)
    if kind in ('bytes', 'buf'): return one(st, 'data', arg)
    if kind == 'bool': return [(st, ('A', xt, 0, (arg,)))]
    if kind in ('char', 'f32', 'f64'):
        return one(st, kind, arg)
    want = v['int']
    if want == 'float':
        c = st.const_of(arg[1])
        return one(st, 'f64', ('F', const(f_key(float(c))) if c is not None else atom(AT.get(('i2f', arg[1], 'f64'), ((-F_INF, F_INF),)))))
    if want == 'both': return one(st, 'sint' if kind[0] == 'i' else 'uint', arg)
    # an integer of the other signedness is the same number when the target can hold it
    lo, hi = (0, (1 << 128) - 1) if want == 'uint' else (-(1 << 127), (1 << 127) - 1)
    out = []
    for s in ip.assume(st.copy(), ('ge', addc(arg[1], -lo))):
        for s2 in ip.assume(s.copy(), ('ge', addc(scale(arg[1], -1), hi))): out += one(s2, want, arg)
        for s2 in ip.assume(s, ('ge', addc(arg[1], -hi - 1))): out.append((s2, None))
    for s in ip.assume(st.copy(), ('ge', addc(scale(arg[1], -1), lo - 1))): out.append((s, None))
    return out


def run_one(P, w, e):
    """the wrapper around the validator's own parsing functions is enough when it calls those; code that
    reaches its parsing some other way is compared with them, first with its helpers, then with everything, followed"""
    key = '%s::%s' % (w.name, e)
    first = direct(P, w, e, key)
    if not first.viol and not first.incon or w.data['v'].get('inner') or e[3:] not in w.data['kinds']: return first
    for own in (False, True):
        rep = Report('')
        ip, res = analyse(P, 'crate::%s::eq_%s' % (w.name, e[3:]), hooks=inner_hooks() if own else {**inner_hooks(), **own_hooks(P, w)})
        judge_pair(rep, key, ip, res)
        finish(rep, ip, key)
        if not rep.viol and not rep.incon: return rep
    return first if first.viol else rep

def own_hooks(P, w):
    """the inherent functions of the validator's type, uninterpreted"""
    hk = {}
    def h(name):
        def f(ip, st, vals, info): return [(st, ip.mk_sym(info.dty, ('app', name) + tuple(canon(ip, st, v) for v in vals)))]
        return f
    for n in P.byname:
        if n.startswith('crate::%s::X::' % w.name): hk[n] = h(n)
    return hk

def judge_pair(rep, key, ip, res):
    for s, v in res:
        a, b = (field(ip, v, i) for i in (0, 1))
        for s1, x in options(ip, s, a):
            for s2, y in options(ip, s1, b):
                bad = x is False or y is False
                if bad: rep.add(False, key + ':outcome', detail(ip, s2, v, 'the outcome is not decided'), True)
                elif (x is None) != (y is None): rep.add(False, key + ':agrees', detail(ip, s2, v, 'deserialization and parsing of the value disagree'), tainted(s2))
                elif x is None: rep.add(True, key)
                else: rep.add(same_val(ip, s2, x, y), key + ':value', detail(ip, s2, v, 'deserialization and parsing give different values'), tainted(s2))
    judge_panics(rep, key, ip)

def options(ip, st, v):
    """[(state, payload | None | False)]"""
    if v is not None and v[0] == 'A': return [(st, v[3][0] if v[2] == 1 else None)]
    if v is not None and v[0] == 'S':
        d = ip.discr_lin(v)
        t = ip.T[v[2]]
        out = [(s, None) for s in ip.assume(st.copy(), ('eq', d))]
        return out + [(s, ip.mk_sym(t['vs'][1][1][0][1], ('proj', ('a', v[1]), 1, 0))) for s in ip.assume(st.copy(), ('eq', addc(d, -1)))]
    return [(st, False)]

def direct(P, w, e, key):
    rep = Report('')
    kind = e[3:]
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e), hooks=hooks())
    xt = find_ty(ip, lambda t: t['s'] == 'crate::%s::X' % w.name)
    def spec(ip, st): return [(s, F if x is None else T, x) for s, x in expected(ip, st, w, kind, ip.args[0], xt)]
    def output(ip, s, p, x):
        return same_val(ip, s, p, x) or 'not the validated value'
    judge_lang(rep, key, ip, res, None, None, spec, output)
    finish(rep, ip, key)
    return rep
