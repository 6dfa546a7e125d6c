"""Default methods of the number traits hand the same number to the widest method."""
from wit import *
import models
from p_deleg import canon
from p_result import same
from p_serde import num_key
from p_ip import same_val
FEATURES = ['derive', 'all-validators']
HEAD = '''
pub mod base {
    use validators::traits::*;
    pub struct X(pub u8);
    pub struct Er(pub u8);
    pub fn wide_u(_: u128) -> Result<X, Er> { loop {} }
    pub fn wide_vu(_: u128) -> Result<(), Er> { loop {} }
    pub fn wide_i(_: i128) -> Result<X, Er> { loop {} }
    pub fn wide_vi(_: i128) -> Result<(), Er> { loop {} }
    pub fn wide_f(_: f64) -> Result<X, Er> { loop {} }
    pub fn wide_vf(_: f64) -> Result<(), Er> { loop {} }
    impl ValidateUnsignedInteger for X { type Error = Er; fn parse_u128(u: u128) -> Result<X, Er> { wide_u(u) } fn validate_u128(u: u128) -> Result<(), Er> { wide_vu(u) } }
    impl ValidateSignedInteger for X { type Error = Er; fn parse_i128(u: i128) -> Result<X, Er> { wide_i(u) } fn validate_i128(u: i128) -> Result<(), Er> { wide_vi(u) } }
    impl ValidateNumber for X { type Error = Er; fn parse_f64(u: f64) -> Result<X, Er> { wide_f(u) } fn validate_f64(u: f64) -> Result<(), Er> { wide_vf(u) } }
%s
}
'''
NAMES = []
FNS = []
for _k, _r in (('parse', 'X'), ('validate', '()')):
    for _t, _tr, _bs in (('u', 'UnsignedInteger', ('8', '16', '32', '64', '128', 'size')), ('i', 'SignedInteger', ('8', '16', '32', '64', '128', 'size')), ('f', 'Number', ('32', '64'))):
        for _b in _bs:
            n = '%s_%s%s' % (_k, _t, _b)
            NAMES.append(n)
            FNS.append('    pub fn %s(s: %s%s) -> Result<%s, Er> { <X as Validate%s>::%s(s) }' % (n, _t, _b, _r, _tr, n))
HEAD = HEAD % '\n'.join(FNS)

def witnesses():
    w = W('base', '', '', NAMES)
    w.source = lambda: ''
    return [w]

def run_one(P, w, e):
    rep = Report('')
    key = 'default::%s' % e
    k, t = e.split('_')
    def h(n):
        return lambda ip, st, vals, info: [(st, ip.mk_sym(info.dty, key_of(st, n, vals[0])))]
    def key_of(st, n, v): return ('app', 'wide', n) + (st.norm(v[1]) if v[0] in 'IF' else subst_any(v, st.norm),)
    wide = 'crate::base::wide_'
    ip, res = analyse(P, 'crate::base::' + e, hooks={wide + n: h(n) for n in ('u', 'vu', 'i', 'vi', 'f', 'vf')})
    rt = P.byname['crate::base::' + e].locals[0]
    for st, v in res:
        same(rep, key, ip, st, v, ip.mk_sym(rt, key_of(st, ('v' if k == 'validate' else '') + t[0], ip.args[0])))
    judge_panics(rep, key, ip)
    finish(rep, ip, key)
    return rep
