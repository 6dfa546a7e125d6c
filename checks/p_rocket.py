"""Rocket: path parameters and form fields are the outcome of the validator for the unchanged text."""
from wit import *
import models
from p_deleg import find_ty, canon
from p_ip import same_val
import p_serde, p_result
from p_serde import pkey, own_hooks, judge_pair
from p_result import cases, err, src, xt
from gen_list import VALIDATORS
FEATURES = ['derive', 'std', 'all-validators', 'rocket']
STD = ['<T as core::convert::Into']

def witnesses():
    ws = []
    for v in VALIDATORS:
        n = v['name'].split('_')[0]
        if n == 'length': continue
        w = W(v['name'], v['attr'], v['body'], ['param', 'field', 'field_result'], v=v)
        F, FF = 'validators::rocket::request::FromParam', 'validators::rocket::form::FromFormField'
        w.extra = '''    use validators::rocket::form::ValueField;
    pub fn param(s: &str) -> Result<X, <X as %(F)s<'_>>::Error> { <X as %(F)s>::from_param(s) }
    pub fn field<'r>(s: ValueField<'r>) -> Option<X> { <X as %(FF)s>::from_value(s).ok() }
    pub fn field_result<'r>(s: ValueField<'r>) -> Option<validators::Result<X, %(E)s>> { <validators::Result<X, %(E)s> as %(FF)s>::from_value(s).ok() }
    pub fn eq_param(s: &str) -> (Option<X>, Option<X>) { (<X as ValidateString>::parse_str(s).ok(), <X as %(F)s>::from_param(s).ok()) }
    pub fn eq_field<'r>(s: ValueField<'r>) -> (Option<X>, Option<X>) { (<X as ValidateString>::parse_str(s.value).ok(), <X as %(FF)s>::from_value(s).ok()) }''' % dict(F=F, FF=FF, E=err(v))
        w.source = (lambda w: lambda: src(w))(w)
        ws.append(w)
    return ws

def hooks():
    hk = p_serde.hooks()
    return hk

def run_one(P, w, e):
    key = '%s::%s' % (w.name, e)
    first = direct(P, w, e, key)
    if not first.viol and not first.incon or e == 'field_result': return first
    for own in (False, True):
        rep = Report('')
        ip, res = analyse(P, 'crate::%s::eq_%s' % (w.name, e), hooks={} if own else own_hooks(P, w))
        judge_pair(rep, key, ip, res)
        finish(rep, ip, key)
        if not rep.viol and not rep.incon: return rep
    return first if first.viol else rep

def direct(P, w, e, key):
    rep = Report('')
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e), hooks=hooks())
    x = ip.T[xt(ip, w)]['s']
    rt = find_ty(ip, lambda t: t['k'] == 'adt' and t['path'] == 'core::result::Result' and ip.T[t['args'][0]]['s'] == x and ip.T[t['args'][1]]['s'].startswith('validators::errors::'))
    st0 = State()
    arg = ip.args[0]
    if e != 'param': arg = text_of(ip, st0, arg)
    for st, v in res:
        q = ip.mk_sym(rt, pkey(ip, st, 'text', arg))
        if e == 'param': p_result.same(rep, key, ip, st, v, q); continue
        for s, x in p_serde.options(ip, st, v):
            if x is False: rep.add(False, key + ':outcome', detail(ip, s, v, 'the outcome is not decided'), True); continue
            if e == 'field_result':
                if x is None: rep.add(False, key + ':outcome', detail(ip, s, v, 'the field is refused instead of holding the error'), tainted(s)); continue
                got = field(ip, x) if x[0] == 'A' else ip.get_field(s, x, 0, rt, 0)
                p_result.same(rep, key, ip, s, got, q); continue
            for s2, k, p in cases(ip, s, q):
                if (x is None) != (k == 'Err'): rep.add(False, key + ':outcome', detail(ip, s2, v, 'the form field and the validator disagree'), tainted(s2))
                elif x is None: rep.add(True, key)
                else: rep.add(bool(same_val(ip, s2, x, p)), key + ':value', detail(ip, s2, v, 'not the validated value'), tainted(s2))
    judge_panics(rep, key, ip)
    finish(rep, ip, key)
    return rep

def text_of(ip, st, arg):
    t = ip.T[arg[2] if arg[0] == 'S' else arg[1]]
    i = next(i for i, f in enumerate(t['vs'][0][1]) if f[0] == 'value')
    return ip.get_field(st, arg, i, t['vs'][0][1][i][1], 0) if arg[0] == 'S' else arg[3][i]
