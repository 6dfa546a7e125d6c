"""validators::Result: every conversion and deserialization holds the outcome of the validator for that value."""
from wit import *
import models
from p_deleg import find_ty, canon
from p_domain import result_cases
from p_ip import same_val
from p_length import length_of
import p_serde
from p_serde import KINDS, TEXT, HEAD, pkey, hooks as serde_hooks, TR
from gen_list import VALIDATORS
FEATURES = p_serde.FEATURES
STD = p_serde.STD + ['<T as core::convert::Into']

CONV = {'str': ('&str', 'text'), 'string': ('String', 'text'), 'u8_slice': ('&[u8]', 'data'), 'vec_u8': ('Vec<u8>', 'data'), 'char': ('char', 'char'), 'bool': ('bool', 'bool'), 'f32': ('f32', 'f32'), 'f64': ('f64', 'f64'), 'json': ('validators::serde_json::Value', 'json')}
for _b in ('8', '16', '32', '64', '128', 'size'): CONV['u' + _b] = ('u' + _b, 'uint'); CONV['i' + _b] = ('i' + _b, 'sint')
INT = ['8', '16', '32', '64', '128', 'size']

def traits(v):
    """what the validator's type converts from"""
    n = v['name'].split('_')[0]
    if n == 'length': return []
    out = ['str', 'string']
    if n.startswith('base'): out += ['u8_slice', 'vec_u8']
    if n in ('bit', 'byte') or n.startswith('unsigned') or n in ('boolean', 'json'): out += ['u' + b for b in INT]
    if n.startswith('signed') or n in ('boolean', 'json'): out += ['i' + b for b in INT]
    if n == 'boolean': out += ['char', 'bool']
    if n == 'json': out += ['f32', 'f64', 'bool', 'json']
    if n.startswith('number'): out += ['f32', 'f64']
    return out

def err(v):
    n = v['name'].split('_')[0]
    t = 'ValidateLength<%s>' % v['body'][5:-2] if n == 'length' else 'ValidateString'
    return '<X as %s>::Error' % t

def witnesses():
    ws = []
    for v in VALIDATORS:
        n = v['name'].split('_')[0]
        r = 'validators::Result<X, %s%s>' % (err(v), ', ' + v['body'][5:-2] if n == 'length' else '')
        fns, es = [], []
        ks = kinds(v)
        no = [k for k in p_serde.REJECT if k not in ks] if n not in ('json', 'length') else []
        for k in ks + no:
            m, t = KINDS[k]
            es.append('rd_' + k)
            fns.append('pub fn rd_%s(s: %s) -> Result<%s, crate::mock::E> { <%s as validators::serde::Deserialize>::deserialize(crate::mock::%s(s)) }' % (k, t, r, r, m))
        for c in traits(v):
            es.append('rf_' + c)
            fns.append('pub fn rf_%s(s: %s) -> %s { <%s>::from(s) }' % (c, CONV[c][0], r, r))
        if 'str' in traits(v):
            es.append('rs_str')
            fns.append('pub fn rs_str(s: &str) -> Result<%s, %s> { <%s as std::str::FromStr>::from_str(s) }' % (r, err(v), r))
        for nm, sig in (('std', 'pub fn rw_std(s: Result<X, %s>) -> Result<X, %s> { validators::Result::<X, %s>::from(s).into() }'), ('into', 'pub fn rw_into(s: Result<X, %s>) -> Result<X, %s> { validators::Result::<X, %s>::new(s).into_std_result() }'),
                        ('deref', 'pub fn rw_deref(s: Result<X, %s>) -> Result<X, %s> { let mut s = validators::Result::<X, %s>::new(s); let _ = s.is_ok(); std::mem::replace(&mut *s, Err(panic!())) }'),):
            if nm != 'deref':
                es.append('rw_' + nm); fns.append(sig % (err(v), err(v), err(v)))
        es.append('rr_as'); fns.append('pub fn rr_as(s: &validators::Result<X, %s>) -> &Result<X, %s> { s.as_std_result() }' % (err(v), err(v)))
        es.append('rr_deref'); fns.append('pub fn rr_deref(s: &validators::Result<X, %s>) -> &Result<X, %s> { &**s }' % (err(v), err(v)))
        es.append('rr_mut'); fns.append('pub fn rr_mut(s: &mut validators::Result<X, %s>) -> &mut Result<X, %s> { &mut **s }' % (err(v), err(v)))
        ws.append(W(v['name'], v['attr'], v['body'], es, v=v, kinds=ks, extra='\n'.join('    ' + f for f in fns)))
        ws[-1].source = (lambda w: lambda: src(w))(ws[-1])
    return ws

def src(w):
    e, w.entries = w.entries, []
    s = W.source(w); w.entries = e
    return s

def kinds(v):
    n = v['name'].split('_')[0]
    if n == 'bit': return TEXT + ['u8', 'u16', 'u32', 'u64', 'u128', 'bin']
    if n == 'json': return TEXT + ['bool', 'u64', 'i64', 'f64']
    if n == 'length': return ['text']
    return list(v['kinds'])

def rkey(ip, st, kind, v): return pkey(ip, st, kind, v)

def hooks():
    hk = serde_hooks()
    def mk(kind):
        def h(ip, st, vals, info):
            t = ip.T[info.dty]
            if t['k'] != 'adt' or t['path'] != 'core::result::Result' or not ip.T[t['args'][0]]['s'].endswith('::X'): return None
            return [(st, ip.mk_sym(info.dty, ('app', 'parse', kind, canon(ip, st, vals[0]))))]
        return h
    hk['validators::traits::validate_json_value::ValidateJsonValue::parse_json_value'] = mk('json')
    hk['validators::traits::validate_length::ValidateLength::parse_collection'] = mk('collection')
    return hk

def want(ip, st, w, e, arg, rt):
    """[(state, None | False | 'err' | symbolic standard result)]; None: the format's own error, 'err': that or the validator's, False: unspecified"""
    v = w.data['v']
    n = v['name'].split('_')[0]
    sym = lambda s, k, a: ip.mk_sym(rt, rkey(ip, s, k, a))
    op, k = e.split('_', 1)
    if op in ('rf', 'rs'): return [(st, sym(st, CONV[k][1], arg) if CONV[k][1] != 'json' else ip.mk_sym(rt, ('app', 'parse', 'json', canon(ip, st, arg))))]
    if k not in w.data['kinds']: return [(st, None)]
    if n in ('json', 'length'):
        mt = find_ty(ip, lambda t: t['s'] == 'crate::mock::' + KINDS[k][0] or t['s'].startswith('crate::mock::%s<' % KINDS[k][0]))
        inner = 'serde_json::value::Value' if n == 'json' else ip.T[ip.T[xt(ip, w)]['vs'][0][1][0][1]]['s']
        from p_deleg import rty
        r = rty(ip, inner, 'crate::mock')
        out = []
        for s, x in result_cases(ip, st, r, ('app', 'deserialize', canon(ip, st, ('A', mt, 0, (arg,))))):
            if x is None: out.append((s, None if n == 'length' else False))
            else: out.append((s, ip.mk_sym(rt, ('app', 'parse', 'json' if n == 'json' else 'collection', canon(ip, s, x)))))
        return out
    if k in TEXT: return [(st, sym(st, 'text', arg))]
    if k in ('bytes', 'buf'): return [(st, sym(st, 'data', arg))]
    if k in ('bool', 'char', 'f32', 'f64'): return [(st, sym(st, k, arg))]
    i = v.get('int', 'uint')
    if i == 'float':
        from p_serde import f_key, F_INF
        c = st.const_of(arg[1])
        return [(st, sym(st, 'f64', ('F', const(f_key(float(c))) if c is not None else atom(AT.get(('i2f', arg[1], 'f64'), ((-F_INF, F_INF),))))))]
    if i == 'both': return [(st, sym(st, 'sint' if k[0] == 'i' else 'uint', arg))]
    lo, hi = (0, (1 << 128) - 1) if i == 'uint' else (-(1 << 127), (1 << 127) - 1)
    out = []
    for s in ip.assume(st.copy(), ('ge', addc(arg[1], -lo))):
        for s2 in ip.assume(s.copy(), ('ge', addc(scale(arg[1], -1), hi))): out.append((s2, sym(s2, i, arg)))
        for s2 in ip.assume(s, ('ge', addc(arg[1], -hi - 1))): out.append((s2, 'err'))
    for s in ip.assume(st.copy(), ('ge', addc(scale(arg[1], -1), lo - 1))): out.append((s, 'err'))
    return out

def xt(ip, w): return find_ty(ip, lambda t: t['s'] == 'crate::%s::X' % w.name)

def cases(ip, st, v):
    """[(state, variant, payload)] of a standard result value"""
    v = models.val(ip, st, v) if v is not None and v[0] in ('R', 'RV') else v
    if v is None: return [(st, None, None)]
    return split_result(ip, [(st, v)])

def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e), hooks=hooks())
    x = ip.T[xt(ip, w)]['s']
    rt = find_ty(ip, lambda t: t['k'] == 'adt' and t['path'] == 'core::result::Result' and ip.T[t['args'][0]]['s'] == x and ip.T[t['args'][1]]['s'].startswith('validators::errors::'))
    arg = ip.args[0]
    op = e.split('_')[0]
    def unwrapped(st, v):
        """the standard result inside a validators::Result"""
        return field(ip, v) if v is not None and v[0] == 'A' else ip.get_field(st, v, 0, rt, 0) if v is not None and v[0] == 'S' else None
    for st, v in res:
        if op in ('rd', 'rs'):
            for s, k, p in split_result(ip, [(st, v)]):
                if k is None: rep.add(False, key + ':outcome', detail(ip, s, v, 'the outcome is not decided'), True); continue
                for s2, q in want(ip, s, w, e, arg, rt) if op == 'rd' else want(ip, s, w, e, arg, rt):
                    if q is False: rep.add(True, key); continue
                    if q == 'err':
                        if k == 'Err': rep.add(True, key)
                        else:
                            for s3, k3, p3 in cases(ip, s2, unwrapped(s2, p)): rep.add(k3 == 'Err', key + ':value', detail(ip, s3, v, 'a number that does not fit is accepted'), k3 is None or tainted(s3))
                        continue
                    if (q is None) != (k == 'Err'):
                        rep.add(False, key + ':outcome', detail(ip, s2, v, 'a value the validator takes is refused' if q is not None else 'a value of a kind the validator does not take is passed on'), tainted(s2)); continue
                    if q is None: rep.add(True, key); continue
                    same(rep, key, ip, s2, unwrapped(s2, p), q)
        elif op == 'rf':
            for s2, q in want(ip, st, w, e, arg, rt): same(rep, key, ip, s2, unwrapped(s2, v), q)
        elif op == 'rw': same(rep, key, ip, st, v, arg)
        else:
            q = models.val(ip, st, arg)
            same(rep, key, ip, st, models.val(ip, st, v), unwrapped(st, q))
            if op == 'rr': rep.add(v is not None, key)
    judge_panics(rep, key, ip)
    finish(rep, ip, key)
    return rep

def same(rep, key, ip, st, got, q):
    """the held standard result is q: same variant, same payload"""
    if got is not None and q is not None and got == q: rep.add(True, key); return
    for s, k, p in cases(ip, st, got):
        if k is None: rep.add(False, key + ':outcome', detail(ip, s, got, 'the held result is not decided'), True); continue
        for s2, k2, p2 in cases(ip, s, q):
            rep.add(k == k2 and bool(same_val(ip, s2, p, p2)), key + ':value', detail(ip, s2, got, 'does not hold the validator\'s outcome (%s expected)' % k2), tainted(s2))
