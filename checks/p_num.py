"""integer and floating-point validators: declared range, NaN rule, entry-point widths, decoded value."""
from wit import *
import models, interp
import struct

FEATURES = ['derive', 'number', 'signed_integer', 'unsigned_integer']
F64KEY = interp.f_key

BITS = {'8': 8, '16': 16, '32': 32, '64': 64, '128': 128, 'size': 64}
INT = {s + b: ((-(1 << (n - 1)), (1 << (n - 1)) - 1) if s == 'i' else (0, (1 << n) - 1)) for s in 'iu' for b, n in BITS.items()}

def cfgs(lo, hi, ty, full):
    """(name, attribute, accepted set) ; None bound = open"""
    a, b = (-5, 9) if ty[0] == 'i' else (3, 90)
    out = [('unlimited', 'range(Unlimited)', iset((lo, hi)), (lo, hi)), ('plain', '', iset((lo, hi)), (lo, hi))]
    def rg(kind, mn, mx, incl):
        parts = (['min = %d' % mn] if mn is not None else []) + (['max = %d' % mx] if mx is not None else [])
        if incl is not None: parts.append('inclusive = %s' % ('true' if incl else 'false'))
        s = iset((mn if mn is not None else lo, (mx if incl is not False else mx - 1) if mx is not None else hi))
        ab = s[0]
        if kind == 'Outside': s = iset_compl(s, lo, hi)
        nm = '%s_%s_%s_%s' % (kind.lower(), mn if mn is not None else 'x', mx if mx is not None else 'x', {True: 'incl', False: 'excl', None: 'def'}[incl])
        out.append((nm.replace('-', 'm'), 'range(%s(%s))' % (kind, ', '.join(parts)), s, ab))
    for kind in ('Inside', 'Outside'):
        rg(kind, a, b, None)
        if not full: continue
        rg(kind, a, b, True); rg(kind, a, b, False); rg(kind, a, None, None); rg(kind, None, b, None)
        rg(kind, None, b, False); rg(kind, None, b, True); rg(kind, a, a, True); rg(kind, a, a + 1, False); rg(kind, b, b, None)
        rg(kind, lo, b, None); rg(kind, a, hi, None)
    return out

def witnesses():
    ws = []
    for ty, (lo, hi) in INT.items():
        h = 'signed_integer' if ty[0] == 'i' else 'unsigned_integer'
        for nm, at, s, (a, b) in cfgs(lo, hi, ty, ty in ('i32', 'u32', 'u8', 'i128', 'u128')):
            ents = list(STR) + ['%s_%s%s' % (k, ty[0], b) for k in ('parse', 'validate') for b in BITS]
            ws.append(W('%s_%s' % (ty, nm), h + ('(%s)' % at if at else ''), '(pub %s);' % ty, ents, ty=ty, set=s, kind='int', a=a, b=b, inside='Outside' not in at))
    return ws

def result_ty(ip, inner, err):
    for i, t in enumerate(ip.T):
        if t['k'] == 'adt' and t['path'] == 'core::result::Result' and ip.T[t['args'][0]]['s'] == inner and err in ip.T[t['args'][1]]['s']: return i
    return None

def parsed_split(ip, st, rty, key):
    """[(state, payload or None)] of an uninterpreted Result"""
    v = ip.mk_sym(rty, key)
    d = ip.discr_lin(v)
    out = []
    for s in ip.assume(st.copy(), ('eq', d)):
        out.append((s, ip.mk_sym(ip.T[rty]['vs'][0][1][0][1], ('proj', ('a', v[1]), 0, 0))))
    for s in ip.assume(st.copy(), ('eq', addc(d, -1))): out.append((s, None))
    return out

def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e))
    S = w.data['set']
    ty = w.data['ty']
    err = 'ParseIntError'
    if e in STR:
        q = ip.seq(State(), ip.args[0])
        rty = result_ty(ip, ty, err)
        def spec(ip, st):
            return [(s, F if v is None else In(v[1], S), v) for s, v in parsed_split(ip, st, rty, models.parse_key(ip, ip.find_ty(ty), q))]
    else:
        x = ip.args[0]
        def spec(ip, st): return [(st, In(x[1], S), x)]
    def output(ip, s, p, ctx):
        if e.startswith('validate'): return True
        f = field(ip, p)
        return f is not None and f[0] == 'I' and s.eq0(sub(f[1], ctx[1])) or 'the wrapped number is not the input'
    judge_lang(rep, key, ip, res, None, None, spec, output)
    finish(rep, ip, key)
    return rep
