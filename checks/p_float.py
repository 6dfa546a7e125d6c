"""floating-point number validators: declared range, NaN rule, decoded value."""
from p_num import *
from p_num import result_ty, parsed_split

FEATURES = ['derive', 'number']
NAN = ((interp.NANKEY, interp.NANKEY),)
INF = interp.F_INF

def f32(x): return struct.unpack('<f', struct.pack('<f', x))[0]

def witnesses():
    ws = []
    for ty in ('f64', 'f32'):
        def k(x): return F64KEY(f32(x) if ty == 'f32' else x)
        def rg(kind, mn, mx, incl, nan):
            parts = (['min = %r' % mn] if mn is not None else []) + (['max = %r' % mx] if mx is not None else [])
            if incl is not None: parts.append('inclusive = %s' % ('true' if incl else 'false'))
            s = iset((k(mn) if mn is not None else -INF, (k(mx) if incl is not False else k(mx) - 1) if mx is not None else INF))
            a, b = s[0]
            if kind == 'Outside': s = iset_compl(s, -INF, INF)
            n = {'Allow': NAN, 'Disallow': (), 'Must': NAN}[nan]
            s = n if nan == 'Must' else iset_norm(list(s) + list(n))
            nm = ('%s_%s_%s_%s_%s_%s' % (ty, kind, mn, mx, incl, nan)).lower().replace('-', 'm').replace('.', 'p').replace('+', '')
            ws.append(W(nm, 'number(nan(%s), range(%s(%s))%s)' % (nan, kind, ', '.join(parts), ', conflict(Allow)' if nan == 'Must' else ''), '(pub %s);' % ty,
                        list(STR) + ['parse_f64', 'validate_f64', 'parse_f32', 'validate_f32'], ty=ty, set=s, a=a, b=b, inside=kind == 'Inside', nan=nan))
        for nan in ('Allow', 'Disallow', 'Must'):
            for kind in ('Inside', 'Outside'):
                for mn, mx, incl in ((-1.5, 2.25, None), (-1.5, 2.25, True), (-1.5, 2.25, False), (0.0, None, None), (None, 0.0, None), (None, 0.1, True), (None, 0.1, False), (0.5, 0.5, True), (0.0, 1.0, False)):
                    rg(kind, mn, mx, incl, nan)
            n = {'Allow': NAN, 'Disallow': (), 'Must': NAN}[nan]
            s = n if nan == 'Must' else iset_norm([(-INF, INF)] + list(n))
            ws.append(W('%s_unlimited_%s' % (ty, nan.lower()), 'number(nan(%s), range(Unlimited))' % nan, '(pub %s);' % ty, list(STR) + ['parse_f64', 'validate_f64', 'parse_f32', 'validate_f32'], ty=ty, set=s, a=-INF, b=INF, inside=True, nan=nan))
    return ws

def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e))
    S, ty = w.data['set'], w.data['ty']
    if e in STR:
        q = ip.seq(State(), ip.args[0])
        rty = result_ty(ip, ty, 'ParseFloatError')
        def spec(ip, st):
            return [(s, F if v is None else In(v[1], S), v) for s, v in parsed_split(ip, st, rty, models.parse_key(ip, ip.find_ty(ty), q))]
    else:
        x = ip.args[0]
        if not e.endswith(ty): x = ip.cast(State(), 'FloatToFloat', x, ip.find_ty(ty), ip.find_ty(e[-3:]))
        def spec(ip, st): return [(st, In(x[1], S), x)]
    def output(ip, s, p, ctx):
        if e.startswith('validate'): return True
        f = field(ip, p)
        return f is not None and f[0] == 'F' and s.eq0(sub(f[1], ctx[1])) or 'the wrapped number is not the input'
    judge_lang(rep, key, ip, res, None, None, spec, output)
    finish(rep, ip, key)
    return rep
