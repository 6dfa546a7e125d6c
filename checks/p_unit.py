"""byte and bit validators: what byte_unit reads from the whole text (or the integer itself), within the declared range."""
from wit import *
import models
from p_deleg import app, find_ty, rty, canon, from_str_hooks
from p_domain import result_cases
from p_ip import same_val
from p_length import atom
FEATURES = ['derive', 'byte', 'bit']
CAP = (1 << 64) - 1      # what the unit types can hold
STD = ['byte_unit::byte::Byte::from_', 'byte_unit::bit::Bit::from_', 'byte_unit::byte::Byte::as_', 'byte_unit::bit::Bit::as_', '<byte_unit::byte::Byte as core::cmp', '<byte_unit::bit::Bit as core::cmp',
       '<byte_unit::byte::Byte as core::clone', '<byte_unit::bit::Bit as core::clone', 'byte_unit::byte::built_in_traits', 'byte_unit::bit::built_in_traits', '<byte_unit::byte::Byte as core::convert', '<byte_unit::bit::Bit as core::convert',
       '<u64 as core::convert::From<byte_unit', '<u128 as core::convert::From<byte_unit']
U = ['8', '16', '32', '64', '128', 'size']

def cfgs():
    out = [('plain', None, None, None)]
    for mn, mx, inc in ((5, None, None), (None, 70, None), (None, 70, True), (None, 70, False), (5, 90, None), (5, 90, True), (5, 90, False), (33, 33, None), (33, 33, True), (33, 34, False), (0, 12, None), (1000, 1 << 40, None),
                        (7, 1 << 64, False), (0, 0, None), (0, 1, False)):
        out.append(('%s_%s_%s' % ('x' if mn is None else mn, 'x' if mx is None else mx, {None: 'def', True: 'incl', False: 'excl'}[inc]), mn, mx, inc))
    return out

def witnesses():
    ws = []
    for h in ('byte', 'bit'):
        for nm, mn, mx, inc in cfgs():
            a = [x for x in ('min = %d' % mn if mn is not None else '', 'max = %d' % mx if mx is not None else '', 'inclusive = %s' % str(inc).lower() if inc is not None else '') if x]
            hi = None if mx is None else mx if inc is not False else mx - 1
            for ic in (None, True, False) if h == 'byte' and nm in ('plain', '5_90_def') else (None,):
                at = (['range(%s)' % ', '.join(a)] if a else []) + (['ignore_case = %s' % str(ic).lower()] if ic is not None else [])
                ws.append(W('%s_%s%s' % (h, nm, {None: '', True: '_ic', False: '_cs'}[ic]), '%s(%s)' % (h, ', '.join(at)) if at else h, '(pub validators::byte_unit::%s);' % h.capitalize(),
                            STR + ['%s_u%s' % (k, b) for k in ('parse', 'validate') for b in U], h=h, lo=mn or 0, hi=hi, ic=ic is not False))
    return ws

def hooks(h):
    hk = {}
    n = 'byte_unit::%s::parse::<impl byte_unit::%s::%s>::parse_str' % (h, h, h.capitalize())
    def parse(ip, st, vals, info):
        return [(st, ip.mk_sym(info.dty, pkey(ip, st, h, vals[0], flag(ip, st, vals[1]) if len(vals) > 1 else None)))]
    for x in (n, 'byte_unit::%s::%s::parse_str' % (h, h.capitalize())): hk[x] = parse
    def cmp(op):
        def f(ip, st, vals, info):
            a, b = (plain(ip, st, v) for v in vals[:2])
            if a is None or b is None: return None
            d = sub(a, b)
            c = {'lt': ('ge', addc(scale(d, -1), -1)), 'le': ('ge', scale(d, -1)), 'gt': ('ge', addc(d, -1)), 'ge': ('ge', d)}[op]
            return [(st, ip.simp(st, c))]
        return f
    for op in ('lt', 'le', 'gt', 'ge'): hk['core::cmp::PartialOrd::' + op] = cmp(op)
    return hk

def plain(ip, st, v):
    v = models.val(ip, st, v)
    for _ in range(3):
        if v is None or v[0] == 'I': break
        v = num(ip, st, v) if ip.T[v[1] if v[0] == 'A' else v[2]].get('path', '').startswith('byte_unit::') else None
    return v[1] if v is not None and v[0] == 'I' else None

def flag(ip, st, v):
    v = models.val(ip, st, v)
    c = st.const_of(v[1]) if v and v[0] == 'I' else None
    return None if c is None else bool(c)

def pkey(ip, st, h, text, ic):
    q = canon(ip, st, text)
    # byte_unit takes the white space off both ends itself
    for _ in range(4):
        b = q[1] if q[0] == 'Q' else None
        k = AT.key[b[1]] if b and b[0] == 'a' else ()
        if k[:2] == ('trim', 'trim') and st.eq0(q[2]) and st.eq0(sub(q[3], base_len(b))): q = models.norm_q(st, k[2])
    return ('app', h, 'parse', ic, q)

def num(ip, st, v):
    v = models.val(ip, st, v)
    f = field(ip, v)
    if f is None and v is not None and v[0] == 'S': f = ip.get_field(st, v, 0, ip.T[v[2]]['vs'][0][1][0][1], 0)
    return f

def run_one(P, w, e, cap=CAP):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    d = w.data
    h, lo, hi = d['h'], d['lo'], d['hi']
    if e not in STR: hi = cap if hi is None else min(hi, cap)
    upto = lambda n: T if hi is None else Le(n, hi)
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e), hooks=hooks(h))
    inner = 'byte_unit::%s::%s' % (h, h.capitalize())
    # a unit value holds its count
    if e in STR:
        q = ip.seq(State(), ip.args[0])
        def spec(ip, st):
            out = []
            for s, x in result_cases(ip, st, rty(ip, inner, 'byte_unit::'), pkey(ip, st, h, models.norm_q(st, q), d['ic'] if h == 'byte' else None)):
                if x is None: out.append((s, F, None, None)); continue
                n = num(ip, s, x)
                out.append((s, And(Ge(n[1], lo), upto(n[1])), (x, n[1])))
            return [(o[0], o[1], o[2]) for o in out]
    else:
        n = ip.args[0]
        def spec(ip, st): return [(st, And(Ge(n[1], lo), upto(n[1])), (n, n[1]))]
    def variants(ip, st, v, ctx):
        if ctx is None: return T if v == 'ParseError' else F
        return {'TooSmall': Le(ctx[1], lo - 1), 'TooLarge': Not(upto(ctx[1]))}.get(v, F)
    def output(ip, s, p, ctx):
        if e.startswith('validate'): return True
        n = num(ip, s, field(ip, p))
        return n is not None and n[0] == 'I' and s.eq0(sub(n[1], ctx[1])) or 'the wrapped value is not the parsed count'
    judge_lang(rep, key, ip, res, None, None, spec, output, variants)
    finish(rep, ip, key)
    return rep
