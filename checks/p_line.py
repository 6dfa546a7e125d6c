"""line / text: forbidden control characters, length limits."""
from wit import *

FORBID = {'line': iset((0, 8), (10, 31), (127, 127)), 'text': iset((0, 8), (12, 12), (14, 31), (127, 127))}
FEATURES = ['derive', 'line', 'text']
CFG = [(), ('min',), ('max',), ('trimmed_min',), ('min', 'max'), ('trimmed_min', 'max'), ('trimmed_min', 'min'), ('trimmed_min', 'min', 'max')]
VAL = {'min': 4, 'max': 9, 'trimmed_min': 2}
TVAL = {'min': 7, 'max': 8, 'trimmed_min': 6}
PIN = 9      # character counts analysed exactly for configurations with a trimmed minimum

def witnesses():
    ws = []
    for h in ('line', 'text'):
        for cfg in CFG:
            for kind in ('char', 'byte'):
                if not cfg and kind == 'byte': continue
                attr = h if not cfg else '%s(%s_length(%s))' % (h, kind, ', '.join('%s = %d' % (k, (TVAL if 'trimmed_min' in cfg else VAL)[k]) for k in cfg))
                ws.append(W('%s_%s_%s' % (h, kind, '_'.join(cfg) or 'free'), attr, '(pub String);', STR, handler=h, cfg=cfg, kind=kind, vals=TVAL if 'trimmed_min' in cfg else VAL))
    return ws

WS = iset((9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000))

def run_one(P, w, e):
    rep = Report('')
    run(rep, P, w, e, judge_lang)
    return rep

def reason(v, parts):
    """the condition an error stands for"""
    if v == 'Invalid': return Not(parts['chars'])
    if v == 'TooLong': return Not(parts['max']) if 'max' in parts else F
    if v == 'TooShort': return Or(*[Not(parts[k]) for k in ('min', 'trimmed_min') if k in parts])
    return F

def run(rep, P, w, e, judge):
    if 'trimmed_min' in w.data['cfg']:
        for ws in ([(0,) * k for k in range(PIN + 1)] if w.data['kind'] == 'char' else widths()): one(rep, P, w, e, ws, judge)
    else: one(rep, P, w, e, None, judge)

WIDTH = {1: iset((0, 0x7f)), 2: iset((0x80, 0x7ff)), 3: iset((0x800, 0xd7ff), (0xe000, 0xffff)), 4: iset((0x10000, 0x10ffff))}

def widths():
    """UTF-8 width sequences: every mix of up to three characters, uniform ones up to PIN"""
    from itertools import product
    out = [t for k in range(4) for t in product((1, 2, 3, 4) if k < 3 else (1, 2, 3), repeat=k)]
    return out + list(product((1, 2), repeat=4)) + [(1,) * k for k in range(5, PIN + 1)] + [(2,) * 5, (1, 3, 3, 1), (3, 1, 1, 3)]

def one(rep, P, w, e, ws, judge):
    import models
    pin = None if ws is None else len(ws)
    key = '%s::%s' % (w.name, e)
    VAL_ = w.data['vals']
    def setup(ip, st, f, args):
        if pin is not None:
            q = ip.seq(st, args[0])
            ip.UNROLL = 64
            exact = pin and ws[0]
            if exact: st.assume_eq(addc(q[3], -sum(ws)))
            q = models.norm_q(st, q)
            c = models.charseq(ip, st, q)
            st.assume_eq(addc(c[3], -pin))
            if not exact:
                st.assume_ge(addc(q[3], -pin)); st.assume_ge(addc(scale(q[3], -1), 4 * pin))
            else:
                for i, x in enumerate(ws):
                    st.restrict_cell(c[1], const(i), WIDTH[x])
                    st.assume_eq(addc(boff(c[1], const(i + 1)), -sum(ws[:i + 1])))
        return args
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e), setup=setup)
    q = ip.seq(State(), ip.args[0])
    base, n = q[1], q[3]
    cfg, kind = w.data['cfg'], w.data['kind']
    bad = FORBID[w.data['handler']]
    nws = iset_compl(WS, 0, 0x10FFFF)
    def spec(ip, st):
        chars = pin is not None or not (any(x[0] == base for x in st.quant) or any(True for _ in st.cells(base)))
        cq = models.charseq(ip, st, models.norm_q(st, q)); cb, cn = cq[1], cq[3]
        b, m = (cb, cn) if chars else (base, n)
        length = cn if kind == 'char' else n
        st = st.copy()
        try: st.assume_ge(sub(n, cn)); st.assume_ge(sub(scale(cn, 4), n))
        except Infeasible: return []
        fs = {'chars': Or(Eq(n, 0), All(b, 0, m, iset_compl(bad)))}
        if 'min' in cfg: fs['min'] = Ge(length, VAL_['min'])
        if 'max' in cfg: fs['max'] = Le(length, VAL_['max'])
        if 'trimmed_min' in cfg:
            # the first and last non-white character, for exactly `pin` characters
            alts = []
            t = VAL_['trimmed_min']
            for i in range(pin):
                for j in range(i, pin):
                    ln = const(j + 1 - i) if kind == 'char' else sub(boff(cb, const(j + 1)), boff(cb, const(i)))
                    alts.append(And(All(cb, 0, i, WS), Cell(cb, i, nws), Cell(cb, j, nws), All(cb, j + 1, pin, WS), Ge(ln, t)))
            if t <= 0: alts.append(All(cb, 0, pin, WS))
            fs['trimmed_min'] = Or(*alts)
        return [(st, And(*fs.values()), fs)]
    def output(ip, s, p, ctx):
        if e.startswith('validate'): return True
        return same_seq(ip, s, field(ip, p), q) or 'the wrapped string is not the input'
    judge(rep, key, ip, res, base, n, spec, output)
    finish(rep, ip, key if pin is None else '%s [%s]' % (key, '%d characters' % pin if not any(ws) else 'widths ' + ''.join(map(str, ws))))
