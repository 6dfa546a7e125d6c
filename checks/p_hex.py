"""MAC address / UUID: accepted shape, decoded value."""
from wit import *
from itertools import combinations

HEX = {'Any': iset((48, 57), (65, 70), (97, 102)), 'Upper': iset((48, 57), (65, 70)), 'Lower': iset((48, 57), (97, 102))}
GROUPS = {'mac_address': [2] * 6, 'uuid': [8, 4, 4, 4, 12]}
BODY = {'mac_address': '(pub u64);', 'uuid': '(pub u128);'}
SEP = {'mac_address': [':', '-'], 'uuid': ['-', ':']}
FEATURES = ['derive', 'mac_address', 'uuid']

def witnesses():
    ws = []
    for h in ('mac_address', 'uuid'):
        i = 0
        for case in ('Any', 'Upper', 'Lower'):
            for kind in ('Must', 'Allow', 'Disallow'):
                seps = [SEP[h][0]] if kind != 'Allow' or case != 'Any' else SEP[h]
                for sp in seps:
                    o = 'Disallow' if kind == 'Disallow' else "%s(b'%s')" % (kind, sp)
                    ws.append(W('%s_%d_%s_%s' % (h, i, case.lower(), kind.lower()), '%s(case(%s), separator(%s))' % (h, case, o), BODY[h], STR, handler=h, case=case, kind=kind, sep=ord(sp)))
                    i += 1
    return ws

def hexval(x):
    return x - 48 if x < 58 else x - 55 if x < 71 else x - 87

def value_matches(ip, st, v, cells, digit, total):
    """v == sum of digit(cell_k) * weight_k, decided cell by cell"""
    if v is None or v[0] != 'I': return 'the value is not a number'
    l = st.norm(v[1])
    left = dict(l[1])
    acc = l[0]
    for a, weight in cells:
        a = st.norm(a)
        if is_const(a):
            acc -= weight * digit(a[0]); continue
        at = a[1][0][0]
        mine = [(x, c) for x, c in left.items() if x == at or (AT.key[x][0] == 'pw' and AT.key[x][1] == ('a', at))]
        for x, _ in mine: left.pop(x)
        const_ = None
        for b in iset_iter(st.rng(at)):
            t = -weight * digit(b)
            for x, c in mine:
                if x == at: t += c * b; continue
                for s, e in AT.key[x][2]:
                    if any(p <= b <= q for p, q in s):
                        t += c * (e[0] + (b * e[1][0][1] if e[1] else 0)); break
                else: return 'no case of the decoded value covers byte %d' % b
            if const_ is None: const_ = t
            elif const_ != t: return 'a digit is decoded to the wrong value'
        acc += const_ or 0
    if left: return 'the decoded value depends on something else'
    return True if acc == 0 else 'the decoded value is off by %d' % acc

def layouts(w):
    """[(length, digit positions, separator positions)]"""
    g = GROUPS[w.data['handler']]
    k = w.data['kind']
    n = len(g) - 1
    subsets = {'Must': [tuple(range(n))], 'Disallow': [()], 'Allow': [c for r in range(n + 1) for c in combinations(range(n), r)]}[k]
    out = []
    for sset in subsets:
        pos = 0; digs = []; seps = []
        for i, size in enumerate(g):
            digs += range(pos, pos + size); pos += size
            if i in sset: seps.append(pos); pos += 1
        out.append((pos, digs, seps))
    return out

def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e))
    q = ip.seq(State(), ip.args[0])
    base, n = q[1], q[3]
    hx = HEX[w.data['case']]; sp = ((w.data['sep'], w.data['sep']),)
    ls = layouts(w)
    def fml(l):
        return And(Eq(n, l[0]), *([Cell(base, i, sp) for i in l[2]] + [Cell(base, i, hx) for i in l[1]]))
    def spec(ip, st): return [(st, Or(*[fml(l) for l in ls]), None)]
    def output(ip, s, p, ctx):
        if e.startswith('validate'): return True
        for l in ls:
            if entails(ip, s, fml(l)):
                N = len(l[1])
                return value_matches(ip, s, field(ip, p), [(atom(at_atom(base, const(i))), 16 ** (N - 1 - k)) for k, i in enumerate(l[1])], hexval, None)
        return 'no single layout'
    judge_lang(rep, key, ip, res, base, n, spec, output)
    finish(rep, ip, key)
    return rep
