"""rendering of MAC addresses and UUIDs: fixed-width hexadecimal groups with the configured case and separator."""
from wit import *
from p_hex import GROUPS, SEP, BODY
import models
FEATURES = ['derive', 'mac_address', 'uuid']
ENTRY['render_mac_address'] = 'pub fn render_mac_address(x: &X) -> String { <X as ToMacAddressString>::to_mac_address_string(x) }'
ENTRY['render_uuid'] = 'pub fn render_uuid(x: &X) -> String { <X as ToUuidString>::to_uuid_string(x) }'

def witnesses():
    ws = []
    for h in ('mac_address', 'uuid'):
        for case in ('Any', 'Upper', 'Lower'):
            for kind in ('Must', 'Allow', 'Disallow'):
                for sp in SEP[h] if kind != 'Disallow' else [None]:
                    o = 'Disallow' if kind == 'Disallow' else "%s(b'%s')" % (kind, sp)
                    ws.append(W('%s_%s_%s_%s' % (h, case.lower(), kind.lower(), {':': 'colon', '-': 'dash', None: 'x'}[sp]), '%s(case(%s), separator(%s))' % (h, case, o), BODY[h],
                                ['render_' + h], handler=h, case=case, sep=sp))
    return ws

def items(ip, st, q, nib):
    """flatten a built string into single characters: ('c', byte) or ('h', nibble atom, upper)"""
    out = []
    for p in models.parts_of(ip, st, q) or [None]:
        if p is None: return None
        if p[0] == 'lit': out += [('c', b) for b in p[1]]
        elif p[0] == 'ch': out.append(('v', st.norm(p[1])))
        elif p[0] == 'disp' and p[1] in ('lower_hex', 'upper_hex'):
            fl = dict(p[2])
            v = p[3]
            if v is None or v[0] != 'I': return None
            l = st.norm(v[1])
            # the digits of the value in positional notation
            if l[0] != 0: return None
            pos = {}
            for a, c in l[1]:
                if a not in nib or c <= 0 or c & (c - 1) or (c.bit_length() - 1) % 4: return None
                pos[(c.bit_length() - 1) // 4] = a
            wd = fl.get('width', 0)
            n = max(pos) + 1 if pos else 1
            if 'indirect' in fl: return None
            if wd < n or not fl.get('flags', 0) >> 24 & 1: return ('variable width', p)
            out += [('h', pos.get(i), p[1] == 'upper_hex') for i in range(wd - 1, -1, -1)]
        else: return None
    return out

def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    h = w.data['handler']
    g = GROUPS[h]; N = sum(g)
    nib = {}
    def setup(ip, st, f, args):
        l = const(0)
        for i in range(N):
            a = AT.get(('nibble', i), ((0, 15),)); nib[a] = i
            l = add(l, atom(a), 16 ** i)
        t = ip.T[f.locals[1]]['e']
        return [('RV', ('A', t, 0, (('I', l),)))]
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e), setup=setup)
    want = []
    k = N - 1
    for gi, n in enumerate(g):
        if gi and w.data['sep']: want.append(('c', ord(w.data['sep'])))
        for _ in range(n): want.append(k); k -= 1
    up = w.data['case'] != 'Lower'
    for s, v in res:
        q = ip.seq(s, v)
        it = items(ip, s, q, nib) if q else None
        if it is None or type(it) is tuple:
            rep.add(False, key + ':form', detail(ip, s, v, 'the rendered text is not built from fixed-width digits: %s' % (it,)), it is None); continue
        rep.add(len(it) == len(want), key + ':length', detail(ip, s, v, '%d characters are rendered instead of %d' % (len(it), len(want))), tainted(s))
        for i, (x, y) in enumerate(zip(it, want)):
            if type(y) is tuple: good = x == y or x[0] == 'v' and s.eq0(addc(x[1], -y[1]))
            elif x[0] == 'h': good = x[1] is not None and nib[x[1]] == y and x[2] == up
            elif x[0] == 'v': good = all(value_at(x[1], d, y, nib) == ord(('%X' if up else '%x') % d) for d in range(16))
            else: good = False
            rep.add(good, key + ':digit', detail(ip, s, v, 'character %d of the rendered text is wrong' % i), tainted(s))
    judge_panics(rep, key, ip)
    finish(rep, ip, key)
    return rep

def value_at(l, d, k, nib):
    acc = l[0]
    for a, c in l[1]:
        key = AT.key[a]
        if a in nib and nib[a] == k: acc += c * d
        elif key[0] == 'pw' and nib.get(key[1][1]) == k:
            for s, e in key[2]:
                if any(p <= d <= q for p, q in s): acc += c * (e[0] + (d * e[1][0][1] if e[1] else 0)); break
            else: return None
        else: return None
    return acc
