"""IP address validators: address syntax, port rule, local rule, rendered authority."""
from wit import *
import models
FEATURES = ['derive', 'ip', 'ipv4', 'ipv6']
V4T, V6T, IPT = ('core::net::ip_addr::%s' % x for x in ('Ipv4Addr', 'Ipv6Addr', 'IpAddr'))
TRI = ('Allow', 'Must', 'Disallow')
RENDER = 'pub fn render(x: &X) -> Cow<str> { <X as ToUriAuthorityString>::to_uri_authority_string(x) }'
ENTRY['render'] = RENDER.replace('Cow', '::std::borrow::Cow')
TY = {'ip': 'std::net::IpAddr', 'ipv4': 'std::net::Ipv4Addr', 'ipv6': 'std::net::Ipv6Addr'}

def witnesses():
    ws = []
    for h in ('ipv4', 'ipv6', 'ip'):
        for lo in TRI:
            for po in TRI:
                t = TY[h]
                body = {'Allow': ' { pub %s: %s, pub port: Option<u16> }' % (h, t), 'Must': ' { pub %s: %s, pub port: u16 }' % (h, t), 'Disallow': '(pub %s);' % t}[po]
                ws.append(W('%s_%s_%s' % (h, lo.lower(), po.lower()), '%s(local(%s), port(%s))' % (h, lo, po), body, STR + ['render'], h=h, local=lo, port=po))
    return ws

def local_hooks(P):
    def mk(n):
        def h(ip, st, vals, info):
            v, m = models.val(ip, st, vals[0]), n
            if n == 'is_local_ip' and v is not None and v[0] == 'A' and ip.T[v[1]].get('path') == IPT and v[3]:
                v, m = v[3][0], ('is_local_ipv4', 'is_local_ipv6')[v[2]]
            return [(st, ('I', atom(local_atom(m, ip.freeze(st, v)))))]
        return h
    return {p: mk(p.rsplit('::', 1)[1]) for p in P.byname if p.rsplit('::', 1)[-1] in ('is_local_ipv4', 'is_local_ipv6', 'is_local_ip')}

def local_atom(n, v): return AT.get(('islocal', n, v), BOOL)

def tyof(ip, s): return ip.find_ty(s)

def rty(ip, inner):
    for i, t in enumerate(ip.T):
        if t['k'] == 'adt' and t['path'] == 'core::result::Result' and ip.T[t['args'][0]]['s'] == inner: return i
    return None

def parsed(ip, st, inner, q):
    """[(state, payload | None)] of parsing q as inner"""
    r = rty(ip, inner)
    if r is None: return [(st, None)]
    v = ip.mk_sym(r, models.parse_key(ip, ip.T[r]['args'][0], q))
    d = ip.discr_lin(v)
    out = []
    f = models.PARSE_FACTS[inner]
    for s in ip.assume(st.copy(), ('eq', d)):
        if models.parse_facts(ip, s, f, q):
            v2 = ip.mk_sym(r, models.parse_key(ip, ip.T[r]['args'][0], models.norm_q(s, q)))
            # the same text under another name is parsed the same way
            for s2 in ip.assume(s, ('eq', ip.discr_lin(v2))):
                out.append((s2, ip.mk_sym(ip.T[r]['args'][0], ('proj', ('a', v2[1]), 0, 0))))
    for s in ip.assume(st.copy(), ('eq', addc(d, -1))): out.append((s, None))
    return out

def port_of(ip, st, q):
    """[(state, port | None)]: digits only"""
    out = []
    for s, p in parsed(ip, st, 'u16', q):
        if p is None: out.append((s, None)); continue
        plus = ('in', atom(at_atom(q[1], s.norm(q[2]))), ((43, 43),))
        for s2 in ip.assume(s.copy(), plus): out.append((s2, None))
        for s2 in ip.assume(s.copy(), neg(plus)): out.append((s2, p))
    return out

def split_c(ip, st, c):
    return [(s, True) for s in ip.assume(st.copy(), c)] + [(s, False) for s in ip.assume(st.copy(), neg(c))]

def cell_is(base, i, ch): return ('in', atom(at_atom(base, i)), ((ord(ch), ord(ch)),))

def last_colon(ip, st, base, n):
    return models.find_split(ip, st, ('Q', base, const(0), n), ((58, 58),), 'last', lambda s, j: j, None)

def addresses(ip, st, h, base, n):
    """[(state, (family, address value, port value or None) | None)] for the plain grammar"""
    out = []
    def v6(s, lo, hi, prt):
        r = []
        for s2, a in parsed(ip, s, V6T, ('Q', base, lo, sub(hi, lo))):
            if a is None: r.append((s2, None)); continue
            r += with_port(s2, 6, a, prt)
        return r
    def with_port(s, fam, a, prt):
        if prt is None: return [(s, (fam, a, None))]
        return [(s2, (fam, a, p) if p is not None else None) for s2, p in port_of(ip, s, ('Q', base, prt, sub(n, prt)))]
    def v4(s):
        r = []
        for s2, j in last_colon(ip, s, base, n):
            hi = n if j is None else j
            for s3, a in parsed(ip, s2, V4T, ('Q', base, const(0), s2.norm(hi))):
                if a is None: r.append((s3, None)); continue
                r += with_port(s3, 4, a, None if j is None else s3.norm(addc(j, 1)))
        return r
    for s, nonempty in split_c(ip, st, ('ge', addc(n, -1))):
        if not nonempty: out.append((s, None)); continue
        if h == 'ipv4': out += v4(s); continue
        for s2, br in split_c(ip, s, cell_is(base, const(0), '[')):
            if not br:
                for s3, x in v6(s2, const(0), n, None):
                    if x is None and h == 'ip': out += v4(s3)
                    else: out.append((s3, x))
                continue
            for s3, closed in split_c(ip, s2, cell_is(base, addc(s2.norm(n), -1), ']')):
                if closed: out += v6(s3, const(1), addc(s3.norm(n), -1), None); continue
                for s4, j in last_colon(ip, s3, base, s3.norm(n)):
                    if j is None: out.append((s4, None)); continue
                    for s5, ge in split_c(ip, s4, ('ge', addc(j, -2))):
                        if not ge: out.append((s5, None)); continue
                        for s6, cl in split_c(ip, s5, cell_is(base, addc(s5.norm(j), -1), ']')):
                            if not cl: out.append((s6, None)); continue
                            out += v6(s6, const(1), addc(s6.norm(j), -1), s6.norm(addc(j, 1)))
    return out

def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    h, lo, po = w.data['h'], w.data['local'], w.data['port']
    if e == 'render': return render(rep, key, P, w, h, po)
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e), hooks=local_hooks(P))
    q = ip.seq(State(), ip.args[0]); base, n = q[1], q[3]
    def spec(ip, st):
        out = []
        for s, x in addresses(ip, st, h, base, st.norm(n)):
            if x is None: out.append((s, F, None)); continue
            fam, a, p = x
            if po == 'Must' and p is None or po == 'Disallow' and p is not None: out.append((s, F, None)); continue
            if lo == 'Allow': out.append((s, T, x)); continue
            l = atom(local_atom('is_local_ipv%d' % fam, ip.freeze(s, a)))
            out.append((s, Eq(l, 1) if lo == 'Must' else Eq(l, 0), x))
        return out
    def output(ip, s, v, x):
        if e.startswith('validate'): return True
        fam, a, p = x
        f = fields(ip, v)
        if f is None: return 'no structure'
        addr = f['ip'] if h == 'ip' else f[h]
        if h == 'ip':
            if addr is None or addr[0] != 'A' or addr[2] != (0 if fam == 4 else 1): return 'the address family is wrong'
            addr = addr[3][0]
        if not same_val(ip, s, addr, a): return 'the address is not the parsed one'
        if po == 'Disallow': return True
        pv = f['port']
        if po == 'Allow':
            if pv is None or pv[0] != 'A' or pv[2] != (0 if p is None else 1): return 'presence of the port is wrong'
            if p is None: return True
            pv = pv[3][0]
        return same_val(ip, s, pv, p) or 'the port is not the parsed one'
    judge_lang(rep, key, ip, res, base, n, spec, output)
    finish(rep, ip, key)
    return rep

def fields(ip, v):
    while v is not None and v[0] == 'RV': v = v[1]
    if v is None or v[0] != 'A': return None
    t = ip.T[v[1]]
    fs = t['vs'][v[2]][1]
    d = {}
    for i, x in enumerate(fs): d[x[0]] = v[3][i]
    if '0' in d or 0 in d:
        y = d.get('0', d.get(0))
        for nme in ('ip', 'ipv4', 'ipv6', 'domain', 'host'): d[nme] = y
    return d

def same_val(ip, st, a, b):
    if a is None or b is None: return False
    if a[0] == 'I' and b[0] == 'I': return st.eq0(st.norm(sub(a[1], b[1])))
    n = lambda x: subst_any(x, st.norm)
    a, b = n(ip.freeze(st, a)), n(ip.freeze(st, b))
    if a == b: return True
    if a[0] == 'a' and b[0] == 'a': return subst_any(AT.key[a[1]], st.norm) == subst_any(AT.key[b[1]], st.norm)
    return False

def render(rep, key, P, w, h, po):
    ip, res = analyse(P, 'crate::%s::render' % w.name)
    x = ip.args[0]
    f = fields(ip, x)
    def some(v): return ip.get_field(None, v, 0, ip.T[v[2]]['vs'][1][1][0][1], 1)
    for s, v in res:
        if v is not None and v[0] == 'A' and v[3]: v = v[3][0]
        ps = models.parts_of(ip, s, v) if v is not None else None
        if ps is None:
            rep.add(False, key + ':form', detail(ip, s, v, 'the rendered text is not understood'), True); continue
        # expected
        cases = [(s, None)]
        if po == 'Must': cases = [(s, f['port'])]
        elif po == 'Allow':
            d = ip.discr_lin(f['port'])
            cases = [(s2, None) for s2 in ip.assume(s.copy(), ('eq', d))] + [(s2, some(f['port'])) for s2 in ip.assume(s.copy(), ('eq', addc(d, -1)))]
        for s2, pv in cases:
            a = f[h]
            fam = [(s2, 4 if h == 'ipv4' else 6, a)]
            if h == 'ip':
                d = ip.discr_lin(a)
                t = ip.T[a[2]]
                fam = [(s3, 4 + 2 * i, ip.get_field(s3, a, 0, t['vs'][i][1][0][1], i)) for i in (0, 1) for s3 in ip.assume(s2.copy(), ('eq', addc(d, -i)))]
            for s3, k, av in fam:
                want = ([('lit', b'[')] if k == 6 else []) + [('d', av)] + [('lit', (b']' if k == 6 else b'') + (b':' if pv is not None or po == 'Must' else b''))]
                if pv is not None or po == 'Must': want.append(('d', pv))
                want = [y for y in want if y != ('lit', b'')]
                good = len(want) == len(ps) and all(p == y if y[0] == 'lit' else p[0] == 'disp' and p[1] == 'display' and not p[2] and same_val(ip, s3, p[3], y[1]) for p, y in zip(ps, want))
                rep.add(good, key + ':text', detail(ip, s3, v, 'the rendered authority is %s' % (str(ps)[:300],)), tainted(s3))
    judge_panics(rep, key, ip)
    finish(rep, ip, key)
    return rep
