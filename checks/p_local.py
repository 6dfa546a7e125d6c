"""the exported `is_local_*` predicates: exact address sets; the domain predicates: exact languages."""
from wit import *
import models
FEATURES = ['derive', 'ip', 'ipv4', 'ipv6', 'domain', 'host']
STD = ['core::net::', '<core::net::']
HEAD = '''use std::net::*;
pub fn v4(a: Ipv4Addr) -> bool { validators::functions::is_local_ipv4(a) }
pub fn v6(a: Ipv6Addr) -> bool { validators::functions::is_local_ipv6(a) }
pub fn ip4(a: Ipv4Addr) -> bool { validators::functions::is_local_ip(IpAddr::V4(a)) }
pub fn ip6(a: Ipv6Addr) -> bool { validators::functions::is_local_ip(IpAddr::V6(a)) }
pub fn domain(a: &str) -> bool { validators::functions::is_local_domain(a) }
pub fn labels(a: &str) -> bool { validators::functions::is_at_least_two_labels_domain(a) }
pub fn dot(a: &str) -> Result<Ipv4Addr, AddrParseError> { validators::functions::parse_ipv4_allow_an_ended_dot(a) }
'''
V4 = ['10.0.0.0/8', '172.16.0.0/12', '192.168.0.0/16', '127.0.0.0/8', '169.254.0.0/16', '255.255.255.255/32', '192.0.2.0/24', '198.51.100.0/24', '203.0.113.0/24', '0.0.0.0/32']

def witnesses():
    class X: pass
    ws = []
    for n, es in (('addr', ['v4', 'ip4'] + ['%s_%d' % (f, h) for f in ('v6', 'ip6') for h in range(256)]), ('name', ['domain', 'labels', 'dot'])):
        w = W(n, '', '', es); w.source = lambda: ''
        ws.append(w)
    return ws

def v4_local(o):
    out = []
    for net in V4:
        ip, n = net.split('/'); n = int(n)
        b = [int(x) for x in ip.split('.')]
        fs = []
        for i in range(4):
            k = min(8, max(0, n - 8 * i))
            if k == 0: continue
            lo = b[i]; hi = b[i] | (255 >> k)
            fs.append(In(o[i], ((lo, hi),)))
        out.append(And(*fs))
    return Or(*out)

def v6_local(g):
    """g: the eight 16-bit groups as (hi, lo) byte terms"""
    w = [add(lin(lo), lin(hi), 256) for hi, lo in g]
    zero = lambda a, b: And(*[And(Eq(g[i][0], 0), Eq(g[i][1], 0)) for i in range(a, b)])
    v4 = And(zero(0, 5), Or(zero(5, 6), And(Eq(g[5][0], 255), Eq(g[5][1], 255))), v4_local([g[6][0], g[6][1], g[7][0], g[7][1]]))
    lo_nib = iset_norm([(x, x) for x in range(256) if x & 15 != 14])
    mc = And(Eq(g[0][0], 255), In(g[0][1], lo_nib))
    uni = Or(And(zero(0, 7), Eq(g[7][0], 0), In(g[7][1], ((0, 1),))),
             And(Eq(g[0][0], 0xFE), In(g[0][1], ((0x80, 0xFF),))),
             In(g[0][0], ((0xFC, 0xFD),)),
             And(Eq(g[0][0], 0x20), Eq(g[0][1], 1), Eq(g[1][0], 0x0D), Eq(g[1][1], 0xB8)), v4)
    return Or(mc, uni)

def m_segments(ip, st, a, info):
    v = models.val(ip, st, a[0])
    if v is None or v[0] != 'A': return None
    o = v[3][0][3]
    return [(st, ('A', info.dty, 0, tuple(('I', add(o[2 * i + 1][1], o[2 * i][1], 256)) for i in range(8))))]

def addr(ip, ty, cells):
    t = ip.T[ty]
    return ('A', ty, 0, (('A', t['vs'][0][1][0][1], 0, tuple(cells)),))

def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    models.EXACT['core::net::ip_addr::Ipv6Addr::segments'] = m_segments
    if w.name == 'addr':
        fn, _, h = e.partition('_')
        cells = []
        def setup(ip, st, f, args):
            n = 4 if fn.endswith('4') else 16
            for i in range(n): cells.append(('I', atom(AT.get(('octet', i), BYTE))))
            if h: cells[0] = ('I', const(int(h)))
            return [addr(ip, f.locals[1], cells)]
        ip, res = analyse(P, 'crate::' + fn, setup=setup)
        o = [c[1] for c in cells]
        want = v4_local(o) if fn.endswith('4') else v6_local([(o[2 * i], o[2 * i + 1]) for i in range(8)])
        judge_bool(rep, key, ip, res, want)
    else:
        ip, res = analyse(P, 'crate::' + e)
        q = ip.seq(State(), ip.args[0]); base, n = q[1], q[3]
        word = 'localhost'
        low = lambda c: iset_norm([(ord(c), ord(c)), (ord(c.upper()), ord(c.upper()))])
        if e == 'domain':
            want = And(Or(Eq(n, 9), And(Eq(n, 10), Cell(base, 9, ((46, 46),)))), *[Cell(base, i, low(c)) for i, c in enumerate(word)])
            judge_bool(rep, key, ip, res, want)
        elif e == 'labels':
            # a dot somewhere before the last byte, or a last byte that is not the only dot
            want = And(Ge(n, 2), Ex(base, 0, addc(n, -1), ((46, 46),)))
            judge_bool(rep, key, ip, res, want)
        else:
            from p_num import parsed_split
            for s, v in res:
                for s2, dotted in both(ip, s, base, n):
                    m = addc(n, -1) if dotted else n
                    rty = ip.P.fns[find_fn(P, 'crate::dot').id].locals[0]
                    exp = ip.mk_sym(rty, models.parse_key(ip, ip.T[rty]['args'][0], ('Q', base, const(0), m)))
                    ok = v is not None and v[0] == 'S' and norm_key(s2, v[1]) == norm_key(s2, exp[1])
                    rep.add(ok, key + ':argument', detail(ip, s2, v, 'the parsed text is not the input without one final dot'), tainted(s2))
    judge_panics(rep, key, ip)
    finish(rep, ip, key)
    return rep

def norm_key(st, a): return subst_any(AT.key[a], st.norm)

def both(ip, st, base, n):
    """the input ends with a dot / does not"""
    out = []
    last = ('in', atom(at_atom(base, addc(n, -1))), ((46, 46),))
    for s in ip.assume(st.copy(), ('ge', addc(n, -1))):
        out += [(x, True) for x in ip.assume(s.copy(), last)] + [(x, False) for x in ip.assume(s.copy(), neg(last))]
    out += [(s, False) for s in ip.assume(st.copy(), ('eq', n))]
    return out

def judge_bool(rep, key, ip, res, want):
    for s, v in res:
        if v is None or v[0] not in ('B', 'I'):
            rep.add(False, key + ':outcome', detail(ip, s, v, 'undecided result'), True); continue
        c = v[1] if v[0] == 'B' else ('ne', v[1])
        for val, cond in ((True, c), (False, neg(c))):
            for s2 in ip.assume(s.copy(), cond):
                rep.add(entails(ip, s2, want if val else Not(want)), key + ':' + str(val).lower(), detail(ip, s2, v, 'returns %s although the address or name is%s in the set' % (val, ' not' if val else '')), tainted(s2))
