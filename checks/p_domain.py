"""domain and host validators: text grammar, IDNA conversion, address, label, local and port rules; rendering."""
from wit import *
import models
from p_ip import local_hooks, local_atom, parsed, port_of, split_c, cell_is, last_colon, fields, same_val, rty, V4T, V6T, TRI, addresses
FEATURES = ['derive', 'domain', 'host']
STD = ['idna::deprecated::Config::', '<idna::deprecated::Config as', 'idna::deprecated::<impl']
FQ = 'pub fn fq(x: &X) -> bool { <X as QualifyDomain>::is_fully_qualified(x) }'
NFQ = 'pub fn nfq(x: &X) -> &str { <X as QualifyDomain>::get_domain_non_fully_qualified(x) }'
ENTRY['fq'], ENTRY['nfq'] = FQ, NFQ

def witnesses():
    ws = []
    for h in ('domain', 'host'):
        for v4 in (TRI if h == 'domain' else ('Allow',)):
            for lo in TRI:
                for la in TRI:
                    for po in TRI:
                        fs = ['pub domain: String'] if h == 'domain' else ['pub host: validators::models::Host']
                        if lo == 'Allow' and la != 'Allow':
                            if h == 'domain' and v4 == 'Allow': fs.append('pub is_ipv4: bool')
                            fs.append('pub is_local: bool')
                        if po != 'Disallow': fs.append('pub port: ' + ('Option<u16>' if po == 'Allow' else 'u16'))
                        body = ' { %s }' % ', '.join(fs) if len(fs) > 1 else '(pub %s);' % fs[0].split(': ')[1]
                        at = ('ipv4(%s), ' % v4 if h == 'domain' else '') + 'local(%s), port(%s), at_least_two_labels(%s)' % (lo, po, la)
                        if h == 'domain' and v4 == 'Must' and la == 'Disallow': at = 'conflict(Allow), ' + at
                        ents = STR + ['render'] + (['fq', 'nfq'] if h == 'domain' else [])
                        ws.append(W('_'.join([h] + ([v4.lower()] if h == 'domain' else []) + [lo.lower(), la.lower(), po.lower()]), '%s(%s)' % (h, at), body, ents,
                                    h=h, v4=v4, local=lo, labels=la, port=po))
    return ws

WANT_FLAGS = {'use_std3_ascii_rules': 1, 'transitional_processing': 0, 'check_hyphens': 1, 'verify_dns_length': 1}

def idna_key(flags, q): return ('app', 'idna', flags, q)

def flag_key(): return tuple(sorted(WANT_FLAGS.items()))

def h_to_ascii(ip, st, vals, info):
    v = models.val(ip, st, vals[0])
    q = ip.seq(st, vals[1])
    if v is None or v[0] != 'A' or q is None: return [(st, ip.mk_sym(info.dty, ('unknown-idna', AT.fresh() if hasattr(AT, 'fresh') else len(AT.key))))]
    names = [x[0] for x in ip.T[v[1]]['vs'][v[2]][1]]
    fl = []
    for n, x in zip(names, v[3]):
        c = x[1] if x[0] in 'IB' else None
        if x[0] == 'B': c = 1 if x[1] == ('true',) else 0 if x[1] == ('false',) else None
        elif x[0] == 'I': c = st.const_of(x[1])
        fl.append((n, c))
    return [(st, ip.mk_sym(info.dty, idna_key(tuple(sorted(fl)), models.norm_q(st, q))))]

def hooks_for(P):
    hk = local_hooks(P)
    def pred(n):
        def h(ip, st, vals, info): return [(st, ('I', atom(local_atom(n, models.norm_q(st, ip.seq(st, vals[0]))))))]
        return h
    def v4dot(ip, st, vals, info): return [(st, ip.mk_sym(info.dty, ('app', 'v4dot', models.norm_q(st, ip.seq(st, vals[0])))))]
    for p in P.byname:
        n = p.rsplit('::', 1)[-1]
        if n in ('is_local_domain', 'is_at_least_two_labels_domain'): hk[p] = pred(n)
        if n == 'parse_ipv4_allow_an_ended_dot': hk[p] = v4dot
    hk['idna::deprecated::Config::to_ascii'] = h_to_ascii
    return hk

def find_result(ip, ok, errpath):
    for i, t in enumerate(ip.T):
        if t['k'] == 'adt' and t['path'] == 'core::result::Result' and ip.T[t['args'][0]].get('path') == ok and (ip.T[t['args'][1]].get('path') or '').startswith(errpath): return i
    return None

def result_cases(ip, st, r, key):
    """[(state, ok payload | None)]"""
    if r is None: return [(st, None)]
    v = ip.mk_sym(r, key)
    d = ip.discr_lin(v)
    out = []
    for s in ip.assume(st.copy(), ('eq', d)): out.append((s, ip.mk_sym(ip.T[r]['args'][0], ('proj', ('a', v[1]), 0, 0))))
    for s in ip.assume(st.copy(), ('eq', addc(d, -1))): out.append((s, None))
    return out

def named(ip, st, base, n, h, lo, la, po, v4):
    """the plain (bracketless, not IPv6) grammar: [(state, formula, (kind, value, port, is_local, is_ipv4) | None)]"""
    out = []
    for s, j in last_colon(ip, st, base, n):
        if j is None and po == 'Must' or j is not None and po == 'Disallow': out.append((s, F, None)); continue
        hi = s.norm(n if j is None else j)
        ports = [(s, None)] if j is None else port_of(ip, s, ('Q', base, s.norm(addc(j, 1)), s.norm(sub(n, addc(j, 1)))))
        for s2, p in ports:
            if j is not None and p is None: out.append((s2, F, None)); continue
            q = models.norm_q(s2, ('Q', base, const(0), hi))
            for s3, a in result_cases(ip, s2, find_result(ip, 'alloc::string::String', 'idna'), idna_key(flag_key(), q)):
                if a is None: out.append((s3, F, None)); continue
                aq = ip.seq(s3, a)
                if h == 'domain':
                    v4s = result_cases(ip, s3, find_result(ip, 'core::net::ip_addr::Ipv4Addr', 'core::net'), ('app', 'v4dot', models.norm_q(s3, aq)))
                else:
                    v4s = []
                    dot = ('in', atom(at_atom(aq[1], s3.norm(addc(aq[3], -1)))), ((46, 46),))
                    for s4, ne in split_c(ip, s3, ('ge', addc(aq[3], -1))):
                        for s5, d in (split_c(ip, s4, dot) if ne else [(s4, False)]):
                            if d: out.append((s5, F, None)); continue
                            v4s += parsed(ip, s5, V4T, aq)
                for s4, addr in v4s:
                    aq4 = models.norm_q(s4, ip.seq(s4, a))
                    if addr is not None:
                        if v4 == 'Disallow' or la == 'Disallow': out.append((s4, F, None)); continue
                        l = atom(local_atom('is_local_ipv4', ip.freeze(s4, addr)))
                        cond = T
                    else:
                        if v4 == 'Must': out.append((s4, F, None)); continue
                        l = atom(local_atom('is_local_domain', aq4))
                        two = atom(local_atom('is_at_least_two_labels_domain', aq4))
                        cond = T if la == 'Allow' else Or(Eq(l, 1), Eq(two, 1 if la == 'Must' else 0))
                    gate = T if lo == 'Allow' else Eq(l, 1 if lo == 'Must' else 0)
                    out.append((s4, And(cond, gate), ('IPv4' if addr is not None else 'Domain', a if h == 'domain' or addr is None else addr, p, l, addr is not None)))
    return out

def spec_for(d, base, n):
    h, lo, la, po, v4 = d['h'], d['local'], d['labels'], d['port'], d['v4']
    def spec(ip, st):
        out = []
        nn = st.norm(n)
        for s, ne in split_c(ip, st, ('ge', addc(nn, -1))):
            if not ne: out.append((s, F, None)); continue
            if h == 'domain': out += named(ip, s, base, nn, h, lo, la, po, v4); continue
            for s2, x in addresses(ip, s, 'ipv6', base, nn):
                if x is None:
                    for s3, br in split_c(ip, s2, cell_is(base, const(0), '[')):
                        if br: out.append((s3, F, None))
                        else: out += named(ip, s3, base, s3.norm(nn), h, lo, la, po, v4)
                    continue
                fam, a, p = x
                if la == 'Disallow' or po == 'Must' and p is None or po == 'Disallow' and p is not None: out.append((s2, F, None)); continue
                l = atom(local_atom('is_local_ipv6', ip.freeze(s2, a)))
                out.append((s2, T if lo == 'Allow' else Eq(l, 1 if lo == 'Must' else 0), ('IPv6', a, p, l, False)))
        return out
    return spec

def output_for(d, e):
    h, po = d['h'], d['port']
    def output(ip, s, v, x):
        if e.startswith('validate'): return True
        kind, val, p, l, is4 = x
        f = fields(ip, v)
        if f is None: return 'no structure'
        if h == 'domain':
            if not same_seq(ip, s, f['domain'], ip.seq(s, val)): return 'the domain is not the ASCII form of the text'
        else:
            hv = f['host']
            if hv is None or hv[0] != 'A' or ip.T[hv[1]]['vs'][hv[2]][0] != kind: return 'the kind of host is wrong'
            hv = hv[3][0]
            if kind == 'Domain':
                if not same_seq(ip, s, hv, ip.seq(s, val)): return 'the domain is not the ASCII form of the text'
            elif not same_val(ip, s, hv, val): return 'the address is not the parsed one'
        def flag(name, want):
            b = f.get(name)
            if b is None: return True
            if b[0] == 'I': c = ('ne', b[1])
            elif b[0] == 'B': c = b[1]
            else: return False
            # b <=> want
            for s2, y in split_c(ip, s, c):
                if not entails(ip, s2, want if y else Not(want)): return False
            return True
        if 'is_ipv4' in f and not flag('is_ipv4', T if is4 else F): return 'is_ipv4 is wrong'
        if 'is_local' in f and not flag('is_local', Eq(l, 1)): return 'is_local is wrong'
        if po == 'Disallow': return True
        pv = f['port']
        if po == 'Allow':
            if pv is None or pv[0] != 'A' or pv[2] != (0 if p is None else 1): return 'presence of the port is wrong'
            if p is None: return True
            pv = pv[3][0]
        return same_val(ip, s, pv, p) or 'the port is not the parsed one'
    return output

def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    d = w.data
    if e in ('render', 'fq', 'nfq'): return render(rep, key, P, w, e)
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e), hooks=hooks_for(P))
    q = ip.seq(State(), ip.args[0]); base, n = q[1], q[3]
    judge_lang(rep, key, ip, res, base, n, spec_for(d, base, n), output_for(d, e))
    finish(rep, ip, key)
    return rep

def render(rep, key, P, w, e):
    d = w.data
    h, po = d['h'], d['port']
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e))
    f = sym_fields(ip, ip.args[0])
    st0 = State()
    def some(v): return ip.get_field(None, v, 0, ip.T[v[2]]['vs'][1][1][0][1], 1)
    def ended(s):
        """[(state, domain text without one final dot, had the dot)]"""
        q = ip.seq(s, f['domain'])
        out = []
        for s2, ne in split_c(ip, s, ('ge', addc(q[3], -1))):
            if not ne: out.append((s2, q, False)); continue
            for s3, dot in split_c(ip, s2, ('in', atom(at_atom(q[1], s2.norm(addc(q[3], -1)))), ((46, 46),))):
                out.append((s3, ('Q', q[1], q[2], s3.norm(addc(q[3], -1))) if dot else q, dot))
        return out
    for s, v in res:
        if e == 'fq':
            c = v[1] if v is not None and v[0] == 'B' else ('ne', v[1]) if v is not None and v[0] == 'I' else None
            for s2, q, dot in ended(s):
                if c is None: rep.add(False, key + ':outcome', detail(ip, s, v, 'undecided result'), True); continue
                rep.add(not ip.assume(s2.copy(), neg(c) if dot else c), key + ':fq', detail(ip, s2, v, 'is_fully_qualified is not "ends with a dot"'), tainted(s2)); continue
            continue
        if e == 'nfq':
            for s2, q, dot in ended(s):
                rep.add(same_seq(ip, s2, v, models.norm_q(s2, q)), key + ':nfq', detail(ip, s2, v, 'not the domain without its final dot'), tainted(s2))
            continue
        if v is not None and v[0] == 'A' and v[3]: v = v[3][0]
        ps = models.parts_of(ip, s, v) if v is not None else None
        if ps is None:
            rep.add(False, key + ':form', detail(ip, s, v, 'the rendered text is not understood'), True); continue
        cases = [(s, None)]
        if po == 'Must': cases = [(s, f['port'])]
        elif po == 'Allow':
            dl = ip.discr_lin(f['port'])
            cases = [(s2, None) for s2 in ip.assume(s.copy(), ('eq', dl))] + [(s2, some(f['port'])) for s2 in ip.assume(s.copy(), ('eq', addc(dl, -1)))]
        for s2, pv in cases:
            if h == 'domain': hosts = [(s3, 'Domain', q) for s3, q, _ in ended(s2)]
            else:
                dl = ip.discr_lin(f['host']); t = ip.T[f['host'][2]]
                hosts = [(s3, t['vs'][i][0], ip.get_field(s3, f['host'], 0, t['vs'][i][1][0][1], i)) for i in range(3) for s3 in ip.assume(s2.copy(), ('eq', addc(dl, -i)))]
            for s3, kind, hv in hosts:
                want = [('q', ip.seq(s3, hv))] if kind == 'Domain' else [('d', hv)] if kind == 'IPv4' else [('lit', b'['), ('d', hv), ('lit', b']')]
                if pv is not None: want += [('lit', b':'), ('d', pv)]
                want = merge_lits(want)
                ps2 = merge_lits([p for p in ps if not (p[0] == 'q' and s3.eq0(s3.norm(p[1][3])))])
                want = [p for p in want if not (p[0] == 'q' and s3.eq0(s3.norm(p[1][3])))]
                def eq(p, y):
                    if y[0] == 'lit': return p == y
                    if y[0] == 'q': return p[0] == 'q' and same_seq(ip, s3, p[1], models.norm_q(s3, y[1])) or p[0] == 'disp' and p[1] == 'display' and not p[2] and ip.seq(s3, p[3]) is not None and same_seq(ip, s3, p[3], models.norm_q(s3, y[1]))
                    return p[0] == 'disp' and p[1] == 'display' and not p[2] and same_val(ip, s3, p[3], y[1])
                good = len(want) == len(ps2) and all(eq(p, y) for p, y in zip(ps2, want))
                rep.add(good, key + ':text', detail(ip, s3, v, 'the rendered authority is %s, expected %s' % (str(ps2)[:300], str(want)[:200])), tainted(s3))
    judge_panics(rep, key, ip)
    finish(rep, ip, key)
    return rep

def merge_lits(ps):
    out = []
    for p in ps:
        if p == ('lit', b''): continue
        if p[0] == 'lit' and out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + p[1])
        else: out.append(p)
    return out

def sym_fields(ip, v):
    """fields of a symbolic struct value (through references)"""
    return fields(ip, v)
