"""email validator: the accepted language, the stored fields and the rendered text."""
from wit import *
import models
from monitor import Automaton, MON
from p_ip import local_atom, parsed, split_c, cell_is, fields, same_val, V4T, V6T, TRI
from p_domain import hooks_for, result_cases, find_result, idna_key, flag_key, merge_lits, STD
FEATURES = ['derive', 'email']
ENTRY['email'] = 'pub fn email(x: &X) -> String { <X as ToEmailString>::to_email_string(x) }'
COM = ('comment_before_local_part', 'comment_after_local_part', 'comment_before_domain_part', 'comment_after_domain_part')

def w_of(ipo, lo, la, co, na, ents):
    fs = ['pub local_part: String', 'pub need_quoted: bool', 'pub domain_part: ' + {'Allow': 'validators::models::Host', 'Must': 'std::net::IpAddr', 'Disallow': 'String'}[ipo]]
    if co == 'Allow': fs += ['pub %s: Option<String>' % c for c in COM]
    if lo == 'Allow' and la != 'Allow': fs.append('pub is_local: bool')
    at = 'email(%scomment(%s), ip(%s), local(%s), at_least_two_labels(%s), non_ascii(%s))' % ('conflict(Allow), ' if ipo == 'Must' and la == 'Disallow' else '', co, ipo, lo, la, na)
    return W('_'.join(['email'] + [x.lower() for x in (ipo, lo, la, co, na)]), at, ' { %s }' % ', '.join(fs), ents, ip=ipo, local=lo, labels=la, comment=co, nonascii=na)

def witnesses(tier='quick'):
    ws = []
    i = 0
    seen = set()
    # (ip, local, labels): the configurations which also allow comments, and those of them whose every entry is analysed
    com = {x: STR + ['email'] if x[0] == 'Disallow' and x[2] == 'Allow' or x == ('Must', 'Allow', 'Disallow') else ['parse_str', 'email']
           for x in [(ipo, 'Allow', la) for ipo in TRI for la in ('Allow', 'Disallow')] + [('Allow', 'Disallow', 'Disallow'), ('Must', 'Must', 'Disallow')]}
    for ipo in TRI:
        for la in TRI:
            for lo in TRI:
                i += 1
                co = 'Allow' if (ipo, lo, la) in com else 'Disallow'
                na = 'Allow' if i % 2 else 'Disallow'
                ws.append(w_of(ipo, lo, la, co, na, com.get((ipo, lo, la)) or STR + ['email']))
                seen.add(ws[-1].name)
    if tier == 'thorough':
        for w in ws: w.entries = STR + ['email']
        for ipo in TRI:
            for la in TRI:
                for lo in TRI:
                    i += 1
                    w = w_of(ipo, lo, la, 'Allow', 'Disallow' if i % 2 else 'Allow', STR + ['email'])
                    if w.name not in seen: ws.append(w)
    return ws

ATEXT = iset_norm([(65, 90), (97, 122), (48, 57), (33, 33), (35, 39), (42, 43), (45, 45), (47, 47), (61, 61), (63, 63), (94, 96), (123, 126)])
SPECIAL = iset_chars('(),:;<>@[]')
def ch(c): return ((ord(c), ord(c)),)
ALL = BYTE

def automaton(comment, nonascii):
    A = iset_union(ATEXT, ((128, 255),)) if nonascii else ATEXT
    WS = iset_chars(' \t')
    AT_, DEAD = 'AT', ('DEAD',)
    def delta(q):
        k = q[0]
        if k == 'S':
            c1 = q[1]
            ts = [(ch('"'), ('Q0', c1), ()), (A, ('U', c1), ())]
            if comment and not c1: ts.append((ch('('), ('C1',), ()))
            return ts
        if k == 'C1': return [(ch(')'), ('S', 1), ('c1',)), (ALL, q, ())]
        if k == 'U':
            ts = [(A, q, ()), (ch('.'), ('UD', q[1]), ()), (ch('@'), (AT_, q[1], 'U', 0), ('le',))]
            if comment: ts.append((ch('('), ('C2', q[1], 'U'), ('le',)))
            return ts
        if k == 'UD': return [(A, ('U', q[1]), ())]
        if k in ('Q0', 'Q'):
            c1, need, dot = (q[1], 0, 1) if k == 'Q0' else q[1:]
            ts = [(A, ('Q', c1, need, 0), ()), (ch('.'), ('Q', c1, 1, 0) if need or dot else ('Q', c1, 0, 1), ()),
                  (ch('\\'), ('E', c1), ()), (WS, ('Q', c1, 1, 0), ())]
            if k == 'Q': ts.append((ch('"'), ('QC', c1, 'q' if need or dot else 'n'), ('le',)))
            return ts
        if k == 'E': return [(iset_union(iset_union(A, WS), iset_union(SPECIAL, iset_chars('."\\'))), ('Q', q[1], 1, 0), ())]
        if k == 'QC':
            ts = [(ch('@'), (AT_,) + q[1:] + (0,), ())]
            if comment: ts.append((ch('('), ('C2',) + q[1:], ()))
            return ts
        if k == 'C2': return [(ch(')'), ('A2',) + q[1:], ('c2',)), (ALL, q, ())]
        if k == 'A2': return [(ch('@'), (AT_,) + q[1:] + (1,), ())]
        raise ValueError(q)
    final = {(AT_, c, t, d) for c in (0, 1) for t in 'Uqn' for d in (0, 1)} | {DEAD}
    return Automaton(('S', 0), delta, final, ('c1', 'le', 'c2'), DEAD)

UNDECIDED = 'undecided'

def formatted_len(ip, st, v, kind=None):
    return base_len(('cat', (('disp', 'display', (), ip.freeze(st, v)),)))

def first(ip, st, base, lo, hi, c):
    """[(state, index | None)] first cell equal to c in [lo, hi)"""
    return models.find_split(ip, st, models.norm_q(st, ('Q', base, lo, sub(hi, lo))), ch(c), 'first', lambda s, j: s.norm(add(s.norm(lo), j)), None)

def known_after(s, base, pos):
    """whether the state knows anything about cells from pos on"""
    for i, c in s.cells(base):
        if c != cell_range(base) and not s.ge(addc(sub(pos, i), -1)): return True
    return any(b == base and not s.ge(sub(pos, hi)) for b, lo, hi, c in s.quant)

def spec_for(d, base, n, M, depth=6, stop=lambda q: False):
    ipo, lo, la, co = d['ip'], d['local'], d['labels'], d['comment']
    def spec(ip, st):
        out = []
        todo = []
        # 64 + 1 + 255
        for s, short in split_c(ip, st, ('ge', addc(scale(st.norm(n), -1), 320))):
            if short: todo.append((s, depth))
            else: out.append((s, F, None))
        while todo:
            s, k = todo.pop()
            q, pos, marks = M.get(s)
            if q == M.dead or stop(M.names[q]): out.append((s, F, None)); continue
            if s.ge(addc(add(pos, const(M.dist[q])), -66)): out.append((s, F, None)); continue
            if q in M.absorbing:
                for s2, short in split_c(ip, s, ('ge', addc(scale(pos, -1), 65))):
                    if not short: out.append((s2, F, None))
                    else: domain(ip, s2, M.names[q], s2.norm(pos), out)
                continue
            if k == 0:
                # rejected without a look at the rest, which can be completed to an address
                if known_after(s, base, pos): s.taint = s.taint | {'the local part is not decided'}
                out.append((s, Eq(atom(AT.get((UNDECIDED,), BOOL)), 1), {'open': M.names[q]})); continue
            for s2, ended in M.force(s):
                if ended: out.append((s2, F, None))
                else: todo += [(s3, k - 1) for s3 in M(ip, s2)]
        return out
    def domain(ip, st, q, D, out):
        """D: position after '@'"""
        nn = st.norm(n)
        for s, ok in split_c(ip, st, ('ge', addc(sub(nn, D), -1))):
            if not ok: out.append((s, F, None)); continue
            for s2, ok2 in split_c(ip, s, ('ge', addc(sub(s.norm(D), s.norm(nn)), 255))):
                if not ok2: out.append((s2, F, None)); continue
                D2 = s2.norm(D)
                for s3, par in split_c(ip, s2, cell_is(base, D2, '(')):
                    if not par: host(ip, s3, q, D, s3.norm(D), None, out); continue
                    if co == 'Disallow': out.append((s3, F, None)); continue
                    for s4, j in first(ip, s3, base, s3.norm(addc(D, 1)), s3.norm(nn), ')'):
                        if j is None: out.append((s4, F, None)); continue
                        c3 = ('Q', base, s4.norm(addc(D, 1)), s4.norm(sub(j, addc(D, 1))))
                        p = s4.norm(addc(j, 1))
                        for s5, more in split_c(ip, s4, ('ge', addc(sub(s4.norm(nn), p), -1))):
                            if not more: out.append((s5, F, None)); continue
                            for s6, again in split_c(ip, s5, cell_is(base, s5.norm(p), '(')):
                                if again: out.append((s6, F, None))
                                else: host(ip, s6, q, D, s6.norm(p), c3, out)
    def host(ip, st, q, D, p, c3, out):
        nn = st.norm(n)
        for s, br in split_c(ip, st, cell_is(base, p, '[')):
            if not br:
                if ipo == 'Must': out.append((s, F, None)); continue
                for s2, j in first(ip, s, base, s.norm(p), s.norm(nn), '('):
                    e = s2.norm(n if j is None else j)
                    t = models.norm_q(s2, ('Q', base, s2.norm(p), sub(e, s2.norm(p))))
                    for s3, a in result_cases(ip, s2, find_result(ip, 'alloc::string::String', 'idna'), idna_key(flag_key(), t)):
                        if a is None: out.append((s3, F, None)); continue
                        aq = models.norm_q(s3, ip.seq(s3, a))
                        dot = ('in', atom(at_atom(aq[1], s3.norm(addc(aq[3], -1)))), ((46, 46),))
                        for s4, ne in split_c(ip, s3, ('ge', addc(aq[3], -1))):
                            for s5, dd in (split_c(ip, s4, dot) if ne else [(s4, False)]):
                                if dd: out.append((s5, F, None)); continue
                                aq5 = models.norm_q(s5, aq)
                                l = atom(local_atom('is_local_domain', aq5))
                                two = atom(local_atom('is_at_least_two_labels_domain', aq5))
                                cond = T if la == 'Allow' else Or(Eq(l, 1), Eq(two, 1 if la == 'Must' else 0))
                                off = sub(aq5[3], s5.norm(t[3]))
                                rest(ip, s5, q, D, s5.norm(e), cond, l, off, ('Domain', a), c3, out)
                continue
            if ipo == 'Disallow' or la == 'Disallow': out.append((s, F, None)); continue
            pre = [(s, True)]
            for i, c in enumerate('IPv6:'):
                nx = []
                for s2, y in pre:
                    if not y: nx.append((s2, False)); continue
                    i2 = s2.norm(addc(p, 1 + i))
                    for s3, inn in split_c(ip, s2, ('ge', addc(sub(s2.norm(n), i2), -1))):
                        if not inn: nx.append((s3, False)); continue
                        nx += split_c(ip, s3, cell_is(base, s3.norm(i2), c))
                pre = nx
            for s2, six in pre:
                b = s2.norm(addc(p, 6 if six else 1))
                for s3, j in first(ip, s2, base, b, s2.norm(n), ']'):
                    if j is None: out.append((s3, F, None)); continue
                    b3 = s3.norm(b)
                    t = models.norm_q(s3, ('Q', base, b3, sub(s3.norm(j), b3)))
                    for s4, a in parsed(ip, s3, V6T if six else V4T, t):
                        if a is None: out.append((s4, F, None)); continue
                        l = atom(local_atom('is_local_ipv6' if six else 'is_local_ipv4', ip.freeze(s4, a)))
                        off = sub(formatted_len(ip, s4, a), s4.norm(t[3])) if six else const(0)
                        rest(ip, s4, q, D, s4.norm(addc(j, 1)), T, l, off, ('IPv6' if six else 'IPv4', a), c3, out)
    def rest(ip, st, q, D, e, cond, l, off, hostv, c3, out):
        gate = T if lo == 'Allow' else Eq(l, 1 if lo == 'Must' else 0)
        size = Or(Le(off, 0), Ge(add(scale(add(sub(st.norm(n), st.norm(D)), off), -1), const(255)), 0))
        acc = And(cond, gate, size)
        ctx = dict(q=q, host=hostv, l=l, c3=c3)
        for s, end in split_c(ip, st, ('eq', sub(st.norm(n), e))):
            if end: out.append((s, acc, dict(ctx, c4=None))); continue
            e2 = s.norm(e)
            # something follows the host: a comment which ends the input
            for s2, par in split_c(ip, s, cell_is(base, e2, '(')):
                if not par or co == 'Disallow': out.append((s2, F, None)); continue
                for s3, j in first(ip, s2, base, s2.norm(addc(e2, 1)), s2.norm(n), ')'):
                    if j is None: out.append((s3, F, None)); continue
                    for s4, last in split_c(ip, s3, ('eq', addc(sub(s3.norm(n), s3.norm(j)), -1))):
                        if not last: out.append((s4, F, None)); continue
                        e4 = s4.norm(addc(e2, 1))
                        out.append((s4, acc, dict(ctx, c4=('Q', base, e4, s4.norm(sub(s4.norm(j), e4))))))
    return spec

def output_for(d, e, base, M):
    def output(ip, s, v, x):
        if e.startswith('validate'): return True
        f = fields(ip, v)
        if f is None: return 'no structure'
        _, c1, kind, c2 = x['q']
        m1, le, m2 = M.get(s)[2]
        ls = addc(m1, 1) if c1 else const(0)
        if kind != 'U': ls = addc(ls, 1)
        Q = lambda a, b: models.norm_q(s, ('Q', base, a, sub(b, a)))
        if not same_seq(ip, s, f['local_part'], Q(ls, le)): return 'the local part is not the written one'
        nq = f['need_quoted']
        c = nq[1] if nq is not None and nq[0] == 'B' else ('ne', nq[1]) if nq is not None and nq[0] == 'I' else None
        if c is None: return 'need_quoted is not decided'
        if ip.assume(s.copy(), neg(c) if kind == 'q' else c): return 'need_quoted is wrong'
        k, val = x['host']
        hv = f['domain_part']
        if d['ip'] != 'Disallow':
            if hv is None or hv[0] != 'A': return 'no host'
            nm = ip.T[hv[1]]['vs'][hv[2]][0]
            if nm != (k if d['ip'] == 'Allow' else {'IPv4': 'V4', 'IPv6': 'V6'}.get(k)): return 'the kind of host is wrong'
            hv = hv[3][0]
        if k == 'Domain':
            if not same_seq(ip, s, hv, ip.seq(s, val)): return 'the domain is not the ASCII form of the text'
        elif not same_val(ip, s, hv, val): return 'the address is not the parsed one'
        if d['comment'] == 'Allow':
            w = [Q(const(1), m1) if c1 else None, Q(addc(le, 2 if kind != 'U' else 1), m2) if c2 else None, x['c3'], x['c4']]
            for nm, q in zip(COM, w):
                o = f[nm]
                if o is None or o[0] != 'A' or o[2] != (0 if q is None else 1): return 'presence of %s is wrong' % nm
                if q is not None and not same_seq(ip, s, o[3][0], models.norm_q(s, q)): return '%s is not the written one' % nm
        b = f.get('is_local')
        if b is not None:
            c = b[1] if b[0] == 'B' else ('ne', b[1]) if b[0] == 'I' else None
            if c is None: return 'is_local is not decided'
            for s2, y in split_c(ip, s, c):
                if not entails(ip, s2, Eq(x['l'], 1 if y else 0)): return 'is_local is wrong'
        return True
    return output

def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    d = w.data
    if e == 'email': return render(rep, key, P, w)
    M, ip, res = product(P, w, e, d['comment'] != 'Disallow')
    judge_lang(rep, key, ip, res, M.base, M.n, spec_for(d, M.base, M.n, M), output_for(d, e, M.base, M))
    finish(rep, ip, key)
    return rep

def product(P, w, e, comment):
    """the outcomes of the program running alongside the grammar's automaton"""
    M = automaton(comment, w.data['nonascii'] != 'Disallow')
    def setup(ip, st, f, args):
        q = ip.seq(st, args[0])
        M.init(st, q[1], q[3])
        ip.monitor = M
        ip.joinmax = 8
        ip.UNROLL = 4
        return args
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e), hooks=hooks_for(P), setup=setup)
    return M, ip, res

def render(rep, key, P, w):
    d = w.data
    ip, res = analyse(P, 'crate::%s::email' % w.name)
    f = fields(ip, ip.args[0])
    def some(v): return ip.get_field(None, v, 0, ip.T[v[2]]['vs'][1][1][0][1], 1)
    for s, v in res:
        ps = models.parts_of(ip, s, v) if v is not None else None
        if ps is None: rep.add(False, key + ':form', detail(ip, s, v, 'the rendered text is not understood'), True); continue
        cases = [(s, {}, None, None)]
        if d['comment'] == 'Allow':
            for c in COM:
                nx = []
                for s2, m, a, b in cases:
                    dl = ip.discr_lin(f[c])
                    nx += [(s3, dict(m, **{c: None}), a, b) for s3 in ip.assume(s2.copy(), ('eq', dl))]
                    nx += [(s3, dict(m, **{c: ip.seq(s3, some(f[c]))}), a, b) for s3 in ip.assume(s2.copy(), ('eq', addc(dl, -1)))]
                cases = nx
        nq = f['need_quoted']
        c = nq[1] if nq[0] == 'B' else ('ne', nq[1])
        cases = [(s3, m, y, None) for s2, m, _, _ in cases for s3, y in split_c(ip, s2, c)]
        nx = []
        for s2, m, y, _ in cases:
            hv = f['domain_part']
            if d['ip'] == 'Disallow': nx.append((s2, m, y, ('Domain', hv))); continue
            dl = ip.discr_lin(hv); t = ip.T[hv[2]]
            for i, vv in enumerate(t['vs']):
                nm = {'V4': 'IPv4', 'V6': 'IPv6'}.get(vv[0], vv[0])
                nx += [(s3, m, y, (nm, ip.get_field(s3, hv, 0, vv[1][0][1], i))) for s3 in ip.assume(s2.copy(), ('eq', addc(dl, -i)))]
        for s3, m, y, (kind, hv) in nx:
            def com(nm): return [] if m.get(nm) is None else [('lit', b'('), ('q', m[nm]), ('lit', b')')]
            qt = [('lit', b'"')] if y else []
            h = [('q', ip.seq(s3, hv))] if kind == 'Domain' else [('lit', b'[' if kind == 'IPv4' else b'[IPv6:'), ('d', hv), ('lit', b']')]
            want = com(COM[0]) + qt + [('q', ip.seq(s3, f['local_part']))] + qt + com(COM[1]) + [('lit', b'@')] + com(COM[2]) + h + com(COM[3])
            want = merge_lits([p for p in want if not (p[0] == 'q' and s3.eq0(s3.norm(p[1][3])))])
            ps2 = merge_lits([p for p in ps if not (p[0] == 'q' and s3.eq0(s3.norm(p[1][3])))])
            def eq(p, z):
                if z[0] == 'lit': return p == z
                if z[0] == 'q': return p[0] == 'q' and same_seq(ip, s3, p[1], models.norm_q(s3, z[1])) or p[0] == 'disp' and p[1] == 'display' and not p[2] and ip.seq(s3, p[3]) is not None and same_seq(ip, s3, p[3], models.norm_q(s3, z[1]))
                return p[0] == 'disp' and p[1] == 'display' and not p[2] and same_val(ip, s3, p[3], z[1])
            good = len(want) == len(ps2) and all(eq(p, z) for p, z in zip(ps2, want))
            rep.add(good, key + ':text', detail(ip, s3, v, 'the rendered address is %s, expected %s' % (str(ps2)[:400], str(want)[:400])), tainted(s3))
    judge_panics(rep, key, ip)
    finish(rep, ip, key)
    return rep
