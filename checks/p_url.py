"""http_url and http_ftp_url validators: scheme, delegated parse, locality, value."""
from wit import *
import models
from p_ip import local_hooks, local_atom, split_c, fields, same_val, TRI
from p_domain import result_cases
FEATURES = ['derive', 'http_url', 'http_ftp_url', 'url']
URL = 'url::Url'
PROTO = {'http_url': ['http', 'https'], 'http_ftp_url': ['http', 'https', 'ftp']}

def witnesses():
    ws = []
    for h in ('http_url', 'http_ftp_url'):
        for lo in TRI:
            body = ' { pub url: validators::url::Url, pub %s }' % ('is_https: bool' if h == 'http_url' else 'protocol: validators::models::Protocol')
            ws.append(W('%s_%s' % (h, lo.lower()), '%s(local(%s))' % (h, lo), body, STR, h=h, local=lo))
    return ws

def low(c): return models.ci_set(ord(c), True)

def url_key(q): return ('app', 'url', q)

def hooks_for(P):
    hk = local_hooks(P)
    def pred(n):
        def h(ip, st, vals, info): return [(st, ('I', atom(local_atom(n, ip.freeze(st, vals[0])))))]
        return h
    for p in P.byname:
        n = p.rsplit('::', 1)[-1]
        if n == 'is_local_domain': hk[p] = pred(n)
    def parse(ip, st, vals, info): return [(st, ip.mk_sym(info.dty, url_key(models.norm_q(st, ip.seq(st, vals[0])))))]
    def host(ip, st, vals, info):
        """a parsed URL with one of the special schemes has a host"""
        u = models.val(ip, st, vals[0])
        v = ip.mk_sym(info.dty, ('app', 'host', ip.freeze(st, u)))
        k = AT.key[u[1]] if u is not None and u[0] == 'S' else None
        if k and k[0] == 'proj' and special(ip, st, AT.key[k[1][1]]):
            return [(s, v) for s in ip.assume(st.copy(), ('eq', addc(ip.discr_lin(v), -1)))]
        return [(st, v)]
    def sch(ip, st, vals, info):
        u = models.val(ip, st, vals[0])
        k = AT.key[u[1]] if u is not None and u[0] == 'S' else None
        k = AT.key[k[1][1]] if k and k[0] == 'proj' else None
        if k and k[:2] == ('app', 'url'):
            for p in ('http', 'https', 'ftp'):
                if entails(ip, st, scheme(k[2][1], st.norm(k[2][3]), p)): return [(st, ('RV', ('Q', ('c', p.encode()), const(0), const(len(p)))))]
        return None
    from p_deleg import from_str_hooks
    hk.update(from_str_hooks(lambda ip, st, n, q: url_key(models.norm_q(st, ip.seq(st, q)))))
    hk['url::Url::scheme'] = sch
    hk['url::Url::parse'] = parse
    hk['url::Url::host'] = host
    return hk

def special(ip, st, key):
    if key[:2] != ('app', 'url'): return False
    q = key[2]
    return any(entails(ip, st, scheme(q[1], st.norm(q[3]), p)) for p in ('http', 'https', 'ftp'))

def scheme(base, n, p): return And(Ge(n, len(p) + 1), *[Cell(base, i, low(c)) for i, c in enumerate(p + ':')])

def find_ty(ip, pred):
    for i, t in enumerate(ip.T):
        if pred(t): return i
    return None

def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    h, lo = w.data['h'], w.data['local']
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e), hooks=hooks_for(P))
    q = ip.seq(State(), ip.args[0]); base, n = q[1], q[3]
    rty = find_ty(ip, lambda t: t['k'] == 'adt' and t['path'] == 'core::result::Result' and ip.T[t['args'][0]].get('path') == URL)
    hty = find_ty(ip, lambda t: t['k'] == 'adt' and t['path'] == 'core::option::Option' and 'url::' in t['s'] and 'Host<' in t['s'])
    def spec(ip, st):
        out = []
        cur = [st]
        for i, p in enumerate(PROTO[h]):
            nxt = []
            for s in cur:
                r = models.prefix_split(ip, s, models.norm_q(s, ('Q', base, const(0), n)), [low(c) for c in p + ':'], False)
                for s2, hit in r:
                    if not hit: nxt.append(s2); continue
                    qq = models.norm_q(s2, ('Q', base, const(0), n))
                    for s3, u in result_cases(ip, s2, rty, url_key(qq)):
                        if u is None: out.append((s3, F, None)); continue
                        if lo == 'Allow': out.append((s3, T, (i, u))); continue
                        if hty is None: out.append((s3, F, (i, u))); continue
                        hv = ip.mk_sym(hty, ('app', 'host', ip.freeze(s3, u)))
                        ht = ip.T[hty]['args'][0]
                        inner = ip.get_field(s3, hv, 0, ip.T[hty]['vs'][1][1][0][1], 1)
                        for s4 in ip.assume(s3, ('eq', addc(ip.discr_lin(hv), -1))):
                            dl = ip.discr_lin(inner)
                            for k, (vn, fs, *_) in enumerate(ip.T[ht]['vs']):
                                for s5 in ip.assume(s4.copy(), ('eq', addc(dl, -k))):
                                    x = ip.get_field(s5, inner, 0, fs[0][1], k)
                                    l = local_atom('is_local_' + {'Domain': 'domain', 'Ipv4': 'ipv4', 'Ipv6': 'ipv6'}[vn], ip.freeze(s5, x))
                                    out.append((s5, Eq(atom(l), 1 if lo == 'Must' else 0), (i, u)))
            cur = nxt
        return out + [(s, F, None) for s in cur]
    def output(ip, s, v, x):
        if e.startswith('validate'): return True
        i, u = x
        f = fields(ip, v)
        if f is None: return 'no structure'
        if not same_val(ip, s, f['url'], u): return 'the URL is not the parsed one'
        if h == 'http_url':
            b = f['is_https']
            c = b[1] if b is not None and b[0] == 'B' else ('ne', b[1]) if b is not None and b[0] == 'I' else None
            return c is not None and not ip.assume(s.copy(), neg(c) if i == 1 else c) or 'is_https is wrong'
        pr = f['protocol']
        return pr is not None and pr[0] == 'A' and ip.T[pr[1]]['vs'][pr[2]][0] == ('HTTP', 'HTTPS', 'FTP')[i] or 'the protocol is wrong'
    judge_lang(rep, key, ip, res, base, n, spec, output)
    finish(rep, ip, key)
    return rep
