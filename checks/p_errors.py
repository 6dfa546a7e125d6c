"""The error of a rejection holds: a rule's error is given only for inputs that break the rule, and
`Invalid` (a parse error) only for inputs that no setting of the options admits."""
from wit import *
import models
import p_base, p_hex, p_line, p_num, p_float, p_ip, p_domain, p_url, p_decoded, p_deleg, p_email
from p_ip import local_hooks, local_atom, split_c, parsed, addresses
from p_deleg import find_ty
MODS = {'base': p_base, 'hex': p_hex, 'line': p_line, 'num': p_num, 'float': p_float, 'ip': p_ip, 'domain': p_domain, 'url': p_url, 'decoded': p_decoded, 'phone': p_deleg, 'email': p_email}
FEATURES = sorted({f for m in MODS.values() for f in m.FEATURES})
STD = sorted({x for m in MODS.values() for x in getattr(m, 'STD', ())})
SKIP = {'render', 'fq', 'nfq', 'len', 'is_empty', 'minified', 'beautified', 'email'}

def witnesses():
    ws = []
    for k, m in MODS.items():
        for w in m.witnesses():
            if k == 'phone' and not w.name.startswith('phone'): continue
            if k == 'hex' and w.data['kind'] == 'Allow' or k in ('base', 'decoded') and w.data['padding'] == 'Allow' and not w.name.endswith('default'): continue
            w.data = dict(w.data, mod=k, was=w.name)
            w.name = k + '_' + w.name
            w.entries = [e for e in w.entries if e not in SKIP]
            if k == 'email' and w.data['comment'] == 'Allow': w.entries = ['parse_str']
            ws.append(w)
    # the costly ones first
    return sorted(ws, key=lambda w: (w.data.get('comment') != 'Allow', w.data['mod'] != 'email'))

def judge(rep, key, ip, res, truth):
    for s, k, p in split_result(ip, res):
        if k is None: rep.add(False, key + ':outcome', detail(ip, s, p, 'the outcome is not a decided Result'), True); continue
        if k == 'Ok': continue
        if p is None or p[0] != 'A' or ip.T[p[1]]['k'] != 'adt':
            rep.add(False, key + ':outcome', detail(ip, s, p, 'the error is not decided'), True); continue
        v = variant(ip.T, p)
        for s2, f in truth(ip, s, v, p[3]):
            rep.add(entails(ip, s2, f), key + ':' + v, detail(ip, s2, p, 'refused with the error %s, whose reason does not hold' % v), tainted(s2))

def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    d = w.data
    hooks, setup = {}, None
    k = d['mod']
    if k == 'ip': hooks = local_hooks(P)
    elif k == 'domain': hooks = p_domain.hooks_for(P)
    elif k == 'url': hooks = p_url.hooks_for(P)
    elif k == 'decoded': hooks = p_decoded.hooks()
    elif k == 'phone': hooks = p_deleg.hooks_for(P)
    if k == 'line': return line(rep, key, P, w, e)
    if k == 'email': return email(rep, key, P, w, e)
    ip, res = analyse(P, 'crate::%s' % key, hooks=hooks)
    q = ip.seq(State(), ip.args[0])
    judge(rep, key, ip, res, globals()['t_' + k](w, e, ip, q))
    finish(rep, ip, key)
    return rep

# ---- addresses and names

def t_ip(w, e, ip, q):
    d = w.data; h, lo, po = d['h'], d['local'], d['port']
    def truth(ip, s, v, payload):
        out = []
        for s2, x in addresses(ip, s, h, q[1], s.norm(q[3])):
            if x is None: out.append((s2, T)); continue
            fam, a, p = x
            l = atom(local_atom('is_local_ipv%d' % fam, ip.freeze(s2, a)))
            out.append((s2, place(v, lo, po, l, p)))
        return out
    return truth

def place(v, lo, po, l, p):
    if v == 'LocalMust' and lo == 'Must': return Eq(l, 0)
    if v == 'LocalDisallow' and lo == 'Disallow': return Eq(l, 1)
    if v == 'PortMust' and po == 'Must': return T if p is None else F
    if v == 'PortDisallow' and po == 'Disallow': return T if p is not None else F
    return F

def t_domain(w, e, ip, q):
    d = w.data; lo, po, la, v4 = d['local'], d['port'], d['labels'], d['v4']
    free = dict(d, local='Allow', port='Allow', labels='Allow', v4='Allow')
    spec = p_domain.spec_for(free, q[1], q[3])
    def truth(ip, s, v, payload):
        out = []
        for s2, acc, x in spec(ip, s):
            if x is None: out.append((s2, T)); continue
            kind, val, p, l, is4 = x
            f = place(v, lo, po, l, p)
            if v == 'IPv4Must' and v4 == 'Must': f = F if is4 else T
            elif v == 'IPv4Disallow' and v4 == 'Disallow': f = T if is4 else F
            elif v in ('AtLeastTwoLabelsMust', 'AtLeastTwoLabelsDisallow') and la == v[16:]:
                if kind != 'Domain': f = F if la == 'Must' else T
                else:
                    two = atom(local_atom('is_at_least_two_labels_domain', models.norm_q(s2, ip.seq(s2, val))))
                    f = And(Eq(l, 0), Eq(two, 0 if la == 'Must' else 1))
            out.append((s2, Or(Not(acc), f)))
        return out
    return truth

def t_url(w, e, ip, q):
    h, lo = w.data['h'], w.data['local']
    base, n = q[1], q[3]
    rty = find_ty(ip, lambda t: t['k'] == 'adt' and t['path'] == 'core::result::Result' and ip.T[t['args'][0]].get('path') == p_url.URL)
    hty = find_ty(ip, lambda t: t['k'] == 'adt' and t['path'] == 'core::option::Option' and 'url::' in t['s'] and 'Host<' in t['s'])
    def truth(ip, st, v, payload):
        anyp = Or(*[p_url.scheme(base, st.norm(n), p) for p in p_url.PROTO[h]])
        if v == 'ProtocolError': return [(st, Not(anyp))]
        out = []
        for s, u in p_deleg.result_cases(ip, st, rty, p_url.url_key(models.norm_q(st, ('Q', base, const(0), n)))):
            if v == 'ParseError': out.append((s, F if u is not None else T)); continue
            if u is None or v not in ('LocalMust', 'LocalDisallow') or v[5:] != lo or hty is None: out.append((s, F)); continue
            hv = ip.mk_sym(hty, ('app', 'host', ip.freeze(s, u)))
            ht = ip.T[hty]['args'][0]
            inner = ip.get_field(s, hv, 0, ip.T[hty]['vs'][1][1][0][1], 1)
            for s4 in ip.assume(s, ('eq', addc(ip.discr_lin(hv), -1))):
                dl = ip.discr_lin(inner)
                for i, (vn, fs, *_) in enumerate(ip.T[ht]['vs']):
                    for s5 in ip.assume(s4.copy(), ('eq', addc(dl, -i))):
                        x = ip.get_field(s5, inner, 0, fs[0][1], i)
                        l = local_atom('is_local_' + {'Domain': 'domain', 'Ipv4': 'ipv4', 'Ipv6': 'ipv6'}[vn], ip.freeze(s5, x))
                        out.append((s5, And(anyp, Eq(atom(l), 0 if lo == 'Must' else 1))))
        return out
    return truth

# ---- encodings

def t_base(w, e, ip, q):
    d = w.data; pad = d['padding']; g = p_base.GROUP[d['handler']]
    base, n = q[1], q[3]
    lang = p_base.spec_for(W('', '', padding='Allow', handler=d['handler']), base, n)
    def truth(ip, st, v, payload):
        out = []
        for s, acc, _ in lang(ip, st):
            nn = s.norm(n)
            f = F
            # a text of partial groups that the padding-free form admits has no padding
            if v == 'PaddingMust' and pad == 'Must': f = T if nn[0] % g and all(c % g == 0 for _, c in nn[1]) else All(base, 0, nn, p_base.ALPHA[d['handler']])
            if v == 'PaddingDisallow' and pad == 'Disallow': f = And(Ge(nn, 1), Cell(base, addc(nn, -1), p_base.EQ))
            out.append((s, Or(Not(acc), f)))
        return out
    return truth

def t_decoded(w, e, ip, q):
    t = t_base(w, e, ip, q)
    h = w.data['handler']
    base, n = q[1], q[3]
    al, g = p_base.ALPHA[h], p_base.GROUP[h]
    rt = find_ty(ip, lambda t: t['k'] == 'adt' and t['path'] == 'core::result::Result' and ip.T[t['args'][1]]['s'].startswith('data_encoding::DecodeError'))
    lang = p_base.spec_for(W('', '', padding='Allow', handler=h), base, n)
    def truth(ip, st, v, payload):
        if v != 'Decode': return t(ip, st, v, payload)
        out = []
        for s, acc, _ in lang(ip, st):
            if entails(ip, s, Not(acc)): out.append((s, T)); continue
            done = False
            for p in [0] + [g - x for x in p_base.PADPOS[g]]:
                nn = s.norm(n)
                f = And(Ge(nn, 1), All(base, 0, nn, al)) if not p else And(Ge(nn, g), All(base, 0, addc(nn, -p), al), All(base, addc(nn, -p), nn, p_base.EQ))
                if rt is None or not entails(ip, s, And(acc, f)): continue
                done = True
                r = p_decoded.decoded(ip, s, h, q, p, rt)
                for s2 in ip.assume(s.copy(), ('eq', ip.discr_lin(r))): out.append((s2, F))
                break
            if not done: out.append((s, Not(acc)))
        return out
    return truth

def t_hex(w, e, ip, q):
    d = w.data; kind = d['kind']
    base, n = q[1], q[3]
    hx = p_hex.HEX[d['case']]; sp = ((d['sep'], d['sep']),)
    fml = lambda l: And(Eq(n, l[0]), *([Cell(base, i, sp) for i in l[2]] + [Cell(base, i, hx) for i in l[1]]))
    ls = p_hex.layouts(W('', '', handler=d['handler'], kind='Allow'))
    full = max(l[0] for l in ls); bare = min(l[0] for l in ls)
    def truth(ip, st, v, payload):
        f = F
        if v == 'SeparatorMust' and kind == 'Must': f = Or(*[fml(l) for l in ls if l[0] < full])
        if v == 'SeparatorDisallow' and kind == 'Disallow': f = Or(*[fml(l) for l in ls if l[0] > bare])
        out = [l for l in ls if not (kind == 'Must' and v == 'SeparatorMust' and l[0] < full or kind == 'Disallow' and v == 'SeparatorDisallow' and l[0] > bare)]
        return [(st, And(*[Not(fml(l)) for l in out]))]
    return truth

# ---- numbers

def t_num(w, e, ip, q):
    d = w.data
    ty = d['ty']; lo, hi = p_num.INT[ty]
    a, b, inside = d['a'], d['b'], d['inside']
    return number(w, e, ip, q, 'ParseIntError', lambda v, x: {
        'TooSmall': Le(x, (a if inside else lo) - 1), 'TooLarge': Ge(x, (b if inside else hi) + 1),
        'Forbidden': F if inside else In(x, iset((a, b)))}.get(v, F))

def t_float(w, e, ip, q):
    d = w.data
    a, b, inside, nan = d['a'], d['b'], d['inside'], d['nan']
    real = iset((-p_float.INF, p_float.INF))
    return number(w, e, ip, q, 'ParseFloatError', lambda v, x: {
        'TooSmall': In(x, iset((-p_float.INF, a - 1))) if inside else F, 'TooLarge': In(x, iset((b + 1, p_float.INF))) if inside else F,
        'Forbidden': F if inside else In(x, iset((a, b))),
        'NaNMust': In(x, real) if nan == 'Must' else F, 'NaNDisallow': In(x, p_float.NAN) if nan == 'Disallow' else F}.get(v, F))

def number(w, e, ip, q, err, cond):
    ty = w.data['ty']
    def truth(ip, st, v, payload):
        if e not in STR:
            x = ip.args[0]
            if x[0] == 'F' and not e.endswith(ty): x = ip.cast(State(), 'FloatToFloat', x, ip.find_ty(ty), ip.find_ty(e[-3:]))
            return [(st, cond(v, x[1]))]
        rty = p_num.result_ty(ip, ty, err)
        return [(s, (T if v == err else F) if x is None else cond(v, x[1])) for s, x in p_num.parsed_split(ip, st, rty, models.parse_key(ip, ip.find_ty(ty), q))]
    return truth

# ---- telephone numbers

def t_phone(w, e, ip, q):
    cs = w.data['phone']
    pt = find_ty(ip, lambda t: t['s'] == 'phonenumber::phone_number::PhoneNumber')
    r = p_deleg.rty(ip, ip.T[pt]['s'], 'phonenumber::')
    ot = find_ty(ip, lambda t: t['s'] == 'core::option::Option<phonenumber::country::Id>')
    ids = [v[0] for v in ip.T[ip.T[ot]['args'][0]]['vs']]
    def truth(ip, st, v, payload):
        cur = [(st, [])]
        a = models.norm_q(st, q)
        for c in cs or [None]:
            o = ('A', ot, 0, ()) if c is None else ('A', ot, 1, (('A', ip.T[ot]['args'][0], ids.index(c), ()),))
            cur = [(s2, got + [x is not None]) for s, got in cur for s2, x in p_deleg.result_cases(ip, s, r, p_deleg.app(ip, s, 'phonenumber::parser::parse', o, a))]
        return [(s, T if v == 'Failure' and not all(got) or v == 'Invalid' and any(got) else F) for s, got in cur]
    return truth

# ---- lines and texts

def line(rep, key, P, w, e):
    def judge_(rep2, key2, ip, res, base, n, spec, output):
        q = ip.seq(State(), ip.args[0])
        def truth(ip, s, v, payload): return [(s2, p_line.reason(v, parts)) for s2, _, parts in spec(ip, s)]
        judge(rep, key2.replace(w.data['was'] + '::', w.name + '::'), ip, res, truth)
    p_line.run(rep, P, w, e, judge_)
    return rep

# ---- email addresses

DEPTH = 3

def commented(q): return q[0] in ('C1', 'C2', 'A2') or q[0] in ('S', 'U', 'UD', 'Q0', 'Q', 'E', 'QC') and q[1] == 1 or q[0] == 'AT' and (q[1] or q[3])

def email(rep, key, P, w, e):
    d = w.data
    ipo, lo, la, co = d['ip'], d['local'], d['labels'], d['comment']
    M, ip, res = p_email.product(P, w, e, True)
    def truth(ip, s, v, payload):
        out = []
        stop = commented if v == 'CommentDisallow' == 'Comment' + co else lambda q: False
        spec = p_email.spec_for(dict(d, ip='Allow', local='Allow', labels='Allow', comment='Allow'), M.base, M.n, M, DEPTH, stop)
        for s2, acc, x in spec(ip, s):
            if x is None or 'open' in x: out.append((s2, Not(acc))); continue
            _, c1, kind, c2 = x['q']
            k, val = x['host']
            f = F
            if v == 'CommentDisallow' and co == 'Disallow': f = T if c1 or c2 or x['c3'] is not None or x['c4'] is not None else F
            elif v == 'IPMust' and ipo == 'Must': f = T if k == 'Domain' else F
            elif v == 'IPDisallow' and ipo == 'Disallow': f = F if k == 'Domain' else T
            elif v == 'LocalMust' and lo == 'Must': f = Eq(x['l'], 0)
            elif v == 'LocalDisallow' and lo == 'Disallow': f = Eq(x['l'], 1)
            elif v in ('AtLeastTwoLabelsMust', 'AtLeastTwoLabelsDisallow') and la == v[16:]:
                if k != 'Domain': f = F if la == 'Must' else T
                else:
                    two = atom(local_atom('is_at_least_two_labels_domain', models.norm_q(s2, ip.seq(s2, val))))
                    f = And(Eq(x['l'], 0), Eq(two, 0 if la == 'Must' else 1))
            out.append((s2, Or(Not(acc), f)))
        return out
    judge(rep, key, ip, res, truth)
    finish(rep, ip, key)
    return rep
