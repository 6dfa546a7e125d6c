"""decoded Base32 / Base64 / Base64-URL validators: accepted exactly when the text is in the encoded language
of the padding rule and decodes, and then they hold the decoded bytes."""
from wit import *
import models
import p_base
from p_ip import same_val, split_c
from p_deleg import find_ty
FEATURES = ['derive', 'base32_decoded', 'base64_decoded', 'base64_url_decoded']
ENTRY['len'] = 'pub fn len(x: &X) -> usize { <X as CollectionLength>::len(x) }'
ENTRY['is_empty'] = 'pub fn is_empty(x: &X) -> bool { <X as CollectionLength>::is_empty(x) }'
ENC = {'BASE64': ('base64', True), 'BASE64_NOPAD': ('base64', False), 'BASE64URL': ('base64_url', True), 'BASE64URL_NOPAD': ('base64_url', False), 'BASE32': ('base32', True), 'BASE32_NOPAD': ('base32', False)}

def witnesses():
    ws = []
    for h in ('base64', 'base64_url', 'base32'):
        for p in ('Allow', 'Must', 'Disallow', None):
            ws.append(W('%s_%s' % (h, (p or 'default').lower()), '%s_decoded%s' % (h, '(padding(%s))' % p if p else ''), '(pub Vec<u8>);', STR + BYTES + ['len', 'is_empty'], handler=h, padding=p or 'Allow'))
    return ws

def data_parts(ip, st, h, pad, n):
    """[(state, padding characters p)]: the shapes in which the first n-p characters are data and the rest is `=`"""
    g = p_base.GROUP[h]
    out = []
    for s, r in split_mod(ip, st, n, g):
        if not pad:
            if not r or r in p_base.PADPOS[g]: out.append((s, 0))
        elif r == 0: out += [(s.copy(), 0)] + [(s.copy(), g - p) for p in p_base.PADPOS[g]]
    return out

def decoded(ip, st, h, q, p, rt):
    """the outcome of decoding the data characters, with the padding taken off"""
    q2 = models.norm_q(st, ('Q', q[1], q[2], addc(q[3], -p)))
    return ip.mk_sym(rt, ('app', 'decode', h, q2))

def enc_of(ip, st, v):
    """the encoding, read off its specification table: symbols, padding character, strictness"""
    t = next((x for x in _bytes(v) if len(x) in (514, 515)), None)
    if t is None:
        v = models.val(ip, st, v)
        t = next((x for x in _bytes(v) if len(x) in (514, 515)), None)
    if t is None:
        return None
    bit = t[513] & 7
    sym = bytes(t[:1 << bit])
    for h, s in SYM.items():
        if sym == s and t[513] & 0x18 == 0x18 and (t[512] == 61 or t[512] > 127): return h, t[512] == 61
    return None

U, L, N = b'ABCDEFGHIJKLMNOPQRSTUVWXYZ', b'abcdefghijklmnopqrstuvwxyz', b'0123456789'
SYM = {'base64': U + L + N + b'+/', 'base64_url': U + L + N + b'-_', 'base32': U + b'234567'}

def _bytes(v):
    if isinstance(v, bytes): yield v
    elif isinstance(v, tuple):
        for x in v: yield from _bytes(x)

def shape(ip, info, q, h, pad, st, k):
    base, o, n = q[1], q[2], st.norm(q[3])
    al, g, et = p_base.ALPHA[h], p_base.GROUP[h], info.dty
    out = []
    for s, b in cases_of(ip, st, All(base, o, addc(add(o, n), -k), al)):
        if b and (not k or g - k in p_base.PADPOS[g]): out.append((s, decoded(ip, s, h, q, k, et))); continue
        for s2, odd in cases_of(ip, s, All(base, o, add(o, n), iset_union(al, p_base.EQ))) if pad else [(s, False)]:
            # a padded encoding also decodes concatenated padded texts
            out.append((s2, ip.mk_sym(et, ('app', 'decode padded', h, q)) if odd else models.err(ip, info, ip.mk_sym(ip.T[et]['args'][1], ('app', 'decode error')))))
    return out

def hooks():
    def dec(ip, st, vals, info):
        e = enc_of(ip, st, vals[0])
        q = ip.seq(st, vals[1])
        if e is None or q is None: return None
        h, pad = e
        q = models.norm_q(st, q); base, o, n = q[1], q[2], q[3]
        g = p_base.GROUP[h]
        out = []
        et2 = ip.T[info.dty]['args'][1]
        for s, r in split_mod(ip, st, n, g):
            if pad and r or not pad and r and r not in p_base.PADPOS[g]: out.append((s, models.err(ip, info, ip.mk_sym(et2, ('app', 'decode error'))))); continue
            # the number of trailing padding characters
            todo = [(s, 0)]
            while todo:
                x, k = todo.pop()
                end = addc(add(o, x.norm(n)), -k)
                if pad and k < g:
                    nxt = []
                    for y, some in split_formula(ip, x, Ge(sub(end, o), 1)):
                        if not some: nxt.append((y, False)); continue
                        nxt += split_formula(ip, y, Cell(base, addc(end, -1), p_base.EQ))
                    for y, b in nxt:
                        if b: todo.append((y, k + 1))
                        else: out += shape(ip, info, q, h, pad, y, k)
                else: out += shape(ip, info, q, h, pad, x, k)
        return out
    return {'data_encoding::Encoding::decode': dec}

def cases_of(ip, st, f):
    """decide a formula in a state: known true, known false or split (as opaque facts the entailment check understands)"""
    if entails(ip, st, f): return [(st, True)]
    if entails(ip, st, Not(f)): return [(st, False)]
    return split_formula(ip, st, f)

def split_formula(ip, st, f):
    f = norm(st, f)
    if f[0] in 'TF': return [(st, f[0] == 'T')]
    if f[0] == 'and':
        out, cur = [], [st]
        for x in f[1]:
            nxt = []
            for s in cur:
                for y, b in split_formula(ip, s, x):
                    if b: nxt.append(y)
                    else: out.append((y, False))
            cur = nxt
        return out + [(s, True) for s in cur]
    if f[0] == 'c': return [(s, True) for s in ip.assume(st.copy(), f[1])] + [(s, False) for s in ip.assume(st.copy(), neg(f[1]))]
    if f[0] == 'all':
        r = models.find_split(ip, st, ('Q', f[1], f[2], sub(f[3], f[2])), iset_diff(cell_range(f[1]), f[4]), 'first', lambda s, j: False, True)
        if r is not None: return r
    raise interp.Unsupported('shape of the decoded text is not known')

def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    h = w.data['handler']
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e), hooks=hooks())
    if e in ('len', 'is_empty'):
        for s, v in res:
            y = ip.seq(s, field(ip, models.val(ip, s, ip.args[0]) if ip.args[0][0] == 'R' else ip.args[0]))
            if v is None or v[0] not in 'IB' or y is None: rep.add(False, key + ':value', detail(ip, s, v, 'the result is not decided'), True); continue
            n = y[3]
            if e == 'len': rep.add(v[0] == 'I' and s.eq0(sub(v[1], n)), key + ':value', detail(ip, s, v, 'not the number of decoded bytes'), tainted(s))
            else:
                c = v[1] if v[0] == 'B' else ('ne', v[1])
                for f, want in ((c, Eq(n, 0)), (neg(c), Ge(n, 1))):
                    for s2 in ip.assume(s.copy(), f): rep.add(entails(ip, s2, want), key + ':value', detail(ip, s2, v, 'not `no byte was decoded`'), tainted(s2))
        judge_panics(rep, key, ip); finish(rep, ip, key)
        return rep
    q = ip.seq(State(), ip.args[0])
    base, n = q[1], q[3]
    al, g = p_base.ALPHA[h], p_base.GROUP[h]
    rt = find_ty(ip, lambda t: t['k'] == 'adt' and t['path'] == 'core::result::Result' and ip.T[t['args'][1]]['s'].startswith('data_encoding::DecodeError'))
    lang = p_base.spec_for(w, base, n)
    def spec(ip, st):
        out = []
        for s, acc, _ in lang(ip, st):
            if entails(ip, s, Not(acc)): out.append((s, F, None)); continue
            if rt is None: out.append((s, acc, None)); continue
            # the number of padding characters of a member of the language
            done = False
            for p in [0] + [g - x for x in p_base.PADPOS[g]]:
                nn = s.norm(n)
                f = And(Ge(nn, 1), All(base, 0, nn, al)) if not p else And(Ge(nn, g), All(base, 0, addc(nn, -p), al), All(base, addc(nn, -p), nn, p_base.EQ))
                if not entails(ip, s, And(acc, f)): continue
                done = True
                v = decoded(ip, s, h, q, p, rt)
                d = ip.discr_lin(v)
                for s2 in ip.assume(s.copy(), ('eq', d)): out.append((s2, T, ip.mk_sym(ip.T[rt]['args'][0], ('proj', ('a', v[1]), 0, 0))))
                for s2 in ip.assume(s.copy(), ('eq', addc(d, -1))): out.append((s2, F, None))
                break
            if not done: out.append((s, acc, None))
        return out
    def output(ip, s, p, ctx):
        if e.startswith('validate'): return True
        if ctx is None: return 'the decoded bytes are not determined'
        return same_val(ip, s, field(ip, p), ctx) or 'not the decoded bytes'
    judge_lang(rep, key, ip, res, base, n, spec, output)
    finish(rep, ip, key)
    return rep
