"""Base32 / Base64 / Base64-URL string validators accept exactly the specified language."""
from wit import *

UP = ((65, 90),); LOW = ((97, 122),); DIG = ((48, 57),)
ALPHA = {
    'base64': iset_norm(list(UP + LOW + DIG) + [(43, 43), (47, 47)]),
    'base64_url': iset_norm(list(UP + LOW + DIG) + [(45, 45), (95, 95)]),
    'base32': iset_norm(list(UP) + [(50, 55)]),
}
EQ = ((61, 61),)
GROUP = {'base64': 4, 'base64_url': 4, 'base32': 8}
# number of data characters a padded final group may hold
PADPOS = {4: (2, 3), 8: (2, 4, 5, 7)}

def witnesses():
    ws = []
    for h in ('base64', 'base64_url', 'base32'):
        for p in ('Allow', 'Must', 'Disallow'):
            ws.append(W('%s_%s' % (h, p.lower()), '%s(padding(%s))' % (h, p), '(pub String);', STR + BYTES, handler=h, padding=p))
        ws.append(W('%s_default' % h, h, '(pub String);', STR + BYTES, handler=h, padding='Allow'))
    return ws

FEATURES = ['derive', 'base32', 'base64', 'base64_url']

def spec_for(w, base, n):
    h, pad = w.data['handler'], w.data['padding']
    al, g = ALPHA[h], GROUP[h]
    pos = PADPOS[g]
    def spec(ip, st):
        out = []
        for s, r in split_mod(ip, st, n, g):
            nn = s.norm(n)
            # unpadded
            unp = T
            if r and r not in pos: unp = F
            if pad == 'Must' and r: unp = F
            alts = [And(Ge(nn, 1), unp, All(base, 0, nn, al))]
            if r == 0 and pad != 'Disallow':
                for p in pos:
                    alts.append(And(Ge(nn, g), All(base, 0, addc(nn, p - g), al), All(base, addc(nn, p - g), nn, EQ)))
            out.append((s, Or(*alts), None))
        return out
    return spec

def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e))
    q = ip.seq(State(), ip.args[0])
    base, n = q[1], q[3]
    def output(ip, s, p, ctx):
        if e.startswith('validate'): return True
        return same_seq(ip, s, field(ip, p), q) or 'the wrapped string is not the input'
    judge_lang(rep, key, ip, res, base, n, spec_for(w, base, n), output)
    finish(rep, ip, key)
    return rep
