"""readable rendering of abstract states (for violation reports)"""
from dom import *

def short(k):
    if type(k) is not tuple: return k.decode('latin1') if type(k) is bytes else str(k)
    if len(k) == 2 and is_lin(k): return term(k)
    if k and k[0] == 'a' and len(k) == 2 and type(k[1]) is int: return at(k[1])
    if k and k[0] == 'c' and len(k) == 2 and type(k[1]) is bytes: return repr(k[1])[1:]
    if k and k[0] == 'at': return '%s[%s]' % (short(k[1]), term(k[2]))
    if k and k[0] == 'len': return 'len(%s)' % short(k[1])
    if k and k[0] == 'in': return 'input' + (str(k[1]) if k[1] else '')
    return '(' + ' '.join(short(x) for x in k) + ')'
def at(a): return short(AT.key[a])
def term(l):
    s = '+'.join(('' if c == 1 else '%d*' % c) + at(a) for a, c in l[1])
    return s + ('%+d' % l[0] if l[0] and s else '%d' % l[0] if not s else '')
def rs(s):
    def c(x): return repr(chr(x)) if 32 < x < 127 else '%#x' % x if abs(x) < 1 << 62 else 'inf' if x > 0 else '-inf'
    return '{' + ','.join(c(a) if a == b else c(a) + '-' + c(b) for a, b in s) + '}'
def val(T, v):
    if v is None: return '?'
    if v[0] == 'I' or v[0] == 'F': return term(v[1])
    if v[0] == 'A':
        t = T[v[1]] if v[1] >= 0 else None
        n = t['s'].split('<')[0].split('::')[-1] if t else ''
        if t and t['k'] == 'adt' and t['ak'] == 'enum': n += '::' + t['vs'][v[2]][0]
        return n + ('(' + ', '.join(val(T, x) for x in v[3]) + ')' if v[3] or not n else '')
    if v[0] == 'RV': return '&' + val(T, v[1])
    if v[0] == 'Q': return '%s[%s;%s]' % (short(v[1]), term(v[2]), term(v[3]))
    if v[0] == 'S': return at(v[1])
    if v[0] == 'M': return v[1] + '{' + ', '.join(val(T, x) if type(x) is tuple and x else str(x) for x in v[2]) + '}'
    return short(v)
def state(st, limit=60):
    out = []
    for a, l in st.sub.items(): out.append('%s = %s' % (at(a), term(l)))
    for a, s in st.iset.items(): out.append('%s in %s' % (at(a), rs(s)))
    for g in st.lf: out.append('%s >= 0' % term(g))
    for g in st.nf: out.append('%s != 0' % term(g))
    for b, lo, hi, s in st.quant: out.append('every %s[i], %s <= i < %s, in %s' % (short(b), term(lo), term(hi), rs(s)))
    return out[:limit]
