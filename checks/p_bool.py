"""boolean validators: the accepted spellings in every input type."""
from wit import *
FEATURES = ['derive', 'boolean']
WORDS = {True: ['y', 'yes', 't', 'true', 'on', '1'], False: ['n', 'no', 'f', 'false', 'off', '0']}
INTS = ['%s_%s%s' % (k, s, b) for k in ('parse', 'validate') for s in 'iu' for b in ('8', '16', '32', '64', '128', 'size')]

def witnesses():
    return [W('boolean', 'boolean', '(pub bool);', STR + ['parse_char', 'validate_char', 'parse_bool', 'validate_bool'] + INTS)]

def letter(c): return iset_norm([(ord(x), ord(x)) for x in {c, c.upper()}])

def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e))
    if e in STR:
        q = ip.seq(State(), ip.args[0]); base, n = q[1], q[3]
        def fm(b): return Or(*[And(Eq(n, len(x)), *[Cell(base, i, letter(c)) for i, c in enumerate(x)]) for x in WORDS[b]])
    else:
        x = ip.args[0][1]
        if e.endswith('char'):
            def fm(b): return In(x, iset_norm([(ord(c), ord(c)) for s in WORDS[b] if len(s) == 1 for c in {s, s.upper()}]))
        else:
            if e.endswith('bool') and ip.args[0][0] == 'B': x = ip.bool_int(State(), ip.args[0])[1]
            def fm(b): return Eq(x, int(b))
    def spec(ip, st): return [(st, Or(fm(True), fm(False)), None)]
    def output(ip, s, p, ctx):
        if e.startswith('validate'): return True
        f = field(ip, p)
        if f is None: return 'no value'
        out = []
        for s2, fv in (ip.bool_cases(s, f) if hasattr(ip, 'bool_cases') else cases(ip, s, f)):
            if not entails(ip, s2, fm(fv)): out.append('the value %s does not match the spelling' % fv)
        return out[0] if out else True
    judge_lang(rep, key, ip, res, None, None, spec, output)
    finish(rep, ip, key)
    return rep

def cases(ip, st, f):
    c = f[1] if f[0] == 'B' else ('ne', f[1])
    return [(s, True) for s in ip.assume(st.copy(), c)] + [(s, False) for s in ip.assume(st.copy(), neg(c))]
