"""Witness types: generated derive users whose expanded, type-checked code is analysed."""
import os, sys, time, json
import build
from spec import *
import show
sys.path.insert(0, os.path.join(build.ROOT, 'engine'))
import interp, models

ENTRY = {
    'parse_str': 'pub fn parse_str(s: &str) -> Result<X, <X as ValidateString>::Error> { <X as ValidateString>::parse_str(s) }',
    'parse_string': 'pub fn parse_string(s: String) -> Result<X, <X as ValidateString>::Error> { <X as ValidateString>::parse_string(s) }',
    'validate_str': 'pub fn validate_str(s: &str) -> Result<(), <X as ValidateString>::Error> { <X as ValidateString>::validate_str(s) }',
    'parse_u8_slice': 'pub fn parse_u8_slice(s: &[u8]) -> Result<X, <X as ValidateBytes>::Error> { <X as ValidateBytes>::parse_u8_slice(s) }',
    'parse_vec_u8': 'pub fn parse_vec_u8(s: Vec<u8>) -> Result<X, <X as ValidateBytes>::Error> { <X as ValidateBytes>::parse_vec_u8(s) }',
    'validate_u8_slice': 'pub fn validate_u8_slice(s: &[u8]) -> Result<(), <X as ValidateBytes>::Error> { <X as ValidateBytes>::validate_u8_slice(s) }',
    'parse_char': 'pub fn parse_char(s: char) -> Result<X, <X as ValidateChar>::Error> { <X as ValidateChar>::parse_char(s) }',
    'validate_char': 'pub fn validate_char(s: char) -> Result<(), <X as ValidateChar>::Error> { <X as ValidateChar>::validate_char(s) }',
    'parse_bool': 'pub fn parse_bool(s: bool) -> Result<X, <X as ValidateBoolean>::Error> { <X as ValidateBoolean>::parse_bool(s) }',
    'validate_bool': 'pub fn validate_bool(s: bool) -> Result<(), <X as ValidateBoolean>::Error> { <X as ValidateBoolean>::validate_bool(s) }',
    'parse_f64': 'pub fn parse_f64(s: f64) -> Result<X, <X as ValidateNumber>::Error> { <X as ValidateNumber>::parse_f64(s) }',
    'validate_f64': 'pub fn validate_f64(s: f64) -> Result<(), <X as ValidateNumber>::Error> { <X as ValidateNumber>::validate_f64(s) }',
    'parse_f32': 'pub fn parse_f32(s: f32) -> Result<X, <X as ValidateNumber>::Error> { <X as ValidateNumber>::parse_f32(s) }',
    'validate_f32': 'pub fn validate_f32(s: f32) -> Result<(), <X as ValidateNumber>::Error> { <X as ValidateNumber>::validate_f32(s) }',
}
for _t, _tr in (('u', 'ValidateUnsignedInteger'), ('i', 'ValidateSignedInteger')):
    for _w in ('8', '16', '32', '64', '128', 'size'):
        for _k, _r in (('parse', 'X'), ('validate', '()')):
            n = '%s_%s%s' % (_k, _t, _w)
            ENTRY[n] = 'pub fn %s(s: %s%s) -> Result<%s, <X as %s>::Error> { <X as %s>::%s(s) }' % (n, _t, _w, _r, _tr, _tr, n)
STR = ['parse_str', 'parse_string', 'validate_str']
BYTES = ['parse_u8_slice', 'parse_vec_u8', 'validate_u8_slice']


class W:
    """one witness: `#[validator(attr)] pub struct X body`"""
    def __init__(self, name, attr, body='(pub String);', entries=(), extra='', **data):
        self.name, self.attr, self.body, self.entries, self.extra, self.data = name, attr, body, list(entries), extra, data

    def source(self):
        fns = '\n'.join('    ' + ENTRY.get(e, e) for e in self.entries)
        return '''pub mod %s {
    use validators::prelude::*;
    #[derive(Validator)]
    #[validator(%s)]
    pub struct X%s
%s
%s
}
''' % (self.name, self.attr, self.body, fns, self.extra)


def source(ws, head=''):
    return '#![allow(warnings)]\n' + head + '\n' + '\n'.join(x.source() for x in ws)


class Enough(BaseException):
    """the violations of one task suffice"""
    def __init__(self, rep): self.rep = rep


class Report:
    """obligations of one property"""
    def __init__(self, pid):
        self.pid = pid
        self.obl = 0
        self.ok = 0
        self.viol = []          # (key, detail lines)
        self.incon = []         # not decided (unmodelled construct)
        self.fns = set()
        self.blocks = 0
        self.states = 0
        self.entries = []
        self.samples = []
        self.notes = set()

    def add(self, ok, key, detail=(), tainted=False):
        self.obl += 1
        if ok or getattr(detail, 'st', None) is not None and contradictory(None, detail.st): self.ok += 1; return
        if tainted: self.incon.append((key, list(detail)))
        else: self.viol.append((key, list(detail)))
        if len(self.viol) >= 40: raise Enough(self)

    def merge(self, o):
        self.obl += o.obl; self.ok += o.ok; self.viol += o.viol; self.incon += o.incon
        self.fns |= o.fns; self.blocks += o.blocks; self.states += o.states
        self.entries += o.entries; self.samples += o.samples; self.notes |= o.notes


def find_fn(P, path):
    f = P.byname.get(path)
    if f is None: raise build.BuildError('anchor function %s is missing from the analysed program' % path)
    return f


def analyse(P, path, opaque=(), hooks=None, setup=None, budget=None):
    """abstract outcomes of a root function; returns (interp, [(state, value)])"""
    reset_atoms()
    f = find_fn(P, path)
    ip = interp.Interp(P, models.Models())
    if budget: ip.budget = budget
    ip.opaque |= set(opaque)
    if hooks: ip.hooks.update(hooks)
    st = State()
    args = [ip.mk_sym(f.locals[i + 1], ('in', i)) for i in range(f.argc)]
    if setup: args = setup(ip, st, f, args)
    ip.args = args
    res = ip.exec_fn(f.id, args, st)
    ip.ends = bool(res or ip.panics)
    return ip, res


def variant(T, v):
    t = T[v[1]]
    return t['vs'][v[2]][0]


def outcome(ip, v):
    """('Ok', payload) / ('Err', payload) of a Result value; None when unknown"""
    if v is not None and v[0] == 'A' and v[1] >= 0 and ip.T[v[1]]['k'] == 'adt' and ip.T[v[1]]['path'] == 'core::result::Result':
        return ('Ok', 'Err')[v[2]], (v[3][0] if v[3] else None)
    return None, v


def split_result(ip, res):
    """resolve symbolic results into Ok and Err states"""
    out = []
    for s, v in res:
        k, p = outcome(ip, v)
        if k: out.append((s, k, p)); continue
        if v is not None and v[0] == 'S' and ip.T[v[2]]['k'] == 'adt' and ip.T[v[2]]['path'] == 'core::result::Result':
            t = ip.T[v[2]]
            d = ip.discr_lin(v)
            for i, nm in ((0, 'Ok'), (1, 'Err')):
                for s2 in ip.assume(s.copy(), ('eq', addc(d, -i))):
                    fty = t['vs'][i][1][0][1]
                    out.append((s2, nm, ip.mk_sym(fty, ('proj', ('a', v[1]), i, 0))))
            continue
        out.append((s, None, v))
    return out


def field(ip, v, i=0):
    for _ in range(6):
        if v is not None and v[0] in ('RV', 'R'): v = v[1] if v[0] == 'RV' else v
        else: break
    if v is not None and v[0] == 'A' and i < len(v[3]): return v[3][i]
    return None


def same_seq(ip, st, v, q):
    v = ip.seq(st, v) if v is not None else None
    if v is None or q is None: return False
    if v == q: return True
    a, b = ip.freeze(st, v), q
    n = lambda x: (x[0], subst_any(x[1], st.norm), st.norm(x[2]), st.norm(x[3]))
    a, b = n(a), n(b)
    if a == b: return True
    if a[1] == b[1]:
        return st.eq0(sub(a[2], b[2])) and st.eq0(sub(a[3], b[3])) or st.eq0(a[3]) and st.eq0(b[3])
    if st.eq0(a[3]) and st.eq0(b[3]): return True
    c = ip.seq_eq(st, a, b)
    return c is not None and (c == ('true',) or not ip.assume(st.copy(), neg(c)))


def tainted(st): return bool(st.taint)


class Detail:
    """the description of a counterexample, put together only when it is reported"""
    def __init__(self, *a): self.a = a; self.st = a[1]
    def __iter__(self): return iter(lines(*self.a))

def detail(ip, st, v, why): return Detail(ip, st, v, why)


def lines(ip, st, v, why):
    return [why] + ['  ' + x for x in show.state(st)] + ['  result: ' + show.val(ip.T, v)[:600]]


def judge_lang(rep, key, ip, res, base, n, spec, output=None, variants=None):
    """every Ok outcome must satisfy the accepted language (and carry the specified value); every
    Err outcome must lie outside it.  spec(ip, st) -> [(state, accept formula, ctx)]"""
    for s, k, p in split_result(ip, res):
        if k is None:
            rep.add(False, key + ':outcome', detail(ip, s, p, 'the outcome is not a decided Result'), True); continue
        for s2, acc, ctx in spec(ip, s):
            if k == 'Ok':
                ok = entails(ip, s2, acc)
                rep.add(ok, key + ':accepts', detail(ip, s2, p, 'accepted although the specification does not admit it'), tainted(s2))
                if ok and output:
                    o = output(ip, s2, p, ctx)
                    rep.add(o is True, key + ':value', detail(ip, s2, p, 'accepted with a wrong value: %s' % (o,)), tainted(s2))
            else:
                ok = entails(ip, s2, Not(acc))
                rep.add(ok, key + ':rejects', detail(ip, s2, p, 'rejected although the specification admits it'), tainted(s2))
                if ok and variants and p is not None and p[0] == 'A':
                    g = variants(ip, s2, variant(ip.T, p), ctx)
                    if g is not None:
                        rep.add(entails(ip, s2, g), key + ':variant', detail(ip, s2, p, 'rejected with the wrong error'), tainted(s2))
    judge_panics(rep, key, ip)


def judge_panics(rep, key, ip):
    if not ip.panics: rep.add(True, key + ':panic')
    seen = set()
    for fn, loc, b, what, s, stack in ip.panics:
        if (fn, what) in seen: continue
        seen.add((fn, what))
        rep.add(False, key + ':panic', detail(ip, s, None, 'can panic (%s) in %s' % (what, ' > '.join(stack))), tainted(s))


def finish(rep, ip, key):
    if not ip.ends: rep.add(False, key + ':returns', ['no path of the function returns: it loops or calls itself forever'], any(not n.startswith('recursion in') for n in ip.notes))
    rep.fns |= ip.stats['fns']; rep.blocks += ip.stats['blocks']; rep.states += ip.stats['states']
    rep.notes |= ip.notes
    rep.entries.append(key)


def split_mod(ip, st, n, m):
    """case split on n mod m"""
    n = st.norm(n)
    if all(c % m == 0 for _, c in n[1]): return [(st, n[0] % m)]
    a = AT.get(('div', n, m), ((0, 1 << 62),))
    out = []
    for r in range(m):
        s = st.copy()
        try:
            s.assume_eq(addc(sub(n, scale(atom(a), m)), -r))
            out.append((s, r))
        except Infeasible: pass
    return out
