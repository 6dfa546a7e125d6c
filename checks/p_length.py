"""length validators: the element count of the collection, and nothing else, decides."""
from wit import *
import models
from p_deleg import canon, find_ty, I
from p_ip import same_val
FEATURES = ['derive', 'length', 'std', 'serde_json', 'base64_decoded', 'base64_url_decoded', 'base32_decoded']
TY = {'vec': 'Vec<u32>', 'heap': 'std::collections::BinaryHeap<u8>', 'bset': 'std::collections::BTreeSet<String>', 'bmap': 'std::collections::BTreeMap<u8, String>',
      'hset': 'std::collections::HashSet<u16>', 'hmap': 'std::collections::HashMap<u8, Vec<u8>>', 'jmap': 'validators::serde_json::Map<String, validators::serde_json::Value>', 'own': 'U'}
CFG = {'none': (None, None), 'min': (3, None), 'min0': (0, None), 'min1': (1, None), 'max': (None, 7), 'max0': (None, 0), 'both': (2, 9), 'adj': (4, 5), 'same': (6, 6), 'zero': (0, 0), 'low': (0, 3),
       'wide': (1, 1 << 40)}
OWN = '''    pub struct U(pub usize, pub u8);
    impl CollectionLength for U { fn len(&self) -> usize { self.0 } }'''

def fns(t):
    return ['pub fn parse(v: %s) -> Result<X, <X as ValidateLength<%s>>::Error> { <X as ValidateLength<%s>>::parse_collection(v) }' % (t, t, t),
            'pub fn validate(v: %s) -> Result<(), <X as ValidateLength<%s>>::Error> { <X as ValidateLength<%s>>::validate_collection(&v) }' % (t, t, t),
            'pub fn len(v: &%s) -> usize { <%s as CollectionLength>::len(v) }' % (t, t),
            'pub fn is_empty(v: &%s) -> bool { <%s as CollectionLength>::is_empty(v) }' % (t, t)]

def entries(w): return ['parse', 'validate'] + (['len', 'is_empty'] if w.data['cfg'] == 'both' else [])

def witnesses():
    ws = []
    for c, (lo, hi) in CFG.items():
        for k, t in TY.items():
            if k not in ('vec', 'own') and c not in ('both', 'same', 'none'): continue
            a = [x for x in ('min = %d' % lo if lo is not None else '', 'max = %d' % hi if hi is not None else '') if x]
            ws.append(W('%s_%s' % (k, c), ('length(%s)' % ', '.join(a + (['serde = false'] if k == 'own' else []))).replace('()', ''), '(pub %s);' % t, fns(t), extra=OWN if k == 'own' else '', cfg=c, kind=k))
    return ws

PRE = ['alloc::collections::binary_heap::BinaryHeap::<T>::', 'alloc::collections::binary_heap::BinaryHeap::<T, A>::', 'alloc::collections::btree::set::BTreeSet::<T, A>::', 'alloc::collections::btree::map::BTreeMap::<K, V, A>::', 'std::collections::hash::set::HashSet::<T, S>::',
       'std::collections::hash::set::HashSet::<T, S, A>::', 'std::collections::hash::map::HashMap::<K, V, S>::', 'std::collections::hash::map::HashMap::<K, V, S, A>::', 'serde_json::map::Map::<alloc::string::String, serde_json::value::Value>::']

def length_of(ip, st, v, kind):
    v = models.val(ip, st, v)
    if kind == 'vec': return ip.seq(st, v)[3]
    if kind == 'own': return field(ip, v)[1]
    return atom(AT.get(('app', 'len', subst_any(ip.freeze(st, v), st.norm)), ((0, (1 << 63) - 1),)))

def hooks():
    hk = {}
    def ln(ip, st, vals, info): return [(st, ('I', length_of(ip, st, vals[0], None)))]
    def em(ip, st, vals, info):
        c = ('eq', length_of(ip, st, vals[0], None))
        return [(s, I(1)) for s in ip.assume(st.copy(), c)] + [(s, I(0)) for s in ip.assume(st.copy(), neg(c))]
    def cap(ip, st, vals, info):
        n = length_of(ip, st, vals[0], None)
        a = atom(AT.get(('app', 'capacity', n), ((0, (1 << 63) - 1),)))
        st.assume_ge(sub(a, n))
        return [(st, ('I', a))]
    def it(ip, st, vals, info): return [(st, ip.mk_sym(info.dty, ('elements', length_of(ip, st, vals[0], None))))]
    def cnt(ip, st, vals, info):
        v = models.val(ip, st, vals[0])
        k = AT.key[v[1]] if v is not None and v[0] == 'S' else ()
        return [(st, ('I', k[1]))] if k and k[0] == 'elements' else None
    for n in ('core::iter::traits::iterator::Iterator::count', 'core::iter::traits::exact_size::ExactSizeIterator::len'): hk[n] = cnt
    for p in PRE:
        hk[p + 'len'] = ln; hk[p + 'is_empty'] = em; hk[p + 'capacity'] = cap
        for m in ('iter', 'keys', 'values', 'into_iter', 'into_keys', 'into_values'): hk[p + m] = it
    return hk

def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    kind = w.data['kind']
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e), hooks=hooks())
    lo, hi = CFG[w.data['cfg']]
    st0 = State()
    n = length_of(ip, st0, ip.args[0], kind)
    if e in ('len', 'is_empty'):
        for s, v in res:
            if v is None or v[0] not in 'IB':
                rep.add(False, key + ':value', detail(ip, s, v, 'the result is not decided'), True); continue
            if e == 'len': rep.add(v[0] == 'I' and s.eq0(sub(v[1], n)), key + ':value', detail(ip, s, v, 'not the number of elements'), tainted(s))
            else:
                c = v[1] if v[0] == 'B' else ('ne', v[1])
                for f, want in ((c, Eq(n, 0)), (neg(c), Ge(n, 1))):
                    for s2 in ip.assume(s.copy(), f): rep.add(entails(ip, s2, want), key + ':value', detail(ip, s2, v, 'not `the collection has no element`'), tainted(s2))
        judge_panics(rep, key, ip); finish(rep, ip, key)
        return rep
    small = F if not lo else Le(n, lo - 1)
    large = F if hi is None else Ge(n, hi + 1)
    def spec(ip, st): return [(st, And(Not(small), Not(large)), None)]
    def variants(ip, st, v, ctx): return {'TooSmall': small, 'TooLarge': large}.get(v, F)
    def output(ip, s, p, ctx):
        if e == 'validate': return True
        y = field(ip, p)
        if kind == 'vec': return same_seq(ip, s, y, ip.seq(s, ip.args[0])) or 'the wrapped collection is not the input'
        return same_val(ip, s, y, ip.args[0]) or 'the wrapped collection is not the input'
    judge_lang(rep, key, ip, res, None, None, spec, output, variants)
    finish(rep, ip, key)
    return rep
