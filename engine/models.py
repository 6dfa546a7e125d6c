"""Models (transfer functions) of library callees.

Every model is `m(ip, st, args, info) -> [(state, value)] | None` (None: not applicable, try the
body or treat the call as uninterpreted)."""
import re
from dom import *
from interp import I, UNIT, NANKEY, F_RNG, F_INF, f_key, Unsupported, reduce_states

EXACT = {}
DECL = {}
OPAQUE = []

def model(*names):
    def d(f):
        for n in names: EXACT[n] = f
        return f
    return d

def decl(*names):
    def d(f):
        for n in names: DECL[n] = f
        return f
    return d

class Models:
    def __init__(self): self.opaque = list(OPAQUE)
    def lookup(self, name, decl_):
        f = EXACT.get(name)
        if f is not None: return f
        f = DECL.get(decl_)
        return f
    def is_opaque(self, name):
        return any(name.startswith(p) or p in name for p in self.opaque)

# ------------------------------------------------------------------ helpers
def tyk(ip, ti, path):
    t = ip.T[ti]
    return ti if t['k'] == 'adt' and t['path'].endswith(path) else -1

def some(ip, info, v): return ('A', tyk(ip, info.dty, '::Option'), 1, (v,))
def none(ip, info): return ('A', tyk(ip, info.dty, '::Option'), 0, ())
def ok(ip, info, v): return ('A', tyk(ip, info.dty, '::Result'), 0, (v,))
def err(ip, info, v): return ('A', tyk(ip, info.dty, '::Result'), 1, (v,))

def both(ip, st, cond, t, f):
    """split on cond"""
    out = []
    for s in ip.assume(st.copy(), cond): out.append((s, t(s) if callable(t) else t))
    for s in ip.assume(st.copy(), ip.neg(cond)): out.append((s, f(s) if callable(f) else f))
    return out

def val(ip, st, v):
    """look through references"""
    for _ in range(8):
        if v is not None and v[0] in ('R', 'RV'): v = ip.deref(st, v)
        else: break
    return v

def sl(q, lo, hi):
    return ('Q', q[1], add(q[2], lo), sub(hi, lo))

def rv(v): return ('RV', v)

def ident(ip, st, a, info): return [(st, a[0])]

def feasible(f):
    try: return f()
    except Infeasible: return None

def sub_kind(q):
    return q

def str_chars(b):
    try: return b.decode()
    except Exception: return None

def charseq(ip, st, q):
    """the sequence of chars of a str value"""
    b = q[1]
    if b[0] == 'c':
        lo, hi = st.const_of(q[2]), st.const_of(q[3])
        if lo is not None and hi is not None:
            s = str_chars(b[1][lo:lo + hi])
            if s is not None: return ip.seq_vals([I(ord(c)) for c in s]) if s else ('Q', ('v', ()), const(0), const(0))
    base = ('chars', b, q[2], q[3])
    return ('Q', base, const(0), base_len(base))

# ------------------------------------------------------------------ identity-like
for n in [
    'core::str::<impl str>::as_bytes', 'core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut',
]: EXACT[n] = ident

@decl('core::convert::AsRef::as_ref', 'core::ops::deref::Deref::deref', 'core::borrow::Borrow::borrow',
      'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsMut::as_mut', 'core::borrow::BorrowMut::borrow_mut')
def m_asref(ip, st, a, info):
    v = val(ip, st, a[0])
    if v is None: return None
    t = ip.T[info.dty]
    if v[0] == 'M' and v[1] == 'Box': return [(st, rv(v[2][0]))]
    if t['k'] == 'ref' and ip.T[t['e']]['k'] in ('str', 'slice'):
        q = ip.seq(st, v)
        if q is None: return None
        if a[0][0] == 'R' and ip.T[t['e']]['k'] == 'slice' and t.get('mut'): return [(st, a[0])]
        return [(st, rv(q))]
    if t['k'] == 'ref' and v[0] == 'Q': return [(st, rv(v))]
    if v[0] == 'S' :
        st_ = ip.T[v[2]]
        if st_['k'] == 'adt' and st_['path'] in ('core::option::Option', 'core::result::Result'): return None
        if t['k'] == 'ref' and t['e'] == v[2]: return [(st, a[0])]
    return None

@model('alloc::string::String::as_str', 'alloc::string::String::as_bytes', 'alloc::vec::Vec::<T, A>::as_slice',
       'alloc::string::String::into_bytes', 'alloc::vec::Vec::<T, A>::into_boxed_slice', 'alloc::string::String::into_boxed_str',
       'core::str::converts::from_utf8_unchecked', 'core::str::<impl str>::from_utf8_unchecked',
       'alloc::string::String::from_utf8_unchecked', 'alloc::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::into_vec',
       'core::str::<impl str>::into_boxed_bytes', 'alloc::str::<impl str>::into_string', 'core::array::<impl [T; N]>::as_slice',
       'alloc::string::String::as_mut_str')
def m_seqid(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    if 'from_utf8_unchecked' in (info.cal.get('res') or ''):
        utf8_sites(ip, st, q, info)
    t = ip.T[info.dty]
    return [(st, rv(q) if t['k'] == 'ref' else q)]

def utf8_sites(ip, st, q, info):
    """obligation: the bytes are valid UTF-8"""
    ip.utf8.append((info.f.path, info.f.loc, utf8_ok(ip, st, q)))

def char_boundary(ip, st, base, i):
    if st.eq0(i) or st.eq0(sub(base_len_n(st, base), i)): return True
    ASC = ((0, 0x7f),)
    LEAD = ((0, 0x7f), (0xC0, 0xff))
    if iset_sub(st.rng(at_atom(base, i)), LEAD): return True
    if iset_sub(st.rng(at_atom(base, addc(i, -1))), ASC): return True
    return False

CONT = ((0x80, 0xbf),)
def boundary_split(ip, st, q, e):
    """states in which e (an offset into the base of q, within q) is / is not a character boundary"""
    e = st.norm(e)
    if q[1][0] != 'a' or st.eq0(sub(e, q[2])) or st.eq0(sub(e, add(q[2], q[3]))) or char_boundary(ip, st, q[1], e): return [st], []
    c, p = atom(at_atom(q[1], e)), atom(at_atom(q[1], addc(e, -1)))
    inside = ('and', ('ne', sub(e, q[2])), ('ne', sub(e, add(q[2], q[3]))))
    bad = ip.assume(st.copy(), ('and', inside, ('and', ('in', c, CONT), ('in', p, ((0x80, 0xff),)))))
    good = ip.assume(st.copy(), ('or', ip.neg(inside), ('in', c, iset_diff(BYTE, CONT))))
    return good, bad

def boundaries(ip, st, q, lo, hi):
    good, bad = [st], []
    for e in (add(q[2], lo), add(q[2], hi)):
        nxt = []
        for s in good:
            g, b = boundary_split(ip, s, q, e)
            nxt += g; bad += b
        good = nxt
    return good, bad

def base_len_n(st, base): return st.norm(base_len(base))

def utf8_ok(ip, st, q):
    if q[1][0] == 'c': return True
    k = AT.key[q[1][1]] if q[1][0] == 'a' else None
    if k and k[-1] == 'str':
        if char_boundary(ip, st, q[1], q[2]) and char_boundary(ip, st, q[1], add(q[2], q[3])): return True
    s = st.qset(q[1], q[2], add(q[2], q[3]))
    return iset_sub(s, ((0, 0x7f),))

@decl('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned')
def m_clone(ip, st, a, info):
    v = val(ip, st, a[0])
    if v is None: return None
    if info.cal.get('fn') is not None and 'alloc' not in info.cal['res'][:8] and v[0] in ('A',) and ip.T[v[1]].get('crate') in ('witness', 'validators') if v[0] == 'A' and v[1] >= 0 else False:
        return None
    if a[0][0] in ('R', 'RV'):
        inner = ip.deref(st, a[0])
        t = ip.T[info.dty]
        if inner is not None and t['k'] != 'ref': return [(st, v)]
        return [(st, inner)]
    return [(st, v)]

@decl('alloc::string::ToString::to_string')
def m_to_string(ip, st, a, info):
    v = val(ip, st, a[0])
    if v is None: return None
    if v[0] == 'Q' and v[1][0] in ('c', 'a', 'cat'): return [(st, v)]
    if v[0] == 'A' and v[1] >= 0 and ip.T[v[1]].get('path') == 'alloc::borrow::Cow': return [(st, ip.seq(st, v))]
    return [(st, cat(st, [('disp', 'display', (), ip.freeze(st, v))]))]

@decl('core::convert::From::from', 'core::convert::Into::into')
def m_from(ip, st, a, info):
    t = ip.T[info.dty]
    src = ip.T[info.argtys[0]] if info.argtys else None
    v = a[0]
    res = info.cal.get('res') or ''
    if res == '<T as core::convert::Into<U>>::into':
        # re-dispatch on the resolved From impl when its body is dumped
        if v is not None and v[0] == 'I' and t['k'] == 'int': return conv_int(ip, st, v, info)
        if t['k'] == 'adt' and t['path'] in ('alloc::string::String', 'alloc::vec::Vec', 'alloc::borrow::Cow', 'alloc::boxed::Box'): pass
        elif info.dty == (info.argtys[0] if info.argtys else None): return [(st, v)]
        else:
            f = find_from(ip, info.argtys[0], info.dty)
            if f is not None: return ip.exec_fn(f, [v], st)
            return None
    if res == '<T as core::convert::From<T>>::from': return [(st, v)]
    if t['k'] == 'adt' and t['path'] in ('alloc::string::String', 'alloc::vec::Vec'):
        if v is not None and v[0] == 'I' and src and src['k'] == 'char':
            return [(st, cat(st, [('ch', v[1])]))]
        q = ip.seq(st, v)
        if q is not None: return [(st, q)]
    if t['k'] == 'adt' and t['path'] == 'alloc::borrow::Cow':
        if src and src['k'] == 'ref': return [(st, ('A', info.dty, 0, (v,)))]
        return [(st, ('A', info.dty, 1, (v,)))]
    if t['k'] == 'adt' and t['path'] == 'alloc::boxed::Box':
        q = ip.seq(st, v) if v is not None and v[0] in ('Q', 'R', 'RV') else None
        if q is not None: return [(st, q)]
        return [(st, ('M', 'Box', (v,)))]
    if v is not None and v[0] in ('I', 'B') and t['k'] in ('int', 'char'): return conv_int(ip, st, ip.bool_int(st, v), info)
    if v is not None and v[0] == 'F' and t['k'] == 'float': return [(st, v)]
    if v is not None and v[0] == 'I' and t['k'] == 'float': return [(st, ip.cast(st, 'IntToFloat', v, info.dty, info.argtys[0]))]
    if t['k'] == 'adt' and t['path'] == 'core::option::Option' and 'Option' in res and info.cal.get('fn') is None:
        return [(st, ('A', info.dty, 1, (v,)))]
    return None

def find_from(ip, src, dst):
    s, d = ip.T[src]['s'], ip.T[dst]['s']
    for f in ip.P.fns.values():
        if f.trait == 'core::convert::From' and f.locals[0] == dst and f.argc == 1 and f.locals[1] == src: return f.id
    return None

def conv_int(ip, st, v, info):
    return [(st, ip.cast(st, 'IntToInt', v, info.dty, info.argtys[0] if info.argtys else 0))]

@decl('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def m_try_from(ip, st, a, info):
    t = ip.T[info.dty]
    v = a[0]
    if t['k'] == 'adt' and t['path'].endswith('::Result'):
        okt = t['args'][0]
        r = ip.int_range(okt)
        v = ip.bool_int(st, v) if v is not None and v[0] == 'B' else v
        if v is not None and v[0] == 'I' and r is not None:
            l = v[1]
            e = ip.mk_sym(t['args'][1], ('tryfromerr',))
            return both(ip, st, ('in', l, r), lambda s: ok(ip, info, v), lambda s: err(ip, info, e))
        et = ip.T[okt]
        q = ip.seq(st, v) if v is not None and v[0] in ('R', 'RV', 'Q') else None
        if q is not None and (et['k'] == 'array' or (et['k'] == 'ref' and ip.T[et['e']]['k'] == 'array')):
            n = et['n'] if et['k'] == 'array' else ip.T[et['e']]['n']
            aty = okt if et['k'] == 'array' else et['e']
            e = ip.mk_sym(t['args'][1], ('tryfromerr',))
            def good(s):
                arr = ('A', aty, 0, tuple(ip.cell(s, q, const(i)) for i in range(n)))
                return ok(ip, info, arr if et['k'] == 'array' else rv(arr))
            return both(ip, st, ('eq', addc(q[3], -n)), good, lambda s: err(ip, info, e))
    return None

@model('core::hint::must_use', 'core::convert::identity', 'core::hint::black_box', 'core::mem::manually_drop::ManuallyDrop::<T>::new')
def m_id1(ip, st, a, info): return [(st, a[0])]

@model('core::mem::drop', 'core::mem::forget', 'alloc::string::String::shrink_to_fit', 'alloc::string::String::reserve', 'alloc::vec::Vec::<T, A>::reserve',
       'alloc::vec::Vec::<T, A>::shrink_to_fit')
def m_drop(ip, st, a, info): return [(st, UNIT)]

@model('core::mem::replace')
def m_replace(ip, st, a, info):
    if a[0][0] != 'R': return None
    old = ip.load(st, a[0][1], a[0][2])
    ip.store(st, a[0][1], a[0][2], a[1])
    return [(st, old)]

@model('core::mem::take')
def m_take(ip, st, a, info):
    if a[0][0] != 'R': return None
    old = ip.load(st, a[0][1], a[0][2])
    t = ip.T[info.dty]
    if old is None: return None
    if old[0] == 'Q': new = ('Q', ('c', b''), const(0), const(0))
    elif t['k'] in ('int', 'bool'): new = I(0)
    elif t['k'] == 'adt' and t['path'].endswith('::Option'): new = ('A', info.dty, 0, ())
    else: return None
    ip.store(st, a[0][1], a[0][2], new)
    return [(st, old)]

@model('core::mem::swap')
def m_swap(ip, st, a, info):
    if a[0][0] != 'R' or a[1][0] != 'R': return None
    x = ip.load(st, a[0][1], a[0][2]); y = ip.load(st, a[1][1], a[1][2])
    ip.store(st, a[0][1], a[0][2], y); ip.store(st, a[1][1], a[1][2], x)
    return [(st, UNIT)]

@model('core::panicking::panic', 'core::panicking::panic_fmt', 'core::result::unwrap_failed', 'core::option::unwrap_failed',
       'core::option::expect_failed', 'core::panicking::unreachable_display', 'core::panicking::panic_explicit', 'core::panicking::panic_display',
       'core::panicking::panic_str_2015', 'core::panicking::assert_failed', 'core::panicking::panic_nounwind', 'core::slice::<impl [T]>::copy_from_slice::len_mismatch_fail')
def m_panic(ip, st, a, info):
    ip.panic(info.f, info.b, [st], info.cal.get('res') or info.cal['decl'])
    return []

@model('core::hint::unreachable_unchecked', 'core::panicking::unreachable')
def m_unreach(ip, st, a, info):
    ip.panic(info.f, info.b, [st], 'unreachable_unchecked')
    return []

@model('core::hint::assert_unchecked')
def m_assert_unchecked(ip, st, a, info):
    return [(st, UNIT)]

# ------------------------------------------------------------------ lengths, indexing
@model('core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'alloc::string::String::len', 'alloc::vec::Vec::<T, A>::len',
       'core::array::<impl [T; N]>::len')
def m_len(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    return [(st, ('I', q[3]))]

@model('core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty', 'alloc::string::String::is_empty', 'alloc::vec::Vec::<T, A>::is_empty')
def m_is_empty(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    return [(st, ip.simp(st, ('eq', q[3])))]

@model('alloc::vec::Vec::<T, A>::capacity', 'alloc::string::String::capacity')
def m_capacity(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    c = AT.get(('capacity', st.norm(q[3]) if q[1] is None else norm_q(st, q)), ((0, (1 << 63) - 1),))
    return [(s, ('I', atom(c))) for s in ip.assume(st.copy(), ('ge', sub(atom(c), q[3])))]

def range_bounds(ip, st, r, q):
    """(lo, hi) of an index range value over q, or None; hi is exclusive"""
    r = val(ip, st, r)
    if r is None: return None
    if r[0] == 'I': return None
    if r[0] == 'A':
        p = ip.T[r[1]]['path'] if r[1] >= 0 else ''
        f = r[3]
        g = lambda x: x[1]
        if p == 'core::ops::range::Range' or p == 'core::range::Range': return g(f[0]), g(f[1])
        if p.endswith('RangeInclusive') and len(f) >= 2: return g(f[0]), addc(g(f[1]), 1)
        if p.endswith('RangeFrom'): return g(f[0]), q[3]
        if p.endswith('RangeTo'): return const(0), g(f[0])
        if p.endswith('RangeToInclusive'): return const(0), addc(g(f[0]), 1)
        if p.endswith('RangeFull'): return const(0), q[3]
    if r[0] == 'S' and ip.T[r[2]].get('path', '').endswith('RangeFull'): return const(0), q[3]
    if r[0] == 'M' and r[1] == 'RangeIncl': return r[2][0], addc(r[2][1], 1)
    return None

def slice_range(ip, st, q, lo, hi, isstr, info, fail=None):
    """split into in-bounds / out-of-bounds"""
    c = ('and', ('ge', sub(hi, lo)), ('ge', sub(q[3], hi)))
    good = ip.assume(st.copy(), ('and', ('ge', lo), c))
    bad = ip.assume(st.copy(), ip.neg(c))
    return good, bad

def is_strty(ip, ti):
    t = ip.T[ti]
    while t['k'] == 'ref': t = ip.T[t['e']]
    return t['k'] == 'str' or (t['k'] == 'adt' and t['path'] == 'alloc::string::String')

@decl('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def m_index(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    isstr = is_strty(ip, info.argtys[0])
    idx = val(ip, st, a[1])
    out = []
    if idx is not None and idx[0] == 'I':
        good = ip.assume(st.copy(), ('ge', addc(sub(q[3], idx[1]), -1)))
        bad = ip.assume(st.copy(), ('ge', sub(idx[1], q[3])))
        if bad: ip.panic(info.f, info.b, bad, 'index')
        for s in good:
            v = feasible(lambda: ip.cell(s, q, idx[1]))
            if a[0][0] == 'R': out.append((s, ('R', a[0][1], a[0][2] + (('ix', idx[1]),))))
            elif v is not None: out.append((s, rv(v)))
        return out
    b = range_bounds(ip, st, idx, q)
    if b is None: return None
    lo, hi = b
    good, bad = slice_range(ip, st, q, lo, hi, isstr, info)
    if bad: ip.panic(info.f, info.b, bad, 'slice')
    for s in good:
        q2 = norm_q(s, sl(q, lo, hi))
        if isstr and q[1][0] == 'a':
            g, b2 = boundaries(ip, s, q, lo, hi)
            if b2: ip.panic(info.f, info.b, b2, 'char boundary')
            for s3 in g: out.append((s3, rv(norm_q(s3, q2))))
            continue
        out.append((s, rv(q2)))
    return out

def norm_q(s, q):
    return ('Q', q[1], s.norm(q[2]), s.norm(q[3]))

@model('core::slice::<impl [T]>::get', 'core::str::<impl str>::get', 'core::slice::<impl [T]>::get_unchecked', 'core::str::<impl str>::get_unchecked')
def m_get(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    idx = val(ip, st, a[1])
    unchecked = 'unchecked' in info.cal['decl']
    isstr = is_strty(ip, info.argtys[0])
    if idx is not None and idx[0] == 'I':
        c = ('ge', addc(sub(q[3], idx[1]), -1))
        if unchecked:
            bad = ip.assume(st.copy(), ip.neg(c))
            if bad: ip.panic(info.f, info.b, bad, 'unchecked index')
            return [(s, rv(ip.cell(s, q, idx[1]))) for s in ip.assume(st, c)]
        out = []
        for s in ip.assume(st.copy(), c):
            v = feasible(lambda: ip.cell(s, q, idx[1]))
            if v is not None: out.append((s, some(ip, info, rv(v))))
        for s in ip.assume(st.copy(), ip.neg(c)): out.append((s, none(ip, info)))
        return out
    b = range_bounds(ip, st, idx, q)
    if b is None: return None
    good, bad = slice_range(ip, st, q, b[0], b[1], isstr, info)
    if unchecked:
        if bad: ip.panic(info.f, info.b, bad, 'unchecked slice')
        return [(s, rv(norm_q(s, sl(q, b[0], b[1])))) for s in good]
    out = []
    for s in good:
        q2 = norm_q(s, sl(q, b[0], b[1]))
        if isstr:
            g, b2 = boundaries(ip, s, q, b[0], b[1])
            for s3 in b2: out.append((s3, none(ip, info)))
            for s3 in g: out.append((s3, some(ip, info, rv(norm_q(s3, q2)))))
            continue
        out.append((s, some(ip, info, rv(q2))))
    for s in bad: out.append((s, none(ip, info)))
    return out

@model('core::slice::<impl [T]>::first')
def m_first(ip, st, a, info): return elem_opt(ip, st, a, info, lambda q: const(0))
@model('core::slice::<impl [T]>::last')
def m_last(ip, st, a, info): return elem_opt(ip, st, a, info, lambda q: addc(q[3], -1))

def elem_opt(ip, st, a, info, f):
    q = ip.seq(st, a[0])
    if q is None: return None
    out = []
    for s in ip.assume(st.copy(), ('ge', addc(q[3], -1))):
        v = feasible(lambda: ip.cell(s, q, s.norm(f(q))))
        if v is not None: out.append((s, some(ip, info, rv(v))))
    for s in ip.assume(st.copy(), ('eq', q[3])): out.append((s, none(ip, info)))
    return out

@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def m_split_first(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    last = 'last' in info.cal['decl']
    out = []
    for s in ip.assume(st.copy(), ('ge', addc(q[3], -1))):
        n = s.norm(q[3])
        v = ip.cell(s, q, addc(n, -1) if last else const(0))
        r = sl(q, const(0), addc(n, -1)) if last else sl(q, const(1), n)
        out.append((s, some(ip, info, ('A', -1, 0, (rv(v), rv(norm_q(s, r)))))))
    for s in ip.assume(st.copy(), ('eq', q[3])): out.append((s, none(ip, info)))
    return out

@model('core::slice::<impl [T]>::reverse')
def m_reverse(ip, st, a, info):
    if a[0] is None or a[0][0] != 'R': return None
    q = ip.seq(st, a[0])
    n = st.const_of(q[3]) if q else None
    if n is None or n > 64: return None
    vs = [ip.cell(st, q, const(i)) for i in range(n)][::-1]
    v = ip.load(st, a[0][1], a[0][2])
    v = ('A', v[1], v[2], tuple(vs)) if v is not None and v[0] == 'A' else ip.seq_vals(vs)
    ip.store(st, a[0][1], a[0][2], v)
    return [(st, UNIT)]

@model('core::slice::<impl [T]>::split_at', 'core::str::<impl str>::split_at', 'core::slice::<impl [T]>::split_at_checked', 'core::str::<impl str>::split_at_checked')
def m_split_at(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    k = a[1][1]
    isstr = is_strty(ip, info.argtys[0])
    chk = 'checked' in info.cal['decl']
    out = []
    for s in ip.assume(st.copy(), ('ge', sub(q[3], k))):
        g, b = boundary_split(ip, s, q, add(q[2], k)) if isstr else ([s], [])
        if chk: out += [(s2, none(ip, info)) for s2 in b]
        elif b: ip.panic(info.f, info.b, b, 'char boundary')
        for s in g:
            p = ('A', -1, 0, (rv(norm_q(s, sl(q, const(0), k))), rv(norm_q(s, sl(q, k, q[3])))))
            out.append((s, some(ip, info, p) if chk else p))
    bad = ip.assume(st.copy(), ('ge', addc(sub(k, q[3]), -1)))
    if chk: out += [(s, none(ip, info)) for s in bad]
    elif bad: ip.panic(info.f, info.b, bad, 'split_at')
    return out

@model('core::str::<impl str>::is_char_boundary')
def m_is_boundary(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None or a[1][0] != 'I': return None
    k = a[1][1]
    out = [(s, I(0)) for s in ip.assume(st.copy(), ('ge', addc(sub(k, q[3]), -1)))]
    for s in ip.assume(st.copy(), ('ge', sub(q[3], k))):
        g, b = boundary_split(ip, s, q, add(q[2], k))
        out += [(x, I(1)) for x in g] + [(x, I(0)) for x in b]
    return out

# ------------------------------------------------------------------ comparisons
@decl('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def m_eq(ip, st, a, info):
    if info.cal.get('fn') is not None: return None
    x, y = val(ip, st, a[0]), val(ip, st, a[1])
    c = ip.value_eq(st, x, y)
    if c is None: return None
    if info.cal['decl'].endswith('ne'): c = ip.neg(c)
    return split_bool(ip, st, c)

def split_bool(ip, st, c):
    if c[0] in ('true', 'false'): return [(st, I(1 if c[0] == 'true' else 0))]
    if c[0] in ('ge', 'eq', 'ne', 'in'): return [(st, ('B', c))]
    # conjunctions over many cells: split now so that later code sees constants
    return [(s, I(1)) for s in ip.assume(st.copy(), c)] + [(s, I(0)) for s in ip.assume(st.copy(), ip.neg(c))]

@decl('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def m_ord(ip, st, a, info):
    x, y = val(ip, st, a[0]), val(ip, st, a[1])
    op = info.cal['decl'].rsplit('::', 1)[1].capitalize()
    if x is not None and y is not None and x[0] in ('I', 'F') and y[0] == x[0]:
        return [(st, ip.binop(st, op, x, y, 0))]
    if x is not None and y is not None and x[0] == 'S' and y[0] in ('S', 'A') or (x is not None and y is not None and x[0] == 'A' and y[0] == 'S'):
        fx, fy = ip.freeze(st, x), ip.freeze(st, y)
        # canonical orientation: lt(x,y)
        if op == 'Lt': k, neg = (fx, fy), False
        elif op == 'Ge': k, neg = (fx, fy), True
        elif op == 'Gt': k, neg = (fy, fx), False
        else: k, neg = (fy, fx), True
        at = atom(AT.get(('less',) + k, BOOL))
        return [(st, ('B', ('eq', at) if neg else ('ne', at)))]
    return None

ORD_T = 'core::cmp::Ordering'
@decl('core::cmp::Ord::cmp', 'core::cmp::PartialOrd::partial_cmp')
def m_cmp(ip, st, a, info):
    x, y = val(ip, st, a[0]), val(ip, st, a[1])
    if x is None or y is None or x[0] not in ('I', 'F') or y[0] != x[0]: return None
    part = info.cal['decl'].endswith('partial_cmp')
    ot = ip.find_ty(ORD_T)
    out = []
    used = ()
    for i, op in enumerate(('Lt', 'Eq', 'Gt')):
        c = ip.cond_of(ip.binop(st, op, x, y, 0))
        for s in ip.assume(st.copy(), c):
            o = ('A', ot if ot is not None else -1, i, ())
            out.append((s, some(ip, info, o) if part else o))
    if part and x[0] == 'F':
        cs = [ip.cond_of(ip.binop(st, op, x, y, 0)) for op in ('Lt', 'Eq', 'Gt')]
        sts = [st]
        for c in cs: sts = [s2 for s in sts for s2 in ip.assume(s.copy(), ip.neg(c))]
        out += [(s, none(ip, info)) for s in sts]
    return out

@decl('core::cmp::Ord::min', 'core::cmp::Ord::max')
def m_minmax(ip, st, a, info):
    x, y = a[0], a[1]
    if x is None or x[0] != 'I' or y is None or y[0] != 'I': return None
    mn = info.cal['decl'].endswith('min')
    return both(ip, st, ('ge', sub(y[1], x[1])), x if mn else y, y if mn else x)
EXACT['core::cmp::min'] = lambda ip, st, a, info: both(ip, st, ('ge', sub(a[1][1], a[0][1])), a[0], a[1]) if a[0][0] == 'I' else None
EXACT['core::cmp::max'] = lambda ip, st, a, info: both(ip, st, ('ge', sub(a[1][1], a[0][1])), a[1], a[0]) if a[0][0] == 'I' else None

@model('core::ops::range::RangeInclusive::<Idx>::contains', 'core::ops::range::Range::<Idx>::contains', 'core::ops::range::RangeFrom::<Idx>::contains',
       'core::ops::range::RangeTo::<Idx>::contains', 'core::ops::range::RangeToInclusive::<Idx>::contains')
@decl('core::ops::range::RangeBounds::contains')
def m_contains(ip, st, a, info):
    r, x = val(ip, st, a[0]), val(ip, st, a[1])
    if r is None or x is None or r[0] not in ('A', 'M'): return None
    p = ip.T[r[1]]['path'] if r[0] == 'A' and r[1] >= 0 else 'RangeInclusive'
    f = r[3] if r[0] == 'A' else [('I', r[2][0]), ('I', r[2][1])]
    cs = []
    if p.endswith('::Range'): cs = [('Ge', f[0]), ('Lt', f[1])]
    elif p.endswith('RangeInclusive'): cs = [('Ge', f[0]), ('Le', f[1])]
    elif p.endswith('RangeFrom'): cs = [('Ge', f[0])]
    elif p.endswith('RangeTo'): cs = [('Lt', f[0])]
    elif p.endswith('RangeToInclusive'): cs = [('Le', f[0])]
    elif p.endswith('RangeFull'): return [(st, I(1))]
    else: return None
    c = None
    for op, b in cs:
        b = val(ip, st, b)
        if b is None or b[0] not in ('I', 'F') or x[0] not in ('I', 'F'): return None
        d = ip.binop(st, op, x, b, 0)
        d = ip.cond_of(d)
        c = d if c is None else ('and', c, d)
    sg = single(x[1])
    return [(st, ('B', c))]

@model('core::ops::range::RangeInclusive::<Idx>::new')
def m_rinew(ip, st, a, info):
    return [(st, ('A', info.dty, 0, (a[0], a[1], I(0))))]
@model('core::ops::range::RangeInclusive::<Idx>::start')
def m_ristart(ip, st, a, info): return [(st, rv(val(ip, st, a[0])[3][0]))]
@model('core::ops::range::RangeInclusive::<Idx>::end')
def m_riend(ip, st, a, info): return [(st, rv(val(ip, st, a[0])[3][1]))]

# ------------------------------------------------------------------ character classes
def cls(f): return iset_norm([(i, i) for i in range(128) if f(chr(i))])
CLS = {
    'is_ascii_digit': iset_chars('0123456789'),
    'is_ascii_hexdigit': iset_chars('0123456789abcdefABCDEF'),
    'is_ascii_lowercase': ((97, 122),),
    'is_ascii_uppercase': ((65, 90),),
    'is_ascii_alphabetic': ((65, 90), (97, 122)),
    'is_ascii_alphanumeric': ((48, 57), (65, 90), (97, 122)),
    'is_ascii': ((0, 127),),
    'is_ascii_control': ((0, 31), (127, 127)),
    'is_ascii_graphic': ((33, 126),),
    'is_ascii_punctuation': ((33, 47), (58, 64), (91, 96), (123, 126)),
    'is_ascii_whitespace': iset_chars(' \t\n\x0c\r'),
}
WS = iset_norm([(9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)])
CTRL = ((0, 31), (127, 159))
def mk_cls(s):
    def m(ip, st, a, info):
        v = val(ip, st, a[0])
        if v is None or v[0] != 'I': return None
        c = st.const_of(v[1])
        if c is not None: return [(st, I(1 if iset_inter(((c, c),), s) else 0))]
        return [(st, ('B', ('in', v[1], s)))]
    return m
for n, s in CLS.items():
    for w in ('core::num::<impl u8>::', 'core::char::methods::<impl char>::', 'core::num::<impl core::primitive::u8>::'):
        EXACT[w + n] = mk_cls(s)
EXACT['core::char::methods::<impl char>::is_whitespace'] = mk_cls(WS)
EXACT['core::char::methods::<impl char>::is_control'] = mk_cls(CTRL)

@model('core::slice::ascii::<impl [u8]>::is_ascii', 'core::str::<impl str>::is_ascii', 'core::slice::<impl [u8]>::is_ascii')
def m_isascii(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    return quant_split(ip, st, q, ((0, 127),), ((128, 255),), I(1), lambda s, j: I(0))

@model('core::num::<impl u8>::to_ascii_lowercase', 'core::char::methods::<impl char>::to_ascii_lowercase')
def m_lower(ip, st, a, info):
    v = val(ip, st, a[0]); return shiftcase(ip, st, v, ((65, 90),), 32)
@model('core::num::<impl u8>::to_ascii_uppercase', 'core::char::methods::<impl char>::to_ascii_uppercase')
def m_upper(ip, st, a, info):
    v = val(ip, st, a[0]); return shiftcase(ip, st, v, ((97, 122),), -32)

def shiftcase(ip, st, v, s, d):
    c = st.const_of(v[1])
    if c is not None: return [(st, I(c + d if iset_inter(((c, c),), s) else c))]
    sg = single(v[1])
    if not sg or sg[1] != 1 or sg[2] != 0: return None
    a = sg[0]
    r = st.rng(a)
    if not iset_inter(r, s): return [(st, v)]
    if iset_sub(r, s): return [(st, ('I', addc(v[1], d)))]
    cases = tuple(sorted([(iset_inter(AT.rng[a], s), (d, ((a, 1),))), (iset_diff(AT.rng[a], s), atom(a))]))
    return [(st, ('I', atom(AT.get(('pw', ('a', a), cases), ((NEG, POS),)))))]

@model('core::num::<impl u8>::eq_ignore_ascii_case', 'core::char::methods::<impl char>::eq_ignore_ascii_case')
def m_eqic1(ip, st, a, info):
    x, y = val(ip, st, a[0]), val(ip, st, a[1])
    for u, v in ((x, y), (y, x)):
        c = st.const_of(v[1])
        if c is not None:
            s = {c}
            if 65 <= c <= 90: s.add(c + 32)
            if 97 <= c <= 122: s.add(c - 32)
            return [(st, ('B', ('in', u[1], iset_norm([(t, t) for t in s]))))]
    return None

@model('core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case', 'core::str::<impl str>::eq_ignore_ascii_case')
def m_eqic(ip, st, a, info):
    x, y = ip.seq(st, a[0]), ip.seq(st, a[1])
    c = ip.seq_eq(st, x, y, ci=True)
    if c is None: return None
    return split_bool(ip, st, c)

@model('core::char::methods::<impl char>::to_digit')
def m_to_digit(ip, st, a, info):
    v = a[0]; r = st.const_of(a[1][1])
    if r is None or v[0] != 'I': return None
    cases = [(((48, min(57, 47 + r)),), -48)]
    if r > 10:
        cases += [(((97, 86 + r),), -87), (((65, 54 + r),), -55)]
    out = []
    allow = ()
    for s, d in cases:
        allow = iset_union(allow, s)
        for s1 in ip.assume(st.copy(), ('in', v[1], s)):
            out.append((s1, some(ip, info, ('I', addc(v[1], d)))))
    for s1 in ip.assume(st.copy(), ('in', v[1], iset_compl(allow))): out.append((s1, none(ip, info)))
    return out

@model('core::char::methods::<impl char>::is_digit')
def m_is_digit(ip, st, a, info):
    r = st.const_of(a[1][1])
    if r is None: return None
    s = ((48, min(57, 47 + r)),)
    if r > 10: s = iset_norm(list(s) + [(97, 86 + r), (65, 54 + r)])
    return [(st, ('B', ('in', val(ip, st, a[0])[1], s)))]

EXACT['core::char::methods::<impl char>::len_utf8'] = lambda ip, st, a, info: len_utf8(ip, st, a[0])
def len_utf8(ip, st, v):
    sg = single(v[1])
    if sg and sg[1] == 1 and sg[2] == 0:
        k = AT.key[sg[0]]
        if k[0] == 'at' and k[1][0] == 'chars' and st.norm(atom(sg[0])) == v[1]:
            l = st.norm(sub(boff(k[1], addc(k[2], 1)), boff(k[1], k[2])))
            r = st.rng(sg[0])
            lo = 1 if r[0][0] < 0x80 else 2 if r[0][0] < 0x800 else 3 if r[0][0] < 0x10000 else 4
            hi = 1 if r[-1][1] < 0x80 else 2 if r[-1][1] < 0x800 else 3 if r[-1][1] < 0x10000 else 4
            s = st.copy()
            try:
                s.assume_ge(addc(l, -lo)); s.assume_ge(addc(scale(l, -1), hi))
                # the rest of the view holds at least one byte per character
                n = base_len(k[1])
                s.assume_ge(s.norm(sub(sub(k[1][3], boff(k[1], addc(k[2], 1))), addc(sub(n, k[2]), -1))))
            except Infeasible: return []
            return [(s, ('I', s.norm(l)))]
    out = []
    for s, n in ((((0, 0x7f),), 1), (((0x80, 0x7ff),), 2), (((0x800, 0xffff),), 3), (((0x10000, 0x10ffff),), 4)):
        for x in ip.assume(st.copy(), ('in', v[1], s)): out.append((x, I(n)))
    return out

@model('core::char::methods::<impl char>::encode_utf8')
def m_encode_utf8(ip, st, a, info):
    c = a[0]
    if c[0] != 'I': return None
    out = []
    for dom, lead in ((((0, 0x7f),), None), (((0x80, 0x7ff),), (0xc2, 0xdf)), (((0x800, 0xffff),), (0xe0, 0xef)), (((0x10000, 0x10ffff),), (0xf0, 0xf4))):
        for s in ip.assume(st.copy(), ('in', c[1], dom)):
            if lead is None: vs = [c]
            else:
                n = {0xc2: 2, 0xe0: 3, 0xf0: 4}[lead[0]]
                l = s.norm(c[1])
                vs = [('I', atom(AT.get(('u8', l, i), (lead,) if i == 0 else ((0x80, 0xbf),)))) for i in range(n)]
            out.append((s, rv(ip.seq_vals(vs))))
    return out

EXACT['core::char::convert::<impl core::convert::From<u8> for char>::from'] = m_id1
@model('core::char::convert::from_u32', 'core::char::methods::<impl char>::from_u32')
def m_from_u32(ip, st, a, info):
    if a[0][0] != 'I': return None
    return both(ip, st, ('in', a[0][1], CHAR), lambda s: some(ip, info, a[0]), lambda s: none(ip, info))

# ------------------------------------------------------------------ wrapping / checked arithmetic
def arith(kind, op):
    def m(ip, st, a, info):
        x, y = val(ip, st, a[0]), val(ip, st, a[1])
        if x is None or y is None or x[0] != 'I' or y[0] != 'I': return None
        ti = info.argtys[0]
        r = ip.int_range(ti)
        if r is None: return None
        if op == 'Add': z = add(x[1], y[1])
        elif op == 'Sub': z = sub(x[1], y[1])
        elif op == 'Mul':
            cx, cy = st.const_of(x[1]), st.const_of(y[1])
            if cx is not None: z = scale(y[1], cx)
            elif cy is not None: z = scale(x[1], cy)
            else: return None
        else: return None
        lo, hi = r[0][0], r[-1][1]
        inr = ('and', ('ge', addc(z, -lo)), ('ge', addc(scale(z, -1), hi)))
        if kind == 'checked':
            return both(ip, st, inr, lambda s: some(ip, info, ('I', z)), lambda s: none(ip, info))
        if kind == 'saturating':
            out = [(s, ('I', z)) for s in ip.assume(st.copy(), inr)]
            out += [(s, I(lo)) for s in ip.assume(st.copy(), ('ge', addc(scale(z, -1), lo - 1)))]
            out += [(s, I(hi)) for s in ip.assume(st.copy(), ('ge', addc(z, -hi - 1)))]
            return out
        if kind == 'wrapping':
            w = hi - lo + 1
            out = [(s, ('I', z)) for s in ip.assume(st.copy(), inr)]
            out += [(s, ('I', addc(z, w))) for s in ip.assume(st.copy(), ('ge', addc(scale(z, -1), lo - 1)))]
            out += [(s, ('I', addc(z, -w))) for s in ip.assume(st.copy(), ('ge', addc(z, -hi - 1)))]
            return out
        return None
    return m
for t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    for k in ('checked', 'saturating', 'wrapping'):
        for o in ('add', 'sub', 'mul'):
            EXACT['core::num::<impl %s>::%s_%s' % (t, k, o)] = arith(k, o.capitalize())
    def mk_bytes(order):
        def m(ip, st, a, info):
            v = a[0]
            n = ip.T[info.argtys[0]]['bits'] // 8
            l = v[1]
            c = st.const_of(l)
            out = []
            cur = l
            # split a sum of shifted bytes exactly
            parts = bytes_of(ip, st, l, n)
            if parts is None:
                parts = [('I', atom(AT.get(('byteof', l, i), BYTE))) for i in range(n)]
            if order == 'be': parts = parts[::-1]
            return [(st, ('A', info.dty, 0, tuple(parts)))]
        return m
    EXACT['core::num::<impl %s>::to_le_bytes' % t] = mk_bytes('le')
    EXACT['core::num::<impl %s>::to_ne_bytes' % t] = mk_bytes('le')
    EXACT['core::num::<impl %s>::to_be_bytes' % t] = mk_bytes('be')
    def mk_frombytes(order):
        def m(ip, st, a, info):
            v = a[0]
            if v is None or v[0] != 'A': return None
            fs = v[3] if order == 'le' else v[3][::-1]
            l = const(0)
            for i, x in enumerate(fs):
                if x is None or x[0] != 'I': return None
                l = add(l, x[1], 1 << (8 * i))
            return [(st, ('I', l))]
        return m
    EXACT['core::num::<impl %s>::from_le_bytes' % t] = mk_frombytes('le')
    EXACT['core::num::<impl %s>::from_ne_bytes' % t] = mk_frombytes('le')
    EXACT['core::num::<impl %s>::from_be_bytes' % t] = mk_frombytes('be')

def bytes_of(ip, st, l, n):
    c = st.const_of(l)
    if c is not None:
        c &= (1 << (8 * n)) - 1
        return [I((c >> (8 * i)) & 255) for i in range(n)]
    # group the summands by byte position
    parts = []
    rest = l
    for i in range(n):
        g = 1 << (8 * (i + 1))
        low = (rest[0] % g, tuple((a, k) for a, k in rest[1] if k % g))
        lo, hi = st.bounds(low)
        if lo < 0 or hi >= g: return None
        unit = 1 << (8 * i)
        if low[0] % unit or any(k % unit for _, k in low[1]): return None
        parts.append(('I', (low[0] // unit, tuple((a, k // unit) for a, k in low[1]))))
        rest = sub(rest, low)
    return parts

@model('core::intrinsics::bswap')
def m_bswap(ip, st, a, info):
    n = ip.T[info.dty]['bits'] // 8
    bs = bytes_of(ip, st, a[0][1], n) if a[0] is not None and a[0][0] == 'I' else None
    if bs is None: return None
    return [(st, ip.from_bytes(bs[::-1], info.dty))]

# ------------------------------------------------------------------ quantified predicates over sequences
def posn(base, lo, hi, T, kind): return AT.get(('pos', kind, base, lo, hi, T), LEN_RNG)

def absT(st, base, T):
    return T

def quant_split(ip, st, q, T, F, vt, vf):
    """all cells of q in T -> vt ; some cell in F (first at j) -> vf(s, j)"""
    base, lo, hi = q[1], q[2], st.norm(add(q[2], q[3]))
    n = st.const_of(q[3])
    out = []
    if base[0] in ('c', 'v') or (n is not None and n <= 40):
        if n is None or st.const_of(q[2]) is None and base[0] in ('c', 'v'): return None
        cur = [st.copy()]
        for i in range(n):
            nxt = []
            for s in cur:
                c = ip.cell(s, q, const(i))
                if c is None or c[0] != 'I': return None
                for s2 in ip.assume(s.copy(), ('in', c[1], F)): out.append((s2, vf(s2, const(i))))
                nxt += ip.assume(s.copy(), ('in', c[1], T))
            cur = nxt
        for s in cur: out.append((s, vt(s) if callable(vt) else vt))
        return out
    s = st.copy()
    try:
        all_T(s, base, lo, hi, T)
        out.append((s, vt(s) if callable(vt) else vt))
    except Infeasible: pass
    s = st.copy()
    try:
        j = posn(base, lo, hi, F, 'first')
        found(s, base, lo, hi, j, F, T, 'first')
        out.append((s, vf(s, sub(atom(j), q[2]))))
    except Infeasible: pass
    return out

def all_T(s, base, lo, hi, T):
    known = list(s.cells(base))
    s.add_quant(base, lo, hi, T)
    for idx, cs in known:
        if not iset_sub(cs, T) and s.ge(sub(idx, lo)) and s.ge(addc(sub(hi, idx), -1)):
            s.restrict(at_atom(base, idx), T)

def found(s, base, lo, hi, j, F, T, kind):
    ja = s.norm(atom(j))
    s.assume_ge(sub(ja, lo)); ja = s.norm(ja)
    s.assume_ge(addc(sub(hi, ja), -1)); ja = s.norm(ja)
    s.restrict_cell(base, ja, F)
    if kind == 'first': all_T(s, base, lo, ja, T)
    else: all_T(s, base, addc(ja, 1), hi, T)

def find_split(ip, st, q, T, kind, vsome, vnone):
    """first/last cell in T"""
    base, lo, hi = q[1], q[2], st.norm(add(q[2], q[3]))
    full = cell_range(base) if base[0] != 'v' else None
    F = iset_diff(full, T) if full else None
    n = st.const_of(q[3])
    out = []
    if base[0] in ('c', 'v') or (n is not None and n <= 40):
        if n is None: return None
        cur = [st.copy()]
        NT = iset_compl(T)
        for i in (range(n) if kind == 'first' else range(n - 1, -1, -1)):
            nxt = []
            for s in cur:
                c = ip.cell(s, q, const(i))
                if c is None or c[0] != 'I': return None
                for s2 in ip.assume(s.copy(), ('in', c[1], T)): out.append((s2, vsome(s2, const(i))))
                nxt += ip.assume(s.copy(), ('in', c[1], NT))
            cur = nxt
        for s in cur: out.append((s, vnone))
        return out
    # a position the state already knows to be the one
    for idx, cs in st.cells(base):
        if not cs or not iset_sub(cs, T) or not st.ge(sub(idx, lo), 2) or not st.ge(addc(sub(hi, idx), -1), 2): continue
        a, z = (lo, idx) if kind == 'first' else (addc(idx, 1), hi)
        try:
            if a == z or iset_sub(st.qset(base, a, z), F): return [(st, vsome(st, st.norm(sub(idx, lo))))]
        except Infeasible: continue
    s = st.copy()
    try:
        all_T(s, base, lo, hi, F)
        out.append((s, vnone))
    except Infeasible: pass
    s = st.copy()
    try:
        j = posn(base, lo, hi, T, kind)
        found(s, base, lo, hi, j, T, F, kind)
        out.append((s, vsome(s, s.norm(sub(atom(j), q[2])))))
    except Infeasible: pass
    return out

def pred_sets(ip, st, fv, q, wrap, info):
    """(T, F): the cell values for which the closure can be true / false"""
    base = q[1]
    ip.uid += 1
    # one shared generic index per base keeps atom names stable
    g = AT.get(('any', base), ((NEG, POS),))
    if base[0] == 'v': return None
    x = at_atom(base, atom(g))
    s0 = st.copy()
    s0.iset.pop(x, None)
    res = ip.call_value(s0, fv, [wrap(('I', atom(x)))], info)
    T, F = (), ()
    for s, b in res:
        if b is None: return None
        if b[0] == 'I':
            c = s.const_of(b[1])
            if c is None:
                bs = [(s2, 1) for s2 in ip.assume(s.copy(), ('ne', b[1]))] + [(s2, 0) for s2 in ip.assume(s.copy(), ('eq', b[1]))]
            else: bs = [(s, c)]
        elif b[0] == 'B':
            bs = [(s2, 1) for s2 in ip.assume(s.copy(), b[1])] + [(s2, 0) for s2 in ip.assume(s.copy(), ip.neg(b[1]))]
        else: return None
        for s2, c in bs:
            # captured mutable state must be untouched
            for k, v in st.env.items():
                if s2.env.get(k) != v and k in s2.env: return None
            r = s2.rng(x)
            if c: T = iset_union(T, r)
            else: F = iset_union(F, r)
    return T, F

# ------------------------------------------------------------------ iterators
def it_iter(q, mode): return ('M', 'Iter', (q, mode))

@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def m_iter(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    return [(st, it_iter(q, 'ref'))]
@model('core::str::<impl str>::bytes')
def m_bytes(ip, st, a, info):
    q = ip.seq(st, a[0])
    return [(st, it_iter(q, 'val'))] if q else None
@model('core::str::<impl str>::chars')
def m_chars(ip, st, a, info):
    q = ip.seq(st, a[0])
    return [(st, it_iter(charseq(ip, st, q), 'val'))] if q else None
@model('core::str::<impl str>::char_indices')
def m_char_indices(ip, st, a, info):
    q = ip.seq(st, a[0])
    return [(st, ('M', 'CharIdx', (it_iter(charseq(ip, st, q), 'val'), q)))] if q else None

@decl('core::iter::traits::collect::IntoIterator::into_iter', 'core::iter::traits::iterator::Iterator::by_ref')
def m_into_iter(ip, st, a, info):
    v = a[0]
    if v is None: return None
    if v[0] == 'M': return [(st, v)]
    if v[0] == 'A' and v[1] >= 0:
        t = ip.T[v[1]]
        if t['k'] == 'array': return [(st, it_iter(ip.seq_vals(v[3]), 'val'))]
        return [(st, v)]
    if v[0] == 'R':
        w = ip.deref(st, v)
        if w is not None and w[0] == 'M': return [(st, v)]
        if w is not None and w[0] == 'A' and ip.T[w[1]]['k'] != 'array': return [(st, v)]
    if v[0] in ('R', 'RV'):
        q = ip.seq(st, v)
        if q: return [(st, it_iter(q, 'ref'))]
    if v[0] == 'Q': return [(st, it_iter(v, 'val'))]
    return None

@decl('core::iter::traits::iterator::Iterator::copied', 'core::iter::traits::iterator::Iterator::cloned')
def m_copied(ip, st, a, info):
    v = a[0]
    if v is not None and v[0] == 'M' and v[1] == 'Iter': return [(st, it_iter(v[2][0], 'val'))]
    if v is not None and v[0] in ('M', 'A'): return [(st, ('M', 'Copied', (v,)))]
    return None

def adapter(name, n=1):
    def m(ip, st, a, info):
        return [(st, ('M', name, tuple(a[:n])))]
    return m
for nm, ad, n in [('rev', 'Rev', 1), ('take', 'Take', 2), ('skip', 'Skip', 2), ('map', 'Map', 2), ('filter', 'Filter', 2),
                  ('peekable', 'Peekable', 1), ('fuse', 'Fuse', 1), ('step_by', 'StepBy', 2), ('take_while', 'TakeWhile', 2), ('skip_while', 'SkipWhile', 2),
                  ('filter_map', 'FilterMap', 2), ('inspect', 'Inspect', 2), ('map_while', 'MapWhile', 2)]:
    DECL['core::iter::traits::iterator::Iterator::' + nm] = adapter(ad, n)

def m_narrow(ip, st, a, info):
    """take / skip of a sequence iterator: an iterator over a part of the sequence"""
    op = info.cal['decl'].rsplit('::', 1)[1]
    v, k = a[0], a[1]
    if v is None or v[0] != 'M' or v[1] != 'Iter' or k is None or k[0] != 'I': return adapter('Take' if op == 'take' else 'Skip', 2)(ip, st, a, info)
    q, mode = v[2]
    out = []
    d = sub(q[3], k[1])
    for s in ip.assume(st.copy(), ('ge', d)):
        z = sl(q, const(0), k[1]) if op == 'take' else sl(q, k[1], q[3])
        out.append((s, it_iter(norm_q(s, z), mode)))
    for s in ip.assume(st.copy(), ('ge', addc(scale(d, -1), -1))):
        z = q if op == 'take' else sl(q, q[3], q[3])
        out.append((s, it_iter(norm_q(s, z), mode)))
    return out
DECL['core::iter::traits::iterator::Iterator::take'] = DECL['core::iter::traits::iterator::Iterator::skip'] = m_narrow

@decl('core::iter::traits::iterator::Iterator::enumerate')
def m_enum(ip, st, a, info): return [(st, ('M', 'Enumerate', (a[0], I(0))))]

@decl('core::iter::traits::iterator::Iterator::chain', 'core::iter::traits::iterator::Iterator::zip')
def m_chain(ip, st, a, info):
    b = m_into_iter(ip, st, [a[1]], info)
    if not b: return None
    return [(st, ('M', 'Chain' if info.cal['decl'].endswith('chain') else 'Zip', (a[0], b[0][1])))]
@model('core::iter::adapters::zip::zip')
def m_zip(ip, st, a, info):
    x = m_into_iter(ip, st, [a[0]], info); y = m_into_iter(ip, st, [a[1]], info)
    return [(st, ('M', 'Zip', (x[0][1], y[0][1])))] if x and y else None

@model('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::windows')
def m_chunks(ip, st, a, info):
    q = ip.seq(st, a[0])
    n = st.const_of(a[1][1])
    if q is None or not n: return None
    return [(st, ('M', 'Chunks', (q, n, info.cal['decl'].rsplit('::', 1)[1])))]

def bind(res, f):
    out = []
    for s, *r in res:
        x = f(s, *r)
        if x is None: return None
        out += x
    return out

def const_driver(ip, st):
    c = st.ctx
    if c and c[-1][2] == 'u': st.ctx = c[:-1] + ((c[-1][0], c[-1][1], 'k') + c[-1][3:],)

def it_next(ip, st, it, info, back=False):
    """[(state, iterator', item | None)] or None"""
    if it is None: return None
    if it[0] == 'A':
        t = ip.T[it[1]] if it[1] >= 0 else {}
        p = t.get('path', '')
        if p.endswith('ops::range::Range'):
            lo, hi = it[3]
            if lo[0] != 'I': return None
            c = ('ge', addc(sub(hi[1], lo[1]), -1))
            g = ip.assume(st.copy(), c); b = ip.assume(st.copy(), ip.neg(c))
            if g and b: flag(ip, g + b)
            elif is_const(lo[1]) and is_const(hi[1]):
                for s in g + b: const_driver(ip, s)
            out = []
            for s in g:
                if back: out.append((s, ('A', it[1], 0, (lo, ('I', addc(hi[1], -1)))), ('I', addc(hi[1], -1))))
                else: out.append((s, ('A', it[1], 0, (('I', addc(lo[1], 1)), hi)), lo))
            return out + [(s, it, None) for s in b]
        if p.endswith('ops::range::RangeInclusive'):
            lo, hi, ex = it[3]
            if lo[0] != 'I': return None
            ec = st.const_of(ex[1]) if ex[0] == 'I' else None
            if ec == 1: return [(st, it, None)]
            if ec is None: return None
            out = []
            lt = ip.assume(st.copy(), ('ge', addc(sub(hi[1], lo[1]), -1)))
            eq = ip.assume(st.copy(), ('eq', sub(hi[1], lo[1])))
            gt = ip.assume(st.copy(), ('ge', addc(sub(lo[1], hi[1]), -1)))
            if sum(1 for x in (lt, eq, gt) if x) > 1: flag(ip, lt + eq + gt)
            elif is_const(lo[1]) and is_const(hi[1]):
                for s in lt + eq + gt: const_driver(ip, s)
            for s in lt:
                if back: out.append((s, ('A', it[1], 0, (lo, ('I', addc(hi[1], -1)), ex)), hi))
                else: out.append((s, ('A', it[1], 0, (('I', addc(lo[1], 1)), hi, ex)), lo))
            for s in eq: out.append((s, ('A', it[1], 0, (lo, hi, I(1))), hi if back else lo))
            for s in gt: out.append((s, it, None))
            return out
        if p.endswith('ops::range::RangeFrom'):
            lo = it[3][0]
            return [(st, ('A', it[1], 0, (('I', addc(lo[1], 1)),)), lo)]
        if p.endswith('option::Option') or p.endswith('option::IntoIter'):
            if it[2] == 1: return [(st, ('A', it[1], 0, ()), it[3][0])]
            return [(st, it, None)]
        return None
    if it[0] == 'R':
        inner = ip.deref(st, it)
        r = it_next(ip, st, inner, info, back)
        if r is None: return None
        out = []
        for s, i2, x in r:
            ip.store(s, it[1], it[2], i2)
            out.append((s, it, x))
        return out
    if it[0] != 'M': return None
    k, f = it[1], it[2]
    if k == 'Iter':
        q, mode = f
        n = q[3]
        g = ip.assume(st.copy(), ('ge', addc(n, -1))); b = ip.assume(st.copy(), ('eq', n))
        if g and b: flag(ip, g + b)
        elif is_const(n):
            for s in g + b: const_driver(ip, s)
        out = []
        for s in g:
            m = s.norm(n)
            qq = norm_q(s, q)
            if back:
                v = feasible(lambda: ip.cell(s, qq, addc(m, -1))); q2 = sl(qq, const(0), addc(m, -1))
            else:
                v = feasible(lambda: ip.cell(s, qq, const(0))); q2 = sl(qq, const(1), m)
            if v is None: return None
            out.append((s, ('M', 'Iter', (q2, mode)), rv(v) if mode == 'ref' else v))
        return out + [(s, it, None) for s in b]
    if k == 'CharIdx':
        r = it_next(ip, st, f[0], info, back)
        if r is None: return None
        out = []
        for s, i2, x in r:
            if x is not None:
                cq = f[0][2][0]
                idx = cq[2] if not back else addc(add(cq[2], cq[3]), -1)
                off = const(0) if is_const(idx) and idx[0] == 0 else atom(AT.get(('byteoff', cq[1], idx), LEN_RNG))
                x = ('A', -1, 0, (('I', off), x))
            out.append((s, ('M', k, (i2, f[1])), x))
        return out
    if k == 'Copied':
        r = it_next(ip, st, f[0], info, back)
        if r is None: return None
        return [(s, ('M', k, (i2,)), ip.deref(s, x) if x is not None else None) for s, i2, x in r]
    if k == 'Enumerate' and not back:
        r = it_next(ip, st, f[0], info)
        if r is None: return None
        return [(s, ('M', k, (i2, ('I', addc(f[1][1], 1)) if x is not None else f[1])), ('A', -1, 0, (f[1], x)) if x is not None else None) for s, i2, x in r]
    if k == 'Rev':
        r = it_next(ip, st, f[0], info, not back)
        if r is None: return None
        return [(s, ('M', k, (i2,)), x) for s, i2, x in r]
    if k == 'Fuse' or k == 'Inspect':
        r = it_next(ip, st, f[0], info, back)
        if r is None: return None
        return [(s, ('M', k, (i2,) + f[1:]), x) for s, i2, x in r]
    if k == 'Take' and not back:
        n = f[1][1]
        out = []
        g = ip.assume(st.copy(), ('ge', addc(n, -1))); b = ip.assume(st.copy(), ('le', n)) if False else ip.assume(st.copy(), ('eq', n))
        if g and b: flag(ip, g + b)
        for s in b: out.append((s, it, None))
        for s in g:
            r = it_next(ip, s, f[0], info)
            if r is None: return None
            for s2, i2, x in r:
                out.append((s2, ('M', k, (i2, ('I', addc(s2.norm(n), -1)) if x is not None else f[1])), x))
        return out
    if k == 'Skip':
        n = f[1][1]
        inner = f[0]
        if inner[0] == 'M' and inner[1] == 'Iter':
            q, mode = inner[2]
            out = []
            for s in ip.assume(st.copy(), ('ge', sub(q[3], n))):
                r = it_next(ip, s, ('M', 'Iter', (norm_q(s, sl(q, n, q[3])), mode)), info, back)
                if r is None: return None
                out += r
            for s in ip.assume(st.copy(), ('ge', addc(sub(n, q[3]), -1))): out.append((s, ('M', 'Iter', (sl(q, q[3], q[3]), mode)), None))
            return out
        c = st.const_of(n)
        if c is None or back: return None
        cur = [(st, inner)]
        out = []
        for _ in range(c):
            nxt = []
            for s, i in cur:
                r = it_next(ip, s, i, info)
                if r is None: return None
                for s2, i2, x in r:
                    if x is None: out.append((s2, ('M', k, (i2, I(0))), None))
                    else: nxt.append((s2, i2))
            cur = nxt
        for s, i in cur:
            r = it_next(ip, s, i, info)
            if r is None: return None
            out += [(s2, ('M', k, (i2, I(0))), x) for s2, i2, x in r]
        return out
    if k == 'Chain' and not back:
        if f[0] is None or f[0] == ():
            r = it_next(ip, st, f[1], info)
            return None if r is None else [(s, ('M', k, ((), i2)), x) for s, i2, x in r]
        r = it_next(ip, st, f[0], info)
        if r is None: return None
        out = []
        for s, i2, x in r:
            if x is not None: out.append((s, ('M', k, (i2, f[1])), x))
            else:
                r2 = it_next(ip, s, f[1], info)
                if r2 is None: return None
                out += [(s2, ('M', k, ((), j2)), y) for s2, j2, y in r2]
        return out
    if k == 'Zip' and not back:
        out = []
        r = it_next(ip, st, f[0], info)
        if r is None: return None
        for s, i2, x in r:
            if x is None: out.append((s, ('M', k, (i2, f[1])), None)); continue
            r2 = it_next(ip, s, f[1], info)
            if r2 is None: return None
            for s2, j2, y in r2:
                out.append((s2, ('M', k, (i2, j2)), ('A', -1, 0, (x, y)) if y is not None else None))
        return out
    if k == 'Map':
        r = it_next(ip, st, f[0], info, back)
        if r is None: return None
        out = []
        for s, i2, x in r:
            if x is None: out.append((s, ('M', k, (i2, f[1])), None)); continue
            for s2, y in ip.call_value(s, f[1], [x], info): out.append((s2, ('M', k, (i2, f[1])), y))
        return out
    if k == 'StepBy' and not back:
        n = st.const_of(f[1][1])
        if not n: return None
        first = len(f) < 3
        cur = [(st, f[0])]
        out = []
        for _ in range(0 if first else n - 1):
            nxt = []
            for s, i in cur:
                r = it_next(ip, s, i, info)
                if r is None: return None
                for s2, i2, x in r:
                    if x is None: out.append((s2, ('M', k, (i2, f[1], 1)), None))
                    else: nxt.append((s2, i2))
            cur = nxt
        for s, i in cur:
            r = it_next(ip, s, i, info)
            if r is None: return None
            out += [(s2, ('M', k, (i2, f[1], 1)), x) for s2, i2, x in r]
        return out
    if k == 'Chunks' and not back:
        q, n, kind = f
        out = []
        if kind == 'chunks':
            full = ip.assume(st.copy(), ('ge', addc(q[3], -n)))
            part = ip.assume(st.copy(), ('and', ('ge', addc(q[3], -1)), ('ge', addc(scale(q[3], -1), n - 1))))
            end = ip.assume(st.copy(), ('eq', q[3]))
        else:
            full = ip.assume(st.copy(), ('ge', addc(q[3], -n))); part = []
            end = ip.assume(st.copy(), ('ge', addc(scale(q[3], -1), n - 1)))
        if sum(1 for x in (full, part, end) if x) > 1: flag(ip, full + part + end)
        step = 1 if kind == 'windows' else n
        for s in full: out.append((s, ('M', k, (norm_q(s, sl(q, const(step), q[3])), n, kind)), rv(norm_q(s, sl(q, const(0), const(n))))))
        for s in part: out.append((s, ('M', k, (norm_q(s, sl(q, q[3], q[3])), n, kind)), rv(norm_q(s, q))))
        for s in end: out.append((s, it, None))
        return out
    if k == 'Peekable' and not back:
        if len(f) == 2 and f[1] is not None:
            pk = f[1]
            return [(st, ('M', k, (f[0],)), pk[1] if pk[0] == 'some' else None)]
        r = it_next(ip, st, f[0], info)
        return None if r is None else [(s, ('M', k, (i2,)), x) for s, i2, x in r]
    if k == 'SplitPred' and not back:
        q, T, done, incl = f
        if done: return [(st, it, None)]
        r = find_split(ip, st, q, T, 'first', lambda s, j: ('j', j), ('n',))
        if r is None: return None
        if len(r) > 1: flag(ip, [s for s, _ in r])
        out = []
        for s, v in r:
            if v[0] == 'n': out.append((s, ('M', k, (q, T, True, incl)), rv(norm_q(s, q))))
            else:
                j = v[1]
                out.append((s, ('M', k, (norm_q(s, sl(q, addc(j, 1), q[3])), T, False, incl)), rv(norm_q(s, sl(q, const(0), j)))))
        return out
    return None

def flag(ip, states):
    for s in states:
        c = s.ctx
        if c and c[-1][2] == 'u' and c[-1][1] >= 1: ip.flag_sym(s)

@decl('core::iter::traits::iterator::Iterator::next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def m_next(ip, st, a, info):
    if a[0] is None or a[0][0] != 'R': return None
    it = ip.load(st, a[0][1], a[0][2])
    back = info.cal['decl'].endswith('next_back')
    r = it_next(ip, st, it, info, back)
    if r is None: return None
    out = []
    for s, i2, x in r:
        ip.store(s, a[0][1], a[0][2], i2)
        out.append((s, some(ip, info, x) if x is not None else none(ip, info)))
    return out

@decl('core::iter::traits::iterator::Iterator::nth')
def m_nth(ip, st, a, info):
    if a[0][0] != 'R': return None
    it = ip.load(st, a[0][1], a[0][2])
    n = a[1][1]
    if it is not None and it[0] == 'M' and it[1] == 'Iter':
        q, mode = it[2]
        out = []
        for s in ip.assume(st.copy(), ('ge', addc(sub(q[3], n), -1))):
            v = ip.cell(s, norm_q(s, q), s.norm(n))
            ip.store(s, a[0][1], a[0][2], ('M', 'Iter', (norm_q(s, sl(q, addc(n, 1), q[3])), mode)))
            out.append((s, some(ip, info, rv(v) if mode == 'ref' else v)))
        for s in ip.assume(st.copy(), ('ge', sub(n, q[3]))):
            ip.store(s, a[0][1], a[0][2], ('M', 'Iter', (sl(q, q[3], q[3]), mode)))
            out.append((s, none(ip, info)))
        return out
    return None

@model('core::iter::adapters::peekable::Peekable::<I>::peek')
def m_peek(ip, st, a, info):
    if a[0][0] != 'R': return None
    it = ip.load(st, a[0][1], a[0][2])
    if it is None or it[0] != 'M' or it[1] != 'Peekable': return None
    f = it[2]
    if len(f) == 2:
        pk = f[1]
        return [(st, some(ip, info, rv(pk[1])) if pk[0] == 'some' else none(ip, info))]
    r = it_next(ip, st, f[0], info)
    if r is None: return None
    out = []
    for s, i2, x in r:
        ip.store(s, a[0][1], a[0][2], ('M', 'Peekable', (i2, ('some', x) if x is not None else ('none',))))
        out.append((s, some(ip, info, rv(x)) if x is not None else none(ip, info)))
    return out

@model('core::str::iter::Chars::<\'a>::as_str', 'core::slice::iter::Iter::<\'a, T>::as_slice')
def m_iter_as(ip, st, a, info):
    it = val(ip, st, a[0])
    if it and it[0] == 'M' and it[1] == 'Iter' and it[2][0][1][0] != 'chars': return [(st, rv(it[2][0]))]
    return None

@decl('core::iter::traits::exact_size::ExactSizeIterator::len', 'core::iter::traits::iterator::Iterator::count')
def m_itlen(ip, st, a, info):
    it = val(ip, st, a[0])
    if it and it[0] == 'M' and it[1] == 'Iter': return [(st, ('I', it[2][0][3]))]
    if it and it[0] == 'M' and it[1] == 'Filter': 
        inner = it[2][0]
        if inner[0] == 'M' and inner[1] == 'Iter':
            q, mode = inner[2]
            r = pred_sets(ip, st, it[2][1], q, (lambda x: rv(rv(x))) if mode == 'ref' else rv, info)
            if r: return [(st, ('I', atom(AT.get(('cnt', q, r[0]), LEN_RNG))))]
    if it and it[0] == 'M' and info.cal['decl'].endswith('count'):
        return fold_const(ip, st, it, info)
    return None

def fold_const(ip, st, it, info):
    cur = [(st, it, 0)]
    out = []
    for _ in range(200):
        nxt = []
        for s, i, n in cur:
            r = it_next(ip, s, i, info)
            if r is None: return None
            for s2, i2, x in r:
                if x is None: out.append((s2, I(n)))
                else: nxt.append((s2, i2, n + 1))
        cur = nxt
        if not cur: return out
        if len(cur) + len(out) > 200: return None
    return None

def unwrap_iter(ip, st, v):
    """(place or None, iterator)"""
    if v is not None and v[0] == 'R': return v, ip.load(st, v[1], v[2])
    return None, v

def seq_iter(it):
    """(Q, wrap function for closure args) when the iterator ranges over one sequence"""
    if it is None or it[0] != 'M': return None
    if it[1] == 'Iter':
        q, mode = it[2]
        return q, (rv if mode == 'ref' else (lambda x: x)), False
    if it[1] == 'Copied':
        r = seq_iter(it[2][0])
        return r and (r[0], (lambda x: x), r[2])
    if it[1] == 'Rev':
        r = seq_iter(it[2][0])
        return r and (r[0], r[1], not r[2])
    return None

def set_rest(ip, s, place, it, q2):
    pass

@decl('core::iter::traits::iterator::Iterator::all', 'core::iter::traits::iterator::Iterator::any',
      'core::iter::traits::iterator::Iterator::position', 'core::iter::traits::iterator::Iterator::rposition',
      'core::iter::traits::iterator::Iterator::find', 'core::iter::traits::double_ended::DoubleEndedIterator::rfind')
def m_search(ip, st, a, info):
    op = info.cal['decl'].rsplit('::', 1)[1]
    place, it = unwrap_iter(ip, st, a[0])
    r = seq_iter(it)
    if r:
        q, wrap, rev = r
        n = st.const_of(q[3])
        if q[1][0] != 'v' and (q[1][0] != 'c'):
            w = wrap if op not in ('find', 'rfind') else (lambda x: rv(wrap(x)))
            ts = pred_sets(ip, st, a[1], q, w, info)
            if ts is not None and iset_inter(ts[0], ts[1]) == ():
                T, F = ts
                back = rev != (op in ('rposition', 'rfind'))
                kind = 'last' if back else 'first'
                def after(s, j):
                    if place is not None:
                        nq = sl(q, const(0), j) if back else sl(q, addc(j, 1), q[3])
                        ip.store(s, place[1], place[2], ('M', 'Iter', (norm_q(s, nq), it[2][1] if it[1] == 'Iter' else 'val')) if it[1] == 'Iter' else ('M', 'Copied', (('M', 'Iter', (norm_q(s, nq), 'ref')),)))
                def done(s):
                    if place is not None and it[1] == 'Iter':
                        ip.store(s, place[1], place[2], ('M', 'Iter', (norm_q(s, sl(q, q[3], q[3])), it[2][1])))
                if op in ('all', 'any'):
                    S = F if op == 'all' else T
                    def hit(s, j): after(s, j); return I(0 if op == 'all' else 1)
                    res = find_split(ip, st, q, S, kind, hit, I(1 if op == 'all' else 0))
                    return res
                def hit(s, j):
                    v = j
                    if op == 'position' and rev: v = addc(sub(q[3], j), -1)
                    if op == 'rposition' and rev: return None
                    x = wrap(ip.cell(s, norm_q(s, q), j)) if op in ('find', 'rfind') else ('I', v)
                    after(s, j)
                    return some(ip, info, x)
                return find_split(ip, st, q, T, kind, hit, none(ip, info))
    # generic: step through (terminates only for constant iterators)
    if it is None: return None
    cur = [(st.copy(), it, 0)]
    out = []
    back = op in ('rfind', 'rposition')
    total = None
    if op == 'rposition':
        if not r: return None
        total = st.const_of(r[0][3])
        if total is None: return None
    for step in range(300):
        nxt = []
        for s, i, n in cur:
            rr = it_next(ip, s, i, info, back)
            if rr is None: return None
            for s2, i2, x in rr:
                if x is None:
                    if place is not None: ip.store(s2, place[1], place[2], i2)
                    out.append((s2, I(1) if op == 'all' else I(0) if op == 'any' else none(ip, info))); continue
                arg = rv(x) if op in ('find', 'rfind') else x
                for s3, b in ip.call_value(s2, a[1], [arg], info):
                    if b is None: return None
                    c = ip.cond_of(b)
                    hit, miss = ip.assume(s3.copy(), c), ip.assume(s3.copy(), ip.neg(c))
                    if op == 'all': hit, miss = miss, hit
                    for s4 in hit:
                        if place is not None: ip.store(s4, place[1], place[2], i2)
                        v = I(0) if op == 'all' else I(1) if op == 'any' else some(ip, info, x if op in ('find', 'rfind') else I(n if op == 'position' else total - 1 - n))
                        out.append((s4, v))
                    for s4 in miss: nxt.append((s4, i2, n + 1))
        cur = nxt
        if not cur: return out
        if len(cur) > 100: return None
    return None

@decl('core::iter::traits::iterator::Iterator::fold', 'core::iter::traits::iterator::Iterator::try_fold', 'core::iter::traits::iterator::Iterator::for_each',
      'core::iter::traits::iterator::Iterator::sum', 'core::iter::traits::iterator::Iterator::last')
def m_fold(ip, st, a, info):
    op = info.cal['decl'].rsplit('::', 1)[1]
    place, it = unwrap_iter(ip, st, a[0])
    if it is None: return None
    if op == 'last':
        r = seq_iter(it)
        if r and not r[2]:
            q = r[0]
            out = []
            for s in ip.assume(st.copy(), ('ge', addc(q[3], -1))): out.append((s, some(ip, info, r[1](ip.cell(s, q, addc(s.norm(q[3]), -1))))))
            for s in ip.assume(st.copy(), ('eq', q[3])): out.append((s, none(ip, info)))
            return out
        return None
    if op == 'sum': return None
    acc = a[1] if op != 'for_each' else UNIT
    fn = a[2] if op != 'for_each' else a[1]
    cur = [(st.copy(), it, acc)]
    out = []
    for step in range(300):
        nxt = []
        for s, i, ac in cur:
            rr = it_next(ip, s, i, info)
            if rr is None: return None
            for s2, i2, x in rr:
                if x is None:
                    if place is not None: ip.store(s2, place[1], place[2], i2)
                    if op == 'try_fold':
                        t = ip.T[info.dty]
                        vi = 1 if t.get('path', '').endswith('Option') else 0
                        out.append((s2, ('A', info.dty, vi, (ac,))))
                    else: out.append((s2, ac))
                    continue
                args = [ac, x] if op != 'for_each' else [x]
                for s3, b in ip.call_value(s2, fn, args, info):
                    if op == 'try_fold':
                        t = ip.T[info.dty]
                        good = 1 if t.get('path', '').endswith('Option') else 0
                        if b is None or b[0] != 'A': return None
                        if b[2] == good: nxt.append((s3, i2, b[3][0]))
                        else: out.append((s3, b))
                    else: nxt.append((s3, i2, b))
        cur = nxt
        if not cur: return out
        if step > 40 and any(s.const_of(const(0)) is None for s, _, _ in cur): return None
        if len(cur) + len(out) > 400: return None
    return None

# ------------------------------------------------------------------ str / slice searching
def pattern(ip, st, p, q, info):
    """('set', T) for one-character patterns over ASCII, ('str', bytes)"""
    v = val(ip, st, p)
    if v is None: return None
    if v[0] == 'I':
        c = st.const_of(v[1])
        if c is not None and c < 128: return ('set', ((c, c),))
        return None
    if v[0] == 'Q' and v[1][0] == 'c':
        lo, n = st.const_of(v[2]), st.const_of(v[3])
        if lo is None or n is None: return None
        return ('str', v[1][1][lo:lo + n])
    if (v[0] == 'A' and ip.T[v[1]]['k'] == 'array') or (v[0] == 'Q' and v[1][0] == 'v'):
        vs = v[3] if v[0] == 'A' else v[1][1]
        cs = [st.const_of(x[1]) for x in vs]
        if all(c is not None and c < 128 for c in cs): return ('set', iset_norm([(c, c) for c in cs]))
        return None
    if v[0] == 'A' or v[0] == 'Fn':
        # closure over char
        cq = ('Q', ('chars', q[1], q[2], q[3]), const(0), const(0))
        r = pred_sets(ip, st, p, cq, lambda x: x, info)
        if r and iset_inter(r[0], r[1]) == ():
            T, F = r
            if iset_sub(T, ((0, 127),)): return ('set', T)
            if iset_sub(F, ((0, 127),)):
                return ('nset', F)
    return None

def pset(p):
    """byte-level set of a one-char pattern"""
    if p[0] == 'set': return p[1]
    if p[0] == 'nset': return iset_diff(BYTE, p[1])
    if p[0] == 'str' and len(p[1]) == 1 and p[1][0] < 128: return ((p[1][0], p[1][0]),)
    return None

def str_prefix_cond(ip, st, q, b, at_end=False):
    n = len(b)
    c = ('ge', addc(q[3], -n))
    for i in range(n):
        off = addc(q[3], i - n) if at_end else const(i)
        # cells may be out of range for constants: guard through length first
        c = ('and', c, ('lazy', off, b[i]))
    return c

def prefix_split(ip, st, q, bs, at_end):
    """[(state, True/False)] splitting on q starting (ending) with the sets in bs"""
    n = len(bs)
    out = [(s, False) for s in ip.assume(st.copy(), ('ge', addc(scale(q[3], -1), n - 1)))]
    cur = ip.assume(st.copy(), ('ge', addc(q[3], -n)))
    for i in range(n):
        nxt = []
        for s in cur:
            qq = norm_q(s, q)
            idx = addc(qq[3], i - n) if at_end else const(i)
            c = feasible(lambda: ip.cell(s, qq, idx))
            if c is None or c[0] != 'I': return None
            for s2 in ip.assume(s.copy(), ('in', c[1], iset_compl(bs[i]))): out.append((s2, False))
            nxt += ip.assume(s.copy(), ('in', c[1], bs[i]))
        cur = nxt
    return out + [(s, True) for s in cur]

def sets_of(ip, st, v, q, info):
    p = pattern(ip, st, v, q, info)
    if p is None: return None
    if p[0] == 'str': return [((b, b),) for b in p[1]]
    s = pset(p)
    return [s] if s is not None and p[0] == 'set' else None

@model('core::str::<impl str>::starts_with', 'core::str::<impl str>::ends_with', 'core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with',
       'core::str::<impl str>::strip_prefix', 'core::str::<impl str>::strip_suffix', 'core::slice::<impl [T]>::strip_prefix', 'core::slice::<impl [T]>::strip_suffix')
def m_starts(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    op = info.cal['decl'].rsplit('::', 1)[1]
    pv = val(ip, st, a[1])
    if pv is not None and pv[0] == 'A' and ip.T[pv[1]]['k'] == 'array' and 'slice' in info.cal['decl']: pv = ip.seq_vals(pv[3])
    bs = sets_of(ip, st, pv if pv is not None and pv[0] == 'Q' else a[1], q, info)
    if bs is None: return None
    r = prefix_split(ip, st, q, bs, op in ('ends_with', 'strip_suffix'))
    if r is None: return None
    out = []
    n = len(bs)
    for s, b in r:
        if op.startswith('strip'):
            if b:
                qq = norm_q(s, q)
                out.append((s, some(ip, info, rv(sl(qq, const(n), qq[3]) if op == 'strip_prefix' else sl(qq, const(0), addc(qq[3], -n))))))
            else: out.append((s, none(ip, info)))
        else: out.append((s, I(1 if b else 0)))
    return out

@model('core::str::<impl str>::contains', 'core::str::<impl str>::find', 'core::str::<impl str>::rfind', 'core::str::<impl str>::split_once', 'core::str::<impl str>::rsplit_once')
def m_find(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    op = info.cal['decl'].rsplit('::', 1)[1]
    p = pattern(ip, st, a[1], q, info)
    if p is None: return None
    T = pset(p)
    if T is None or p[0] == 'nset': return None
    kind = 'last' if op in ('rfind', 'rsplit_once') else 'first'
    def hit(s, j):
        if op == 'contains': return I(1)
        if op in ('find', 'rfind'): return some(ip, info, ('I', j))
        return some(ip, info, ('A', -1, 0, (rv(norm_q(s, sl(q, const(0), j))), rv(norm_q(s, sl(q, addc(j, 1), q[3]))))))
    return find_split(ip, st, q, T, kind, hit, I(0) if op == 'contains' else none(ip, info))

@model('core::slice::<impl [T]>::contains')
def m_slice_contains(ip, st, a, info):
    q = ip.seq(st, a[0]); x = val(ip, st, a[1])
    if q is None or x is None or x[0] != 'I': return None
    c = st.const_of(x[1])
    n = st.const_of(q[3])
    if c is not None:
        return find_split(ip, st, q, ((c, c),), 'first', lambda s, j: I(1), I(0))
    if n is not None and n <= 300:
        vs = [ip.cell(st, q, const(i)) for i in range(n)]
        if all(v is not None and v[0] == 'I' and st.const_of(v[1]) is not None for v in vs):
            s = iset_norm([(st.const_of(v[1]),) * 2 for v in vs])
            return [(st, ('B', ('in', x[1], s)))]
    return None

@model('core::str::<impl str>::split', 'core::slice::<impl [T]>::split')
def m_split(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    if 'slice' in info.cal['decl']:
        r = pred_sets(ip, st, a[1], q, rv, info)
        if r is None or iset_inter(*r): return None
        T = r[0]
    else:
        p = pattern(ip, st, a[1], q, info)
        T = pset(p) if p and p[0] != 'nset' else None
        if T is None: return None
    return [(st, ('M', 'SplitPred', (q, T, False, False)))]

@model('core::str::<impl str>::trim_end_matches', 'core::str::<impl str>::trim_start_matches', 'core::str::<impl str>::trim_matches',
       'core::str::<impl str>::trim_left_matches', 'core::str::<impl str>::trim_right_matches')
def m_trim_matches(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    op = info.cal['decl'].rsplit('::', 1)[1]
    p = pattern(ip, st, a[1], q, info)
    T = pset(p) if p is not None else None
    if T is None or p[0] == 'nset': return None
    NT = iset_diff(BYTE, T)
    out = [(st, q)]
    if op in ('trim_end_matches', 'trim_right_matches', 'trim_matches'):
        out2 = []
        for s, x in out:
            r = find_split(ip, s, norm_q(s, x), NT, 'last', lambda s2, j, x=x: sl(x, const(0), addc(j, 1)), sl(x, const(0), const(0)))
            if r is None: return None
            out2 += r
        out = out2
    if op in ('trim_start_matches', 'trim_left_matches', 'trim_matches'):
        out2 = []
        for s, x in out:
            x = norm_q(s, x)
            if s.eq0(x[3]): out2.append((s, x)); continue
            r = find_split(ip, s, x, NT, 'first', lambda s2, j, x=x: sl(x, j, x[3]), sl(x, x[3], x[3]))
            if r is None: return None
            out2 += r
        out = out2
    return [(s, rv(norm_q(s, x))) for s, x in out]

def ci_set(b, both_sides):
    if 97 <= b <= 122: return iset_norm([(b, b), (b - 32, b - 32)])
    if 65 <= b <= 90: return iset_norm([(b, b), (b + 32, b + 32)]) if both_sides else ()
    return ((b, b),)

def m_starts_ci(ip, st, a, info):
    """str_utils: starts_with_ignore_ascii_case[_with_lowercase][_multiple]"""
    op = info.cal['decl'].rsplit('::', 1)[1]
    q = ip.seq(st, a[0])
    if q is None: return None
    multi = op.endswith('multiple')
    v = val(ip, st, a[1])
    if v is None: return None
    if multi:
        xs = v[3] if v[0] == 'A' else v[1][1] if v[0] == 'Q' and v[1][0] == 'v' else None
        if xs is None: return None
    else: xs = [v]
    pats = []
    for x in xs:
        p = pattern(ip, st, x, q, info)
        if p is None or p[0] != 'str': return None
        pats.append([ci_set(b, 'lowercase' not in op) for b in p[1]])
    cur, out = [st], []
    for i, p in enumerate(pats):
        nxt = []
        for s in cur:
            if () in p: nxt.append(s); continue
            r = prefix_split(ip, s, norm_q(s, q), p, False)
            if r is None: return None
            for s2, hit in r:
                if hit: out.append((s2, some(ip, info, I(i)) if multi else I(1)))
                else: nxt.append(s2)
        cur = nxt
    return out + [(s, none(ip, info) if multi else I(0)) for s in cur]
for _m, _n in (('starts_with_ignore_ascii_case_multiple::StartsWithIgnoreAsciiCaseMultiple', 'starts_with_ignore_ascii_case%s_multiple'), ('starts_with_ignore_ascii_case::StartsWithIgnoreAsciiCase', 'starts_with_ignore_ascii_case%s')):
    for _k in ('', '_with_lowercase'): DECL['str_utils::' + _m + '::' + _n % _k] = m_starts_ci

TRIM_SETS = None
def trim_model(ip, st, a, info):
    """trim*: the result is an uninterpreted sub-slice identified canonically"""
    q = ip.seq(st, a[0])
    if q is None: return None
    op = info.cal['decl'].rsplit('::', 1)[1]
    if q[1][0] == 'c':
        lo, n = st.const_of(q[2]), st.const_of(q[3])
        if lo is not None and n is not None:
            s = str_chars(q[1][1][lo:lo + n])
            if s is not None:
                r = {'trim': s.strip(), 'trim_start': s.lstrip(), 'trim_end': s.rstrip()}[op].encode()
                return [(st, rv(('Q', ('c', r), const(0), const(len(r)))))]
    a0 = AT.get(('trim', op, q, 'str'), ())
    b = ('a', a0)
    s = st
    L = base_len(b)
    try: s.assume_ge(sub(q[3], L))
    except Infeasible: return []
    return [(s, rv(('Q', b, const(0), s.norm(L))))]
for n in ('trim', 'trim_start', 'trim_end'):
    EXACT['core::str::<impl str>::' + n] = trim_model

# ------------------------------------------------------------------ parsing
def parse_key(ip, ti, q):
    return ('app', 'from_str', ip.T[ti]['s'], q)

@model('core::str::<impl str>::parse')
def m_parse(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    t = ip.T[info.dty]
    v = ip.mk_sym(info.dty, parse_key(ip, t['args'][0], q))
    f = PARSE_FACTS.get(ip.T[t['args'][0]]['s'])
    if f is None: return [(st, v)]
    out = []
    d = ip.discr_lin(v)
    for s in ip.assume(st.copy(), ('eq', d)):
        if parse_facts(ip, s, f, q): out.append((s, v))
    for s in ip.assume(st.copy(), ('eq', addc(d, -1))): out.append((s, v))
    return out

DIGITS = ((48, 57),)
# text accepted by the core parsers: (characters, minimum length, maximum length, first character)
PARSE_FACTS = {
    'u8': (DIGITS, 1, None, ((43, 43), (48, 57))), 'u16': (DIGITS, 1, None, ((43, 43), (48, 57))), 'u32': (DIGITS, 1, None, ((43, 43), (48, 57))),

    'core::net::ip_addr::Ipv4Addr': (((46, 46), (48, 57)), 7, 15, DIGITS),
    
    'core::net::ip_addr::Ipv6Addr': (((46, 46), (48, 58), (65, 70), (97, 102)), 2, 45, ((48, 58), (65, 70), (97, 102))),
}

def parse_facts(ip, st, f, q):
    cs, mn, mx, first = f
    try:
        n = st.norm(q[3])
        st.assume_ge(addc(n, -mn))
        if mx is not None: st.assume_ge(addc(scale(st.norm(n), -1), mx))
        q = norm_q(st, q)
        if first is None: first = cs
        both = iset_union(cs, first)
        if both != cs:
            if not absorb(st, q[1], addc(q[2], 1), add(q[2], q[3]), cs): return False
            q = norm_q(st, q)
        if not absorb(st, q[1], q[2], add(q[2], q[3]), both): return False
        q = norm_q(st, q)
        st.restrict_cell(q[1], q[2], first)
        q = norm_q(st, q)
        st.restrict_cell(q[1], addc(add(q[2], q[3]), -1), both if mn == 1 else cs)
        return True
    except Infeasible: return False

def absorb(st, base, lo, hi, cs):
    """every cell of base in [lo, hi) lies in cs"""
    for idx, s in list(st.cells(base)):
        if not iset_sub(s, cs) and st.ge(sub(idx, lo)) and st.ge(addc(sub(hi, idx), -1)): st.restrict_cell(base, idx, cs)
    for q in list(st.quant):
        if q[0] == base and not iset_sub(q[3], cs) and st.ge(sub(q[1], lo)) and st.ge(sub(hi, q[2])):
            x = iset_inter(q[3], cs)
            if x: st.add_quant(base, q[1], q[2], x)
            elif st.ge(addc(sub(q[2], q[1]), -1)): return False
            else: st.assume_ge(sub(q[1], q[2]))
    st.add_quant(base, lo, hi, cs)
    return True

@decl('core::str::traits::FromStr::from_str')
def m_from_str(ip, st, a, info):
    if info.cal.get('fn') is not None: return None
    return m_parse(ip, st, a, info)

@model('core::str::converts::from_utf8', 'alloc::string::String::from_utf8', 'core::str::<impl str>::from_utf8')
def m_from_utf8(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    if utf8_ok(ip, st, q):
        return [(st, ok(ip, info, rv(q) if 'string' not in info.cal['decl'] else q))]
    t = ip.T[info.dty]
    e = ip.mk_sym(t['args'][1], ('utf8err', q)) if t['k'] == 'adt' and len(t.get('args', [])) > 1 else UNIT
    c = atom(AT.get(('utf8valid', q), BOOL))
    return both(ip, st, ('ne', c), lambda s: ok(ip, info, rv(q) if 'string' not in info.cal['decl'] else q), lambda s: err(ip, info, e))

# ------------------------------------------------------------------ floats
FW = ('f32', 'f64')
for w in FW:
    p = 'core::num::%s::<impl %s>::' % (w, w)
    for pp in (p, 'std::num::%s::<impl %s>::' % (w, w), 'core::%s::<impl %s>::' % (w, w), 'core::num::imp::%s::<impl %s>::' % (w, w), 'core::num::<impl %s>::' % w):
        EXACT[pp + 'is_nan'] = lambda ip, st, a, info: [(st, ('B', ('in', a[0][1], ((NANKEY, NANKEY),))))]
        EXACT[pp + 'is_finite'] = lambda ip, st, a, info: [(st, ('B', ('in', a[0][1], ((-F_INF + 1, F_INF - 1),))))]
        EXACT[pp + 'is_infinite'] = lambda ip, st, a, info: [(st, ('B', ('in', a[0][1], ((-F_INF, -F_INF), (F_INF, F_INF)))))]

        def fabs(ip, st, a, info):
            x = a[0][1]
            return [(s, ('F', scale(x, -1))) for s in ip.assume(st.copy(), ('ge', addc(scale(x, -1), -1)))] + [(s, ('F', x)) for s in ip.assume(st, ('ge', x))]
        EXACT[pp + 'abs'] = fabs

# ------------------------------------------------------------------ string building
def cat(st, parts):
    """a String value made of parts"""
    out = []
    for p in parts:
        if p[0] == 'q':
            q = p[1]
            if q[1][0] == 'cat' and st.eq0(q[2]) and st.eq0(sub(q[3], base_len(q[1]))):
                out += list(q[1][1]); continue
            if q[1][0] == 'c':
                lo, n = st.const_of(q[2]), st.const_of(q[3])
                if lo is not None and n is not None: out.append(('lit', q[1][1][lo:lo + n])); continue
        if p[0] == 'ch':
            c = st.const_of(p[1])
            if c is not None: out.append(('lit', chr(c).encode())); continue
        out.append(p)
    m = []
    for p in out:
        if p[0] == 'lit':
            if not p[1]: continue
            if m and m[-1][0] == 'lit': m[-1] = ('lit', m[-1][1] + p[1]); continue
        m.append(p)
    if not m: return ('Q', ('c', b''), const(0), const(0))
    if len(m) == 1 and m[0][0] == 'lit': return ('Q', ('c', m[0][1]), const(0), const(len(m[0][1])))
    if len(m) == 1 and m[0][0] == 'q': return m[0][1]
    base = ('cat', tuple(m))
    return ('Q', base, const(0), base_len(base))

def parts_of(ip, st, q):
    """list of parts of a string value"""
    q = ip.seq(st, q)
    if q is None: return None
    if q[1][0] == 'cat' and is_const(q[2]) and q[2][0] == 0 and q[3] == base_len(q[1]): return list(q[1][1])
    if q[1][0] == 'c':
        lo, n = st.const_of(q[2]), st.const_of(q[3])
        if lo is not None and n is not None: return [('lit', q[1][1][lo:lo + n])] if n else []
    return [('q', q)]

def part_of_display(ip, st, v, kind, flags):
    v = val(ip, st, v)
    if v is None: return None
    if kind == 'char' and not flags and v[0] == 'I': return ('ch', v[1])
    if kind == 'display' and not flags:
        if v[0] == 'Q': return ('q', v)
        if v[0] == 'A' and v[1] >= 0 and ip.T[v[1]].get('path') == 'alloc::borrow::Cow': return ('q', ip.seq(st, v))
    return ('disp', kind, flags, ip.freeze(st, v))

@model('alloc::string::String::new', 'alloc::string::String::with_capacity', 'alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity')
def m_string_new(ip, st, a, info): return [(st, ('Q', ('c', b''), const(0), const(0)))]
@decl('core::default::Default::default')
def m_default(ip, st, a, info):
    t = ip.T[info.dty]
    if t['k'] == 'adt' and t['path'] in ('alloc::string::String', 'alloc::vec::Vec'): return m_string_new(ip, st, a, info)
    if t['k'] in ('int', 'bool'): return [(st, I(0))]
    if t['k'] == 'adt' and t['path'] == 'core::option::Option': return [(st, ('A', info.dty, 0, ()))]
    return None

def append(ip, st, ref, parts):
    if ref[0] != 'R': return False
    cur = ip.load(st, ref[1], ref[2])
    if cur is None: return False
    if cur[0] == 'M' and cur[1] == 'Formatter':
        ip.store(st, ref[1], ref[2], ('M', 'Formatter', (cat(st, [('q', cur[2][0])] + parts),)))
        return True
    if cur[0] in ('R',): return append(ip, st, cur, parts)
    q = ip.seq(st, cur)
    if q is None: return False
    ip.store(st, ref[1], ref[2], cat(st, [('q', q)] + parts))
    return True

@model('alloc::string::String::push_str', 'alloc::vec::Vec::<T, A>::extend_from_slice')
def m_push_str(ip, st, a, info):
    q = ip.seq(st, a[1])
    if q is None or not append(ip, st, a[0], [('q', q)]): return None
    return [(st, UNIT)]
@model('alloc::string::String::push')
def m_push(ip, st, a, info):
    if a[1] is None or a[1][0] != 'I' or not append(ip, st, a[0], [('ch', a[1][1])]): return None
    return [(st, UNIT)]
@model('alloc::vec::Vec::<T, A>::push')
def m_vpush(ip, st, a, info):
    if a[0][0] != 'R': return None
    t = ip.T[info.argtys[1]] if len(info.argtys) > 1 else None
    if t and t['k'] == 'int' and t['bits'] == 8 and a[1] is not None and a[1][0] == 'I':
        cur = ip.load(st, a[0][1], a[0][2])
        if cur is not None and append(ip, st, a[0], [('byte', a[1][1]) if st.const_of(a[1][1]) is None else ('lit', bytes([st.const_of(a[1][1])]))]): return [(st, UNIT)]
    return None
@model('alloc::string::String::insert', 'alloc::string::String::insert_str')
def m_insert(ip, st, a, info):
    cur = ip.load(st, a[0][1], a[0][2]) if a[0][0] == 'R' else None
    if cur is None or st.const_of(a[1][1]) != 0: return None
    p = [('ch', a[2][1])] if a[2][0] == 'I' else [('q', ip.seq(st, a[2]))]
    ip.store(st, a[0][1], a[0][2], cat(st, p + [('q', ip.seq(st, cur))]))
    return [(st, UNIT)]
@model('<alloc::string::String as core::ops::arith::Add<&str>>::add')
def m_sadd(ip, st, a, info):
    return [(st, cat(st, [('q', ip.seq(st, a[0])), ('q', ip.seq(st, a[1]))]))]
@model('<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign')
def m_saddassign(ip, st, a, info): return m_push_str(ip, st, a, info)
@model('alloc::string::String::truncate', 'alloc::string::String::clear')
def m_trunc(ip, st, a, info):
    if a[0][0] != 'R': return None
    q = ip.seq(st, a[0])
    if q is None: return None
    n = a[1][1] if len(a) > 1 else const(0)
    out = []
    for s in ip.assume(st.copy(), ('ge', sub(q[3], n))):
        ip.store(s, a[0][1], a[0][2], norm_q(s, sl(q, const(0), n))); out.append((s, UNIT))
    for s in ip.assume(st.copy(), ('ge', addc(sub(n, q[3]), -1))): out.append((s, UNIT))
    return out
@model('alloc::slice::<impl [T]>::concat', 'alloc::slice::<impl [T]>::join')
def m_concat(ip, st, a, info):
    v = ip.seq(st, a[0])
    if v is None or v[1][0] != 'v': return None
    sep = ip.seq(st, a[1]) if len(a) > 1 else None
    parts = []
    for i, x in enumerate(v[1][1]):
        if i and sep: parts.append(('q', sep))
        q = ip.seq(st, x)
        if q is None: return None
        parts.append(('q', q))
    return [(st, cat(st, parts))]
@model('alloc::str::<impl str>::to_lowercase', 'alloc::str::<impl str>::to_ascii_lowercase', 'alloc::str::<impl str>::to_uppercase', 'alloc::str::<impl str>::to_ascii_uppercase',
       'alloc::str::<impl str>::repeat', 'alloc::str::<impl str>::replace')
def m_lowerstr(ip, st, a, info):
    q = ip.seq(st, a[0])
    op = info.cal['decl'].rsplit('::', 1)[1]
    if op.startswith('to_ascii_') and q is not None:
        n = st.const_of(q[3])
        ps = parts_of(ip, st, q)
        flip = {'to_ascii_lowercase': ('upper_hex', 'lower_hex'), 'to_ascii_uppercase': ('lower_hex', 'upper_hex')}[op]
        if ps and all(x[0] == 'lit' or x[0] == 'disp' and x[1] in flip and not dict(x[2]).get('flags', 0) >> 23 & 1 for x in ps):
            f = bytes.lower if op == 'to_ascii_lowercase' else bytes.upper
            return [(st, cat(st, [(x[0], f(x[1])) if x[0] == 'lit' else (x[0], flip[1]) + tuple(x[2:]) for x in ps]))]
        if n is not None and n <= 64:
            f = m_lower if op == 'to_ascii_lowercase' else m_upper
            vs = [f(ip, st, [ip.cell(st, q, const(i))], info) for i in range(n)]
            if None not in vs: return [(st, ip.seq_vals([v[0][1] for v in vs]) if n else ('Q', ('c', b''), const(0), const(0)))]
    k = ('app', op, q) + tuple(ip.freeze(st, x) for x in a[1:]) + ('str',)
    at = AT.get(k, ())
    if op.startswith('to_ascii_') and q is not None:
        return [(st, ('Q', ('a', at), const(0), q[3]))]
    return [(st, ('Q', ('a', at), const(0), base_len(('a', at))))]

# formatting
def fmtarg(kind):
    def m(ip, st, a, info):
        k = kind
        if kind == 'display' and info.argtys:
            ti = info.argtys[0]
            while ti is not None and ip.T[ti]['k'] == 'ref': ti = ip.T[ti]['e']
            if ti is not None and ip.T[ti]['k'] == 'char': k = 'char'
        return [(st, ('M', 'FmtArg', (k, val(ip, st, a[0]))))]
    return m
for k in ('display', 'debug', 'lower_hex', 'upper_hex', 'octal', 'binary', 'lower_exp', 'upper_exp', 'pointer'):
    EXACT["core::fmt::rt::Argument::<'_>::new_" + k] = fmtarg(k)

EXACT["core::fmt::rt::Argument::<'_>::from_usize"] = fmtarg('usize')

@model("core::fmt::Arguments::<'a>::new", "core::fmt::rt::<impl core::fmt::Arguments<'a>>::new")
def m_args_new(ip, st, a, info):
    t = ip.seq(st, a[0]); args = ip.seq(st, a[1])
    if t is None or t[1][0] != 'c' or args is None: return None
    b = t[1][1]
    n = st.const_of(args[3])
    vals = [ip.cell(st, args, const(i)) for i in range(n)]
    pieces = []
    i = 0; ai = 0
    while i < len(b):
        c = b[i]; i += 1
        if c == 0: break
        if c < 0x80:
            pieces.append(('lit', b[i:i + c])); i += c
        elif c == 0x80:
            n_ = b[i] | b[i + 1] << 8; i += 2
            pieces.append(('lit', b[i:i + n_])); i += n_
        else:
            fl = []
            if c & 1: fl.append(('flags', int.from_bytes(b[i:i + 4], 'little'))); i += 4
            if c & 2: fl.append(('width', int.from_bytes(b[i:i + 2], 'little'))); i += 2
            if c & 4: fl.append(('prec', int.from_bytes(b[i:i + 2], 'little'))); i += 2
            if c & 8: ai = int.from_bytes(b[i:i + 2], 'little'); i += 2
            if c & 0x30:
                # width / precision taken from an argument
                for j, (nm, bit) in enumerate((('width', 0x10), ('prec', 0x20))):
                    if not c & bit: continue
                    k = dict(fl).get(nm)
                    x = vals[k] if k is not None and k < len(vals) else None
                    v = st.const_of(x[2][1][1]) if x is not None and x[0] == 'M' and x[2][1] is not None and x[2][1][0] == 'I' else None
                    fl = [f for f in fl if f[0] != nm] + [(nm, v) if v is not None else ('indirect', c)]
            if ai >= len(vals): return None
            pieces.append(('arg', tuple(fl), vals[ai])); ai += 1
    return [(st, ('M', 'FmtArgs', (tuple(pieces),)))]

@model("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst", "core::fmt::rt::<impl core::fmt::Arguments<'a>>::new_const", "core::fmt::Arguments::<'a>::new_const")
def m_args_const(ip, st, a, info):
    q = ip.seq(st, a[0])
    if q is None: return None
    return [(st, ('M', 'FmtArgs', ((('q', q),),)))]

def fmt_parts(ip, st, v, info):
    """[(state, parts)]"""
    if v is None or v[0] != 'M' or v[1] != 'FmtArgs': return None
    cur = [(st, [])]
    for p in v[2][0]:
        nxt = []
        for s, parts in cur:
            if p[0] in ('lit', 'q'): nxt.append((s, parts + [p])); continue
            _, fl, arg = p
            if arg is None or arg[0] != 'M' or arg[1] != 'FmtArg': return None
            kind, x = arg[2]
            if x is None: return None
            if kind == 'display' and not fl:
                r = display_inline(ip, s, x, info)
                if r is not None:
                    nxt += [(s2, parts + ps) for s2, ps in r]; continue
            q = part_of_display(ip, s, x, kind, fl)
            if q is None: return None
            nxt.append((s, parts + [q]))
        cur = nxt
    return cur

def display_inline(ip, st, x, info):
    """run a Display impl whose body is available"""
    if x[0] == 'A' and x[1] >= 0:
        t = ip.T[x[1]]
        if t['k'] == 'adt' and t['crate'] in ('witness', 'validators'):
            for f in ip.P.fns.values():
                if f.trait == 'core::fmt::Display' and f.self == x[1]:
                    ip.uid += 1
                    k = -ip.uid
                    st.env[k] = ('M', 'Formatter', (('Q', ('c', b''), const(0), const(0)),))
                    out = []
                    for s, r in ip.exec_fn(f.id, [rv(x), ('R', k, ())], st):
                        fm = s.env.pop(k, None)
                        if fm is None: return None
                        out.append((s, parts_of(ip, s, fm[2][0])))
                    return out
    return None

@model('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def m_format(ip, st, a, info):
    r = fmt_parts(ip, st, a[0], info)
    if r is None: return None
    return [(s, cat(s, p)) for s, p in r]

@decl('core::fmt::Write::write_fmt', 'core::fmt::Formatter::<\'a>::write_fmt', 'std::io::Write::write_fmt')
def m_write_fmt(ip, st, a, info):
    r = fmt_parts(ip, st, a[1], info)
    if r is None: return None
    out = []
    for s, p in r:
        if not append(ip, s, a[0], p): return None
        out.append((s, ok(ip, info, UNIT)))
    return out
EXACT["core::fmt::Formatter::<'a>::write_fmt"] = m_write_fmt
@decl('core::fmt::Write::write_str', 'core::fmt::Write::write_char')
def m_write_str(ip, st, a, info):
    v = a[1]
    if v is not None and v[0] == 'I': p = [('ch', v[1])]
    else:
        q = ip.seq(st, v)
        if q is None: return None
        p = [('q', q)]
    if not append(ip, st, a[0], p): return None
    return [(st, ok(ip, info, UNIT))]
EXACT["core::fmt::Formatter::<'a>::write_str"] = m_write_str
EXACT["core::fmt::Formatter::<'a>::pad"] = m_write_str

@decl('core::fmt::Display::fmt', 'core::fmt::UpperHex::fmt', 'core::fmt::LowerHex::fmt', 'core::fmt::Debug::fmt')
def m_display_fmt(ip, st, a, info):
    if info.cal.get('fn') is not None: return None
    kind = {'Display': 'display', 'UpperHex': 'upper_hex', 'LowerHex': 'lower_hex', 'Debug': 'debug'}[info.cal['decl'].split('::')[-2]]
    p = part_of_display(ip, st, a[0], kind, ())
    if p is None or not append(ip, st, a[1], [p]): return None
    return [(st, ok(ip, info, UNIT))]

# ------------------------------------------------------------------ boxes, closures
@model('alloc::boxed::Box::<T>::new')
def m_box(ip, st, a, info): return [(st, ('M', 'Box', (a[0],)))]

@decl('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def m_call(ip, st, a, info):
    args = list(a[1][3]) if a[1] is not None and a[1][0] == 'A' else []
    return ip.call_value(st, a[0], args, info)

# ------------------------------------------------------------------ third party / uninterpreted
OPAQUE += ['core::net::', 'idna::', 'url::', 'data_encoding::', 'regex::', 'semver::', 'serde_json::', 'serde_core::', 'phonenumber::', 'byte_unit::',
           'serde::', 'str_utils::', 'std::net', 'once_cell', 'core::ops::drop', 'rocket', 'axum', 'http']
