"""validators that delegate to a third-party parser: they hand it the whole input, follow its verdict and keep its value."""
from wit import *
import models
from p_ip import split_c, fields, same_val
from p_domain import result_cases
FEATURES = ['derive', 'url', 'semver', 'semver_req', 'regex', 'phone', 'json']
STD = ['<phonenumber::country::Id as core::cmp::PartialEq>']
NUM = ['parse_%s%s' % (s, b) for s in 'ui' for b in ('8', '16', '32', '64', '128', 'size')]
for _r, _k in (('X', 'parse'), ('()', 'validate')):
    ENTRY[_k + '_json_value'] = 'pub fn %s_json_value(s: validators::serde_json::Value) -> Result<%s, <X as ValidateJsonValue>::Error> { <X as ValidateJsonValue>::%s_json_value(s) }' % (_k, _r, _k)
ENTRY['minified'] = 'pub fn minified(x: &X) -> String { <X as ToJsonString>::to_minified_json_string(x) }'
ENTRY['beautified'] = 'pub fn beautified(x: &X) -> String { <X as ToJsonString>::to_beautified_json_string(x) }'
PN = 'validators::phonenumber::PhoneNumber'
ID = 'validators::phonenumber::country::Id'
MAP = 'std::collections::HashMap<%s, %s>' % (ID, PN)

def witnesses():
    both = lambda ns: ns + [n.replace('parse_', 'validate_') for n in ns]
    ws = [W('url', 'url', '(pub validators::url::Url);', STR, fn='url::Url::parse', err='url::'),
          W('semver', 'semver', '(pub validators::semver::Version);', STR, fn='semver::Version::parse', err='semver::'),
          W('semver_req', 'semver_req', '(pub validators::semver::VersionReq);', STR, fn='semver::VersionReq::parse', err='semver::'),
          W('regex_lit', 'regex(regex("^[a-z]+(x|y)?$"))', '(pub String);', STR, re='^[a-z]+(x|y)?$'),
          W('regex_static', 'regex(regex(RE))', '(pub String);', STR, re=None, extra='    pub static RE: std::sync::LazyLock<validators::regex::Regex> = std::sync::LazyLock::new(|| validators::regex::Regex::new("^a$").unwrap());'),
          W('json_value', 'json', '(pub validators::serde_json::Value);', STR + both(NUM + ['parse_bool', 'parse_f64', 'parse_json_value']) + ['minified', 'beautified'], fn='serde_json::de::from_str', err='serde_json::', js=True),
          W('json_typed', 'json', '(pub Vec<u32>);', STR + both(['parse_i64', 'parse_u128', 'parse_bool', 'parse_json_value']) + ['minified', 'beautified'], fn='serde_json::de::from_str', err='serde_json::', js=True)]
    for n, cs in (('any', []), ('one', ['TW']), ('two', ['TW', 'US']), ('three', ['JP', 'GB', 'TW'])):
        ws.append(W('phone_' + n, 'phone(countries(%s))' % ', '.join(cs) if cs else 'phone', '(pub %s);' % (MAP if len(cs) > 1 else PN), STR, phone=cs))
    return ws

NAMES = ['url::Url::parse', 'semver::Version::parse', 'semver::VersionReq::parse', 'serde_json::de::from_str', 'serde_json::value::to_value', 'serde_json::value::from_value',
         'serde_json::ser::to_string', 'serde_json::ser::to_string_pretty', 'regex::regex::string::Regex::is_match', 'phonenumber::parser::parse',
         'phonenumber::phone_number::PhoneNumber::is_valid', 'phonenumber::phone_number::PhoneNumber::country', 'phonenumber::phone_number::Country::<\'a>::id']

def canon(ip, st, v):
    """a frozen, normalized argument"""
    v = models.val(ip, st, v)
    if v is not None and v[0] not in ('I', 'A'):
        q = ip.seq(st, v) if v[0] in ('Q', 'M') else None
        if q is not None: return models.norm_q(st, q)
    return subst_any(ip.freeze(st, v), st.norm)

def app(ip, st, name, *vals): return ('app', name) + tuple(canon(ip, st, v) for v in vals)

def from_str_hooks(mk):
    """`text.parse::<T>()` and `T::from_str(text)` are the inherent parsers of these types"""
    CAN = {'url::Url': 'url::Url::parse', 'semver::Version': 'semver::Version::parse', 'semver::VersionReq': 'semver::VersionReq::parse'}
    def h(ip, st, vals, info):
        t = ip.T[info.dty]
        n = CAN.get(ip.T[t['args'][0]]['s']) if t['k'] == 'adt' and t.get('args') else None
        return [(st, ip.mk_sym(info.dty, mk(ip, st, n, vals[0])))] if n else None
    return {'core::str::<impl str>::parse': h, 'core::str::traits::FromStr::from_str': h}

def hooks_for(P):
    hk = {}
    def mk(n):
        def h(ip, st, vals, info):
            if n.startswith('serde_json::ser'):
                # serializing a JSON value cannot fail; for other types the derive documents no failure
                return [(st, models.ok(ip, info, ip.mk_sym(ip.T[info.dty]['args'][0], app(ip, st, n, *vals))))]
            return [(st, ip.mk_sym(info.dty, app(ip, st, n, *vals)))]
        return h
    for n in NAMES: hk[n] = mk(n)
    hk['phonenumber::validator::is_valid'] = mk('phonenumber::phone_number::PhoneNumber::is_valid')
    def new(ip, st, vals, info):
        # literals are checked when the macro expands
        return [(st, models.ok(ip, info, ip.mk_sym(ip.T[info.dty]['args'][0], app(ip, st, 'Regex::new', vals[0]))))]
    hk['regex::regex::string::Regex::new'] = new
    def find(ip, st, vals, info):
        o = ip.mk_sym(info.dty, app(ip, st, 'find', *vals))
        bt = find_ty(ip, lambda t: t['s'] == 'bool')
        m = ip.mk_sym(bt, app(ip, st, 'regex::regex::string::Regex::is_match', *vals))
        return [(s2, o) for x, y in split_c(ip, st, ('eq', addc(m[1], -1))) for s2 in ip.assume(x, ('eq', addc(ip.discr_lin(o), -1 if y else 0)))]
    hk['regex::regex::string::Regex::find'] = find
    hk.update(from_str_hooks(lambda ip, st, n, q: app(ip, st, n, q)))
    def slice(ip, st, vals, info): return [(st, ip.mk_sym(info.dty, app(ip, st, 'serde_json::de::from_str', *vals)))]
    hk['serde_json::de::from_slice'] = slice
    def lazy(ip, st, vals, info):
        return [(st, ('RV', ip.mk_sym(ip.T[info.dty]['e'], ('app', 'static'))))] if ip.T[info.dty]['k'] == 'ref' else None
    hk['<std::sync::lazy_lock::LazyLock<T, F> as core::ops::deref::Deref>::deref'] = lazy
    H = 'std::collections::hash::map::HashMap::<K, V'
    empty = lambda ip, st, vals, info: [(st, ('M', 'Map', ()))]
    for n in (H + '>::with_capacity', H + '>::new', '<std::collections::hash::map::HashMap<K, V, S> as core::default::Default>::default'): hk[n] = empty
    def insert(ip, st, vals, info):
        m = models.val(ip, st, vals[0])
        if m is None or m[0] != 'M' or m[1] != 'Map' or vals[0][0] != 'R': return None
        k = vals[1]
        ip.store(st, vals[0][1], vals[0][2], ('M', 'Map', m[2] + ((k, vals[2]),)))
        return [(st, ip.mk_sym(info.dty, ('app', 'replaced', len(m[2]))))]
    hk[H + ', S, A>::insert'] = hk[H + ', S>::insert'] = insert
    def count(ip, st, vals, info):
        m = models.val(ip, st, vals[0])
        if m is None or m[0] != 'M': return None
        n = info.cal['decl'].rsplit('::', 1)[1]
        return [(st, I(len(m[2]) if n == 'len' else int(not m[2])))]
    for n in ('is_empty', 'len'): hk[H + ', S, A>::' + n] = hk[H + ', S>::' + n] = count
    return hk

def I(c): return ('I', const(c))

def find_ty(ip, pred):
    for i, t in enumerate(ip.T):
        if pred(t): return i
    return None

def rty(ip, inner_s, err):
    return find_ty(ip, lambda t: t['k'] == 'adt' and t['path'] == 'core::result::Result' and ip.T[t['args'][0]]['s'] == inner_s and ip.T[t['args'][1]]['s'].startswith(err))

def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.name, e)
    d = w.data
    ip, res = analyse(P, 'crate::%s::%s' % (w.name, e), hooks=hooks_for(P))
    arg = ip.args[0]
    if e in ('minified', 'beautified'):
        f = fields(ip, arg)
        for s, v in res:
            want = ip.mk_sym(find_ty(ip, lambda t: t['s'] == 'alloc::string::String'), app(ip, s, 'serde_json::ser::to_string' + ('_pretty' if e == 'beautified' else ''), f['ip']))
            rep.add(same_val(ip, s, v, want), key + ':text', detail(ip, s, v, 'not the JSON text of the wrapped value'), tainted(s))
        judge_panics(rep, key, ip); finish(rep, ip, key)
        return rep
    xt = find_ty(ip, lambda t: t['s'] == 'crate::%s::X' % w.name)
    inner = ip.T[ip.T[xt]['vs'][0][1][0][1]]['s']
    if e.endswith('str') or e.endswith('string'): q = ip.seq(State(), arg)
    else: q = arg
    def spec(ip, st):
        a = models.norm_q(st, q) if q[0] == 'Q' else q
        if 'fn' in d:
            if e.endswith(('str', 'string')):
                return [(s, F if x is None else T, x) for s, x in result_cases(ip, st, rty(ip, inner, d['err']), app(ip, st, d['fn'], a))]
            if e.endswith('json_value'):
                return [(s, F if x is None else T, x) for s, x in result_cases(ip, st, rty(ip, inner, d['err']), app(ip, st, 'serde_json::value::from_value', a))]
            out = []
            for s, x in result_cases(ip, st, rty(ip, 'serde_json::value::Value', 'serde_json::'), app(ip, st, 'serde_json::value::to_value', a)):
                if x is None: out.append((s, F, None)); continue
                out += [(s2, F if y is None else T, y) for s2, y in result_cases(ip, s, rty(ip, inner, d['err']), app(ip, s, 'serde_json::value::from_value', x))]
            return out
        if 're' in d:
            rt = find_ty(ip, lambda t: t['s'] == 'regex::regex::string::Regex')
            rx = ip.mk_sym(rt, ('app', 'static') if d['re'] is None else ('app', 'Regex::new', ('Q', ('c', d['re'].encode()), const(0), const(len(d['re'])))))
            b = AT.get(app(ip, st, 'regex::regex::string::Regex::is_match', rx, a), BOOL)
            bt = find_ty(ip, lambda t: t['s'] == 'bool')
            m = ip.mk_sym(bt, app(ip, st, 'regex::regex::string::Regex::is_match', rx, a))
            return [(st, Eq(m[1], 1), a)]
        return phone(ip, st, d['phone'], a)
    def output(ip, s, v, x):
        if e.startswith('validate'): return True
        y = field(ip, v)
        if 're' in d: return same_seq(ip, s, y, models.norm_q(s, x)) or 'the text is not the input'
        if 'phone' in d and len(d['phone']) > 1:
            if y is None or y[0] != 'M' or y[1] != 'Map': return 'not the map of the numbers'
            got = {}
            for k, v2 in y[2]:
                if k is None or k[0] != 'A': return 'unknown key'
                got[ip.T[k[1]]['vs'][k[2]][0]] = v2
            if set(got) != set(x): return 'the map holds %s, expected %s' % (sorted(got), sorted(x))
            return all(same_val(ip, s, got[c], x[c]) for c in x) or 'wrong number in the map'
        return same_val(ip, s, y, x) or 'the value is not the parsed one'
    judge_lang(rep, key, ip, res, None, None, spec, output)
    finish(rep, ip, key)
    return rep

def phone(ip, st, cs, a):
    pt = find_ty(ip, lambda t: t['s'] == 'phonenumber::phone_number::PhoneNumber')
    r = rty(ip, ip.T[pt]['s'], 'phonenumber::')
    ot = find_ty(ip, lambda t: t['s'] == 'core::option::Option<phonenumber::country::Id>')
    bt = find_ty(ip, lambda t: t['s'] == 'bool')
    it = ip.T[ot]['args'][0]
    ids = [v[0] for v in ip.T[it]['vs']]
    def parse(s, c):
        o = ('A', ot, 0, ()) if c is None else ('A', ot, 1, (('A', it, ids.index(c), ()),))
        return result_cases(ip, s, r, app(ip, s, 'phonenumber::parser::parse', o, a))
    def valid(s, p): return [(s2, x) for s2, x in split_c(ip, s, ('ne', ip.mk_sym(bt, app(ip, s, 'phonenumber::phone_number::PhoneNumber::is_valid', p))[1]))]
    def country(s, p, c):
        ct = find_ty(ip, lambda t: t['k'] == 'adt' and t['path'] == 'phonenumber::phone_number::Country')
        cv = ip.mk_sym(ct, app(ip, s, NAMES[11], p))
        o = ip.mk_sym(ot, app(ip, s, NAMES[12], cv))
        dl = ip.discr_lin(o)
        out = [(s2, False) for s2 in ip.assume(s.copy(), ('eq', dl))]
        for s2 in ip.assume(s.copy(), ('eq', addc(dl, -1))):
            x = ip.get_field(s2, o, 0, ip.T[ot]['vs'][1][1][0][1], 1)
            out += split_c(ip, s2, ('eq', addc(ip.discr_lin(x), -ids.index(c))))
        return out
    if not cs:
        out = []
        for s, p in parse(st, None):
            if p is None: out.append((s, F, None)); continue
            out += [(s2, T if b else F, p) for s2, b in valid(s, p)]
        return out
    cur, out = [(st, {})], []
    for c in cs:
        nxt = []
        for s, got in cur:
            for s2, p in parse(s, c):
                if p is None: nxt.append((s2, got)); continue
                for s3, b in country(s2, p, c):
                    if not b: nxt.append((s3, got)); continue
                    for s4, b4 in valid(s3, p): nxt.append((s4, dict(got, **{c: p}) if b4 else got))
        cur = nxt
    for s, got in cur: out.append((s, T if got else F, got if len(cs) > 1 else got.get(cs[0])))
    return out
