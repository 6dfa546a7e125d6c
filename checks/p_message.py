"""validator errors: the message of each names its rule, foreign errors are kept, and Axum answers 400 with the message."""
import re
from wit import *
import models, interp
from p_ip import same_val
from p_deleg import canon
FEATURES = ['derive', 'std', 'all-validators', 'axum']
STD = ['http::response::Response', '<http::response::Response', 'http::response::Parts', 'axum_core::response::into_response::<impl axum_core', '<alloc::borrow::Cow', 'alloc::borrow::Cow']
FOREIGN = {'BitError': ['validators::byte_unit::ParseError'], 'ByteError': ['validators::byte_unit::ParseError'], 'HttpURLError': ['validators::url::ParseError'], 'HttpFtpURLError': ['validators::url::ParseError'], 'UrlError': ['validators::url::ParseError'],
           'JsonError': ['validators::serde_json::Error'], 'NumberError': ['core::num::ParseFloatError'], 'PhoneError': ['validators::phonenumber::ParseError'], 'SemverError': ['validators::semver::Error'],
           'SignedIntegerError': ['core::num::ParseIntError'], 'UnsignedIntegerError': ['core::num::ParseIntError']}
ERRORS = [x + 'Error' for x in 'Base32 Base32Decoded Base64 Base64Decoded Base64Url Base64UrlDecoded Bit Boolean Byte Domain Email Host HttpURL HttpFtpURL Ip Ipv4 Ipv6 Json Length Line MacAddress Number Phone Regex Semver SignedInteger Text UnsignedInteger Url Uuid'.split()]


class WE(W):
    def source(self):
        return 'pub mod %s {\n    use validators::prelude::*;\n    use validators::errors::*;\n%s\n}\n' % (self.name, '\n'.join('    ' + e for e in self.extra))


def witnesses():
    ws = []
    for E in ERRORS:
        fns = [('show', 'pub fn show(e: &%s, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Display::fmt(e, f) }' % E),
               ('text', 'pub fn text(e: &%s) -> String { format!("{}", e) }' % E),
               ('respond', 'pub fn respond(e: %s) -> validators::axum::response::Response { validators::axum::response::IntoResponse::into_response(e) }' % E)]
        fns = [x for x in fns if x[0] != 'text']
        for i, f in enumerate(FOREIGN.get(E, ())): fns.append(('from_%d' % i, 'pub fn from_%d(e: %s) -> %s { <%s as From<%s>>::from(e) }' % (i, f, E, E, f)))
        ws.append(WE('m_' + E.lower(), E, '', [n for n, _ in fns], extra=[x for _, x in fns], E=E))
    return ws


TOPIC = {'IPv4': 'ipv4', 'IP': r'\bip', 'Local': 'local', 'Port': 'port', 'Padding': 'padd', 'Separator': 'separator', 'NaN': 'nan', 'Comment': 'comment', 'AtLeastTwoLabels': 'label'}
REFUSE = r'must not|not allow|disallow|cannot|can ?not|forbid|may not|not permit|unexpected|should not|prohibit|only one|not be '


def names_rule(v, text):
    """does a message state the rule of this error (None: an error this rule knows nothing about)"""
    t = text.lower()
    has = lambda r: re.search(r, t) is not None
    size = {'TooLarge': 'large|big|great|more than|exceed|high', 'TooLong': 'long|more than|exceed', 'TooSmall': 'small|less than|low', 'TooShort': 'short|less than'}
    if v in size:
        other = '|'.join(size[x] for x in size if (x in ('TooLarge', 'TooLong')) != (v in ('TooLarge', 'TooLong')))
        return has(size[v]) and not has(other)
    m = re.fullmatch(r'(\w+?)(Must|Disallow)', v)
    if m and m.group(1) in TOPIC:
        if not has(TOPIC[m.group(1)]) or any(n not in m.group(1) and n != 'IP' and has(r) for n, r in TOPIC.items()): return False
        if m.group(1) == 'AtLeastTwoLabels':
            one = has(r'only one|single|exactly one|not have (at least )?two|more than one .*not')
            return one == (m.group(2) == 'Disallow') and (one or has('two|more than one|2'))
        return has(REFUSE) == (m.group(2) == 'Disallow')
    if v in ('Invalid', 'InvalidJsonValueError'): return has('invalid|not valid|incorrect|wrong|bad|malformed') and not has(REFUSE)
    if v == 'Decode': return has('decod')
    if v == 'Forbidden': return has('forbid|not allow|disallow|prohibit')
    if v == 'ProtocolError': return has('protocol|scheme')
    return None


def variants(ip, e):
    """[(name, value)]: every error of the type, the wrapped ones symbolic"""
    t = ip.T[e]
    out = []
    for i, (n, fs) in enumerate(t['vs']):
        vals = tuple(ip.mk_sym(ft, ('in', 'wrapped', i, j)) for j, (_, ft) in enumerate(fs))
        out.append((n, ('A', e, i, vals), [ft for _, ft in fs]))
    return out


def message(ip, st, q):
    """('fixed', text) / ('inner', value) / None"""
    ps = models.parts_of(ip, st, q)
    if ps is None: return None
    text = b''
    for p in ps:
        if p[0] == 'lit': text += bytes(p[1]); continue
        if p[0] == 'q':
            c = models.parts_of(ip, st, p[1])
            if c is not None and all(x[0] == 'lit' for x in c): text += b''.join(bytes(x[1]) for x in c); continue
        if p[0] == 'ch' and st.const_of(p[1]) is not None: text += chr(st.const_of(p[1])).encode(); continue
        if len(ps) == 1 and p[0] == 'disp' and p[1] == 'display' and not p[2]: return ('inner', p[3])
        return ('mixed', ps)
    return ('fixed', text.decode('utf-8', 'replace'))


def shown(ip, f, e, val):
    """[(state, text written)] of Display::fmt on an error"""
    ip.uid += 1
    k = -ip.uid
    st = State()
    st.env[k] = ('M', 'Formatter', (('Q', ('c', b''), const(0), const(0)),))
    out = []
    for s, r in ip.exec_fn(f.id, [('RV', val), ('R', k, ())], st):
        fm = s.env.get(k)
        out.append((s, r, fm[2][0] if fm is not None and fm[0] == 'M' else None))
    return out


def hooks():
    hk = {}
    def resp(ip, st, vals, info):
        """(status, text) answers with that status; a text alone with 200"""
        t = ip.T[info.argtys[0]]
        v = vals[0]
        if t['k'] == 'adt' and t['crate'] == 'validators': return None
        if t['k'] == 'tuple' and v is not None and v[0] == 'A' and len(v[3]) == 2: return [(st, ('M', 'Answer', (v[3][0], answer_text(ip, st, v[3][1]))))]
        if v is not None and v[0] == 'M' and v[1] == 'Answer': return [(st, v)]
        if t['k'] == 'adt' and t['path'] == 'http::status::StatusCode': return [(st, ('M', 'Answer', (v, ('Q', ('c', b''), const(0), const(0)))))]
        x = answer_text(ip, st, v)
        return None if x is None else [(st, ('M', 'Answer', (None, x)))]
    for n in ('axum_core::response::into_response::IntoResponse::into_response', 'axum_core::response::IntoResponse::into_response'): hk[n] = resp
    def status_mut(ip, st, vals, info):
        r = vals[0]
        if r is None or r[0] != 'R': return None
        cur = ip.load(st, r[1], r[2])
        if cur is None or cur[0] != 'M' or cur[1] != 'Answer': return None
        ip.uid += 1
        k = -ip.uid
        st.env[k] = cur[2][0] if cur[2][0] is not None else ('I', const(200))
        ip.store(st, r[1], r[2], ('M', 'Answer', (('R', k, ()), cur[2][1])))
        return [(st, ('R', k, ()))]
    hk['http::response::Response::<T>::status_mut'] = status_mut
    def from_u16(ip, st, vals, info):
        c = st.const_of(vals[0][1]) if vals[0] is not None and vals[0][0] == 'I' else None
        t = ip.T[info.dty]
        if c is None or not 100 <= c < 1000 or t['k'] != 'adt' or t['path'] != 'core::result::Result': return None
        return [(st, ('A', info.dty, 0, (('A', t['vs'][0][1][0][1], 0, (('I', const(c)),)),)))]
    for n in ('http::status::StatusCode::from_u16',): hk[n] = from_u16
    # the text of a foreign error is arbitrary: tests on it can go either way, parts of it are other texts
    def app(name):
        def h(ip, st, vals, info):
            if not any(foreign_text(ip, st, v) for v in vals): return None
            return [(st, ip.mk_sym(info.dty, ('app', name) + tuple(canon(ip, st, v) for v in vals)))]
        return h
    for n in ('contains', 'starts_with', 'ends_with', 'trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'replace', 'replacen', 'repeat'):
        for m in ('core::str::<impl str>::', 'alloc::str::<impl str>::'): hk[m + n] = app(m + n)
    return hk


def foreign_text(ip, st, v):
    ps = models.parts_of(ip, st, v) if v is not None and v[0] in ('Q', 'RV', 'R') else None
    return ps is not None and any(p[0] == 'disp' or p[0] == 'q' and p[1][1][0] != 'c' for p in ps)




def answer_text(ip, st, v):
    v = models.val(ip, st, v)
    if v is None: return None
    if v[0] == 'M' and v[1] == 'Answer': return v[2][1]
    return v


def run_one(P, w, e):
    rep = Report('')
    key = '%s::%s' % (w.data['E'], e)
    path = 'crate::%s::%s' % (w.name, e)
    reset_atoms()
    f = find_fn(P, path)
    mk = lambda: (lambda ip: (ip.hooks.update(hooks()), ip)[1])(interp.Interp(P, models.Models()))
    ip = mk()
    ty = f.locals[1]
    while ip.T[ty]['k'] in ('ref', 'ptr'): ty = ip.T[ty]['e']
    if e == 'show':
        texts = {}
        for n, v, fs in variants(ip, ty):
            k = '%s:%s' % (key, n)
            ends = False
            for s, r, q in shown(ip, f, ty, v):
                ends = True
                m = message(ip, s, q) if q is not None else None
                t = tainted(s)
                if m is None: rep.add(False, k, detail(ip, s, v, 'the message is not decided'), True); continue
                if fs:
                    good = len(v[3]) == 1 and m[0] == 'inner' and (m[1] == ip.freeze(s, v[3][0]) or same_val(ip, s, m[1], v[3][0]))
                    rep.add(good, k + ':inner', detail(ip, s, v, 'the message is not the one of the wrapped error: %s' % (m,)), t)
                    continue
                if m[0] != 'fixed': rep.add(False, k, detail(ip, s, v, 'the message is not a fixed text'), t); continue
                rep.add(m[1].strip() != '', k + ':text', detail(ip, s, v, 'the message is empty'), t)
                g = names_rule(n, m[1])
                if g is not None: rep.add(g, k + ':rule', detail(ip, s, v, 'the message %r does not state the rule %s' % (m[1], n)), t)
                texts.setdefault(m[1], set()).add(n)
                rep.add(len(texts[m[1]]) == 1, k + ':own', detail(ip, s, v, 'the message %r is also the one of another rule: %s' % (m[1], ', '.join(sorted(texts[m[1]])))), t)
                if n == 'ProtocolError': rep.add(('ftp' in m[1].lower()) == ('Ftp' in w.data['E']), k + ':protocols', detail(ip, s, v, 'the message %r does not name the accepted protocols' % m[1]), t)
                rep.samples.append('%s::%s writes %r' % (w.data['E'], n, m[1]))
            if not ends: rep.add(False, k + ':returns', ['formatting %s does not return' % n], bool(ip.notes))
        ip.ends = True
        judge_panics(rep, key, ip)
        finish(rep, ip, key)
        return rep
    if e.startswith('from'):
        st = State()
        x = ip.mk_sym(f.locals[1], ('in', 0))
        et = f.locals[0]
        for s, r in ip.exec_fn(f.id, [x], st):
            good = r is not None and r[0] == 'A' and r[1] == et and len(r[3]) == 1 and same_val(ip, s, r[3][0], x)
            rep.add(good, key, detail(ip, s, r, 'the foreign error is not kept as it is'), tainted(s) or r is None)
        ip.ends = True
        judge_panics(rep, key, ip)
        finish(rep, ip, key)
        return rep
    # the answer to a request: status 400 and the message of the same error
    show_fn = find_fn(P, 'crate::%s::show' % w.name)
    for n, v, fs in variants(ip, ty):
        k = '%s:%s' % (key, n)
        want = [(message(ip, s, q), q) for s, r, q in shown(ip, show_fn, ty, v) if q is not None]
        want = want[0][0] if len(want) == 1 else None
        for s, r in ip.exec_fn(f.id, [v], State()):
            if r is None or r[0] != 'M' or r[1] != 'Answer' or want is None: rep.add(False, k, detail(ip, s, v, 'the answer is not decided'), True); continue
            status, text = r[2]
            c = status_of(ip, s, status)
            if c is None: rep.add(False, k + ':status', detail(ip, s, v, 'the status is not decided'), True)
            else: rep.add(c == 400, k + ':status', detail(ip, s, v, 'the status of the answer is %s' % c), tainted(s))
            m = message(ip, s, text) if text is not None else None
            if m is None: rep.add(False, k + ':body', detail(ip, s, v, 'the text of the answer is not decided'), True); continue
            good = m == want or m[0] == want[0] == 'inner' and same_val(ip, s, m[1], want[1])
            if not good and m[0] == 'inner': good = m[1] == ip.freeze(s, v)     # the Display text of the error itself
            rep.add(good, k + ':body', detail(ip, s, v, 'the text of the answer is %s, the message is %s' % (m, want)), tainted(s))
    ip.ends = True
    judge_panics(rep, key, ip)
    finish(rep, ip, key)
    return rep


def status_of(ip, st, v):
    if v is None: return 200
    for _ in range(6):
        v = models.val(ip, st, v)
        if v is None: return None
        if v[0] == 'I': return st.const_of(v[1])
        if v[0] == 'A' and len(v[3]) == 1: v = v[3][0]; continue
        return None
