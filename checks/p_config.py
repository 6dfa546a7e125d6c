"""compile-time configuration: compile-fail witnesses, and twins which differ only in the fixed part.

Nothing is run: rustc's own expansion and type check of a generated crate are the decision.  Each case is
a module; it counts as refused when the compiler reports an error whose (expansion) span lies inside it."""
import json, os, re, subprocess
import build, p_ip, p_domain, p_email
from wit import W
TRI = ('Must', 'Allow', 'Disallow')
ALLV = ['base32', 'base32_decoded', 'base64', 'base64_decoded', 'base64_url', 'base64_url_decoded', 'bit', 'boolean', 'byte', 'domain', 'email', 'host', 'http_url', 'http_ftp_url', 'ip', 'ipv4', 'ipv6',
        'json', 'length', 'line', 'mac_address', 'number', 'phone', 'regex', 'semver', 'semver_req', 'signed_integer', 'text', 'unsigned_integer', 'url', 'uuid']
PN = 'validators::phonenumber::PhoneNumber'
MAP = 'std::collections::HashMap<validators::phonenumber::country::Id, %s>' % PN
URLB = ' { pub url: validators::url::Url, pub %s }'
BODY = {h: '(pub String);' for h in ('base32', 'base64', 'base64_url', 'line', 'text', 'regex')}
BODY.update({h: '(pub Vec<u8>);' for h in ('base32_decoded', 'base64_decoded', 'base64_url_decoded')})
BODY.update(bit='(pub validators::byte_unit::Bit);', byte='(pub validators::byte_unit::Byte);', boolean='(pub bool);',
            domain=' { pub domain: String, pub port: Option<u16> }', host=' { pub host: validators::models::Host, pub port: Option<u16> }',
            email=' { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }',
            http_url=URLB % 'is_https: bool', http_ftp_url=URLB % 'protocol: validators::models::Protocol',
            ip=' { pub ip: std::net::IpAddr, pub port: Option<u16> }', ipv4=' { pub ipv4: std::net::Ipv4Addr, pub port: Option<u16> }', ipv6=' { pub ipv6: std::net::Ipv6Addr, pub port: Option<u16> }',
            json='(pub Vec<u32>);', length='(pub Vec<u32>);', mac_address='(pub u64);', uuid='(pub u128);', number='(pub f64);', phone='(pub %s);' % PN,
            semver='(pub validators::semver::Version);', semver_req='(pub validators::semver::VersionReq);', url='(pub validators::url::Url);', signed_integer='(pub i32);', unsigned_integer='(pub u32);')
TRAITS = {h: ['ValidateString'] for h in ALLV}
for _h in ('base32', 'base64', 'base64_url'):
    TRAITS[_h] = ['ValidateString', 'ValidateBytes']
    TRAITS[_h + '_decoded'] = ['ValidateString', 'ValidateBytes', 'CollectionLength']
TRAITS.update(bit=['ValidateString', 'ValidateUnsignedInteger'], byte=['ValidateString', 'ValidateUnsignedInteger'],
              boolean=['ValidateString', 'ValidateChar', 'ValidateSignedInteger', 'ValidateUnsignedInteger', 'ValidateBoolean'],
              domain=['ValidateString', 'QualifyDomain', 'ToUriAuthorityString'], email=['ValidateString', 'ToEmailString'], host=['ValidateString', 'ToUriAuthorityString'],
              json=['ValidateString', 'ValidateSignedInteger', 'ValidateUnsignedInteger', 'ValidateNumber', 'ValidateBoolean', 'ValidateJsonValue'],
              length=['ValidateLength<Vec<u32>>'], mac_address=['ValidateString', 'ToMacAddressString'], uuid=['ValidateString', 'ToUuidString'],
              number=['ValidateString', 'ValidateNumber'], signed_integer=['ValidateString', 'ValidateSignedInteger'], unsigned_integer=['ValidateString', 'ValidateUnsignedInteger'],
              **{h: ['ValidateString', 'ToUriAuthorityString'] for h in ('ip', 'ipv4', 'ipv6')})
# validator -> {option: documented values}
TRIO = {'padding': TRI}
OPTS = {h: {} for h in ALLV}
for _h in ('base32', 'base64', 'base64_url'): OPTS[_h] = OPTS[_h + '_decoded'] = {'padding': TRI}
OPTS.update(domain={o: TRI for o in ('ipv4', 'local', 'port', 'at_least_two_labels')}, host={o: TRI for o in ('local', 'port', 'at_least_two_labels')},
            email={'comment': TRI[1:], 'ip': TRI, 'local': TRI, 'at_least_two_labels': TRI, 'non_ascii': TRI[1:]}, number={'nan': TRI},
            http_url={'local': TRI}, http_ftp_url={'local': TRI}, **{h: {'local': TRI, 'port': TRI} for h in ('ip', 'ipv4', 'ipv6')})
for _h in ('mac_address', 'uuid'): OPTS[_h] = {'case': ('Any', 'Upper', 'Lower')}
OPTS['domain']['conflict'] = OPTS['email']['conflict'] = OPTS['number']['conflict'] = TRI[1:]


def item(attr, body, head='', derive='Validator', extra=''):
    at = ''.join('    #[validator(%s)]\n' % a for a in ([attr] if isinstance(attr, str) else attr))
    b = body if not body.startswith('!') else None
    return '    #[derive(%s)]\n%s    pub %s\n%s' % (derive, head + at, 'struct X' + b if b is not None else body[1:], extra)


class Cases:
    def __init__(self): self.bad, self.good = {}, {}
    def add(self, group, name, bad=None, good=None):
        """bad must not compile, good must; both are items"""
        k = '%s:%s' % (group, name)
        if bad is not None:
            assert k not in self.bad, k
            self.bad[k] = bad
        if good is not None: self.good[k] = good


def body_of(h, opts):
    """the documented components of a configuration (opts: option -> value)"""
    g = lambda o: opts.get(o, 'Allow')
    port = {'Allow': ['pub port: Option<u16>'], 'Must': ['pub port: u16'], 'Disallow': []}[g('port')]
    if h in ('ip', 'ipv4', 'ipv6'): fs = ['pub %s: %s' % (h, p_ip.TY[h])] + port
    elif h in ('domain', 'host'):
        fs = ['pub domain: String' if h == 'domain' else 'pub host: validators::models::Host']
        if g('local') == 'Allow' and g('at_least_two_labels') != 'Allow':
            if h == 'domain' and g('ipv4') == 'Allow': fs.append('pub is_ipv4: bool')
            fs.append('pub is_local: bool')
        fs += port
    elif h == 'email': return p_email.w_of(g('ip'), g('local'), g('at_least_two_labels'), g('comment'), g('non_ascii'), []).body
    else: return BODY[h]
    return ' { %s }' % ', '.join(fs) if len(fs) > 1 else '(pub %s);' % fs[0].split(': ', 1)[1]


def shapes(body):
    """[(name, other item)]: the same attribute on an item of another shape"""
    out = [('enum', '!enum X { A, B }'), ('union', '!union X { pub a: u8, pub b: u8 }'), ('unit', ';'), ('empty', '();' if body.startswith('(') else ' {}')]
    if body.startswith('('):
        t = body[1:-2]
        out += [('two', '(%s, pub u8);' % t), ('twice', '(%s, %s);' % (t, t)), ('named', ' { pub value: %s }' % t[4:]), ('type', '(pub [char; 3]);')]
    else:
        fs = split_fields(body)
        j = lambda l: ' { %s }' % ', '.join(l)
        out += [('tuple', '(%s);' % ', '.join('pub ' + f.split(': ', 1)[1] for f in fs)), ('more', j(fs + ['pub other: u8']))]
        for i, f in enumerate(fs):
            n, t = f[4:].split(': ', 1)
            out.append(('less_' + n, j(fs[:i] + fs[i + 1:])))
            out.append(('name_' + n, j(fs[:i] + ['pub %sx: %s' % (n, t)] + fs[i + 1:])))
            out.append(('type_' + n, j(fs[:i] + ['pub %s: [char; 3]' % n] + fs[i + 1:])))
            if t.startswith('Option<'): out.append(('plain_' + n, j(fs[:i] + ['pub %s: %s' % (n, t[7:-1])] + fs[i + 1:])))
            elif n == 'port': out.append(('option_' + n, j(fs[:i] + ['pub port: Option<u16>'] + fs[i + 1:])))
    return out


def split_fields(body):
    out, depth, cur = [], 0, ''
    for c in body.strip()[1:-1]:
        depth += (c in '<([') - (c in '>)]')
        if c == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    return out + [cur.strip()] if cur.strip() else out


def attr(h, opts=(), extra=()):
    l = ['%s(%s)' % (o, v) for o, v in (opts.items() if isinstance(opts, dict) else opts)] + list(extra)
    if h == 'regex' and not any(x.startswith('regex') for x in l): l.append('regex("^a$")')
    return '%s(%s)' % (h, ', '.join(l)) if l else h


def general(C):
    """the derive attribute itself"""
    for h in ALLV:
        a, b = attr(h), BODY[h]
        tr = '\n'.join('    const _: fn() = || { fn is<T: %s>() {} is::<X>(); };' % t for t in TRAITS[h])
        C.add(h, 'plain', good=item(a, b, extra=tr + '\n'))
        C.add(h, 'none', item([], b))
        C.add(h, 'bare', item([], b, head='    #[validator]\n'))
        C.add(h, 'value', item([], b, head='    #[validator = "%s"]\n' % h))
        C.add(h, 'list', item([''], b))
        C.add(h, 'misspelt', item(a.replace(h, h + 'x', 1), b))
        C.add(h, 'upper', item(a.replace(h, h.capitalize(), 1), b))
        C.add(h, 'path', item(a.replace(h, 'validators::' + h, 1), b))
        C.add(h, 'equals', item('%s = true' % h, b))
        C.add(h, 'string', item('"%s"' % h, b))
        C.add(h, 'twice', item([a, a], b))
        C.add(h, 'second', item([a, 'boolean' if h != 'boolean' else 'url'], b))
        C.add(h, 'second_first', item(['boolean' if h != 'boolean' else 'url', a], b))
        C.add(h, 'two_in_one', item('%s, %s' % (a, 'boolean' if h != 'boolean' else 'url'), b))
        rx = ['regex("^a$")'] if h == 'regex' else []
        foreign = [x for x in ('padding(Must)', 'case(Upper)', 'port(Must)', 'local(Must)', 'nan(Must)', 'range(Unlimited)', 'min = 1', 'char_length(min = 1)', 'countries(TW)', 'ignore_case = true',
                               'comment(Allow)', 'regex("a")', 'conflict(Allow)', 'at_least_two_labels(Must)', 'separator(Disallow)', 'ipv4(Must)', 'ip(Must)', 'non_ascii(Allow)', 'inclusive = true', 'unknown')
                   if re.match(r'\w+', x).group(0) not in known_options(h)]
        for f in foreign: C.add(h, 'unknown_' + re.match(r'\w+', f).group(0), item(attr(h, (), rx + [f]), b))
        C.add(h, 'literal', item(attr(h, (), rx + ['"x"']), b))
        C.add(h, 'option_path', item(attr(h, (), rx + ['a::b(Must)']), b))
        for n, s in shapes(b):
            if h in ('json', 'length') and n == 'type': continue
            C.add(h, 'shape_' + n, item(a, s))
    C.add('json', 'shape_type', item('json', '(pub N);', extra='    pub struct N;\n'))
    C.add('length', 'shape_type', item('length', '(pub N);', extra='    pub struct N;\n'))


def known_options(h):
    k = set(OPTS[h]) | {'serde'} | ({'rocket'} if h != 'length' else set())
    k |= {'bit': {'range'}, 'byte': {'range', 'ignore_case'}, 'length': {'min', 'max'}, 'line': {'char_length', 'byte_length'}, 'text': {'char_length', 'byte_length'},
          'mac_address': {'separator'}, 'uuid': {'separator'}, 'number': {'range'}, 'signed_integer': {'range'}, 'unsigned_integer': {'range'}, 'phone': {'countries'}, 'regex': {'regex'}}.get(h, set())
    return k


def options(C):
    """every documented value in both spellings; every other value, no value and every repetition refused"""
    for h in ALLV:
        for o, vals in OPTS[h].items():
            for v in vals:
                b = body_of(h, {o: v})
                C.add(h, '%s_%s' % (o, v), good=item(attr(h, (), ['%s(%s)' % (o, v)]), b))
                C.add(h, '%s_%s_eq' % (o, v), good=item(attr(h, (), ['%s = %s' % (o, v)]), b))
                for v2 in vals:
                    C.add(h, '%s_%s_again_%s' % (o, v, v2), item(attr(h, (), ['%s(%s)' % (o, v), '%s = %s' % (o, v2)]), b))
            b = body_of(h, {})
            other = [v for v in ('Must', 'Allow', 'Disallow', 'Any', 'Upper', 'Lower', 'must', 'allow', 'disallow', 'any', 'Maybe', 'MUST', 'None') if v not in vals]
            for v in other:
                C.add(h, '%s_other_%s' % (o, v), item(attr(h, (), ['%s(%s)' % (o, v)]), b))
                C.add(h, '%s_other_eq_%s' % (o, v), item(attr(h, (), ['%s = %s' % (o, v)]), b))
            v0 = vals[0]
            for n, t in (('bare', o), ('none', o + '()'), ('string', '%s = "%s"' % (o, v0)), ('string_in', '%s("%s")' % (o, v0)), ('two', '%s(%s, %s)' % (o, v0, vals[1])), ('number', o + ' = 1'), ('bool', o + ' = true'), ('path', '%s = a::%s' % (o, v0))):
                C.add(h, '%s_%s' % (o, n), item(attr(h, (), [t]), b))


def configurations(C):
    """the documented components of every combination of options, and items which differ in one component"""
    import itertools
    def combos(h, names): return [dict(zip(names, vs)) for vs in itertools.product(*(OPTS[h][n] for n in names))]
    for h, names in (('ip', ('local', 'port')), ('ipv4', ('local', 'port')), ('ipv6', ('local', 'port')), ('host', ('local', 'port', 'at_least_two_labels')),
                     ('domain', ('ipv4', 'local', 'port', 'at_least_two_labels')), ('email', ('comment', 'ip', 'local', 'at_least_two_labels', 'non_ascii'))):
        for c in combos(h, names):
            key = '_'.join(c[n].lower() for n in names)
            b = body_of(h, c)
            clash = c['at_least_two_labels'] == 'Disallow' and (c.get('ipv4') == 'Must' or c.get('ip') == 'Must') if h in ('domain', 'email') else False
            a = attr(h, c, ['conflict(Allow)'] if clash else [])
            C.add(h, 'config_' + key, good=item(a, b))
            if clash:
                C.add(h, 'clash_' + key, item(attr(h, c), b))
                C.add(h, 'clash_no_' + key, item(attr(h, c, ['conflict(Disallow)']), b))
                C.add(h, 'clash_yes_' + key, good=item(attr(h, [('conflict', 'Allow')] + list(c.items())), b))
            for n, s in shapes(b)[3:]: C.add(h, 'config_%s_%s' % (key, n), item(a, s))


INTS = {'signed_integer': [('i8', -2**7, 2**7 - 1), ('i16', -2**15, 2**15 - 1), ('i32', -2**31, 2**31 - 1), ('i64', -2**63, 2**63 - 1), ('i128', -2**127, 2**127 - 1), ('isize', -2**63, 2**63 - 1)],
        'unsigned_integer': [('u8', 0, 2**8 - 1), ('u16', 0, 2**16 - 1), ('u32', 0, 2**32 - 1), ('u64', 0, 2**64 - 1), ('u128', 0, 2**128 - 1), ('usize', 0, 2**64 - 1)]}


def ranges(C, full=False):
    def kinds(h):
        if h in INTS: return [(t, '(pub %s);' % t, lo, hi, True) for t, lo, hi in INTS[h]]
        if h == 'number': return [(t, '(pub %s);' % t, None, None, False) for t in ('f32', 'f64')]
        return [(h, BODY[h], 0, 2**128 - 1, True)]
    for h in ('signed_integer', 'unsigned_integer', 'number', 'bit', 'byte'):
        for t, b, lo, hi, integer in kinds(h):
            wraps = [('in', 'range(Inside(%s))'), ('out', 'range(Outside(%s))')] if h not in ('bit', 'byte') else [('r', 'range(%s)')]
            if integer:
                mid = (lo + hi) // 2 + 1
                pairs = [(5, 9), (0, 1), (lo, lo + 1), (hi - 1, hi), (lo, hi), (mid, mid + 3)]
                if h == 'signed_integer': pairs += [(-9, -5), (-1, 0), (-1, 1)]
            else: pairs = [('0.25', '0.5'), ('0.0', '1e10'), ('1', '2'), ('0.5', '1'), ('-1.5', '0.5'), ('-2.5', '-1.5'), ('-1', '1')]
            for wn, wrap in wraps:
                for i, (x, y) in enumerate(pairs):
                    k = '%s_%s_%d' % (t, wn, i)
                    neg = str(x).startswith('-') or str(y).startswith('-')
                    if full:
                        if neg: continue
                        for sn, f in (('', '%s'), ('_eq', None)):
                            wr = (wrap % '{}') if sn == '' else re.sub(r'\(\{\}\)', ' = {}', wrap % '{}', count=1)
                            A = lambda r: item(attr(h, (), [wr.replace('{}', r)]), b)
                            C.add(h, 'full_%s%s' % (k, sn), A('%s..=%s' % (y, x)), A('%s..=%s' % (x, y)))
                            C.add(h, 'full_half_%s%s' % (k, sn), A('%s..%s' % (y, x)), A('%s..%s' % (x, y)))
                            C.add(h, 'full_eq_%s%s' % (k, sn), A('%s..%s' % (x, x)), A('%s..=%s' % (x, x)))
                            C.add(h, 'full_open_%s%s' % (k, sn), good=A('%s..' % x))
                            C.add(h, 'full_to_%s%s' % (k, sn), good=A('..=%s' % x))
                        continue
                    A = lambda *p: item(attr(h, (), [wrap % ', '.join(p)]), b)
                    mn, mx = 'min = %s', 'max = %s'
                    C.add(h, 'range_%s' % k, A(mn % y, mx % x), A(mn % x, mx % y))
                    C.add(h, 'range_rev_%s' % k, A(mx % x, mn % y), A(mx % y, mn % x))
                    C.add(h, 'range_incl_%s' % k, A(mn % y, mx % x, 'inclusive = true'), A(mn % x, mx % y, 'inclusive = true'))
                    C.add(h, 'range_excl_%s' % k, A(mn % y, mx % x, 'inclusive = false'), A(mn % x, mx % y, 'inclusive = false'))
                    C.add(h, 'range_same_%s' % k, A('inclusive = false', mn % x, mx % x), A('inclusive = true', mn % x, mx % x))
                    C.add(h, 'range_same2_%s' % k, A(mn % y, 'inclusive(false)', mx % y), A(mn % y, mx % y))
                    if not neg: C.add(h, 'range_list_%s' % k, A('min(%s)' % y, 'max(%s)' % x), A('min(%s)' % x, 'max(%s)' % y))
                if full: continue
                A = lambda p: item(attr(h, (), [wrap % p]), b)
                base = 'min = 1, max = 5'
                k = '%s_%s' % (t, wn)
                for n, p in (('dup_min', base + ', min = 1'), ('dup_min2', 'min = 1, min = 2'), ('dup_max', base + ', max = 5'), ('dup_incl', base + ', inclusive = true, inclusive = true'), ('unknown', base + ', mid = 3'), ('bare_min', 'min'),
                             ('bare_incl', base + ', inclusive'), ('incl_num', base + ', inclusive = 1'), ('incl_str', base + ', inclusive = "true"'), ('incl_word', base + ', inclusive(yes)'), ('str', 'min = "1"'), ('word', 'min = a'), ('char', "max = 'a'"),
                             ('bool', 'max = true'), ('sum', 'min = 1 + 1'), ('empty', 'min()'), ('two', 'min(1, 2)'), ('lit', '1, 5'), ('range', '1..5')):
                    C.add(h, 'range_%s_%s' % (n, k), A(p))
                C.add(h, 'range_base_' + k, good=A(base))
                C.add(h, 'range_base_incl_' + k, good=A(base + ', inclusive = true'))
                C.add(h, 'range_min_' + k, good=A('min = 1'))
                C.add(h, 'range_max_' + k, good=A('max = 5'))
                if integer:
                    for n, p in (('over', 'max = %d' % (hi + 1)), ('over_min', 'min = %d' % (hi + 1)), ('under', 'min = %d' % (lo - 1)), ('under_max', 'max = %d' % (lo - 1)), ('float', 'max = 1.5'), ('float_min', 'min = 1.5'), ('float_list', 'max(1.5)')):
                        C.add(h, 'range_%s_%s' % (n, k), A(p))
                    C.add(h, 'range_lo_' + k, good=A('min = %d' % lo))
                    C.add(h, 'range_hi_' + k, good=A('max = %d' % hi))
            if full: continue
            for n, p in (('bare', 'range'), ('eq', 'range = 5'), ('word', 'range = Unlimited' if h in ('bit', 'byte') else 'range = Inside'), ('twice', ', '.join([wraps[0][1] % 'min = 1'] * 2)), ('str', 'range = "1..5"')):
                C.add(h, 'range_%s_%s' % (n, t), item(attr(h, (), [p]), b))
            if h not in ('bit', 'byte'):
                for n, p in (('flat', 'range(min = 1)'), ('other', 'range(Within(min = 1))'), ('bare_in', 'range(Inside)'), ('bare_out', 'range(Outside)'), ('both', 'range(Inside(min = 1), Outside(min = 3))'), ('none', 'range()'), ('eq_in', 'range(Inside = 5)'), ('lower', 'range(unlimited)')):
                    C.add(h, 'range_%s_%s' % (n, t), item(attr(h, (), [p]), b))
                C.add(h, 'range_unl_' + t, good=item(attr(h, (), ['range(Unlimited)']), b))
    if full: return
    for t in ('f32', 'f64'):
        for w in ('Inside(min = 0.0, max = 1.0)', 'Inside(min = 0.5)', 'Inside(max = 3, inclusive = false)'):
            k = re.sub(r'\W+', '_', w)
            C.add('number', 'nan_%s_%s' % (t, k), item(attr('number', (), ['nan(Must)', 'range(%s)' % w]), '(pub %s);' % t), item(attr('number', (), ['nan(Allow)', 'range(%s)' % w]), '(pub %s);' % t))
            C.add('number', 'nan_no_%s_%s' % (t, k), item(attr('number', (), ['range(%s)' % w, 'conflict(Disallow)', 'nan(Must)']), '(pub %s);' % t), item(attr('number', (), ['range(%s)' % w, 'conflict(Allow)', 'nan(Must)']), '(pub %s);' % t))
        C.add('number', 'nan_out_' + t, good=item(attr('number', (), ['nan(Must)', 'range(Outside(min = 0.5, max = 1))']), '(pub %s);' % t))
        C.add('number', 'nan_unl_' + t, good=item(attr('number', (), ['nan(Must)', 'range(Unlimited)']), '(pub %s);' % t))
    for n, p in (('bare', 'ignore_case'), ('num', 'ignore_case = 1'), ('str', 'ignore_case = "true"'), ('twice', 'ignore_case = true, ignore_case = true'), ('word', 'ignore_case(Allow)')):
        C.add('byte', 'ignore_' + n, item(attr('byte', (), [p]), BODY['byte']))
    for p in ('ignore_case = true', 'ignore_case(false)'): C.add('byte', 'ignore_good_' + re.sub(r'\W+', '_', p), good=item(attr('byte', (), [p]), BODY['byte']))
    # the type of the field decides the validator's numbers
    for h, own, ts in (('number', ('f32', 'f64'), ('i32', 'u8', 'f16', 'String')), ('signed_integer', [x[0] for x in INTS['signed_integer']], ('u32', 'f64', 'bool', 'u128', 'usize')), ('unsigned_integer', [x[0] for x in INTS['unsigned_integer']], ('i32', 'f64', 'char', 'i128', 'isize'))):
        for t in ts: C.add(h, 'of_' + t, item(h, '(pub %s);' % t))
        for t in own: C.add(h, 'of_' + t, good=item(h, '(pub %s);' % t))


def lengths(C):
    M = 2**64 - 1
    pairs = [(0, 1), (3, 9), (254, 255), (M - 1, M), (0, M)]
    bad_values = (('neg', '-1'), ('over', str(M + 1)), ('float', '1.5'), ('str', '"1"'), ('word', 'a'), ('bool', 'true'))
    def A(h, o, p): return item(attr(h, (), ['%s(%s)' % (o, p)] if o else [p]), BODY[h])
    for h, os_ in (('line', ('char_length', 'byte_length')), ('text', ('char_length', 'byte_length')), ('length', (None,))):
        for o in os_:
            nm = o or 'len'
            for i, (x, y) in enumerate(pairs):
                C.add(h, '%s_%d' % (nm, i), A(h, o, 'min = %d, max = %d' % (y, x)), A(h, o, 'min = %d, max = %d' % (x, y)))
                C.add(h, '%s_rev_%d' % (nm, i), A(h, o, 'max = %d, min = %d' % (x, y)), A(h, o, 'max = %d, min = %d' % (y, x)))
                C.add(h, '%s_same_%d' % (nm, i), good=A(h, o, 'max(%d), min(%d)' % (y, y)))
                if o:
                    C.add(h, '%s_trim_%d' % (nm, i), A(h, o, 'trimmed_min = %d, min = %d' % (y, x)), A(h, o, 'trimmed_min = %d, min = %d' % (x, y)))
                    C.add(h, '%s_trimmax_%d' % (nm, i), A(h, o, 'trimmed_min = %d, max = %d' % (y, x)), A(h, o, 'trimmed_min = %d, max = %d' % (x, y)))
                    C.add(h, '%s_trim3_%d' % (nm, i), A(h, o, 'max = %d, min = %d, trimmed_min = %d' % (y, x, y)), A(h, o, 'max = %d, min = %d, trimmed_min = %d' % (y, y, x)))
                    C.add(h, '%s_all3_%d' % (nm, i), A(h, o, 'min = %d, trimmed_min = %d, max = %d' % (y, x, x)), A(h, o, 'trimmed_min = %d, min = %d, max = %d' % (x, x, y)))
                    C.add(h, '%s_trimsame_%d' % (nm, i), good=A(h, o, 'trimmed_min = %d, min = %d, max = %d' % (y, y, y)))
            names = ('min', 'max') + (('trimmed_min',) if o else ())
            for m in names:
                for vn, v in bad_values: C.add(h, '%s_%s_%s' % (nm, m, vn), A(h, o, '%s = %s' % (m, v)))
                C.add(h, '%s_%s_bare' % (nm, m), A(h, o, m))
                C.add(h, '%s_%s_twice' % (nm, m), A(h, o, '%s = 4, %s = 4' % (m, m)), A(h, o, '%s = 4' % m))
                C.add(h, '%s_%s_big' % (nm, m), good=A(h, o, '%s = %d' % (m, M)))
            C.add(h, nm + '_unknown', A(h, o, 'min = 1, mid = 3'))
            if o:
                C.add(h, nm + '_incl', A(h, o, 'min = 1, inclusive = true'))
                for n, p in (('bare', o), ('eq', o + ' = 5'), ('twice', '%s(min = 1), %s(max = 4)' % (o, o)), ('lit', o + '(5)'), ('range', o + '(1..5)')): C.add(h, '%s_%s' % (nm, n), A(h, None, p))
        if os_[0]: C.add(h, 'both_lengths', A(h, None, 'char_length(min = 1), byte_length(max = 9)'), A(h, None, 'byte_length(min = 1, max = 9)'))
        if os_[0]: C.add(h, 'both_lengths2', A(h, None, 'byte_length(min = 1), char_length(max = 9)'), A(h, None, 'char_length(min = 1, max = 9)'))
    C.add('length', 'trim', A('length', None, 'trimmed_min = 1'))


def others(C):
    for h in ('mac_address', 'uuid'):
        A = lambda *p: item(attr(h, (), p), BODY[h])
        for s in ("b':'", "b'-'", "b' '", "b'\\n'", "b'\\''"):
            for k in ('Must', 'Allow'):
                n = re.sub(r'\W', lambda m: '%x' % ord(m.group(0)), s)
                C.add(h, 'sep_%s_%s' % (k, n), A('separator = %s(%s)' % (k, s)), A('separator(%s(%s))' % (k, s)))
                C.add(h, 'sep_eq_%s_%s' % (k, n), A('separator(Disallow(%s))' % s) if k == 'Must' else None, A('separator(%s = %s)' % (k, s)))
        C.add(h, 'sep_none', good=A('separator(Disallow)'))
        for n, p in (('bare', 'separator'), ('empty', 'separator()'), ('word', 'separator(Maybe(b\'-\'))'), ('char', "separator(Must('-'))"), ('char_eq', "separator(Allow = '-')"), ('str', 'separator(Must("-"))'), ('bstr', 'separator(Must(b"-"))'), ('bare_must', 'separator(Must)'), ('bare_allow', 'separator(Allow)'),
                     ('num', 'separator(Allow(45))'), ('two', "separator(Must(b'-', b':'))"), ('both', "separator(Must(b'-'), Allow(b':'))"), ('lit', "separator(b'-')"), ('eq', 'separator = Disallow'), ('twice', 'separator(Disallow), separator(Disallow)'), ('lower', 'separator(disallow)')):
            C.add(h, 'sep_' + n, A(p))
    A = lambda p, b=BODY['phone']: item('phone(%s)' % p, b)
    C.add('phone', 'one', good=A('countries(TW)'))
    C.add('phone', 'one_as_map', A('countries(TW)', '(pub %s);' % MAP))
    C.add('phone', 'all_as_map', item('phone', '(pub %s);' % MAP))
    for n, cs in (('two', 'TW, US'), ('three', 'TW, US, JP'), ('five', 'GB, FR, DE, IT, ES')):
        C.add('phone', n, A('countries(%s)' % cs), A('countries(%s)' % cs, '(pub %s);' % MAP))
        C.add('phone', n + '_repeat', A('countries(%s, %s)' % (cs, cs.split(', ')[0]), '(pub %s);' % MAP))
        C.add('phone', n + '_repeat2', A('countries(%s, %s)' % (cs, cs.split(', ')[-1]), '(pub %s);' % MAP))
        C.add('phone', n + '_wrong', A('countries(%s, XX)' % cs, '(pub %s);' % MAP))
    for n, p in (('again', 'countries(TW, TW)'), ('wrong', 'countries(XX)'), ('lower', 'countries(tw)'), ('none', 'countries()'), ('bare', 'countries'), ('eq', 'countries = TW'), ('str', 'countries("TW")'), ('long', 'countries(Taiwan)'), ('twice', 'countries(TW), countries(US)'), ('num', 'countries(886)')):
        C.add('phone', 'countries_' + n, A(p))
    A = lambda p, e='': item('regex%s' % p, '(pub String);', extra=e)
    RE = '    pub static RE: std::sync::LazyLock<validators::regex::Regex> = std::sync::LazyLock::new(|| validators::regex::Regex::new("^a$").unwrap());\n    pub static NO: u8 = 1;\n'
    for n, bad, good in (('open', '"("', '"(a)"'), ('class', '"[a"', '"[a]"'), ('rep', '"*"', '"a*"'), ('back', r'r"(a)\1"', r'r"(a)\\1"'), ('look', '"(?=a)"', '"(?:a)"'), ('esc', r'"\\q"', r'"\\d"'), ('brace', '"a{2,1}"', '"a{1,2}"')):
        C.add('regex', 'lit_' + n, A('(regex(%s))' % bad), A('(regex(%s))' % good))
        C.add('regex', 'lit_eq_' + n, A('(regex = %s)' % bad), A('(regex = %s)' % good))
    C.add('regex', 'expr', A('(regex(NO))', RE), A('(regex(RE))', RE))
    C.add('regex', 'expr_eq', A('(regex = MISSING)', RE), A('(regex = RE)', RE))
    for n, p in (('none', ''), ('empty', '()'), ('bare', '(regex)'), ('num', '(regex(5))'), ('num_eq', '(regex = 5)'), ('bytes', '(regex(b"a"))'), ('char', "(regex('a'))"), ('bool', '(regex = true)'), ('two', '(regex("a", "b"))'), ('twice', '(regex("a"), regex("a"))'), ('no_args', '(regex())')): C.add('regex', 'regex_' + n, A(p))


def traits(l): return ''.join('    const _: fn() = || { fn is%s>() {} is::<X>(); };\n' % t for t in l)
SER, DE = '<T: validators::serde::Serialize', "<T: for<'a> validators::serde::Deserialize<'a>"
FORM, PARAM = "<T: for<'a> validators::rocket::form::FromFormField<'a>", "<T: for<'a> validators::rocket::request::FromParam<'a>"


def frameworks(C, on):
    for h in ALLV:
        for f, names, tr in (('serde', ('Serialize', 'Deserialize'), (SER, DE)), ('rocket', ('FromFormField', 'FromParam'), (FORM, PARAM))):
            if f == 'rocket' and h == 'length' or h == 'json' and not on: continue      # json brings serde along
            b = BODY[h] if h != 'json' else '(pub Vec<u32>);'
            A = lambda p, e='': item(attr(h, (), [p] if p else []), b, extra=e)
            for n, p in (('other', '%s(Other)' % f), ('both', '%s(%s, Other)' % (f, names[0])), ('dup1', '%s(%s, %s)' % (f, names[0], names[0])), ('dup2', '%s(%s, %s, %s)' % (f, names[0], names[1], names[1])), ('num', f + ' = 1'), ('str', f + ' = "true"'), ('empty', f + '()'), ('lit', f + '(true)'),
                         ('again', '%s = false, %s = false' % (f, f)), ('lower', '%s(%s)' % (f, names[0].lower())), ('word', '%s = %s' % (f, names[0]))):
                C.add(h, '%s_%s' % (f, n), A(p))
            C.add(h, f + '_false', good=A(f + ' = false'))
            on_forms = ((f, 3), (f + ' = true', 3), ('%s(%s)' % (f, names[0]), 1), ('%s(%s)' % (f, names[1]), 2), ('%s(%s, %s)' % (f, names[0], names[1]), 3), ('%s(%s, %s)' % (f, names[1], names[0]), 3))
            if not on:
                for i, (p, _) in enumerate(on_forms): C.add(h, '%s_off_%d' % (f, i), A(p))
                continue
            for i, (p, mask) in enumerate(on_forms + ((f + ' = false', 0), ('', 3))):
                for bit in (0, 1):
                    want = traits([tr[bit]])
                    if mask >> bit & 1: C.add(h, '%s_on_%d_%s' % (f, i, names[bit]), good=A(p, want))
                    else: C.add(h, '%s_on_%d_%s' % (f, i, names[bit]), A(p, want), A(p))


def features_off(C):
    """validators whose feature is off are unknown"""
    for h in ALLV:
        if h != 'line': C.add('off', h, item(attr(h), BODY[h] if 'validators::' not in BODY[h] else '(pub String);'))
    C.add('off', 'on', good=item('line', BODY['line']))


def groups():
    """[(name, features, cases)]"""
    out = []
    C = Cases(); general(C); options(C); configurations(C); ranges(C); lengths(C); others(C); out.append(('plain', ['derive', 'std'] + ALLV, C))
    C = Cases(); frameworks(C, True); out.append(('frameworks', ['derive', 'std', 'serde', 'rocket'] + ALLV, C))
    C = Cases(); frameworks(C, False); out.append(('no_frameworks', ['derive', 'std'] + [h for h in ALLV if h != 'json'], C))
    C = Cases(); ranges(C, True); out.append(('full', ['derive', 'std', 'full', 'signed_integer', 'unsigned_integer', 'number', 'bit', 'byte'], C))
    C = Cases(); features_off(C); out.append(('one_feature', ['derive', 'line'], C))
    return out


def compile_errors(name, items, feats, target):
    """{case: first error} of one compilation of all items, plus errors outside any case"""
    src, at = ['#![allow(warnings)]'], []
    keys = list(items)
    for i, k in enumerate(keys):
        s = 'pub mod m%d {\n    use validators::prelude::*;\n%s}\n' % (i, items[k])
        first = len(src) + 1
        src += s.split('\n')
        at.append((first, len(src), k))
    d = build.make_crate(name, '\n'.join(src) + '\n', feats)
    e = build.env_base()
    e.update(CARGO_TARGET_DIR=os.path.join(build.BUILD, 'target_' + target), CARGO_INCREMENTAL='0', RUSTFLAGS='-Awarnings')
    os.utime(os.path.join(d, 'src', 'lib.rs'))
    p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--message-format=json'], cwd=d, env=e, capture_output=True, text=True)
    import bisect
    starts = [a for a, _, _ in at]
    found, stray, done = {}, [], False
    for line in p.stdout.splitlines():
        try: m = json.loads(line)
        except ValueError: continue
        if m.get('reason') == 'build-finished': done = True
        if m.get('reason') != 'compiler-message' or m['message'].get('level') not in ('error', 'error: internal compiler error'): continue
        if m['target']['name'] != 'witness': raise build.BuildError('%s: %s' % (name, m['message'].get('rendered', '')[-3000:]))
        msg = m['message']
        hit = None
        for sp in sorted(msg['spans'], key=lambda s: not s['is_primary']):
            while sp is not None:
                if sp['file_name'].endswith('src/lib.rs') and not sp['file_name'].startswith('/'):
                    i = bisect.bisect_right(starts, sp['line_start']) - 1
                    if i >= 0 and at[i][0] <= sp['line_start'] <= at[i][1]: hit = at[i][2]; break
                sp = sp['expansion']['span'] if sp.get('expansion') else None
            if hit: break
        if hit: found.setdefault(hit, msg['message'])
        elif msg['spans']: stray.append(msg.get('rendered') or msg['message'])
    if not done or p.returncode != 0 and not found and not stray: raise build.BuildError('%s: %s' % (name, p.stderr[-4000:]))
    return found, stray


def decide(g):
    """(compile errors of the good cases, stray errors, bad cases which compile, examples, rounds)"""
    name, feats, C = g
    target = 'cf_plain' if name == 'one_feature' else 'cf_' + name
    good, stray = compile_errors('cf_good_' + name, C.good, feats, target)
    left, rounds, some, stray2 = dict(C.bad), 0, [], []
    while left:             # an early compiler phase hides the errors of a later one: repeat with the rest
        rounds += 1
        bad, stray2 = compile_errors('cf_bad_' + name, left, feats, target)
        if not bad: break
        some += ['%s refused: %s' % kv for kv in list(bad.items())[:4]]
        left = {k: v for k, v in left.items() if k not in bad}
    return good, stray, left, stray2 if left else [], some, rounds


def check(rep, tier):
    from concurrent.futures import ThreadPoolExecutor
    gs = groups()
    with ThreadPoolExecutor(8) as ex:
        plain = [g for g in gs if g[0] in ('plain', 'one_feature')]
        first = ex.submit(lambda: [decide(g) for g in plain])
        res = dict((g[0], ex.submit(decide, g)) for g in gs if g not in plain)
        res = {k: f.result() for k, f in res.items()}
        res.update(zip([g[0] for g in plain], first.result()))
    for name, feats, C in gs:
        good, stray, left, stray2, some, rounds = res[name]
        rep.samples += some[:4]
        if stray: rep.add(False, '%s:twins' % name, ['a compile error outside every case: ' + stray[0]], True)
        for k, v in C.good.items():
            rep.entries.append('%s:%s:compiles' % (name, k))
            rep.add(k not in good, '%s:compiles' % k, ['a documented configuration does not compile (features: %s)' % name, v, good.get(k, '')])
        for k, v in C.bad.items():
            rep.entries.append('%s:%s:refused' % (name, k))
            rep.add(k not in left, '%s:refused' % k, ['compiles although the configuration is contradictory, malformed or not documented (features: %s)' % name, v], bool(stray2))
        rep.states += len(C.bad) + len(C.good)
        rep.blocks += rounds
