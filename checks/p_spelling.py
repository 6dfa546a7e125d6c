"""every way of writing a configuration is the same validator: the program which the derive generates for
each spelling (taken from the compiler's macro expansion, nothing is run) is compared with the program it
generates for the explicit spelling which the handler's own property decides; where the two texts differ,
the handler's property itself is decided on the other spelling."""
import copy, importlib, itertools, math, os, re, subprocess, zlib
import build
from wit import W

MODULES = ['p_base', 'p_hex', 'p_bool', 'p_line', 'p_float', 'p_num', 'p_ip', 'p_domain', 'p_url', 'p_deleg', 'p_decoded', 'p_length', 'p_unit', 'p_email']
A = 'Allow'
DEFAULTS = {h: {'padding': A} for h in ('base32', 'base64', 'base64_url', 'base32_decoded', 'base64_decoded', 'base64_url_decoded')}
DEFAULTS.update(domain={'ipv4': A, 'local': A, 'port': A, 'at_least_two_labels': A, 'conflict': 'Disallow'}, host={'local': A, 'port': A, 'at_least_two_labels': A},
                email={'comment': A, 'ip': A, 'local': A, 'at_least_two_labels': A, 'non_ascii': A, 'conflict': 'Disallow'}, http_url={'local': A}, http_ftp_url={'local': A},
                ip={'local': A, 'port': A}, ipv4={'local': A, 'port': A}, ipv6={'local': A, 'port': A}, number={'nan': A, 'range': 'Unlimited', 'conflict': 'Disallow'},
                signed_integer={'range': 'Unlimited'}, unsigned_integer={'range': 'Unlimited'}, byte={'ignore_case': 'true'},
                mac_address={'case': 'Any', 'separator': "Allow(b':')"}, uuid={'case': 'Any', 'separator': "Allow(b'-')"})
BOTH = {'padding', 'ipv4', 'ip', 'local', 'port', 'at_least_two_labels', 'conflict', 'comment', 'non_ascii', 'nan', 'case', 'ignore_case', 'min', 'max', 'trimmed_min', 'inclusive', 'Must', 'Allow', 'regex', 'serde', 'rocket'}
LISTS = {'Inside', 'Outside', 'char_length', 'byte_length'}     # lists which admit a trailing comma, besides the outermost
TOK = re.compile(r'''\s*(b?"(?:[^"\\]|\\.)*"|b?'(?:[^'\\]|\\.)'|-?\d[\w.]*|[\w:]+|.)''')


def parse(s):
    toks = TOK.findall(s)
    i = 0
    def node():
        nonlocal i
        name = toks[i]; i += 1
        if i < len(toks) and toks[i] == '(':
            i += 1
            args = []
            while toks[i] != ')':
                args.append(node())
                if toks[i] == ',': i += 1
            i += 1
            return ('list', name, args)
        if i < len(toks) and toks[i] == '=':
            v = toks[i + 1]; i += 2
            return ('eq', name, v)
        return ('leaf', name)
    r = node()
    assert i == len(toks), s
    return r


def text(n, trail=False, top=True):
    if n[0] == 'leaf': return n[1]
    if n[0] == 'eq': return '%s = %s' % (n[1], n[2])
    if not n[2]: return n[1] + '()'
    return '%s(%s%s)' % (n[1], ', '.join(text(x, trail, False) for x in n[2]), ',' if trail and (top or n[1] in LISTS or n[1] == 'range' and n[2][0][0] != 'leaf' and n[2][0][1] in ('min', 'max', 'inclusive')) else '')


def mapn(n, f):
    if n[0] == 'list': n = ('list', n[1], [mapn(x, f) for x in n[2]])
    return f(n)


def is_num(v): return re.fullmatch(r'\d+', v) is not None


def to_eq(n):
    if n[0] == 'list' and n[1] in BOTH and len(n[2]) == 1 and n[2][0][0] == 'leaf' and n[1] not in ('serde', 'rocket'): return ('eq', n[1], n[2][0][1])
    return n

def to_list(n):
    if n[0] == 'eq' and n[1] in BOTH and not n[2].startswith('-') and n[1] not in ('serde', 'rocket'): return ('list', n[1], [('leaf', n[2])])
    return n

def respell(k):
    def f(n):
        if n[0] != 'eq' or n[1] not in ('min', 'max', 'trimmed_min') : return n
        v = n[2]
        m = re.fullmatch(r'(-?)(\d+)', v)
        if not m: return n
        d = int(m.group(2))
        w = {'hex': '0x%X' % d, 'bin': '0b' + bin(d)[2:], 'under': '_'.join(str(d)) + '_', 'oct': '0o%o' % d}[k]
        return ('eq', n[1], m.group(1) + w)
    return f

def inclusive(n):
    if n[0] == 'list' and (n[1] in ('Inside', 'Outside') or n[1] == 'range' and all(x[0] == 'eq' for x in n[2])):
        inc = [x for x in n[2] if x[1] == 'inclusive']
        if not inc: return ('list', n[1], n[2] + [('eq', 'inclusive', 'true')])
        if inc == [('eq', 'inclusive', 'true')]: return ('list', n[1], [x for x in n[2] if x[1] != 'inclusive'])
    return n


def bounds(n):
    """the lists of bounds of a configuration"""
    if n[0] != 'list': return []
    if n[1] != 'length' and n[2] and all(y[0] == 'eq' and y[1] in ('min', 'max', 'trimmed_min', 'inclusive') for y in n[2]): return [n]
    return [b for x in n[2] for b in bounds(x)]


def variants(w):
    """[(kind, attribute text, macro head | None, macro call | None)]"""
    n = parse(w.attr)
    h = n[1] if n[0] != 'eq' else n[1]
    args = n[2] if n[0] == 'list' else []
    D = DEFAULTS.get(h, {})
    mk = lambda l: ('list', h, l) if l else ('leaf', h)
    out = {}
    given = {x[1]: x for x in args}
    isdef = lambda x: x[1] in D and (text(x) == '%s(%s)' % (x[1], D[x[1]]) or text(x) == '%s = %s' % (x[1], D[x[1]]))
    out['omitted'] = text(mk([x for x in args if not isdef(x)]))
    out['explicit'] = text(mk(args + [('eq', o, v) if o == 'ignore_case' else ('list', o, [parse(v)]) for o, v in D.items() if o not in given]))
    for x in args:
        if isdef(x): out['omitted_' + x[1]] = text(mk([y for y in args if y is not x]))
    out['equals'] = text(mapn(n, to_eq))
    out['call'] = text(mapn(n, to_list))
    out['reversed'] = text(mapn(n, lambda x: (x[0], x[1], x[2][::-1]) if x[0] == 'list' else x))
    # every order of up to three options or bounds; of more, some orders, which differ from configuration to configuration
    ps = list(itertools.permutations(range(len(args))))[1:]
    if len(args) > 3: ps = (ps * 2)[zlib.crc32(w.attr.encode()) % len(ps):][:6]
    for k, q in enumerate(ps): out['order%d' % k] = text(mk([args[i] for i in q]))
    inner = max((len(x[2]) for x in bounds(n)), default=0)
    for k in range(1, math.factorial(inner)):
        def order(x):
            if x[0] != 'list' or not all(y[0] == 'eq' for y in x[2]): return x
            q = list(itertools.permutations(x[2]))
            return (x[0], x[1], list(q[k % len(q)]))
        out['bounds%d' % k] = text(mapn(n, order))
    if args: out['comma'] = text(n, True)
    out['inclusive'] = text(mapn(n, inclusive))
    if h != 'number':
        for k in ('hex', 'bin', 'under', 'oct'): out[k] = text(mapn(n, respell(k)))
    if not args: out['parens'] = h + '()'
    base = text(n)
    seen = {base}
    res = []
    for k, t in out.items():
        if t not in seen: res.append((k, t, None))
        seen.add(t)
    # literals which come from a macro_rules fragment
    lits = []
    def lit(x):
        if x[0] == 'eq' and x[1] in ('min', 'max', 'trimmed_min', 'inclusive', 'ignore_case') and re.match(r'\d|true|false', x[2]):
            lits.append(x[2]); return ('eq', x[1], '$l%d' % (len(lits) - 1))
        return x
    m = text(mapn(n, lit))
    if lits: res.append(('fragment', m, lits))
    return res


def expand(name, mods, feats):
    """the macro-expanded text of each module"""
    src = '#![allow(warnings)]\n' + '\n'.join(mods)
    d = build.make_crate(name, src, feats)
    e = build.env_base()
    e.update(CARGO_TARGET_DIR=os.path.join(build.BUILD, 'target_exp'), CARGO_INCREMENTAL='0', RUSTFLAGS='-Awarnings')
    os.utime(os.path.join(d, 'src', 'lib.rs'))
    p = subprocess.run(['cargo', '+nightly', 'rustc', '--offline', '--lib', '--', '-Zunpretty=expanded'], cwd=d, env=e, capture_output=True, text=True)
    if p.returncode != 0:
        bad = re.search(r'could not compile `witness`', p.stderr) and not re.search(r'could not compile `(?!witness)', p.stderr)
        raise (build.WitnessError if bad else build.BuildError)('%s: %s' % (name, p.stderr[-4000:]))
    out, cur = {}, None
    for line in p.stdout.splitlines():
        m = re.match(r'pub mod (m\w+) \{', line)
        if m: cur = m.group(1); out[cur] = []
        elif cur and line == '}': cur = None
        elif cur: out[cur].append(line)
    return {k: normal('\n'.join(v)) for k, v in out.items()}


def normal(t):
    """without the #[validator(..)] attribute, white space and the order of the branches for several countries"""
    while True:
        i = t.find('#[validator')
        if i < 0: break
        j, depth, q = i + 1, 0, None
        while True:
            c = t[j]
            if q:
                if c == '\\': j += 1
                elif c == q: q = None
            elif c == '"': q = c
            elif c == "'" and t[j + 2] == "'" : j += 2
            elif c == "'" and t[j + 1] == '\\': j += 3
            elif c == '[': depth += 1
            elif c == ']':
                depth -= 1
                if not depth: break
            j += 1
        t = t[:i] + t[j + 1:]
    return re.sub(r'\s+', ' ', t)


def module_text(i, attr, w, lits=None):
    body = '    #[derive(Validator)]\n    #[validator(%s)]\n    pub struct X%s\n' % (attr, w.body)
    if lits is None: return 'pub mod m%s {\n    use validators::prelude::*;\n%s%s\n}\n' % (i, body, w.extra)
    ps = ', '.join('$l%d:literal' % k for k in range(len(lits)))
    return 'macro_rules! mk%s { (%s) => {\n%s} }\npub mod m%s {\n    use validators::prelude::*;\n    mk%s!{%s}\n%s\n}\n' % (i, ps, body, i, i, ', '.join(lits), w.extra)


def check(rep, tier):
    import __main__ as R
    mods, cases, feats = [], [], {'derive', 'std'}
    for mn in MODULES:
        mod = importlib.import_module(mn)
        feats |= set(mod.FEATURES)
        seen = set()
        for i, w in enumerate(mod.witnesses()):
            if (w.attr, w.body) in seen: continue
            seen.add((w.attr, w.body))
            b = '%s_%d' % (mn, i)
            mods.append(module_text(b, w.attr, w))
            for k, t, lits in variants(w):
                v = '%s_%s' % (b, k)
                mods.append(module_text(v, t, w, lits))
                cases.append((mn, w, 'm' + b, 'm' + v, k, t, lits))
    try: texts = expand('spelling', mods, sorted(feats))
    except build.WitnessError as ex:
        rep.add(False, 'spelling:compiles', ['a documented spelling of a configuration does not compile:'] + str(ex).splitlines()[:60])
        rep.entries.append('spelling:compiles'); return
    differ = []
    for c in cases:
        mn, w, b, v, k, t, lits = c
        a, x = texts.get(b), texts.get(v)
        if a is None or x is None: raise build.BuildError('no expansion of ' + v)
        rep.entries.append(v)
        rep.fns.add('%s (%s)' % (t, k))
        if a == x or same_branches(a, x): rep.add(True, v); continue
        differ.append(c)
    rep.samples += ['%s: #[validator(%s)] expands to the same program as #[validator(%s)]' % (c[3], c[5], c[1].attr) for c in cases[:2000:250]]
    rep.blocks += len(texts); rep.states += sum(len(x) for x in texts.values())
    semantic(rep, R, differ)


def same_branches(a, b):
    """equal up to the order of the countries, whose set has no order"""
    return 'country' in a and sorted(re.findall(r'\w+|\W', a)) == sorted(re.findall(r'\w+|\W', b))


def spread(cs):
    """at most 24 of them, of every kind of spelling"""
    by = {}
    for c in cs: by.setdefault(re.sub(r'\d+$', '', c[4]), []).append(c)
    return [c for row in itertools.zip_longest(*by.values()) for c in row if c][:24]


def semantic(rep, R, differ):
    """decide the handler's own property on the spellings which expand to another program"""
    import multiprocessing
    for mn in sorted({c[0] for c in differ}):
        mod = importlib.import_module(mn)
        ws = []
        for n, (_, w, b, v, k, t, lits) in enumerate(spread([c for c in differ if c[0] == mn])):
            w2 = copy.copy(w)
            w2.name, w2.attr, w2.spelling = 'v%d' % n, t, (k, w.attr)
            if lits is not None:
                w2.attr = re.sub(r'\$l(\d+)', lambda m: lits[int(m.group(1))], t)
                w2.source = fragment_source(w2, t, lits)
            ws.append(w2)
        import wit, interp
        path = build.dump('spell_' + mn, wit.source(ws, getattr(mod, 'HEAD', '')), mod.FEATURES, getattr(mod, 'DEPS', ''), getattr(mod, 'STD', ()))
        R.PROGS[mn] = interp.Prog(path)
        R.TASKS[mn] = [(w, e) for w in ws for e in (mod.entries(w) if hasattr(mod, 'entries') else w.entries)]
        with multiprocessing.get_context('fork').Pool(R.JOBS) as p:
            for r in p.imap_unordered(R.task, [(mn, path, i) for i in range(len(R.TASKS[mn]))]):
                r.viol = [(mn + ':' + k, d) for k, d in r.viol]
                rep.merge(r)
                if r.viol: R.DEADLINE.value = min(R.DEADLINE.value, R.time.time() + R.FOUND)


def fragment_source(w, attr, lits):
    def source():
        s = W.source(w)
        body = '#[derive(Validator)]\n    #[validator(%s)]\n    pub struct X%s' % (attr, w.body)
        plain = '#[derive(Validator)]\n    #[validator(%s)]\n    pub struct X%s' % (w.attr, w.body)
        assert plain in s
        ps = ', '.join('$l%d:literal' % k for k in range(len(lits)))
        return 'macro_rules! mk_%s { (%s) => {\n%s\n} }\n' % (w.name, ps, body) + s.replace(plain, 'mk_%s!{%s}' % (w.name, ', '.join(lits)))
    return source
