"""feature selection: every documented selection of validators and frameworks type-checks and offers what it documents.

Nothing is run: the compiler's own resolution and type check of a generated crate, once per selection, are
the decision.  Without `std` the crate is `no_std`, and the crates it links (read back from the compiler's
metadata) must not include the standard library."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import build, p_config
from p_config import ALLV, BODY, TRAITS, SER, DE, FORM, PARAM, attr, item, traits

NEED_STD = {'domain', 'email', 'host', 'http_ftp_url', 'http_url', 'ip', 'ipv4', 'ipv6', 'phone', 'regex', 'url'}
ERR = {h: ''.join(x.capitalize() for x in h.split('_')) + 'Error' for h in ALLV}
ERR.update(http_url='HttpURLError', http_ftp_url='HttpFtpURLError', semver_req='SemverError')
RESP = '<T: validators::axum::response::IntoResponse'
HASHED = ('std::collections::HashMap', 'std::collections::HashSet')
COLL = {'length': ['Vec<u32>', 'std::collections::BTreeMap<u8, u8>', 'std::collections::BTreeSet<u8>', 'std::collections::BinaryHeap<u8>', 'std::collections::HashMap<u8, u8>', 'std::collections::HashSet<u8>']}


def cases():
    """{validator: {case: item}}: the documented configurations of each validator"""
    C = p_config.Cases()
    p_config.general(C); p_config.options(C); p_config.configurations(C); p_config.ranges(C); p_config.lengths(C); p_config.others(C)
    out = {h: {} for h in ALLV}
    for k, v in C.good.items():
        h, n = k.split(':', 1)
        if h in out: out[h][n] = v
    return out


def thin(d, n):
    """at most n of the cases, spread over them"""
    ks = sorted(d)
    if len(ks) <= n: return dict(d)
    keep = {ks[i * len(ks) // n] for i in range(n)} | ({'plain'} & set(ks))
    return {k: d[k] for k in ks if k in keep}


def extra(h, sel):
    """what a selection adds to the plain validator"""
    out = {}
    t = lambda n, l: out.setdefault(n, item(attr(h), BODY[h] if h != 'json' else '(pub Vec<u32>);', extra=traits(l)))
    e = '    const _: fn() = || { fn is<T: core::fmt::Debug + core::fmt::Display + Clone + PartialEq>() {} is::<validators::errors::%s>(); };\n' % ERR[h]
    if 'serde' in sel or 'axum' in sel or h == 'json':
        t('serialize', [SER]); t('deserialize', [DE])
        if h != 'length': out['result_deserialize'] = item(attr(h), BODY[h] if h != 'json' else '(pub Vec<u32>);', extra='    const _: fn() = || { fn is%s>() {} is::<validators::Result<X, validators::errors::%s>>(); };\n' % (DE, ERR[h]))
    if 'rocket' in sel and h != 'length':
        t('form', [FORM]); t('param', [PARAM])
        out['result_form'] = item(attr(h), BODY[h], extra='    const _: fn() = || { fn is%s>() {} is::<validators::Result<X, validators::errors::%s>>(); };\n' % (FORM, ERR[h]))
    if 'axum' in sel: out['response'] = '    const _: fn() = || { fn is%s>() {} is::<validators::errors::%s>(); };\n' % (RESP, ERR[h])
    if 'std' in sel or h in NEED_STD or 'rocket' in sel or 'axum' in sel:
        out['error'] = '    const _: fn() = || { fn is<T: std::error::Error>() {} is::<validators::errors::%s>(); };\n' % ERR[h]
    else: out['error'] = '    const _: fn() = || { fn is<T: core::error::Error>() {} is::<validators::errors::%s>(); };\n' % ERR[h]
    for i, c in enumerate(COLL.get(h, ())):
        if c.startswith(HASHED) and not ({'std', 'rocket', 'axum'} & set(sel)): continue
        out['collection_%d' % i] = item('length(min = 1, max = 3)', '(pub %s);' % c)
    return out


def has_std(hs, sel): return bool({'std', 'rocket', 'axum'} & set(sel)) or any(h in NEED_STD for h in hs)


def selections(tier):
    """[(name, validators, other features, cases per validator)]"""
    out = []
    thorough = tier != 'quick'
    for sel in ((), ('std',), ('serde',), ('rocket',), ('axum',)) + ((('serde', 'std'), ('rocket', 'serde'), ('full',), ('test',)) if thorough else ()):
        for h in ALLV:
            if sel == ('std',) and h in NEED_STD and not thorough: continue
            out.append(('%s%s' % (h, ''.join('+' + x for x in sel)), [h], sel, (1000 if not sel else 60) if thorough else (200 if h not in NEED_STD else 30) if not sel else 10))
    for sel in (('serde',), ('rocket', 'serde'), ('axum',), ('full', 'std'), ('test', 'std')): out.append(('all' + ''.join('+' + x for x in sel), ALLV, sel, 2))
    NS = [h for h in ALLV if h not in NEED_STD]
    out += [('no_std', NS, (), 20), ('no_std+serde', NS, ('serde',), 6), ('no_std+full', NS, ('full',), 6), ('example', ['base64', 'url', 'uuid'], (), 40)]
    # every second validator and the rest, so that a pair is apart in one of these
    for b in range(5):
        for v in (0, 1): out.append(('half_%d_%d' % (b, v), [h for i, h in enumerate(ALLV) if i >> b & 1 == v], (), 2))
    if thorough:
        for h in ALLV: out.append(('without_%s' % h, [x for x in ALLV if x != h], ('std',), 4))
        for i, a in enumerate(ALLV):
            for b in ALLV[i + 1:]: out.append(('%s+%s' % (a, b), [a, b], (), 6))
    return out


def source(hs, sel, n, C):
    std = has_std(hs, sel)
    items = {}
    for h in hs:
        for k, v in thin(C[h], n).items(): items['%s:%s' % (h, k)] = v
        for k, v in extra(h, sel).items(): items['%s:%s' % (h, k)] = v
    src, at = ['#![allow(warnings)]'] + ([] if std else ['#![no_std]', 'extern crate alloc;']), []
    for i, k in enumerate(items):
        v = items[k]
        if not std: v = v.replace('std::collections::', 'alloc::collections::').replace('std::', 'core::')
        s = 'pub mod m%d {\n    use validators::prelude::*;\n%s%s}\n' % (i, '' if std else '    use alloc::{string::String, vec::Vec};\n', v)
        first = len(src) + 1
        src += s.split('\n')
        at.append((first, len(src), k))
    return '\n'.join(src) + '\n', at, items, std


class Selection:
    def __init__(self, spec, C):
        self.name, self.hs, self.sel, self.n = spec
        self.text, self.at, self.items, self.std = source(self.hs, self.sel, self.n, C)
        self.found, self.stray, self.lib, self.linked = {}, [], [], None


def compile_one(S, slot):
    name = 'fe_%s' % slot
    d = build.make_crate(name, S.text, ['derive'] + list(S.sel) + S.hs)
    e = build.env_base()
    e.update(CARGO_TARGET_DIR=os.path.join(build.BUILD, 'target_' + name), CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_DEBUG='0', RUSTFLAGS='-Awarnings')
    os.utime(os.path.join(d, 'src', 'lib.rs'))
    p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--message-format=json'], cwd=d, env=e, capture_output=True, text=True)
    import bisect
    starts = [a for a, _, _ in S.at]
    other, rmeta = [], None
    for line in p.stdout.splitlines():
        try: m = json.loads(line)
        except ValueError: continue
        if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'witness': rmeta = next((f for f in m['filenames'] if f.endswith('.rmeta')), None)
        if m.get('reason') != 'compiler-message' or m['message'].get('level') not in ('error', 'error: internal compiler error'): continue
        msg = m['message']
        if m['target']['name'] in ('validators', 'validators_derive', 'validators-derive'):
            if msg['spans']: S.lib.append(msg.get('rendered') or msg['message'])
            continue
        if m['target']['name'] != 'witness': other.append(msg.get('rendered') or msg['message']); continue
        hit = None
        for sp in sorted(msg['spans'], key=lambda s: not s['is_primary']):
            while sp is not None:
                if sp['file_name'].endswith('src/lib.rs') and not sp['file_name'].startswith('/'):
                    i = bisect.bisect_right(starts, sp['line_start']) - 1
                    if i >= 0 and S.at[i][0] <= sp['line_start'] <= S.at[i][1]: hit = S.at[i][2]; break
                sp = sp['expansion']['span'] if sp.get('expansion') else None
            if hit: break
        if hit: S.found.setdefault(hit, msg.get('rendered') or msg['message'])
        elif msg['spans']: S.stray.append(msg.get('rendered') or msg['message'])
    if p.returncode and not (S.found or S.stray or S.lib):
        # cargo itself refuses the selection: an unknown feature, or one which asks for something that is not there
        if re.search(r'feature|failed to select a version', p.stderr) and not other: S.lib.append(p.stderr[-3000:])
        else: raise build.BuildError('%s: %s %s' % (S.name, ' '.join(other)[-3000:], p.stderr[-4000:]))
    if rmeta and p.returncode == 0 and not S.std:
        q = subprocess.run(['rustc', '+nightly', '-Zls=root', rmeta], env=e, capture_output=True, text=True)
        S.linked = re.findall(r'^\d+ (\w+)-[0-9a-f]+ hash .* kind (?:Unc|C)onditional', q.stdout, re.M)
        if not S.linked: raise build.BuildError('%s: the linked crates are unknown: %s' % (S.name, (q.stdout + q.stderr)[-2000:]))


def run(specs, tier):
    C = cases()
    todo = [Selection(s, C) for s in specs]
    # selections which share their dependencies stay together
    lanes, load = [[] for _ in range(8)], [0] * 8
    deps = lambda h: 'a' if h in ('http_url', 'http_ftp_url', 'url') else 'b' if h in ('domain', 'email', 'host') else 'c' if h in ('phone', 'regex') else 'd' if h in ('bit', 'byte') else 'e' if h in ('json', 'semver', 'semver_req') else h
    groups = {}
    for S in todo:
        if 'rocket' in S.sel: k = 'rocket%d' % (len(groups.get('rocket0', ())) > len(groups.get('rocket1', ())))
        elif 'axum' in S.sel: k = 'axum'
        elif len(S.hs) > 2: k = 'many%d' % (sum(len(g) for n, g in groups.items() if n.startswith('many')) % 2)
        else: k = deps(S.hs[0])
        groups.setdefault(k, []).append(S)
    for k, g in sorted(groups.items(), key=lambda x: -len(x[1])):
        i = load.index(min(load))
        lanes[i] += g
        load[i] += len(g) * (2 if k.startswith('rocket') or k.startswith(('axum', 'many')) else 1) + (20 if k.startswith('rocket') else 10 if k in 'abc' or k.startswith(('axum', 'many')) else 2)
    def lane(i):
        import time
        t = time.time()
        for S in lanes[i]: compile_one(S, i)
        if os.environ.get('VERIF_TIMES'): print('lane', i, len(lanes[i]), lanes[i][0].name if lanes[i] else '', '%.0f s' % (time.time() - t))
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(lane, i) for i in range(8)]: f.result()
    return todo


def check(rep, tier):
    # the whole tree must build before a selection can be at fault
    base = Selection(('base', ALLV, ('std', 'serde'), 1), cases())
    compile_one(base, 7)
    if base.lib: raise build.BuildError('the library does not build with every validator: ' + base.lib[0][-3000:])
    for S in run(selections(tier), tier):
        feats = 'features: ' + ', '.join(['derive'] + list(S.sel) + S.hs) if len(S.hs) < 6 else 'features: derive%s and %d validators (%s)' % (''.join(', ' + x for x in S.sel), len(S.hs), S.name)
        rep.entries.append('%s:library' % S.name)
        rep.add(not S.lib, '%s:library' % S.name, ['the library does not build with a documented selection', feats] + S.lib[:1])
        rep.states += 1
        if S.lib: continue
        if S.stray: rep.add(False, '%s:crate' % S.name, ['a compile error outside every case: ' + S.stray[0], feats], True)
        for k, v in S.items.items():
            rep.entries.append('%s:%s' % (S.name, k))
            rep.add(k not in S.found, '%s:%s' % (S.name, k), ['does not compile with a documented selection', feats, v, S.found.get(k, '')])
        if S.linked is not None: rep.add('std' not in S.linked, '%s:no_std' % S.name, ['links the standard library without the feature `std`', feats, ' '.join(S.linked)])
