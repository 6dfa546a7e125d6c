"""Disjunctive abstract interpreter over the dumped MIR (a path-sensitive dataflow analysis).

Every function is analysed by a worklist over its control-flow graph in weak topological order;
states meeting at a block are merged when the merge is exact, loop heads whose exit test depends on
an unknown length are widened (affine induction variables + array segmentation), callees in the
inlined crates are analysed in the caller's abstract context, library callees use models.
"""
import json, heapq, struct
from dom import *

DEPTH = 100000
GH = 50000          # ghost locals: loop-entry values of the terms a loop modifies

class Unsupported(Exception): pass

# ------------------------------------------------------------------ floats -> ordered integer keys
NANKEY = 1 << 66
def f_key(x):
    """order preserving integer for a python float (64 bit)"""
    if x != x: return NANKEY
    if x == 0: return 0
    b = struct.unpack('<q', struct.pack('<d', x))[0]
    return b if b >= 0 else -(b & 0x7fffffffffffffff)
F_INF = f_key(float('inf'))
F_RNG = ((-F_INF, F_INF), (NANKEY, NANKEY))
def f_const(bits, w):
    if w == 32: return struct.unpack('<f', struct.pack('<I', bits))[0]
    return struct.unpack('<d', struct.pack('<Q', bits))[0]

def I(c): return ('I', (c, ()))
UNIT = ('A', -1, 0, ())
CASE_OPS = {'to_ascii_lowercase': (((65, 90),), 32), 'to_ascii_uppercase': (((97, 122),), -32), 'to_lowercase': None, 'to_uppercase': None}

# ------------------------------------------------------------------ program
class Fn:
    pass

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.T = d['types']
        self.fns = {}
        self.byname = {}
        for f in d['fns']:
            o = Fn()
            o.__dict__.update(f)
            self.fns[o.id] = o
            self.byname.setdefault(o.path, o)
        self.roots = d['roots']
        self.consts = d['consts']
        self.generic = d['generic']
        self.prep_done = set()
        self.byty = {}
        for i, t in enumerate(self.T): self.byty.setdefault(t['s'], i)

    def tystr(self, i): return self.T[i]['s']

    def prep(self, f):
        if f.id in self.prep_done: return
        self.prep_done.add(f.id)
        n = len(f.blocks)
        succ = []
        for b in f.blocks:
            if b is None: succ.append([]); continue
            t = b['t']; k = t[0]
            if k == 'goto': s = [t[1]]
            elif k == 'switch': s = [x[1] for x in t[3]] + [t[4]]
            elif k == 'drop': s = [t[2]]
            elif k == 'call': s = [t[4]] if t[4] is not None else []
            elif k == 'assert': s = [t[4]]
            else: s = []
            succ.append(list(dict.fromkeys(s)))
        f.succ = succ
        # liveness
        use, dfn = [], []
        for b in f.blocks:
            u, d = set(), set()
            if b is not None:
                def useo(o):
                    if o[0] in ('cp', 'mv'): usep(o[1])
                def usep(p):
                    if p[0] not in d: u.add(p[0])
                    for e in p[1:]:
                        if e[0] == 'i' and e[1] not in d: u.add(e[1])
                def user(r):
                    k = r[0]
                    if k in ('use',): useo(r[1])
                    elif k == 'repeat': useo(r[1])
                    elif k in ('ref', 'reb'): usep(r[2])
                    elif k == 'raw': usep(r[1])
                    elif k == 'cast': useo(r[2])
                    elif k == 'bin': useo(r[2]); useo(r[3])
                    elif k == 'un': useo(r[2])
                    elif k == 'discr': usep(r[1])
                    elif k == 'agg':
                        for o in r[2]: useo(o)
                for s in b['s']:
                    if s[0] == '=':
                        user(s[2])
                        if len(s[1]) == 1: d.add(s[1][0])
                        else: usep(s[1])
                    elif s[0] == 'disc': usep(s[1])
                    elif s[0] == 'assume': useo(s[1])
                t = b['t']
                if t[0] == 'switch': useo(t[1])
                elif t[0] == 'call':
                    for o in t[2]: useo(o)
                    if isinstance(t[1], dict) and 'indirect' in t[1]: useo(t[1]['indirect'])
                    if len(t[3]) > 1: usep(t[3])
                    else: d.add(t[3][0])
                elif t[0] == 'assert':
                    useo(t[1])
                elif t[0] == 'ret':
                    if 0 not in d: u.add(0)
            use.append(u); dfn.append(d)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                if f.blocks[i] is None: continue
                o = set()
                for s in succ[i]: o |= live[s]
                x = use[i] | (o - dfn[i])
                if x != live[i]: live[i] = x; ch = True
        f.live = live
        # Bourdoncle weak topological order
        order = {}
        dfn_ = [0] * n
        stack = []
        cnt = [0]
        heads = set()
        import sys
        sys.setrecursionlimit(100000)
        INF = 1 << 60
        comps = {}

        def visit(v, part):
            stack.append(v)
            cnt[0] += 1
            dfn_[v] = head = cnt[0]
            loop = False
            for s in succ[v]:
                m = visit(s, part) if dfn_[s] == 0 else dfn_[s]
                if m <= head: head = m; loop = True
            if head == dfn_[v]:
                dfn_[v] = INF
                e = stack.pop()
                if loop:
                    while e != v:
                        dfn_[e] = 0
                        e = stack.pop()
                    sub = []
                    for s in succ[v]:
                        if dfn_[s] == 0: visit(s, sub)
                    heads.add(v)
                    part.insert(0, (v, sub))
                else:
                    part.insert(0, v)
            return head
        part = []
        visit(0, part)
        pos = [0]
        members = {}

        def number(p, enclosing):
            for x in p:
                if isinstance(x, tuple):
                    v, sub = x
                    order[v] = pos[0]; pos[0] += 1
                    members.setdefault(v, set()).add(v)
                    for e in enclosing: members[e].add(v)
                    number(sub, enclosing + [v])
                else:
                    order[x] = pos[0]; pos[0] += 1
                    for e in enclosing: members[e].add(x)
        number(part, [])
        f.order = order
        f.loops = members
        # locals a loop may change (assigned or mutably borrowed in its body)
        f.loop_mod = {}
        for h, ms in members.items():
            mod = set()
            for x in ms:
                b = f.blocks[x]
                if b is None: continue
                for q in b['s']:
                    if q[0] == '=':
                        mod.add(q[1][0])
                        r = q[2]
                        if (r[0] in ('ref', 'reb') and r[1]): mod.add(r[2][0])
                        elif r[0] == 'raw': mod.add(r[1][0] if not isinstance(r[1], int) else r[2][0])
                    elif q[0] in ('disc', 'dead'): mod.add(q[1][0] if isinstance(q[1], list) else q[1])
                t = b['t']
                if t[0] == 'call':
                    mod.add(t[3][0])
                    for o in t[2]:
                        if o[0] == 'mv': mod.add(o[1][0])
            f.loop_mod[h] = mod
        # integer constants of the function: widening thresholds
        th = set()
        def walk(o):
            if isinstance(o, list):
                for x in o: walk(x)
            elif isinstance(o, dict):
                if 'i' in o and len(o) == 1:
                    v = int(o['i'])
                    if abs(v) < 1 << 32: th.update((v - 1, v, v + 1))
                else:
                    for x in o.values(): walk(x)
        for b in f.blocks:
            if b:
                for s in b['s']: walk(s)
                walk(b['t'])
        f.thresholds = sorted(th)


class Interp:
    UNROLL = 70
    MAXSTATES = 6000

    def __init__(self, prog, models):
        self.P = prog
        self.T = prog.T
        self.models = models
        self.panics = []
        self.notes = set()
        self.uid = 0
        self.stack = []
        self.opaque = set()      # callee paths deliberately uninterpreted
        self.stats = {'blocks': 0, 'calls': 0, 'states': 0, 'fns': set(), 'asserts': 0}
        self.budget = 2_000_000
        self.hooks = {}
        self.monitor = None
        self.joinmax = 0
        self.frames = []
        self.recursions = []
        self.recgen = []
        self.loop_rids = {}
        self.elem_ty = {}
        self.utf8 = []

    # -------------------------------------------------------------- types
    def ty(self, i): return self.T[i]
    def is_bool(self, i): return self.T[i]['k'] == 'bool'
    def int_range(self, i):
        t = self.T[i]; k = t['k']
        if k == 'bool': return BOOL
        if k == 'char': return CHAR
        if k == 'int':
            b = t['bits']
            if t['signed']: return ((-(1 << (b - 1)), (1 << (b - 1)) - 1),)
            return ((0, (1 << b) - 1),)
        if k in ('ptr',): return ((0, (1 << 64) - 1),)
        return None

    def adt_path(self, i):
        t = self.T[i]
        return t.get('path') if t['k'] == 'adt' else None

    def find_ty(self, s): return self.P.byty.get(s)

    STR_TYS = ('alloc::string::String',)

    def mk_sym(self, ti, key, depth=0):
        """a symbolic value of type ti identified by key"""
        t = self.T[ti]; k = t['k']
        if k in ('bool', 'int', 'char'):
            return ('I', atom(AT.get(key, self.int_range(ti))))
        if k == 'float':
            return ('F', atom(AT.get(key, F_RNG)))
        if k in ('str', 'slice'):
            if k == 'str': key = key if key[-1] == 'str' else key + ('str',)
            a = AT.get(key, ())
            base = ('a', a)
            return ('Q', base, const(0), base_len(base))
        if k in ('ref', 'ptr'):
            return ('RV', self.mk_sym(t['e'], key + ('*',), depth + 1))
        if k == 'tuple':
            return ('A', ti, 0, tuple(self.mk_sym(e, key + (('f', i),), depth + 1) for i, e in enumerate(t['es'])))
        if k == 'array' and t['n'] is not None and t['n'] <= 64:
            return ('A', ti, 0, tuple(self.mk_sym(t['e'], key + (('f', i),), depth + 1) for i in range(t['n'])))
        if k == 'adt':
            p = t['path']
            if p == 'alloc::string::String':
                return self.mk_sym_str(key)
            if p == 'alloc::vec::Vec':
                a = AT.get(key, ())
                return ('Q', ('a', a), const(0), base_len(('a', a)))
            if t['ak'] == 'struct' and (t['crate'] in ('witness', 'validators') or p in ('core::ops::range::Range',)) and depth < 8:
                return ('A', ti, 0, tuple(self.mk_sym(f[1], key + (('f', i),), depth + 1) for i, f in enumerate(t['vs'][0][1])))
        if k == 'never':
            return None
        return ('S', AT.get(key + (('ty', t['s']),), ()), ti)

    def mk_sym_str(self, key):
        if key[-1] != 'str': key = key + ('str',)
        a = AT.get(key, ())
        return ('Q', ('a', a), const(0), base_len(('a', a)))

    # -------------------------------------------------------------- constants
    def constant(self, o):
        ti, c = o[1], o[2]
        v = self.cval(c, ti)
        if v is None:
            nm = o[3] if len(o) > 3 else None
            if nm: return self.mk_sym(ti, ('const', nm))
            return self.mk_sym(ti, ('const?', self.T[ti]['s']))
        return v

    def cval(self, c, ti):
        if c is None: return None
        t = self.T[ti]; k = t['k']
        if 'i' in c: return I(int(c['i']))
        if 'f' in c: return ('F', const(f_key(f_const(int(c['f']), t['bits']))))
        if 'fn' in c: return ('Fn', c['fn'])
        if 'zst' in c: return ('A', ti, 0, ())
        if 'ref' in c:
            r = c['ref']
            if r is None: return None
            e = t['e']
            v = self.cref(r, e)
            return ('RV', v) if v is not None else None
        if 'agg' in c:
            vi, fs = c['agg']
            vals = []
            for ft, fv in fs:
                x = self.cval(fv, ft)
                if x is None: return None
                vals.append(x)
            if k == 'adt' and t['path'] in ('alloc::string::String', 'alloc::vec::Vec'):
                return ('Q', ('c', b''), const(0), const(0))
            return ('A', ti, vi, tuple(vals))
        if 'bytes' in c:
            b = bytes.fromhex(c['bytes'])
            return ('A', ti, 0, tuple(I(x) for x in b))
        if 'arr' in c:
            vals = []
            for x in c['arr']:
                y = self.cval(x, t['e'])
                if y is None: return None
                vals.append(y)
            return ('A', ti, 0, tuple(vals))
        return None

    def cref(self, r, e):
        t = self.T[e]
        if 'str' in r:
            b = bytes.fromhex(r['str']); return ('Q', ('c', b), const(0), const(len(b)))
        if 'bytes' in r and t['k'] == 'slice':
            b = bytes.fromhex(r['bytes']); return ('Q', ('c', b), const(0), const(len(b)))
        if 'arr' in r and t['k'] == 'slice':
            vals = []
            for x in r['arr']:
                y = self.cval(x, t['e'])
                if y is None: return None
                vals.append(y)
            return self.seq_vals(vals)
        if 'static' in r: return self.mk_sym(e, ('static', r['static']))
        return self.cval(r, e)

    def seq_vals(self, vals):
        vals = tuple(vals)
        if all(v[0] == 'I' and is_const(v[1]) and 0 <= v[1][0] < 256 for v in vals):
            return ('Q', ('c', bytes(v[1][0] for v in vals)), const(0), const(len(vals)))
        return ('Q', ('v', vals), const(0), const(len(vals)))

    # -------------------------------------------------------------- places
    def key(self, depth, local): return depth * DEPTH + local

    def get_field(self, st, v, i, fty, vi):
        if v is None: return None
        if v[0] == 'A':
            if i < len(v[3]): return v[3][i]
            return self.mk_sym(fty, ('badfield', v[1], i))
        if v[0] == 'S':
            return self.mk_sym(fty, ('proj', ('a', v[1]), vi or 0, i))
        if v[0] == 'M':
            return self.mk_sym(fty, ('mfield', v[1], i))
        if v[0] in ('R', 'RV'):   # Box / Pin like wrappers: look through
            return v
        if v[0] == 'Q':
            return v
        self.note(st, 'field of %s' % v[0])
        return self.mk_sym(fty, ('badfield', repr(v)[:80], i))

    def deref(self, st, v):
        if v is None: return None
        if v[0] == 'RV': return v[1]
        if v[0] == 'R': return self.load(st, v[1], v[2])
        if v[0] == 'S':
            t = self.T[v[2]]
            if t['k'] in ('ref', 'ptr'): return self.mk_sym(t['e'], ('deref', ('a', v[1])))
            if t['k'] == 'adt' and t['path'] == 'alloc::boxed::Box' and t['args']:
                return self.mk_sym(t['args'][0], ('deref', ('a', v[1])))
        if v[0] == 'Q': return v
        if v[0] == 'M' and v[1] == 'Box': return v[2][0]
        self.note(st, 'deref of %s' % (v[0],))
        return None

    def load(self, st, key, projs):
        v = st.env.get(key)
        return self.proj(st, v, projs)

    def proj(self, st, v, projs):
        vi = None
        for e in projs:
            if v is None: return None
            if e == '*': v = self.deref(st, v); vi = None
            elif e[0] == 'f': v = self.get_field(st, v, e[1], e[2], vi); vi = None
            elif e[0] == 'dc': vi = e[1]
            elif e[0] == 'ix': v = self.index(st, v, e[1]); vi = None
            elif e[0] == 'ci':
                if not e[3]: v = self.index(st, v, const(e[1]))
                else: v = self.index(st, v, addc(self.seq(st, v)[3], -e[1]))
                vi = None
            elif e[0] == 'sub':
                q = self.seq(st, v)
                lo = const(e[1])
                hi = addc(q[3], -e[2]) if e[3] else const(e[2])
                v = ('Q', q[1], add(q[2], lo), sub(hi, lo))
            else:
                self.note(st, 'projection %r' % (e,)); return None
        return v

    def index(self, st, v, idx):
        if v[0] == 'A':
            c = st.const_of(idx)
            if c is not None:
                if 0 <= c < len(v[3]): return v[3][c]
                raise Infeasible()
            q = self.seq(st, v)
        else:
            q = self.seq(st, v)
        return self.cell(st, q, idx)

    def cell(self, st, q, idx):
        if q is None: return None
        base, off = q[1], q[2]
        i = add(off, idx)
        c = st.const_of(i)
        if c is not None: i = const(c)
        if base[0] == 'c':
            if c is not None:
                if 0 <= c < len(base[1]): return I(base[1][c])
                raise Infeasible()
        if base[0] == 'v':
            if c is not None:
                if 0 <= c < len(base[1]): return base[1][c]
                raise Infeasible()
            vals = [x for x in base[1]]
            if all(x[0] == 'I' for x in vals):
                s = ()
                for x in vals: s = iset_union(s, st.lrange(x[1]))
                return ('I', atom(AT.get(('at', base, i), s)))
            self.note(st, 'symbolic index into a value table')
            return None
        if base[0] == 'a':
            k = AT.key[base[1]]
            if k[0] == 'app' and k[1] in CASE_OPS:
                # the image of a string under a case mapping
                if k[1].startswith('to_ascii_'):
                    v = self.cell(st, k[2], i)
                    if v is not None:
                        import models
                        r = models.shiftcase(self, st, v, *CASE_OPS[k[1]])
                        if r is not None: return r[0][1]
                self.note(st, '%s of a text' % k[1])
        if base[0] == 'a' and base in self.elem_ty:
            return self.mk_sym(self.elem_ty[base], ('elem', base, i))
        return ('I', atom(at_atom(base, i)))

    def seq(self, st, v):
        """the sequence denoted by a (reference to a) str/slice/array/String/Vec value"""
        for _ in range(8):
            if v is None: return None
            if v[0] == 'Q': return v
            if v[0] in ('R', 'RV'): v = self.deref(st, v); continue
            if v[0] == 'A':
                t = self.T[v[1]] if v[1] >= 0 else None
                if t and t['k'] == 'array': return self.seq_vals(v[3])
                if t and t['k'] == 'adt' and t['path'] == 'alloc::borrow::Cow': v = v[3][0]; continue
                if t and t['k'] == 'adt' and len(v[3]) == 1: v = v[3][0]; continue
            if v[0] == 'S':
                t = self.T[v[2]]
                if t['k'] == 'adt' and t['path'] == 'alloc::borrow::Cow':
                    a = AT.get(('content', ('a', v[1]), 'str'), ())
                    return ('Q', ('a', a), const(0), base_len(('a', a)))
                if t['k'] in ('ref', 'ptr'): v = self.deref(st, v); continue
                if t['k'] in ('array',):
                    a = AT.get(('content', ('a', v[1])), ())
                    return ('Q', ('a', a), const(0), const(t['n']))
                a = AT.get(('content', ('a', v[1]), 'str'), ())
                return ('Q', ('a', a), const(0), base_len(('a', a)))
            break
        self.note(st, 'seq of %s' % (v[:2],))
        return None

    def place_ref(self, st, depth, p):
        """resolve a MIR place to (key, projs) or a value reference"""
        key = self.key(depth, p[0])
        projs = ()
        for e in p[1:]:
            if e == '*':
                v = self.load(st, key, projs)
                if v is not None and v[0] == 'R':
                    key, projs = v[1], v[2]
                else:
                    projs = projs + ('*',)
            elif e[0] == 'i':
                iv = st.env.get(self.key(depth, e[1]))
                projs = projs + (('ix', iv[1]),)
            elif e[0] == 'f': projs = projs + (('f', e[1], e[2]),)
            else: projs = projs + (tuple(e),)
        return key, projs

    def read(self, st, depth, p):
        if len(p) == 1: return st.env.get(depth * DEPTH + p[0])
        key, projs = self.place_ref(st, depth, p)
        return self.load(st, key, projs)

    def write(self, st, depth, p, v):
        if len(p) == 1:
            st.env[depth * DEPTH + p[0]] = v
            return
        key, projs = self.place_ref(st, depth, p)
        self.store(st, key, projs, v)

    def store(self, st, key, projs, v):
        if not projs: st.env[key] = v; return
        st.env[key] = self.upd(st, st.env.get(key), projs, v, None)

    def upd(self, st, cur, projs, v, vi):
        if not projs: return v
        e = projs[0]; rest = projs[1:]
        if e == '*':
            if cur is not None and cur[0] == 'RV': return ('RV', self.upd(st, cur[1], rest, v, None))
            if cur is not None and cur[0] == 'R':
                self.store(st, cur[1], cur[2] + rest, v); return cur
            if cur is not None and cur[0] == 'M' and cur[1] == 'Box': return ('M', 'Box', (self.upd(st, cur[2][0], rest, v, None),))
            self.note(st, 'write through unknown pointer'); return cur
        if e[0] == 'dc': return self.upd(st, cur, rest, v, e[1])
        if e[0] == 'f':
            if cur is not None and cur[0] == 'A':
                fs = list(cur[3])
                while len(fs) <= e[1]: fs.append(None)
                fs[e[1]] = self.upd(st, fs[e[1]], rest, v, None)
                return ('A', cur[1], cur[2], tuple(fs))
            if cur is None:
                fs = [None] * (e[1] + 1)
                fs[e[1]] = self.upd(st, None, rest, v, None)
                return ('A', -2, vi or 0, tuple(fs))
            if cur[0] == 'S':
                t = self.T[cur[2]]
                if t['k'] == 'adt' and t['vs']:
                    k = vi or 0
                    fs = [self.mk_sym(f[1], ('proj', ('a', cur[1]), k, i)) for i, f in enumerate(t['vs'][k][1])]
                    if e[1] < len(fs):
                        fs[e[1]] = self.upd(st, fs[e[1]], rest, v, None)
                        return ('A', cur[2], k, tuple(fs))
        if e[0] == 'ix' or e[0] == 'ci':
            idx = e[1] if e[0] == 'ix' else const(e[1])
            c = st.const_of(idx)
            if cur is not None and cur[0] == 'A' and c is not None and c < len(cur[3]):
                fs = list(cur[3]); fs[c] = self.upd(st, fs[c], rest, v, None)
                return ('A', cur[1], cur[2], tuple(fs))
            if cur is not None and cur[0] == 'Q' and not rest and cur[1][0] == 'c' and is_const(cur[2]) and is_const(cur[3]) and c is not None and cur[3][0] <= 64:
                vals = [I(x) for x in cur[1][1][cur[2][0]:cur[2][0] + cur[3][0]]]
                vals[c] = v
                return self.seq_vals(vals)
            if cur is not None and cur[0] == 'Q' and not rest and cur[1][0] == 'v' and c is not None and is_const(cur[2]):
                vals = list(cur[1][1][cur[2][0]:cur[2][0] + cur[3][0]])
                vals[c] = v
                return self.seq_vals(vals)
            if cur is not None and cur[0] == 'A' and all(x is not None and x[0] == 'I' for x in cur[3]):
                self.note(st, 'weak array update')
                self.uid += 1
                return ('A', cur[1], cur[2], tuple(('I', atom(AT.get(('weak', self.uid, j), BYTE))) for j in range(len(cur[3]))))
            if cur is not None and cur[0] == 'Q':
                self.note(st, 'slice store')
                self.uid += 1
                a = AT.get(('havoc', self.uid), ())
                return ('Q', ('a', a), const(0), cur[3])
        self.note(st, 'store %r' % (e,))
        return cur

    def note(self, st, msg):
        msg = '%s in %s' % (msg, self.stack[-1] if self.stack else '?')
        self.notes.add(msg)
        st.taint = st.taint | {msg}

    # -------------------------------------------------------------- conditions
    def cond_of(self, v):
        if v[0] == 'B': return v[1]
        if v[0] == 'I': return ('ne', v[1])
        raise Unsupported('condition %r' % (v,))

    def neg(self, c):
        k = c[0]
        if k == 'ge': return ('ge', addc(scale(c[1], -1), -1))
        if k == 'eq': return ('ne', c[1])
        if k == 'ne': return ('eq', c[1])
        if k == 'and': return ('or', self.neg(c[1]), self.neg(c[2]))
        if k == 'or': return ('and', self.neg(c[1]), self.neg(c[2]))
        if k == 'in': return ('in', c[1], iset_compl(c[2]))
        if k == 'true': return ('false',)
        if k == 'false': return ('true',)
        raise Unsupported(k)

    def assume(self, st, c):
        """list of states refining st with condition c"""
        k = c[0]
        try:
            if k == 'true': return [st]
            if k == 'false': return []
            if k == 'and':
                out = []
                for s in self.assume(st, c[1]): out += self.assume(s, c[2])
                return out
            if k == 'or':
                a = self.assume(st.copy(), c[1])
                out = list(a)
                for s in self.assume(st.copy(), self.neg(c[1])): out += self.assume(s, c[2])
                return reduce_states(out) if len(out) > 1 else out
            s = st.copy()
            l = s.norm(c[1])
            if len(l[1]) > 1 and k in ('ge', 'eq', 'ne'):
                m = self.radix(s, l)
                if m is not None: return self.assume_radix(s, k, *m)
            if k == 'ge': s.assume_ge(l)
            elif k == 'eq': s.assume_eq(l)
            elif k == 'ne': s.assume_ne(l)
            elif k == 'in':
                sg = single(l)
                if sg and abs(sg[1]) == 1:
                    s.restrict(sg[0], iset_norm([tuple(sorted(((x - sg[2]) * sg[1], (y - sg[2]) * sg[1]))) for x, y in c[2]]))
                elif not l[1]:
                    if not iset_inter(c[2], ((l[0], l[0]),)): return []
                else:
                    out = []
                    for x, y in c[2]:
                        for s1 in self.assume(st, ('and', ('ge', addc(l, -x)), ('ge', addc(scale(l, -1), y)))): out.append(s1)
                    return out
            else: raise Unsupported(k)
            return [s]
        except Infeasible:
            return []

    def radix(self, st, l):
        """sign, digits (coefficient, atom) and target when l is a positional number minus a constant"""
        sign = 1 if l[1][0][1] > 0 else -1
        ds = sorted(((k * sign, a) for a, k in l[1]), reverse=True)
        if ds[-1][0] <= 0: return None
        acc = 0
        for k, a in reversed(ds):
            if acc >= k: return None
            r = st.rng(a)
            if not r: raise Infeasible()
            if r[0][0] < 0 or r[-1][1] > 0xffff or AT.key[a][0] in ('len', 'pos', 'boff'): return None
            acc += k * r[-1][1]
        return sign, ds, -l[0] * sign

    def assume_radix(self, st, op, sign, ds, t):
        # sum of digits `op` t, with op relative to the sign
        out = []
        for i, (k, a) in enumerate(ds):
            d = t // k
            if op == 'ge' or op == 'ne':
                for side in ((1, -1) if op == 'ne' else (sign,)):
                    s = st.copy()
                    try:
                        s.restrict(a, ((d + 1, POS),) if side > 0 else ((NEG, d - 1),))
                        out.append(s)
                    except Infeasible: pass
            try:
                st = st.copy()
                st.restrict(a, ((d, d),))
            except Infeasible: return out
            t -= k * d
        if op == 'ge':
            # every digit equal: the remainder 0 compared with t
            if (t <= 0) if sign > 0 else (t >= 0): out.append(st)
        elif (t == 0) == (op == 'eq'): out.append(st)
        return out

    def decide(self, st, c):
        """True / False / None"""
        if not self.assume(st, c): return False
        if not self.assume(st, self.neg(c)): return True
        return None

    def simp(self, st, c):
        k = c[0]
        if k in ('ge', 'eq', 'ne') and not c[1][1]:
            v = c[1][0]
            r = v >= 0 if k == 'ge' else v == 0 if k == 'eq' else v != 0
            return I(1 if r else 0)
        return ('B', c)

    # -------------------------------------------------------------- operands / rvalues
    def operand(self, st, depth, o):
        if o[0] in ('cp', 'mv'):
            return self.read(st, depth, o[1])
        if o[0] == 'k': return self.constant(o)
        if o[0] == 'rtc': return I(1)
        raise Unsupported(o[0])

    def op_ty(self, f, o):
        if o[0] == 'k': return o[1]
        p = o[1]
        t = f.locals[p[0]]
        for e in p[1:]:
            T = self.T[t]
            if e == '*':
                t = T['e'] if 'e' in T else (T['args'][0] if T.get('args') else t)
            elif e[0] == 'f': t = e[2]
            elif e[0] in ('i', 'ci'): t = T['e']
        return t

    def binop(self, st, op, a, b, ta):
        if a is None or b is None: return None
        if a[0] == 'F' or b[0] == 'F':
            return self.fbin(st, op, a, b)
        if a[0] == 'B' or b[0] == 'B':
            if op in ('BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne'):
                ca, cb = self.cond_of(a), self.cond_of(b)
                if op == 'BitAnd': return ('B', ('and', ca, cb))
                if op == 'BitOr': return ('B', ('or', ca, cb))
                eq = ('or', ('and', ca, cb), ('and', self.neg(ca), self.neg(cb)))
                if op == 'Eq': return ('B', eq)
                return ('B', self.neg(eq))
            a = self.bool_int(st, a); b = self.bool_int(st, b)
        if a[0] in ('R', 'RV', 'Q', 'Fn') or a[0] == 'S' or b[0] == 'S' or a[0] == 'A' or a[0] == 'M':
            if op in ('Eq', 'Ne'):
                c = self.value_eq(st, a, b)
                return ('B', c if op == 'Eq' else self.neg(c)) if c else None
            self.note(st, 'binop %s on %s' % (op, a[0]))
            return ('I', atom(AT.get(('binop', op, repr(a), repr(b)), BOOL)))
        x, y = a[1], b[1]
        if op == 'Lt': return self.simp(st, ('ge', addc(sub(y, x), -1)))
        if op == 'Le': return self.simp(st, ('ge', sub(y, x)))
        if op == 'Gt': return self.simp(st, ('ge', addc(sub(x, y), -1)))
        if op == 'Ge': return self.simp(st, ('ge', sub(x, y)))
        if op == 'Eq': return self.simp(st, ('eq', sub(x, y)))
        if op == 'Ne': return self.simp(st, ('ne', sub(x, y)))
        if self.T[ta]['k'] == 'bool':
            cx, cy = st.const_of(x), st.const_of(y)
            if op == 'BitAnd':
                if cx == 1: return b
                if cy == 1: return a
                if cx == 0 or cy == 0: return I(0)
                return ('B', ('and', ('ne', x), ('ne', y)))
            if op == 'BitOr':
                if cx == 0: return b
                if cy == 0: return a
                if cx == 1 or cy == 1: return I(1)
                return ('B', ('or', ('ne', x), ('ne', y)))
            if op == 'BitXor':
                return self.simp(st, ('ne', sub(x, y)))
        r = self.int_range(ta)
        if op in ('Add', 'AddUnchecked'): return self.wrap(st, add(x, y), r, op, ta)
        if op in ('Sub', 'SubUnchecked'): return self.wrap(st, sub(x, y), r, op, ta)
        if op in ('Mul', 'MulUnchecked'):
            cx, cy = st.const_of(x), st.const_of(y)
            if cx is not None: return self.wrap(st, scale(y, cx), r, op, ta)
            if cy is not None: return self.wrap(st, scale(x, cy), r, op, ta)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            if op[0] == 'A': z = add(x, y)
            elif op[0] == 'S': z = sub(x, y)
            else:
                cx, cy = st.const_of(x), st.const_of(y)
                if cx is not None: z = scale(y, cx)
                elif cy is not None: z = scale(x, cy)
                else: z = None
            if z is None:
                (a1, b1), (a2, b2) = st.bounds(x), st.bounds(y)
                ps = [a1 * a2, a1 * b2, b1 * a2, b1 * b2]
                lo, hi = r[0][0], r[-1][1]
                res = ('I', atom(AT.get(('mul', x, y), ((max(lo, min(ps)), min(hi, max(ps))),))))
                if min(ps) >= lo and max(ps) <= hi: return ('A', -1, 0, (res, I(0)))
                return ('A', -1, 0, (res, ('I', atom(AT.get(('mulov', x, y), BOOL)))))
            lo, hi = r[0][0], r[-1][1]
            return ('A', -1, 0, (('I', z), ('B', ('or', ('ge', addc(scale(z, -1), lo - 1)), ('ge', addc(z, -hi - 1))))))
        if op in ('Shl', 'ShlUnchecked'):
            cy = st.const_of(y)
            if cy is not None and r and 0 <= cy < 128: return self.wrap(st, scale(x, 1 << cy), r, op, ta, bits=True)
        if op in ('Shr', 'ShrUnchecked'):
            cy = st.const_of(y)
            if cy is not None: return self.divmod(st, x, 1 << cy, True)[0]
        if op == 'Div':
            cy = st.const_of(y)
            if cy: return self.divmod(st, x, cy)[0]
        if op == 'Rem':
            cy = st.const_of(y)
            if cy: return self.divmod(st, x, cy)[1]
        if op == 'BitAnd':
            for u, v in ((x, y), (y, x)):
                c = st.const_of(v)
                if c is None: continue
                cu = st.const_of(u)
                if cu is not None: return I(cu & c)
                if c == 0: return I(0)
                sg = single(u)
                if sg and sg[1] == 1 and sg[2] and not AT.struct[sg[0]] and iset_size(st.rng(sg[0])) <= 300:
                    p = self.piecewise(st, u, lambda t: t & c)
                    if p: return p
                lo, hi = st.bounds(u)
                if c > 0 and (c & (c + 1)) == 0:
                    if lo >= 0 and hi <= c: return ('I', u)
                    return self.divmod(st, u, c + 1, True)[1]
                # high mask: u & ~(2^k-1)
                if lo >= 0 and hi > 0:
                    m = (1 << hi.bit_length()) - 1
                    inv = m & ~c
                    if (inv & (inv + 1)) == 0:
                        d = self.divmod(st, u, inv + 1)[1]
                        return ('I', sub(u, d[1]))
                # finite small ranges: piecewise
                p = self.piecewise(st, u, lambda t: t & c)
                if p: return p
        if op == 'BitOr' or op == 'BitXor':
            for u, v in ((x, y), (y, x)):
                lo, hi = st.bounds(v)
                if lo < 0: continue
                k = hi.bit_length()
                g = 1 << k
                if u[0] % g == 0 and all(c % g == 0 for _, c in u[1]) and st.bounds(u)[0] >= 0:
                    return ('I', add(u, v))
            cx, cy = st.const_of(x), st.const_of(y)
            if cx is not None and cy is not None: return I(cx | cy if op == 'BitOr' else cx ^ cy)
            for u, v in ((x, y), (y, x)):
                c = st.const_of(v)
                if c is not None:
                    p = self.piecewise(st, u, (lambda t: t | c) if op == 'BitOr' else (lambda t: t ^ c))
                    if p: return p
        self.note(st, 'binop %s' % op)
        return ('I', atom(AT.get(('binop', op, x, y), r or BOOL)))

    def bool_int(self, st, v):
        if v[0] == 'B':
            d = self.decide(st, v[1])
            if d is not None: return I(1 if d else 0)
            return ('I', atom(AT.get(('condval', v[1]), BOOL)))
        return v

    def piecewise(self, st, l, fn):
        """fn applied to a one-atom term with a small byte-like range, as a piecewise shift"""
        sg = single(l)
        if not sg or sg[1] != 1: return None
        a = sg[0]
        r = st.rng(a)
        if iset_size(r) > 300: return None
        groups = {}
        for v in iset_iter(r):
            w = fn(v + sg[2])
            groups.setdefault(w - v, []).append((v, v))
        cases = tuple((iset_norm(s), (d, ((a, 1),))) for d, s in sorted(groups.items()))
        if len(cases) == 1: return ('I', cases[0][1])
        if len(cases) > 4:
            groups = {}
            for v in iset_iter(r): groups.setdefault(fn(v + sg[2]), []).append((v, v))
            if len(groups) < len(cases): cases = tuple((iset_norm(s), const(w)) for w, s in sorted(groups.items()))
        return ('I', atom(AT.get(('pw', ('a', a), cases), ((NEG, POS),))))

    def divmod(self, st, x, c, floor=False):
        """quotient and remainder; with floor also for negative x (arithmetic shift, two's-complement mask)"""
        cx = st.const_of(x)
        if cx is not None and (cx >= 0 or floor): return I(cx // c), I(cx % c)
        lo, hi = st.bounds(x)
        if lo < 0 and not floor:
            self.note(st, 'division of a possibly negative value')
            return ('I', atom(AT.get(('sdiv', x, c), ((NEG, POS),)))), ('I', atom(AT.get(('srem', x, c), ((-c, c),))))
        # exact split of multiples
        q = (x[0] // c, tuple((a, k // c) for a, k in x[1] if k % c == 0))
        r = (x[0] % c, tuple((a, k) for a, k in x[1] if k % c))
        rlo, rhi = st.bounds(r)
        if 0 <= rlo and rhi < c: return ('I', q), ('I', r)
        if q[1] and (len(r[1]) > 1 or r[0]) and rlo >= 0:
            d, m = self.divmod(st, r, c, floor)
            return ('I', add(q, d[1])), m
        # (g*hi + low) / c  with low < g and g | c
        for g in sorted({k for _, k in r[1] if k > 1 and c % k == 0}, reverse=True):
            h = (0, tuple((a, k // g) for a, k in r[1] if k % g == 0))
            low = (r[0], tuple((a, k) for a, k in r[1] if k % g))
            llo, lhi = st.bounds(low)
            if low[1] or low[0]:
                if not (0 <= llo and lhi < g): continue
            d, m = self.divmod(st, h, c // g, floor)
            return ('I', add(q, d[1])), ('I', add(scale(m[1], g), low))
        sg = single(x)
        if sg and iset_size(st.rng(sg[0])) <= 300 and not AT.struct[sg[0]]:
            a = self.piecewise(st, x, lambda t: t // c); b = self.piecewise(st, x, lambda t: t % c)
            if a and b: return a, b
        a = AT.get(('div', x, c), ((lo // c, hi // c),))
        m = add(x, atom(a), -c)
        try:
            st.assume_ge(m); st.assume_ge(addc(scale(m, -1), c - 1))
        except Infeasible: pass
        m = st.norm(m)
        return ('I', st.norm(atom(a))), ('I', m)

    def wrap(self, st, z, r, op, ta, bits=False):
        lo, hi = st.bounds(z)
        if r is None or (lo >= r[0][0] and hi <= r[-1][1]): return ('I', z)
        if st.ge(addc(z, -r[0][0])) and st.ge(addc(scale(z, -1), r[-1][1])): return ('I', z)
        return ('I', atom(AT.get(('wrap', z, self.T[ta]['s']), r)))

    def fbin(self, st, op, a, b):
        if op not in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne') or a[0] != 'F' or b[0] != 'F':
            self.note(st, 'float op %s' % op)
            return ('F', atom(AT.get(('fop', op, a, b), F_RNG)))
        x, y = a[1], b[1]
        cx, cy = st.const_of(x), st.const_of(y)
        if cx is not None and cy is not None:
            if NANKEY in (cx, cy): return I(1 if op == 'Ne' else 0)
            return I(int({'Lt': cx < cy, 'Le': cx <= cy, 'Gt': cx > cy, 'Ge': cx >= cy, 'Eq': cx == cy, 'Ne': cx != cy}[op]))
        if cx is not None:
            return self.fbin(st, {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le', 'Eq': 'Eq', 'Ne': 'Ne'}[op], b, a)
        if cy is not None:
            if cy == NANKEY: return I(1 if op == 'Ne' else 0)
            s = {'Lt': ((-F_INF, cy - 1),), 'Le': ((-F_INF, cy),), 'Gt': ((cy + 1, F_INF),), 'Ge': ((cy, F_INF),),
                 'Eq': ((cy, cy),), 'Ne': iset_compl(((cy, cy),), -F_INF, NANKEY)}[op]
            s = tuple((p, q) for p, q in s if p <= q)
            if not s: return I(0)
            return ('B', ('in', x, s))
        if x == y:
            # only NaN differs from itself
            if op in ('Eq', 'Le', 'Ge'): return ('B', ('in', x, ((-F_INF, F_INF),)))
            if op == 'Ne': return ('B', ('in', x, ((NANKEY, NANKEY),)))
            return I(0)
        self.note(st, 'float comparison of two unknowns')
        return ('I', atom(AT.get(('fcmp', op, x, y), BOOL)))

    def value_eq(self, st, a, b):
        """condition for structural equality of two values, or None"""
        if a is None or b is None: return None
        for _ in range(6):
            if a[0] in ('R', 'RV') or b[0] in ('R', 'RV'):
                if a[0] in ('R', 'RV'): a = self.deref(st, a)
                if b[0] in ('R', 'RV'): b = self.deref(st, b)
                if a is None or b is None: return None
        if a[0] == 'I' and b[0] == 'I': return ('eq', sub(a[1], b[1]))
        if a[0] in ('I', 'B') and b[0] in ('I', 'B'):
            return self.cond_of(self.binop(st, 'Eq', a, b, 0))
        if a[0] == 'F' and b[0] == 'F':
            r = self.fbin(st, 'Eq', a, b); return self.cond_of(r)
        if a[0] == 'A' and b[0] == 'A' and self.T[a[1]]['k'] if a[0] == 'A' and a[1] >= 0 else False:
            pass
        if a[0] == 'A' and b[0] == 'A':
            if a[2] != b[2]: return ('false',)
            c = ('true',)
            for x, y in zip(a[3], b[3]):
                d = self.value_eq(st, x, y)
                if d is None: return None
                c = d if c == ('true',) else ('and', c, d)
            return c
        if (a[0] == 'A' and b[0] == 'S') or (a[0] == 'S' and b[0] == 'A'):
            if b[0] == 'A': a, b = b, a
            # b symbolic
            t = self.T[b[2]]
            if t['k'] == 'adt' and t['ak'] == 'enum':
                d = self.discr_lin(b)
                c = ('eq', addc(d, -int(t['discr'][a[2]])))
                for i, x in enumerate(a[3]):
                    fty = t['vs'][a[2]][1][i][1]
                    e = self.value_eq(st, x, self.mk_sym(fty, ('proj', ('a', b[1]), a[2], i)))
                    if e is None: return None
                    c = ('and', c, e)
                return c
            return None
        if a[0] == 'S' and b[0] == 'S':
            if a == b: return ('true',)
            return ('ne', atom(AT.get(('eq', ('a', a[1]), ('a', b[1])), BOOL)))
        if a[0] == 'Q' or b[0] == 'Q':
            return self.seq_eq(st, self.seq(st, a), self.seq(st, b))
        return None

    def seq_eq(self, st, p, q, ci=False):
        if p is None or q is None: return None
        if p == q and not ci: return ('true',)
        for u, v in ((p, q), (q, p)):
            n = st.const_of(v[3])
            if n is not None and n <= 64 and (not ci or v[1][0] == 'c'):
                c = ('eq', addc(u[3], -n))
                for i in range(n):
                    x, y = self.cell(st, v, const(i)), None
                    if u[1][0] in ('c', 'v'):
                        m = st.const_of(u[3])
                        if m is not None and i >= m: return ('false',)
                    y = self.cell(st, u, const(i))
                    if x is None or y is None: return None
                    if ci:
                        k = st.const_of(x[1])
                        if k is None: return None
                        ch = chr(k)
                        d = ('in', y[1], iset_norm([(ord(z), ord(z)) for z in {ch.lower(), ch.upper()} if len(z) == 1]))
                    else:
                        d = self.value_eq(st, x, y)
                        if d is None: return None
                        if d[0] in ('eq', 'ne') and not d[1][1]:
                            ok = (d[1][0] == 0) == (d[0] == 'eq')
                            if ok: continue
                            return ('false',)
                    c = ('and', c, d)
                return c
        return ('ne', atom(AT.get(('seqeq', p[1:], q[1:], ci), BOOL)))

    def discr_lin(self, v):
        """linear term of the discriminant of a symbolic enum"""
        t = self.T[v[2]]
        ds = sorted(int(x) for x in t['discr'])
        return atom(AT.get(('disc', ('a', v[1])), iset_norm([(x, x) for x in ds])))

    def discriminant(self, st, v):
        if v is None: return None
        if v[0] == 'A':
            t = self.T[v[1]] if v[1] >= 0 else None
            if t and t['k'] == 'adt' and t['discr']: return I(int(t['discr'][v[2]]))
            return I(v[2])
        if v[0] == 'S':
            t = self.T[v[2]]
            if t['k'] == 'adt' and t['ak'] == 'enum': return ('I', self.discr_lin(v))
        self.note(st, 'discriminant of %s' % (v[0],))
        return None

    def rvalue(self, st, depth, f, r, dty):
        k = r[0]
        if k == 'use': return self.operand(st, depth, r[1])
        if k in ('ref', 'reb'):
            key, projs = self.place_ref(st, depth, r[2])
            return self.mkref(st, key, projs)
        if k == 'raw':
            key, projs = self.place_ref(st, depth, r[1])
            return self.mkref(st, key, projs)
        if k == 'bin':
            a = self.operand(st, depth, r[2]); b = self.operand(st, depth, r[3])
            return self.binop(st, r[1], a, b, self.op_ty(f, r[2]))
        if k == 'un':
            a = self.operand(st, depth, r[2])
            return self.unop(st, r[1], a, dty, f, r[2])
        if k == 'cast':
            a = self.operand(st, depth, r[2])
            return self.cast(st, r[1], a, r[3], self.op_ty(f, r[2]))
        if k == 'discr': return self.discriminant(st, self.read(st, depth, r[1]))
        if k == 'agg':
            vals = tuple(self.operand(st, depth, o) for o in r[2])
            ak = r[1]
            if ak[0] == 'array': return ('A', dty, 0, vals)
            if ak[0] == 'tuple': return ('A', dty, 0, vals)
            if ak[0] == 'adt': return ('A', ak[1], ak[2], vals)
            if ak[0] == 'closure': return ('A', ak[1], 0, vals)
            self.note(st, 'aggregate %s' % ak[0]); return None
        if k == 'repeat':
            v = self.operand(st, depth, r[1])
            if r[2] is not None and r[2] <= 4096: return ('A', dty, 0, (v,) * r[2])
            return None
        self.note(st, 'rvalue %s' % k)
        return None

    def mkref(self, st, key, projs):
        # a reference through a value reference stays a value reference
        v = st.env.get(key)
        cur = v
        for n, e in enumerate(projs):
            if cur is None: break
            if e == '*' and (cur[0] == 'RV' or cur[0] == 'S' or cur[0] == 'Q'):
                val = self.proj(st, cur, projs[n:])
                return ('RV', val)
            if e == '*' and cur[0] == 'R':
                return self.mkref(st, cur[1], cur[2] + projs[n + 1:])
            cur = self.proj(st, cur, (e,)) if e[0] != 'dc' else cur
            if e != '*' and e[0] == 'dc' and cur[0] == 'S':
                val = self.proj(st, cur, projs[n:])
                return ('RV', val)
        return ('R', key, projs)

    def unop(self, st, op, a, dty, f, o):
        if a is None: return None
        if op == 'Not':
            if a[0] == 'B': return ('B', self.neg(a[1]))
            if a[0] == 'I':
                t = self.T[self.op_ty(f, o)]
                if t['k'] == 'bool':
                    c = st.const_of(a[1])
                    if c is not None: return I(1 - c)
                    return ('B', ('eq', a[1]))
                r = self.int_range(self.op_ty(f, o))
                if not t['signed']: return ('I', sub(const(r[-1][1]), a[1]))
                return ('I', addc(scale(a[1], -1), -1))
        if op == 'Neg':
            if a[0] == 'I': return ('I', scale(a[1], -1))
            if a[0] == 'F':
                c = st.const_of(a[1])
                if c is not None: return ('F', const(-c if c != NANKEY else c))
                if st.bounds(a[1])[1] <= F_INF: return ('F', scale(a[1], -1))
        if op == 'PtrMetadata':
            q = self.seq(st, a)
            if q: return ('I', q[3])
        self.note(st, 'unop %s' % op)
        return self.mk_sym(dty, ('unop', op, repr(a)[:200]))

    def cast(self, st, kind, a, ti, sty):
        if a is None: return None
        t = self.T[ti]
        if kind.startswith('ptr:Unsize'):
            if t['k'] == 'ref' and self.T[t['e']]['k'] == 'slice':
                v = a
                src = self.deref(st, a)
                if src is not None and src[0] == 'A' and self.T[t['e']]['k'] == 'slice':
                    if a[0] == 'R' and t.get('mut'): return a
                    return ('RV', self.seq_vals(src[3]))
                if src is not None and src[0] == 'S':
                    return ('RV', self.seq(st, src))
            return a
        if kind.startswith('ptr:'): return a
        if kind in ('PtrToPtr', 'Transmute') and a[0] in ('R', 'RV', 'S'):
            if kind == 'Transmute' and t['k'] == 'ref': return a
            return a
        if kind == 'Transmute':
            v = self.transmute(st, a, ti)
            if v is not None: return v
        if a[0] == 'B': a = self.bool_int(st, a)
        if kind == 'IntToInt' or (a[0] == 'I' and t['k'] in ('int', 'char', 'bool')):
            if a[0] != 'I':
                if a[0] == 'A' or a[0] == 'S':
                    d = self.discriminant(st, a)
                    if d: a = d
                    else: return None
                else:
                    return None
            r = self.int_range(ti)
            lo, hi = st.bounds(a[1])
            if lo >= r[0][0] and hi <= r[-1][1]: return ('I', a[1])
            if len(a[1][1]) > 1 and (lo >= r[0][0] or st.ge(addc(a[1], -r[0][0]))) and (hi <= r[-1][1] or st.ge(addc(scale(a[1], -1), r[-1][1]))): return ('I', a[1])
            c = st.const_of(a[1])
            if c is not None:
                b = t['bits']; c &= (1 << b) - 1
                if t['signed'] and c >> (b - 1): c -= 1 << b
                return I(c)
            if lo >= 0 and t['k'] == 'int' and not t['signed']:
                # truncation: drop the multiples of 2^bits exactly
                m = 1 << t['bits']
                low = (a[1][0] % m, tuple((x, k) for x, k in a[1][1] if k % m))
                rl, rh = st.bounds(low)
                if 0 <= rl and rh < m: return ('I', low)
            return ('I', atom(AT.get(('cast', a[1], t['s']), r)))
        if kind == 'IntToFloat' and a[0] == 'I':
            c = st.const_of(a[1])
            if c is not None: return ('F', const(f_key(float(c))))
            return ('F', atom(AT.get(('i2f', a[1], t['s']), ((-F_INF, F_INF),))))
        if kind == 'FloatToFloat' and a[0] == 'F':
            c = st.const_of(a[1])
            if c is not None or self.T[sty]['s'] == 'f32' and t['s'] == 'f64': return a     # exact
            return ('F', atom(AT.get(('f2f', a[1], t['s']), F_RNG)))
        if a[0] in ('R', 'RV'): return a
        self.note(st, 'cast %s' % kind)
        return self.mk_sym(ti, ('cast?', kind, repr(a)[:200]))

    def flat_bytes(self, st, v, ti):
        """the bytes of an integer, array or single-field structure in memory order"""
        import models
        t = self.T[ti]
        if v is None: return None
        if v[0] == 'I' and t['k'] == 'int' and not t['signed']: return models.bytes_of(self, st, v[1], t['bits'] // 8)
        if v[0] == 'A' and t['k'] == 'array':
            out = []
            for x in v[3]:
                b = self.flat_bytes(st, x, t['e'])
                if b is None: return None
                out += b
            return out
        if v[0] == 'A' and t['k'] == 'adt' and t['ak'] == 'struct' and len(v[3]) == 1:
            return self.flat_bytes(st, v[3][0], t['vs'][0][1][0][1])
        return None

    def from_bytes(self, bs, ti):
        t = self.T[ti]
        if t['k'] == 'int' and not t['signed'] and t['bits'] == 8 * len(bs):
            l = const(0)
            for i, b in enumerate(bs): l = add(l, b[1], 1 << (8 * i))
            return ('I', l)
        if t['k'] == 'array' and t['n'] and len(bs) % t['n'] == 0:
            k = len(bs) // t['n']
            vs = [self.from_bytes(bs[i * k:i * k + k], t['e']) for i in range(t['n'])]
            return ('A', ti, 0, tuple(vs)) if None not in vs else None
        if t['k'] == 'adt' and t['ak'] == 'struct' and len(t['vs'][0][1]) == 1:
            x = self.from_bytes(bs, t['vs'][0][1][0][1])
            return ('A', ti, 0, (x,)) if x is not None else None
        return None

    def transmute(self, st, a, ti):
        if a[0] != 'I' and a[0] != 'A': return None
        src = a[1] if a[0] == 'A' else None
        if src is not None and src < 0: return None
        if src is None:
            t = self.T[ti]
            if t['k'] == 'int': return None
            # the integer's width is that of the target
            def size(i):
                t = self.T[i]
                if t['k'] == 'int': return t['bits'] // 8
                if t['k'] == 'array' and t['n'] is not None:
                    z = size(t['e']); return z * t['n'] if z else None
                if t['k'] == 'adt' and t['ak'] == 'struct' and len(t['vs'][0][1]) == 1: return size(t['vs'][0][1][0][1])
                return None
            n = size(ti)
            if not n or st.bounds(a[1])[0] < 0: return None
            import models
            bs = models.bytes_of(self, st, a[1], n)
        else: bs = self.flat_bytes(st, a, src)
        return self.from_bytes(bs, ti) if bs else None

    # -------------------------------------------------------------- functions
    def reachable(self, env, roots):
        seen = set()
        st = list(roots)
        def scan(v):
            if type(v) is not tuple: return
            if v and v[0] == 'R':
                if v[1] not in seen: seen.add(v[1]); st.append(v[1])
                return
            if v and v[0] in ('I', 'B', 'F', 'Q'):
                if v[0] == 'Q' and v[1][0] == 'v':
                    for x in v[1][1]: scan(x)
                return
            for x in v:
                if type(x) is tuple: scan(x)
        while st:
            k = st.pop()
            if type(k) is int:
                v = env.get(k)
                if v is not None: scan(v)
        return seen

    def exec_fn(self, fid, args, st):
        f = self.P.fns[fid]
        self.P.prep(f)
        if any(x == fid for x in self.frames):
            n = sum(1 for x in self.frames if x == fid)
            if n >= 2 or len(self.frames) > 60:
                self.on_recursion(f, st)
                return []
        if len(self.frames) > 80:
            self.on_recursion(f, st); return []
        self.frames.append(fid)
        self.stack.append(f.path)
        self.stats['fns'].add(f.path)
        depth = len(self.frames)
        # isolate the callee: keep only what the arguments can reach
        tmp = {}
        roots = set()
        env = st.env
        keep = set()
        def scan(v):
            if type(v) is not tuple: return
            if v and v[0] == 'R': roots.add(v[1]); return
            for x in v:
                if type(x) is tuple: scan(x)
        for a in args: scan(a)
        keep = self.reachable(env, roots) | roots
        if self.monitor: keep |= {k for k in env if k < 0}
        outer = {k: v for k, v in env.items() if k not in keep}
        s0 = st.copy()
        s0.env = {k: v for k, v in env.items() if k in keep}
        for i in range(f.argc): s0.env[depth * DEPTH + 1 + i] = args[i] if i < len(args) else None
        ctx = s0.ctx
        sub0 = s0.sub
        s0.ctx = ()
        try:
            res = self.run_body(f, s0, depth)
        finally:
            self.frames.pop(); self.stack.pop()
        out = []
        for s in res:
            rv = s.env.get(depth * DEPTH)
            e = dict(outer) if s.sub is sub0 else {k: subst_val(v, s.norm) for k, v in outer.items()}
            for k, v in s.env.items():
                if k < depth * DEPTH: e[k] = v
            s.env = e
            s.ctx = ctx
            out.append((s, rv))
        return out

    def on_recursion(self, f, st):
        self.recursions.append((f.path, list(self.stack)))
        self.notes.add('recursion in %s' % f.path)

    def prune(self, f, st, depth, b):
        """drop dead locals (keep what live references reach)"""
        base = depth * DEPTH
        live = f.live[b]
        env = st.env
        roots = {k for k in env if k < base or (k - base) in live or k - base >= GH}
        if len(roots) == len(env): return
        keep = roots | self.reachable(env, roots)
        st.env = {k: env[k] for k in env if k in keep}

    def run_body(self, f, s0, depth):
        pend = {0: [s0]}
        heap = [(f.order[0], 0)]
        inheap = {0}
        rets = []
        rec = {}
        while heap:
            _, b = heapq.heappop(heap)
            inheap.discard(b)
            states = pend.pop(b, [])
            if not states: continue
            states = [s for s in states if not self.stale(s)]
            for s in states: self.prune(f, s, depth, b)
            milestone = False
            if self.monitor:
                nx = []
                for s in states:
                    was = self.monitor.over(s)
                    ys = self.monitor(self, s)
                    if not was and any(self.monitor.over(y) for y in ys): milestone = True
                    nx += ys
                states = nx
            if len(states) > 1: states = reduce_states(states)
            if self.joinmax and len(states) > self.joinmax and (milestone or self.after_loop(f, b)): states = self.fold_states(f, depth, b, states)
            if b in f.loops: states = self.loop_head(f, depth, b, states, rec)
            self.stats['states'] += len(states)
            if len(states) > self.MAXSTATES: raise Unsupported('state explosion in %s' % f.path)
            for s in states:
                self.stats['blocks'] += 1
                self.budget -= 1
                if self.budget < 0: raise Unsupported('analysis budget exhausted in %s' % f.path)
                for s2, tgt in self.exec_block(f, depth, b, s):
                    if tgt == 'ret': rets.append(s2); continue
                    self.edge(f, b, tgt, s2, depth)
                    pend.setdefault(tgt, []).append(s2)
                    if tgt not in inheap:
                        inheap.add(tgt); heapq.heappush(heap, (f.order[tgt], tgt))
        # forget the callee frame except the return slot
        base = depth * DEPTH
        own = {h[3] for h in rec.values()}
        rets = [s for s in rets if not self.stale(s)]
        if self.monitor: rets = [y for s in rets for y in self.monitor(self, s)]
        for s in rets:
            if own and s.prov: s.prov = tuple(x for x in s.prov if x[0] not in own)
            s.env = {k: v for k, v in s.env.items() if k <= base}
            v = s.env.get(base)
            s.ctx = ()
        if len(rets) > 1: rets = reduce_states(rets)
        return rets

    def edge(self, f, u, v, st, depth):
        c = st.ctx
        while c and v not in f.loops[c[-1][0]]:
            st.env.pop(depth * DEPTH + GH + c[-1][0], None)
            c = c[:-1]
        if v in f.loops:
            if c and c[-1][0] == v:
                h, n, m = c[-1][:3]
                if m == 'w': pass
                elif m == 's' or n >= self.UNROLL: c = c[:-1] + ((h, 0, 'w') + c[-1][3:],)
                else: c = c[:-1] + ((h, n + 1, m) + c[-1][3:],)
            else:
                c = c + ((v, 0, 'u', self.entry_key(f, v, st, depth)),)
                self.ghosts(f, v, st, depth)
        st.ctx = c

    def entry_key(self, f, v, st, depth):
        """constants among the loop-modified locals at loop entry: separate analyses per entry"""
        base = depth * DEPTH
        out = []
        for i in sorted(f.loop_mod[v] & f.live[v]):
            x = st.env.get(base + i)
            if x is not None: out.append((i, const_shape(x)))
        return tuple(out)

    def ghosts(self, f, v, st, depth):
        base = depth * DEPTH
        seen = {}
        for i in sorted(f.loop_mod[v] & f.live[v]):
            x = st.env.get(base + i)
            if x is not None: offset_terms(x, seen)
        if seen: st.env[base + GH + v] = ('A', -1, 0, tuple(('I', l) for l in seen.values()))

    def flag_sym(self, st, lvl=-1):
        """the exit test of the innermost loop depends on an unknown length"""
        c = st.ctx
        if c and c[-1][2] == 'u': st.ctx = c[:-1] + ((c[-1][0], c[-1][1], 's') + c[-1][3:],)

    def after_loop(self, f, b):
        """b is entered by an edge that leaves a loop"""
        x = getattr(f, 'exits', None)
        if x is None:
            x = f.exits = {v for L in f.loops.values() for u in L for v in f.succ[u] if v not in L}
        return b in x

    def fold_states(self, f, depth, b, states):
        """one state per shape: bounds the disjunctions outside loops"""
        out = []
        groups = {}
        for s in states:
            if s.ctx or s.env.get(depth * DEPTH) is not None: out.append(s); continue
            groups.setdefault(self.shape_key(f, depth, s, b), []).append(s)
        for g in groups.values():
            J = g[0]
            for B in g[1:]:
                if self.subsumes(J, B, set()): J.prov = tuple(x for x in J.prov if x in B.prov); continue
                K, _ = self.join(f, J, B, set(), 0, True)
                K.prov = tuple(x for x in J.prov if x in B.prov)
                J = K
            out.append(J)
        return out

    # -------------------------------------------------------------- loop heads
    def stale(self, st, own=None):
        """the state stems from a loop invariant that has since been weakened"""
        g = self.recgen
        return any(g[r] != n for r, n in st.prov if r != own)

    def loop_head(self, f, depth, b, states, rec):
        out = []
        for s in states:
            if not s.ctx or s.ctx[-1][2] != 'w':
                out.append(s); continue
            key = (b, self.shape_key(f, depth, s, b))
            h = rec.get(key)
            if h is None or self.stale(h[0], h[3]):
                if sum(1 for k in rec if k[0] == b) > 600: raise Unsupported('loop does not stabilise in %s' % f.path)
                if h is not None: self.recgen[h[3]] = -1
                rid = len(self.recgen); self.recgen.append(0)
                s.prov = tuple(x for x in s.prov if x[0] not in self.loop_rids.get((id(rec), b), ())) + ((rid, 0),)
                self.loop_rids.setdefault((id(rec), b), set()).add(rid)
                rec[key] = [s.copy(), 0, set(), rid]
                out.append(s)
                continue
            H, gen, killed, rid = h
            if self.subsumes(H, s, killed):
                common = tuple(x for x in H.prov if x in s.prov or x[0] == rid)
                if len(common) == len(H.prov): continue
                # the invariant now also stands for a state of another origin
                self.recgen[rid] += 1
                J = H.copy()
                J.prov = tuple(x for x in common if x[0] != rid) + ((rid, self.recgen[rid]),)
                h[0] = J.copy()
                out.append(J)
                continue
            J, killed2 = self.join(f, H, s, killed, gen)
            if gen > 25: raise Unsupported('loop widening does not converge in %s' % f.path)
            self.recgen[rid] += 1
            mine = self.loop_rids[(id(rec), b)]
            J.prov = tuple(x for x in H.prov if x in s.prov and x[0] not in mine) + ((rid, self.recgen[rid]),)
            h[0], h[1], h[2] = J.copy(), gen + 1, killed2
            out.append(J)
        return out

    def shape(self, v, ti):
        if v is None: return None
        k = v[0]
        if k == 'I':
            if ti is not None and self.T[ti]['k'] == 'bool' and is_const(v[1]): return v
            return 'I'
        if k == 'A':
            t = self.T[v[1]] if v[1] >= 0 else None
            fts = [None] * len(v[3])
            if t:
                if t['k'] == 'adt' and v[2] < len(t['vs']):
                    fts = [x[1] for x in t['vs'][v[2]][1]] + [None] * len(v[3])
                elif t['k'] == 'tuple': fts = t['es']
            return ('A', v[1], v[2], tuple(self.shape(x, y) for x, y in zip(v[3], fts)))
        if k == 'Q':
            return ('Q', self.shape_any(v[1]), 'I', 'I')
        if k == 'RV': return ('RV', self.shape(v[1], None))
        if k == 'R': return ('R', v[1], self.shape_any(v[2]))
        if k == 'M': return ('M', v[1], tuple(self.shape_any(x) for x in v[2]))
        return self.shape_any(v)

    def shape_any(self, v):
        if type(v) is not tuple: return v
        if len(v) == 2 and is_lin(v): return 'L'
        if v and v[0] == 'c': return v
        return tuple(self.shape_any(x) for x in v)

    def shape_key(self, f, depth, s, b):
        base = depth * DEPTH
        items = []
        mod = f.loop_mod.get(b) or range(len(f.locals))
        for k in sorted(s.env):
            i = k - base
            if 0 <= i < len(f.locals) and i not in mod and s.env[k] is not None and s.env[k][0] != 'R':
                items.append((k, s.env[k])); continue
            ti = f.locals[i] if 0 <= i < len(f.locals) else None
            items.append((k, self.shape(s.env[k], ti)))
        return (s.ctx, tuple(items), s.taint, s.ev)

    def pairs(self, a, b, out, path=()):
        """parallel walk of two equally shaped values collecting linear terms"""
        if type(a) is not tuple: return
        if len(a) == 2 and is_lin(a):
            out.append((path, a, b)); return
        if a and a[0] == 'c' and type(a[1]) is bytes: return
        for i, x in enumerate(a):
            if type(x) is tuple: self.pairs(x, b[i], out, path + (i,))

    def rebuild(self, a, m, path=()):
        if type(a) is not tuple: return a
        if len(a) == 2 and is_lin(a): return m.get(path, a)
        if a and a[0] == 'c' and len(a) == 2 and type(a[1]) is bytes: return a
        return tuple(self.rebuild(x, m, path + (i,)) if type(x) is tuple else x for i, x in enumerate(a))

    def subsumes(self, H, B, killed):
        """B is included in H (killed: the phi atoms of H's record)"""
        bind = {}
        ps = []
        for k in H.env:
            if H.env[k] is None: continue
            self.pairs(H.env[k], B.env[k], ps, (k,))
        rest = []
        for path, h, b in ps:
            sg = single(h)
            if sg and sg[0] in killed and abs(sg[1]) == 1 and sg[0] not in bind:
                bind[sg[0]] = scale(addc(b, -sg[2]), sg[1])
            else: rest.append((h, b))
        tau = Subst(bind)
        for h, b in rest:
            d = sub(tau(h), b)
            if not B.eq0(B.norm(d)): return False
        if any(k not in bind for k in killed_used(H, killed)): return False
        for a, s in H.iset.items():
            l = B.norm(tau(atom(a)))
            try: r = B.lrange(l)
            except Infeasible: return True
            if not iset_sub(r, s): return False
        for g in H.lf:
            if not B.ge(B.norm(tau(g))): return False
        for g in H.nf:
            g2 = B.norm(tau(g))
            if not (g2 in B.nf or scale(g2, -1) in B.nf or not B_feasible_zero(B, g2)): return False
        for base, lo, hi, s in H.quant:
            bb = subst_any(base, lambda l: B.norm(tau(l)))
            if not iset_sub(B.qset(bb, B.norm(tau(lo)), B.norm(tau(hi))), s): return False
        if H.sub != B.sub:
            for a, l in H.sub.items():
                if a in B.sub and B.sub[a] == l: continue
                if not B.eq0(B.norm(sub(atom(a), tau(l)))): return False
        return True

    def tight(self, f, st, l):
        """bounds of l, sharpened by the relational facts at the widening thresholds"""
        lo, hi = st.bounds(l)
        if len(l[1]) < 2 or not st.lf: return lo, hi
        if lo < -(1 << 32):
            for t in (0, 1, -1): 
                if t > lo and st.ge(addc(l, -t)): lo = t
        if hi > (1 << 32):
            for t in reversed([t for t in f.thresholds if t < 1 << 20]):
                if st.ge(addc(scale(l, -1), t)): hi = min(hi, t)
                else: break
        return lo, hi

    def join_boff(self, h, b, basis, has_killed):
        """h and b are the same term up to boff atoms whose index follows a basis pair"""
        ha = [a for a, c in h[1] if AT.key[a][0] == 'boff']
        ba = [a for a, c in b[1] if AT.key[a][0] == 'boff']
        if not ha and not ba: return None
        for phi, h0, b0 in basis:
            def gen(l, x):
                out = (l[0], ())
                for a, c in l[1]:
                    k = AT.key[a]
                    if k[0] == 'boff':
                        d = sub(k[2], x)
                        if is_const(d) and abs(d[0]) <= 2:
                            out = add(out, boff(k[1], addc(atom(phi), d[0])), c); continue
                    out = add(out, atom(a), c)
                return out
            x, y = gen(h, h0), gen(b, b0)
            if x == y and not has_killed(x): return x
            # sums/differences against other basis pairs
            for phi1, h1, b1 in basis:
                if phi1 == phi: continue
                for sg in (1, -1):
                    x, y = gen(add(h, h1, sg), h0), gen(add(b, b1, sg), b0)
                    if x == y and not has_killed(x): return add(x, atom(phi1), -sg)
        return None

    def join_affine(self, h, b, basis, killed, rows):
        """express the pair as a +-1 combination of the basis pairs (plus a fixed term), or extend the rows"""
        from fractions import Fraction
        vec = {}
        for a, c in h[1]:
            if a in killed or not AT.deep[a].isdisjoint(killed): vec[('h', a)] = Fraction(c)
        d = sub(b, h)
        for a, c in d[1]: vec[('d', a)] = Fraction(c)
        if d[0]: vec[('d', -1)] = Fraction(d[0])
        comb = {}
        for pivot, rv_, rc in rows:
            c = vec.get(pivot)
            if not c: continue
            k = c / rv_[pivot]
            for x, y in rv_.items():
                z = vec.get(x, 0) - k * y
                if z: vec[x] = z
                else: vec.pop(x, None)
            for x, y in rc.items():
                z = comb.get(x, 0) + k * y
                if z: comb[x] = z
                else: comb.pop(x, None)
        if not vec:
            if any(abs(y) != 1 for y in comb.values()) or len(comb) > 4: return None
            out = h
            for i, y in comb.items(): out = add(out, basis[i][1], -int(y))
            for i, y in comb.items(): out = add(out, atom(basis[i][0]), int(y))
            return out
        # becomes basis element number len(basis)
        pivot = min(vec, key=repr)
        rc = {i: -y for i, y in comb.items()}
        rc[len(basis)] = Fraction(1)
        rows.append((pivot, vec, rc))
        return None

    def join(self, f, H, B, killed, gen, fold=False):
        ps = []
        for k in H.env:
            if H.env[k] is None: continue
            self.pairs(H.env[k], B.env[k], ps, (k,))
        basis = []      # (phi, h, b)
        rows = []       # reduced rows of the affine hull
        derived = {}
        newv = {}
        nkilled = set()
        # killed atoms mentioned anywhere must be re-expressed
        def has_killed(l): return any(a in killed or not AT.deep[a].isdisjoint(killed) for a, _ in l[1])
        todo = []
        for path, h, b in ps:
            if h == b and not has_killed(h): continue
            todo.append((path, h, b))
        todo.sort(key=lambda x: repr(x[0]))
        self.uid += 1
        u = self.uid
        J = State()
        J.ctx = H.ctx; J.taint = H.taint; J.ev = H.ev
        def dsim(x, y):
            d = sub(x, y)
            return d
        for path, h, b in todo:
            done = False
            for phi, h0, b0 in basis:
                d1, d2 = sub(h, h0), sub(b, b0)
                if d1 == d2 and not has_killed(d1):
                    newv[path] = add(atom(phi), d1); done = True; break
                d1, d2 = add(h, h0), add(b, b0)
                if d1 == d2 and not has_killed(d1):
                    newv[path] = sub(d1, atom(phi)); done = True; break
            if done: continue
            # byte offset of a character position that itself varies, affine combinations
            g = self.join_boff(h, b, basis, has_killed)
            if g is None: g = self.join_affine(h, b, basis, killed, rows)
            if g is not None:
                newv[path] = g
                derived[g] = (h, b); continue
            phi = AT.get(('phi', u, len(basis)), ((NEG, POS),))
            basis.append((phi, h, b))
            nkilled.add(phi)
            newv[path] = atom(phi)
        # environments
        byk = {}
        for path, l in newv.items(): byk.setdefault(path[0], {})[path] = l
        for k, v in H.env.items():
            if k in byk: J.env[k] = self.rebuild(v, byk[k], (k,))
            else: J.env[k] = v
        # renamings old phi -> new
        def inv(side, ext=False):
            m = {}
            for phi, h, b in basis:
                l = h if side == 0 else b
                sg = single(l)
                if sg and (sg[0] in killed or ext and AT.key[sg[0]][0] == 'phi') and abs(sg[1]) == 1 and sg[0] not in m:
                    m[sg[0]] = scale(addc(atom(phi), -sg[2]), sg[1])
            return Subst(m)
        sH, sB = inv(0), inv(1)
        rens = [(H, sH)] if gen >= 4 else [(H, sH), (B, sB)]
        for st_, side, s0 in ((H, 0, sH),) if gen >= 4 else ((H, 0, sH), (B, 1, sB)):
            x = inv(side, True)
            if x.m != s0.m: rens.append((st_, x))
        tH = Subst({phi: h for phi, h, b in basis})
        tB = Subst({phi: b for phi, h, b in basis})
        vH = lambda l: H.norm(tH(l))
        vB = lambda l: B.norm(tB(l))
        # phi bounds
        th = f.thresholds
        for phi, h, b in basis:
            (l1, h1), (l2, h2) = self.tight(f, H, h), self.tight(f, B, b)
            lo, hi = min(l1, l2), max(h1, h2)
            if gen >= 2:
                if l2 < l1: lo = max([t for t in th if t <= l2], default=NEG)
                if h2 > h1: hi = min([t for t in th if t >= h2], default=POS)
                if gen >= 6:
                    if l2 < l1: lo = min(0, lo) if l2 >= 0 else NEG
                    if h2 > h1: hi = POS
                if lo < 0 <= l2 and l1 >= 0: lo = 0
            if (lo, hi) != (NEG, POS): J.iset[phi] = ((lo, hi),)
        def clean(l): return not any(a in killed or not AT.deep[a].isdisjoint(killed) for a, _ in l[1])
        # isets
        cand = set()
        for st_, sx in rens:
            for a in st_.iset:
                l = sx(atom(a))
                if clean(l) and single(l) and l[0] == 0 and l[1][0][1] == 1: cand.add(l[1][0][0])
        # cells just before a varying position
        steps = []
        terms = [atom(phi) for phi, _, _ in basis] + list(derived)
        offs = {}
        for k, v in J.env.items():
            if v is not None: seq_offsets(v, offs)
        for y in terms[:10]:
            for x in list(offs) + terms[:10]:
                if x != y: steps.append((sub(x, y), x))
        steps = list(dict.fromkeys(steps))
        if self.joinmax:
            ba = {AT.key[a][1] for st_ in (H, B) for a in st_.iset if AT.key[a][0] == 'at'}
            ps = {addc(l, i) for l in newv.values() if len(l[1]) == 1 for i in range(-2, 3)}
            for x in ba:
                if clean_base(x, killed): cand |= {at_atom(x, l) for l in ps if clean(l)}
        for a in cand:
            if a in J.iset: continue
            try:
                r = iset_union(H.lrange(vH(atom(a))), B.lrange(vB(atom(a))))
            except Infeasible: continue
            k = AT.key[a]
            if r != AT.rng[a] and k[0] != 'pw' and not iset_sub(AT.rng[a], r): J.iset[a] = r
        # relational facts
        lc = set()
        for st_, sx in rens:
            for g in st_.lf: lc.add(sx(g))
        for l, (h, b) in derived.items():
            if len(l[1]) < 2: continue
            lc.add(l)
            try: m = min(H.bounds(h)[0], B.bounds(b)[0])
            except Infeasible: continue
            if m > -(1 << 32) and gen < 4: lc.add(addc(l, -m))
        bases = set()
        for st_ in (H, B):
            for a in st_.iset:
                k = AT.key[a]
                if k[0] == 'at': bases.add(k[1])
            for q in st_.quant: bases.add(q[0])
        for k, v in J.env.items():
            collect_bases(v, bases)
        for phi, h, b in basis:
            for ba in bases:
                if ba[0] in ('a', 'chars'):
                    L = J.norm(H.norm(base_len(ba)))
                    if clean(L):
                        lc.add(sub(L, atom(phi)))
                        d1, d2 = sub(h, H.norm(base_len(ba))), sub(b, B.norm(base_len(ba)))
            for phi2, h2, b2 in basis:
                if phi2 == phi: continue
                d1, d2 = sub(h, h2), sub(b, b2)
                if is_const(d1) or is_const(d2):
                    c = min(x[0] for x in (d1, d2) if is_const(x))
                    lc.add(addc(sub(atom(phi), atom(phi2)), -c))
                    lc.add(sub(atom(phi), atom(phi2)))
            # invariant differences with other terms of the environment
            if not is_const(h) or not is_const(b):
                lc.add(sub(atom(phi), h)); lc.add(sub(h, atom(phi)))
            elif is_const(h):
                pass
        best = {}
        for g in lc:
            if not clean(g) or not g[1]: continue
            if len(g[1]) == 1:
                if single(g)[0] in nkilled: pass
                else: continue
            try:
                if H.ge(vH(g)) and B.ge(vB(g)):
                    if len(g[1]) >= 2:
                        if g[1] not in best or best[g[1]] > g[0]: best[g[1]] = g[0]
                    else:
                        try: J.assume_ge(g)
                        except Infeasible: pass
            except Infeasible: pass
        J.lf = J.lf | {(c, t) for t, c in best.items()}
        for g in H.nf:
            l = sH(g)
            if clean(l):
                g2 = vB(l)
                if g2 in B.nf or scale(g2, -1) in B.nf or not B_feasible_zero(B, g2): J.nf = J.nf | {l}
        # segmentation facts
        qc = set()
        for st_, sx in rens:
            for base, lo, hi, s in st_.quant:
                if clean_base(base, killed): qc.add((base, sx(lo), sx(hi)))
        for base in bases:
            if not clean_base(base, killed) or base[0] in ('c', 'v'): continue
            for phi, h, b in basis:
                if not has_killed(h): qc.add((base, h, atom(phi)))
                qc.add((base, const(0), atom(phi)))
                for phi2, _, _ in basis:
                    if phi2 != phi: qc.add((base, atom(phi2), atom(phi)))
                # offset variants: cells known just before the phi in B
                L = H.norm(base_len(base))
                if clean(L): qc.add((base, atom(phi), L))
            for lo, hi in steps:
                qc.add((base, lo, hi)); qc.add((base, addc(lo, -1), lo))
        for base, lo, hi in qc:
            if not clean(lo) or not clean(hi): continue
            full = cell_range(base)
            try:
                x = H.qset(base, vH(lo), vH(hi))
                if iset_sub(full, x): continue
                y = B.qset(base, vB(lo), vB(hi))
            except Infeasible: continue
            z = iset_union(x, y)
            if not iset_sub(full, z):
                J.quant = J.quant | {(base, lo, hi, z)}
        sb = {}
        for a, l in H.sub.items():
            if B.sub.get(a) == l and clean(l): sb[a] = l
        J.sub = sb
        if fold:
            # lengths and positions that stand in the same relation to a joined term on both sides
            for a in set(H.sub) | set(B.sub):
                if a in sb: continue
                h, b = H.norm(atom(a)), B.norm(atom(a))
                for phi, h0, b0 in basis:
                    d1, d2 = sub(h, h0), sub(b, b0)
                    if d1 == d2 and not any(atom_mentions(x, a) for x, _ in d1[1]):
                        try: J.assume_eq(sub(atom(a), add(atom(phi), d1)))
                        except Infeasible: pass
                        break
        J.quant = minimize_quant(J)
        return J, nkilled

    # -------------------------------------------------------------- blocks
    def exec_block(self, f, depth, b, st):
        blk = f.blocks[b]
        base = depth * DEPTH
        try:
            for s in blk['s']:
                if s[0] == '=':
                    p = s[1]
                    dty = f.locals[p[0]] if len(p) == 1 else None
                    v = self.rvalue(st, depth, f, s[2], dty if dty is not None else 0)
                    self.write(st, depth, p, v)
                elif s[0] == 'dead':
                    st.env.pop(base + s[1], None)
                elif s[0] == 'disc':
                    cur = self.read(st, depth, s[1])
                    if cur is not None and cur[0] == 'A': self.write(st, depth, s[1], ('A', cur[1], s[2], cur[3]))
                elif s[0] == 'assume':
                    pass
            return self.terminator(f, depth, b, st, blk['t'])
        except Infeasible:
            return []

    def terminator(self, f, depth, b, st, t):
        k = t[0]
        if k == 'goto': return [(st, t[1])]
        if k == 'ret': return [(st, 'ret')]
        if k == 'drop': return [(st, t[2])]
        if k == 'switch':
            v = self.operand(st, depth, t[1])
            return self.switch(f, b, st, v, t)
        if k == 'assert':
            self.stats['asserts'] += 1
            v = self.operand(st, depth, t[1])
            if v is None: return [(st, t[4])]
            c = self.cond_of(v)
            if not t[2]: c = self.neg(c)
            bad = self.assume(st, self.neg(c))
            if bad:
                self.panic(f, b, bad, t[3][0] + (':' + t[3][1] if t[3][0] == 'overflow' else ''))
            return [(s, t[4]) for s in self.assume(st, c)]
        if k == 'call':
            return self.call(f, depth, b, st, t)
        if k in ('unreach', 'resume'): return []
        raise Unsupported(k)

    def panic(self, f, b, states, what):
        for s in states:
            self.panics.append((f.path, f.loc, b, what, s, tuple(self.stack)))

    def switch(self, f, b, st, v, t):
        out = []
        if v is None:
            self.note(st, 'switch on unknown')
            return [(st.copy(), x[1]) for x in t[3]] + [(st.copy(), t[4])]
        if v[0] == 'B':
            # bool switch: value 0 -> false
            tgt = {int(x[0]): x[1] for x in t[3]}
            tf = tgt.get(0, t[4]); tt = tgt.get(1, t[4])
            a = self.assume(st, v[1]); n = self.assume(st, self.neg(v[1]))
            if a and n: self.exit_test(f, b, a + n, tt, tf, v[1])
            return [(s, tt) for s in a] + [(s, tf) for s in n]
        if v[0] != 'I': raise Unsupported('switch on %s' % v[0])
        l = st.norm(v[1])
        c = st.const_of(l)
        ti = t[2]
        T = self.T[ti]
        def val(x):
            x = int(x)
            if T['k'] == 'int' and T['signed'] and x >= 1 << (T['bits'] - 1):
                x -= 1 << T['bits']
            return x
        if c is not None:
            for x in t[3]:
                if val(x[0]) == c: return [(st, x[1])]
            # the compiler knows every value is listed: one that is not comes from a mistake in this engine
            if f.blocks[t[4]]['t'][0] == 'unreach': raise Unsupported('switch on %d, which the type does not have' % c)
            return [(st, t[4])]
        # group targets
        groups = {}
        rest = [(NEG, POS)]
        allv = []
        for x in t[3]:
            groups.setdefault(x[1], []).append((val(x[0]), val(x[0])))
            allv.append((val(x[0]), val(x[0])))
        other = iset_compl(iset_norm(allv))
        res = []
        for tgt, vs in groups.items():
            if tgt == t[4]: other = iset_union(other, iset_norm(vs)); continue
            for s in self.assume(st, ('in', l, iset_norm(vs))): res.append((s, tgt))
        for s in self.assume(st, ('in', l, other)): res.append((s, t[4]))
        if len({x[1] for x in res}) > 1 and any(AT.struct[a] for a, _ in l[1]):
            tg = list({x[1] for x in res})
            self.exit_test_multi(f, b, res, tg)
        return res

    def cond_struct(self, c):
        if c[0] in ('and', 'or'): return self.cond_struct(c[1]) or self.cond_struct(c[2])
        if c[0] in ('ge', 'eq', 'ne', 'in'): return any(AT.struct[a] for a, _ in c[1][1])
        return False

    SMALL = 40

    def small_exit(self, st, c):
        """the exit condition compares quantities that are a few steps apart for every input"""
        if c[0] in ('and', 'or'): return self.small_exit(st, c[1]) and self.small_exit(st, c[2])
        if c[0] in ('ge', 'eq', 'ne', 'in'):
            if not any(AT.struct[a] for a, _ in c[1][1]): return True
            l = st.norm(c[1])
            return st.ge(addc(l, self.SMALL)) and st.ge(addc(scale(l, -1), self.SMALL))
        return True

    def exit_test(self, f, b, states, t1, t2, cond):
        if not self.cond_struct(cond): return
        states = [s for s in states if not self.small_exit(s, cond)]
        for s in states:
            if s.ctx and s.ctx[-1][2] == 'u' and s.ctx[-1][1] >= 1:
                L = f.loops[s.ctx[-1][0]]
                if (t1 in L) != (t2 in L): self.flag_sym(s)

    def exit_test_multi(self, f, b, res, tg):
        for s, _ in res:
            if s.ctx and s.ctx[-1][2] == 'u' and s.ctx[-1][1] >= 1:
                L = f.loops[s.ctx[-1][0]]
                if any(x in L for x in tg) and any(x not in L for x in tg): self.flag_sym(s)

    # -------------------------------------------------------------- calls
    def call(self, f, depth, b, st, t):
        self.stats['calls'] += 1
        cal, args, dest, tgt, loc = t[1], t[2], t[3], t[4], t[5]
        vals = [self.operand(st, depth, o) for o in args]
        if len(dest) == 1: dty = f.locals[dest[0]]
        else: dty = dest[-1][2] if dest[-1] != '*' and dest[-1][0] == 'f' else f.locals[dest[0]]
        info = CallInfo(self, f, b, cal, dty, loc, [self.op_ty(f, o) for o in args])
        res = self.do_call(st, cal, vals, info)
        out = []
        for s, v in res:
            if tgt is None: continue
            self.write(s, depth, dest, v)
            out.append((s, tgt))
        return out

    def do_call(self, st, cal, vals, info):
        if cal is None: return self.unknown_call(st, '?', vals, info)
        if 'ctor' in cal:
            ti, vi = cal['ctor']
            return [(st, ('A', ti, vi, tuple(vals)))]
        if 'indirect' in cal:
            raise Unsupported('indirect call')
        name = cal.get('res') or cal['decl']
        decl = cal['decl']
        if self.hooks:
            h = self.hooks.get(name) or self.hooks.get(decl)
            if h is not None:
                r = h(self, st, vals, info)
                if r is not None: return r
        m = self.models.lookup(name, decl)
        if m is not None:
            r = m(self, st, vals, info)
            if r is not None: return r
        fid = cal.get('fn')
        if fid is not None and name not in self.opaque:
            fn = self.P.fns[fid]
            if cal.get('ik') == 'closure_once' or self.P.fns[fid].closure:
                # Fn*::call*(closure, (args,))
                return self.call_value(st, vals[0], list(vals[1][3]) if len(vals) > 1 and vals[1] is not None and vals[1][0] == 'A' else [], info)
            return self.exec_fn(fid, vals, st)
        return self.unknown_call(st, name, vals, info)

    def call_value(self, st, fv, args, info):
        """call a closure / fn item value"""
        for _ in range(6):
            if fv is not None and fv[0] in ('R', 'RV'): 
                tgt = self.deref(st, fv)
                if tgt is not None and tgt[0] in ('A', 'Fn', 'R', 'RV', 'M'): fv2, fv = fv, tgt; continue
            break
        if fv is None: raise Unsupported('call of unknown value')
        if fv[0] == 'M' and fv[1] == 'Box': return self.call_value(st, fv[2][0], args, info)
        if fv[0] == 'Fn':
            t = self.T[fv[1]]
            cal = t.get('callee')
            if cal is None: raise Unsupported('higher-ranked fn item')
            # result type is unknown here: models must cope
            return self.do_call(st, cal, args, CallInfo(self, info.f, info.b, cal, info.fnret(cal, fv[1]), info.loc, info.argtys))
        if fv[0] == 'A':
            t = self.T[fv[1]]
            if t['k'] == 'closure' and t['fn'] is not None:
                if t['ck'] == 'FnOnce': me = fv
                else: me = ('RV', fv)
                if t['ck'] == 'FnMut' or t['ck'] == 'Fn':
                    self.uid += 1
                    k = -self.uid
                    st.env[k] = fv
                    me = ('R', k, ())
                    res = self.exec_fn(t['fn'], [me] + args, st)
                    for s, _ in res: s.env.pop(k, None)
                    return res
                return self.exec_fn(t['fn'], [me] + args, st)
        raise Unsupported('call of %s' % (fv[0],))

    def unknown_call(self, st, name, vals, info, taint=True):
        """an uninterpreted, pure call"""
        ok = self.models.is_opaque(name)
        if not ok:
            st.taint = st.taint | {'call ' + name}
            self.notes.add('unmodelled call ' + name)
        # &mut arguments are havocked
        for v, ti in zip(vals, info.argtys):
            t = self.T[ti]
            if t['k'] == 'ref' and t.get('mut') and v is not None and v[0] == 'R':
                self.uid += 1
                self.store(st, v[1], v[2], self.mk_sym(t['e'], ('havoc', self.uid)))
        if self.T[info.dty]['k'] == 'never': return []
        key = ('app', name) + tuple(self.freeze(st, v) for v in vals)
        return [(st, self.mk_sym(info.dty, key))]

    def freeze(self, st, v, d=0):
        """a value with references resolved, usable inside an atom key"""
        if v is None or type(v) is not tuple: return v
        if v[0] == 'R' and d < 6:
            return self.freeze(st, self.deref(st, v), d + 1)
        if v[0] == 'RV': return self.freeze(st, v[1], d + 1)
        if v[0] == 'I':
            c = st.const_of(v[1])
            return I(c) if c is not None else v
        if v[0] == 'S': return ('a', v[1])
        if v[0] == 'A' : return ('A', v[1], v[2], tuple(self.freeze(st, x, d + 1) for x in v[3]))
        return v


class CallInfo:
    def __init__(self, I_, f, b, cal, dty, loc, argtys):
        self.I, self.f, self.b, self.cal, self.dty, self.loc, self.argtys = I_, f, b, cal, dty, loc, argtys

    def fnret(self, cal, ti):
        fid = cal.get('fn')
        if fid is not None: return self.I.P.fns[fid].locals[0]
        if 'ctor' in cal: return cal['ctor'][0]
        s = self.I.T[ti]['s']
        if '->' in s:
            r = s.rsplit('-> ', 1)[1].split(' {')[0]
            x = self.I.find_ty(r)
            if x is not None: return x
        return self.dty


class Subst:
    """substitution of atoms by terms, also inside atom keys"""
    def __init__(self, m):
        self.m = m
        self.st = State()
        self.st.sub = m
    def __call__(self, l):
        if not self.m or not l[1]: return l
        out = (l[0], ())
        for a, c in l[1]:
            if a in self.m: out = add(out, self.m[a], c)
            elif not AT.deep[a].isdisjoint(self.m):
                k = subst_any(AT.key[a], self)
                fk = fold_key(k)
                if fk is not None: out = add(out, fk, c); continue
                b = at_atom(k[1], k[2]) if k[0] == 'at' else AT.get(k, AT.rng[a])
                out = add(out, atom(b), c)
            else: out = add(out, (0, ((a, 1),)), c)
        return out


def offset_terms(v, out):
    """varying sequence offsets mentioned by a value (modulo constants)"""
    if type(v) is not tuple: return
    if v and v[0] == 'Q' and len(v) == 4:
        l = v[2]
        if is_lin(l) and l[1] and any(AT.key[a][0] == 'phi' for a, _ in l[1]): out.setdefault(l[1], l)
        return
    for x in v:
        if type(x) is tuple: offset_terms(x, out)

def seq_offsets(v, out):
    if type(v) is not tuple: return
    if v and v[0] == 'Q' and len(v) == 4:
        out[v[2]] = 1
        return
    for x in v:
        if type(x) is tuple: seq_offsets(x, out)

def const_shape(v):
    if type(v) is not tuple: return v
    if len(v) == 2 and is_lin(v): return v if is_const(v) else 'L'
    return tuple(const_shape(x) if type(x) is tuple else x for x in v)

def killed_used(H, killed):
    out = set()
    def seen(l):
        for a, _ in l[1]:
            if a in killed: out.add(a)
            out.update(AT.deep[a] & killed)
    for a in H.iset:
        if a in killed: out.add(a)
        out.update(AT.deep[a] & killed)
    for g in H.lf: seen(g)
    for b, lo, hi, s in H.quant: seen(lo); seen(hi)
    return out

def B_feasible_zero(B, l):
    if not l[1]: return l[0] == 0
    if B.ge(addc(l, -1)) or B.ge(addc(scale(l, -1), -1)): return False
    r = B.lrange(l)
    return any(x <= 0 <= y for x, y in r)

def clean_base(base, killed):
    s = set()
    collect_atoms(base, s)
    return s.isdisjoint(killed)

def collect_bases(v, out):
    if type(v) is not tuple: return
    if v and v[0] == 'Q' and len(v) == 4:
        out.add(v[1]); return
    for x in v:
        if type(x) is tuple: collect_bases(x, out)

def minimize_quant(J):
    q = list(J.quant)
    out = set(q)
    for x in q:
        if x not in out: continue
        out.discard(x)
        J.quant = frozenset(out)
        try:
            y = J.qset(x[0], x[1], x[2])
        except Infeasible: y = ()
        if not iset_sub(y, x[3]): out.add(x)
    return frozenset(out)


# ------------------------------------------------------------------ exact merging
def reduce_states(states):
    if len(states) <= 1: return states
    groups = {}
    for s in states:
        k = (frozenset(s.env.items()), s.lf, s.nf, s.quant, s.taint, frozenset(s.sub.items()), s.ctx, s.ev, s.prov)
        groups.setdefault(k, []).append(s)
    out = []
    for k, g in groups.items():
        out.append([k, merge_isets(g)])
    res = [s for _, g in out for s in g]
    if len(res) > 1: res = merge_pw(res)
    return res

def merge_isets(g):
    if len(g) == 1: return g
    ds = list({frozenset(s.iset.items()): s for s in g}.values())
    ch = True
    while ch and len(ds) > 1:
        ch = False
        atoms = set()
        for s in ds: atoms.update(s.iset)
        for a in atoms:
            sig = {}
            for s in ds:
                d = s.iset
                if a in d: k = frozenset(x for x in d.items() if x[0] != a)
                else: k = frozenset(d.items())
                sig.setdefault(k, []).append(s)
            if len(sig) < len(ds):
                nd = []
                for k, l in sig.items():
                    if len(l) == 1: nd.append(l[0]); continue
                    u = ()
                    full = False
                    for s in l:
                        if a not in s.iset: full = True
                        else: u = iset_union(u, s.iset[a])
                    m = l[0].copy()
                    if full: m.iset.pop(a, None)
                    else:
                        m.iset[a] = u
                        if u == AT.rng[a]: m.iset.pop(a)
                    nd.append(m)
                if len(nd) < len(ds):
                    ds = nd; ch = True
    # inclusion
    if 1 < len(ds) <= 60:
        keep = []
        for i, s in enumerate(ds):
            sub_ = False
            for j, t in enumerate(ds):
                if i == j: continue
                if all(a in s.iset and iset_sub(s.iset[a], r) for a, r in t.iset.items()):
                    if not (j > i and s.iset == t.iset): sub_ = True; break
            if not sub_: keep.append(s)
        ds = keep
    return ds

def data_atom(a):
    return AT.key[a][0] in ('at', 'pw')

def mask(v):
    """hide linear terms that carry input bytes"""
    if type(v) is not tuple: return v
    if len(v) == 2 and is_lin(v):
        if any(data_atom(a) for a, _ in v[1]): return '#'
        return v
    if v and v[0] == 'c' and len(v) == 2: return v
    if v and v[0] == 'Q': return v
    return tuple(mask(x) if type(x) is tuple else x for x in v)

def merge_pw(states):
    """merge states that differ in the set of one byte and in values computed from that byte"""
    buckets = {}
    for s in states:
        me = frozenset((k, mask(v)) for k, v in s.env.items())
        k = (me, s.lf, s.nf, s.quant, s.taint, frozenset(s.sub.items()), s.ctx, s.ev, s.prov)
        buckets.setdefault(k, []).append(s)
    out = []
    for k, g in buckets.items():
        if len(g) == 1: out += g; continue
        g = list(g)
        ch = True
        while ch and len(g) > 1:
            ch = False
            for i in range(len(g)):
                for j in range(i + 1, len(g)):
                    m = try_pw(g[i], g[j])
                    if m is not None:
                        g[i] = m; del g[j]; ch = True; break
                if ch: break
        out += g
    return out

def try_pw(s, t):
    diff = [a for a in set(s.iset) | set(t.iset) if s.iset.get(a) != t.iset.get(a)]
    if len(diff) != 1: return None
    a = diff[0]
    if a not in s.iset or a not in t.iset: return None
    if AT.key[a][0] not in ('at',) and not (AT.rng[a] and iset_size(AT.rng[a]) <= 0x110000): return None
    sa, ta = s.iset[a], t.iset[a]
    if iset_inter(sa, ta): return None
    env = {}
    for k, v in s.env.items():
        w = t.env[k]
        if v == w: env[k] = v; continue
        x = pw_val(v, w, a, sa, ta)
        if x is None: return None
        env[k] = x
    m = s.copy()
    m.env = env
    m.iset[a] = iset_union(sa, ta)
    if m.iset[a] == AT.rng[a]: m.iset.pop(a)
    return m

def pw_val(v, w, a, sa, ta):
    if v == w: return v
    if type(v) is not tuple or type(w) is not tuple or len(v) != len(w): return None
    if len(v) == 2 and is_lin(v) and is_lin(w):
        def split(l):
            mine, rest = [], []
            for x, c in l[1]:
                k = AT.key[x]
                if x == a or (k[0] == 'pw' and k[1] == ('a', a)): mine.append((x, c))
                else: rest.append((x, c))
            return tuple(mine), tuple(rest)
        m1, r1 = split(v); m2, r2 = split(w)
        if r1 != r2: return None
        if len(m1) > 1 or len(m2) > 1: return None
        cs = {c for _, c in m1} | {c for _, c in m2}
        if len(cs) != 1: return None
        c = cs.pop()
        if c < 0 : pass
        def cases(m, k0, dom):
            if not m:
                if k0 % c: return None
                return [(dom, const(k0 // c))]
            x = m[0][0]
            if k0 % c: return None
            if x == a: return [(dom, (k0 // c, ((a, 1),)))]
            out = []
            for s_, l in AT.key[x][2]:
                d = iset_inter(dom, s_)
                if d: out.append((d, addc(l, k0 // c)))
            return out
        # constants: keep v's constant outside when possible
        base0 = min(v[0], w[0], key=abs)
        d1 = cases(m1, v[0] - base0, sa); d2 = cases(m2, w[0] - base0, ta)
        if d1 is None or d2 is None: 
            return None
        g = {}
        for d, l in d1 + d2: g[l] = iset_union(g.get(l, ()), d)
        cs = tuple(sorted(((d, l) for l, d in g.items())))
        if len(cs) == 1: p = cs[0][1]
        else: p = atom(AT.get(('pw', ('a', a), cs), ((NEG, POS),)))
        return add((base0, r1), p, c)
    out = []
    for x, y in zip(v, w):
        if x == y: out.append(x); continue
        if type(x) is not tuple: return None
        z = pw_val(x, y, a, sa, ta)
        if z is None: return None
        out.append(z)
    return tuple(out)
