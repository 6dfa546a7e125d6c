"""Abstract domain: interned atoms, linear terms, interval sets and abstract states.

A state is the product of
  * iset   atom -> finite union of intervals (bytes, chars, discriminants, booleans, ints, floats
           mapped to an order preserving integer key)
  * lf     relational facts  (linear term >= 0)
  * nf     disequalities     (linear term != 0)
  * quant  array segmentation facts: every cell of `base` in [lo, hi) lies in an interval set
plus the environment (MIR locals).  It is a dataflow lattice: `join`/`subsumes` live in interp.py.
"""
NEG = -(1 << 140)
POS = 1 << 140

# ---------------------------------------------------------------- interval sets
def iset(*ivs):
    return iset_norm(list(ivs))

def iset_norm(l):
    l = sorted((a, b) for a, b in l if a <= b)
    out = []
    for a, b in l:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)

def iset_union(a, b):
    if a == b: return a
    return iset_norm(list(a) + list(b))

def iset_inter(a, b):
    if a == b: return a
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0]); hi = min(a[i][1], b[j][1])
        if lo <= hi: out.append((lo, hi))
        if a[i][1] < b[j][1]: i += 1
        else: j += 1
    return tuple(out)

def iset_diff(a, b):
    return iset_inter(a, iset_compl(b))

def iset_compl(a, lo=NEG, hi=POS):
    out = []
    c = lo
    for x, y in a:
        if x > c: out.append((c, x - 1))
        c = max(c, y + 1)
    if c <= hi: out.append((c, hi))
    return tuple(out)

def iset_sub(a, b):
    """a is a subset of b"""
    return iset_inter(a, b) == a

def iset_chars(s):
    return iset_norm([(ord(c), ord(c)) for c in s])

def iset_size(a):
    return sum(y - x + 1 for x, y in a)

def iset_iter(a):
    for x, y in a:
        for v in range(x, y + 1): yield v

BYTE = ((0, 255),)
# bytes that can occur in valid UTF-8
UTF8 = ((0, 0xBF), (0xC2, 0xF4))
CHAR = ((0, 0xD7FF), (0xE000, 0x10FFFF))
BOOL = ((0, 1),)

# ---------------------------------------------------------------- atoms
class Atoms:
    def __init__(self):
        self.ids = {}
        self.key = []
        self.rng = []
        self.struct = []
        self.deep = []

    def get(self, key, rng):
        i = self.ids.get(key)
        if i is None:
            i = len(self.key)
            self.ids[key] = i
            self.key.append(key)
            self.rng.append(rng)
            self.struct.append(key[0] in STRUCT)
            d = set()
            collect_atoms(key, d)
            self.deep.append(frozenset(d))
        return i

def collect_atoms(k, out):
    """every atom mentioned (transitively) by a key / value / term"""
    if type(k) is not tuple: return
    if len(k) == 2:
        if is_lin(k):
            for a, _ in k[1]:
                if a not in out:
                    out.add(a); out.update(AT.deep[a])
            return
        if k[0] == 'a' and type(k[1]) is int:
            out.add(k[1]); out.update(AT.deep[k[1]])
            return
    for x in k:
        if type(x) is tuple: collect_atoms(x, out)

# atoms that can occur inside index terms: equalities on them rewrite the whole state
STRUCT = {'len', 'phi', 'pos', 'div', 'nchars', 'cnt'}
AT = Atoms()
LEN_RNG = ((0, (1 << 63) - 1),)

def reset_atoms():
    AT.__init__()
    _lin_cache.clear()

_lin_cache = {}

# ---------------------------------------------------------------- linear terms: (const, ((atom, coef), ...))
def const(c): return (c, ())
def atom(a): return (0, ((a, 1),))

def add(x, y, k=1):
    """x + k*y"""
    if not y[1]: return (x[0] + k * y[0], x[1])
    d = dict(x[1])
    for a, c in y[1]:
        v = d.get(a, 0) + k * c
        if v: d[a] = v
        else: d.pop(a, None)
    return (x[0] + k * y[0], tuple(sorted(d.items())))

def sub(x, y): return add(x, y, -1)
def scale(x, k):
    if k == 0: return (0, ())
    return (x[0] * k, tuple((a, c * k) for a, c in x[1]))
def addc(x, k): return (x[0] + k, x[1])
def is_const(x): return not x[1]

def lin_atoms(x): return [a for a, _ in x[1]]

def single(x):
    """(atom, coef, const) when x has one atom"""
    if len(x[1]) == 1:
        return x[1][0][0], x[1][0][1], x[0]
    return None

def fold_key(k):
    """constant value of an atom key whose arguments became constant"""
    if k[0] == 'div' and is_lin(k[1]) and all(c % k[2] == 0 for _, c in k[1][1]): return (k[1][0] // k[2], tuple((a, c // k[2]) for a, c in k[1][1]))
    if k[0] == 'len' and k[1][0] in ('c', 'v'): return const(len(k[1][1]))
    if k[0] == 'boff':
        if not k[2][1] and k[2][0] == 0: return const(0)
        if k[1][0] == 'chars' and k[2] == base_len(k[1]): return k[1][3]
    if k[0] == 'at' and k[1][0] == 'c' and not k[2][1] and 0 <= k[2][0] < len(k[1][1]): return const(k[1][1][k[2][0]])
    return None

# ---------------------------------------------------------------- sequence bases
# ('c', bytes)             constant bytes
# ('a', atom)              symbolic sequence
# ('chars', base, off, len) the character view of a str
# ('cat', parts)           concatenation built by formatting / pushing
def cell_range(base):
    if base[0] == 'c':
        return iset_norm([(b, b) for b in set(base[1])])
    if base[0] == 'chars': return CHAR
    if base[0] == 'a':
        k = AT.key[base[1]]
        if k[0] == 'utf8' or (len(k) > 1 and k[-1] == 'str'): return UTF8
    return BYTE

def at_atom(base, idx):
    return AT.get(('at', base, idx), cell_range(base))

def boff(base, idx):
    """byte offset of the idx-th character of a character view"""
    k = ('boff', base, idx)
    f = fold_key(k)
    if f is not None: return f
    rng = ((idx[0], 4 * idx[0]),) if is_const(idx) else LEN_RNG
    return atom(AT.get(k, rng))

def base_len(base):
    """linear term for the whole length of a base"""
    if base[0] == 'c': return const(len(base[1]))
    return atom(AT.get(('len', base), LEN_RNG))


class Infeasible(Exception): pass

def clamp(x, y): return (max(min(x, POS), NEG), max(min(y, POS), NEG))



class State:
    __slots__ = ('env', 'iset', 'lf', 'nf', 'quant', 'taint', 'sub', 'ctx', 'ev', 'prov', '_h')

    def __init__(self):
        self.env = {}
        self.iset = {}
        self.lf = frozenset()
        self.nf = frozenset()
        self.quant = frozenset()
        self.taint = frozenset()
        self.sub = {}
        self.ctx = ()
        self.ev = ()
        self.prov = ()

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.iset = dict(self.iset)
        s.lf = self.lf; s.nf = self.nf; s.quant = self.quant; s.taint = self.taint
        s.sub = self.sub
        s.ctx = self.ctx
        s.ev = self.ev
        s.prov = self.prov
        return s

    # ---- queries
    def rng(self, a):
        r = self.iset.get(a)
        if r is not None: return r
        k = AT.key[a]
        if k[0] == 'pw': return self.pw_range(k)
        if k[0] == 'at': return self.cell_rng(a, k)
        return AT.rng[a]

    def cell_rng(self, a, k):
        r = AT.rng[a]
        base, idx = k[1], k[2]
        for b, lo, hi, s in self.quant:
            if b == base and not iset_sub(r, s) and self.ge(sub(idx, lo), 2) and self.ge(addc(sub(hi, idx), -1), 2):
                r = iset_inter(r, s)
        return r

    def pw_range(self, k):
        base_r = self.rng(k[1][1])
        out = []
        for s, l in k[2]:
            c = iset_inter(base_r, s)
            if not c: continue
            if is_const(l): out.append((l[0], l[0]))
            else:
                sg = single(l)
                if sg and sg[0] == k[1][1] and abs(sg[1]) == 1:
                    for x, y in c:
                        p, q = sg[1] * x + sg[2], sg[1] * y + sg[2]
                        out.append((min(p, q), max(p, q)))
                else:
                    lo, hi = self.bounds(l)
                    out.append((lo, hi))
        return iset_norm(out)

    def bounds(self, l):
        lo = hi = l[0]
        for a, c in l[1]:
            r = self.rng(a)
            if not r: raise Infeasible()
            x, y = r[0][0], r[-1][1]
            if c > 0: lo += c * x; hi += c * y
            else: lo += c * y; hi += c * x
        if lo < NEG: lo = NEG
        if hi > POS: hi = POS
        return lo, hi

    def lrange(self, l):
        """interval set of the values of l"""
        if is_const(l): return ((l[0], l[0]),)
        sg = single(l)
        if sg:
            a, c, k = sg
            r = self.rng(a)
            if c == 1 and k == 0: return r
            if abs(c) == 1 or iset_size(r) <= 64:
                if abs(c) == 1:
                    return iset_norm([clamp(*sorted((c * x + k, c * y + k))) for x, y in r])
                return iset_norm([(c * v + k, c * v + k) for v in iset_iter(r)])
        return (self.bounds(l),)

    def const_of(self, l):
        if is_const(l): return l[0]
        lo, hi = self.bounds(l)
        return lo if lo == hi else None

    def norm(self, l):
        """apply the recorded equalities"""
        if not self.sub or not l[1]: return l
        for _ in range(50):
            ch = False
            for a, c in l[1]:
                if a in self.sub:
                    l = add((l[0], tuple(x for x in l[1] if x[0] != a)), self.sub[a], c)
                    ch = True
                    break
            if not ch: break
        # nested indices
        out = (l[0], ())
        ch = False
        for a, c in l[1]:
            b = self.norm_lin(a)
            if b is not None:
                ch = True
                out = add(out, b, c)
            else: out = add(out, atom(a), c)
        return out if ch else l

    def norm_lin(self, a):
        """the term a is equal to once nested terms are rewritten, or None when unchanged"""
        if not self.sub or AT.deep[a].isdisjoint(self.sub): return None
        k = AT.key[a]
        k2 = subst_key(k, self.norm)
        if k2 == k: return None
        f = fold_key(k2)
        if f is not None: return f
        if k2[0] == 'at': return atom(at_atom(k2[1], k2[2]))
        if k2[0] == 'boff': return boff(k2[1], k2[2])
        return atom(AT.get(k2, AT.rng[a]))

    def ge(self, l, depth=4, tried=None):
        """l >= 0 is entailed"""
        if not l[1]: return l[0] >= 0
        lo, _ = self.bounds(l)
        if lo >= 0: return True
        if depth <= 0 or not self.lf: return False
        if l in self.lf: return True
        if tried is None: tried = {}
        elif tried.get(l, 0) >= depth: return False
        tried[l] = depth
        # eliminate an atom with a fact that mentions it in the same direction
        lt = l[1]
        size = len(lt) + 1
        coef = dict(lt)
        cand = []
        for f in self.lf:
            for b, d in f[1]:
                c = coef.get(b)
                if c is None or (d > 0) != (c > 0): continue
                if c % d == 0: r = sub(l, scale(f, c // d))
                elif d % c == 0 and d // c > 0:
                    # k*l = f + rest: l >= 0 iff k*l >= 0 (k > 0)
                    r = sub(scale(l, d // c), f)
                else: continue
                if len(r[1]) <= size: cand.append(r)
        for r in cand:
            if self.ge(r, depth - 1, tried): return True
        return False

    def le0(self, l, depth=4): return self.ge(scale(l, -1), depth)

    def eq0(self, l):
        if is_const(l): return l[0] == 0
        return self.ge(l) and self.le0(l)

    # ---- refinement (in place; raise Infeasible)
    def restrict(self, a, s):
        """atom a in interval set s"""
        k = AT.key[a]
        if k[0] == 'pw':
            return self.restrict_pw(a, k, s)
        cur = self.rng(a)
        new = iset_inter(cur, s)
        if not new: raise Infeasible()
        if new != cur or (a not in self.iset and new != AT.rng[a]):
            self.iset[a] = new
            if AT.struct[a]:
                if new[0][0] == new[-1][1]:
                    self.substitute(a, const(new[0][0]))
                else:
                    self.check_lf(a)
            else:
                if self.lf: self.check_lf(a)
                if self.nf and new[0][0] == new[-1][1]: self.fix_nf(a)

    def fix_nf(self, a):
        for g in self.nf:
            if not any(x == a for x, _ in g[1]): continue
            k, left = g[0], None
            for x, c in g[1]:
                r = self.rng(x)
                if r and r[0][0] == r[-1][1]: k += c * r[0][0]
                elif left is None: left = (x, c)
                else: left = (); break
            if left is None:
                if k == 0: raise Infeasible()
            elif left and not AT.struct[left[0]] and k % left[1] == 0:
                v = -k // left[1]
                self.restrict(left[0], iset_compl(((v, v),)))

    def check_lf(self, a):
        for f in self.lf:
            if any(x == a for x, _ in f[1]):
                if self.bounds(f)[1] < 0: raise Infeasible()

    def restrict_pw(self, a, k, s):
        base_r = self.rng(k[1][1])
        keep = []
        for cs, l in k[2]:
            c = iset_inter(base_r, cs)
            if not c: continue
            if is_const(l):
                if iset_inter(s, ((l[0], l[0]),)): keep.extend(c)
            else:
                sg = single(l)
                if sg and sg[0] == k[1][1] and abs(sg[1]) == 1:
                    # c1*x + k0 in s  -> x in (s-k0)*c1
                    t = iset_norm([tuple(sorted(((x - sg[2]) * sg[1], (y - sg[2]) * sg[1]))) for x, y in s])
                    keep.extend(iset_inter(c, t))
                else:
                    keep.extend(c)
        self.restrict(k[1][1], iset_norm(keep))

    def assume_ge(self, l):
        if not l[1]:
            if l[0] < 0: raise Infeasible()
            return
        sg = single(l)
        if sg:
            a, c, k = sg
            if c > 0: self.restrict(a, ((-(k // c), POS),))        # c*a >= -k  -> a >= ceil(-k/c)
            else: self.restrict(a, ((NEG, k // (-c)),))             # (-c) a <= k
            return
        if self.ge(l): return
        if self.ge(addc(scale(l, -1), -1)): raise Infeasible()
        self.lf = self.lf | {l}
        # propagate bounds
        for a, c in l[1]:
            rest = (l[0], tuple(x for x in l[1] if x[0] != a))
            hi = self.bounds(rest)[1]
            if hi > (1 << 70): continue
            # c*a >= -hi
            cur = self.rng(a)
            if c > 0:
                b = -(hi // c)
                if b > cur[0][0]: self.restrict(a, ((b, POS),))
            else:
                b = hi // (-c)
                if b < cur[-1][1]: self.restrict(a, ((NEG, b),))
        # equality detection
        if self.ge(scale(l, -1)): self.assume_eq(l)

    def assume_eq(self, l):
        l = self.norm(l)
        if not l[1]:
            if l[0] != 0: raise Infeasible()
            return
        sg = single(l)
        if sg:
            a, c, k = sg
            if k % c: raise Infeasible()
            self.restrict(a, ((-k // c, -k // c),))
            return
        if l in self.nf or scale(l, -1) in self.nf: raise Infeasible()
        if self.ge(addc(l, -1)) or self.ge(addc(scale(l, -1), -1)): raise Infeasible()
        cand = [(a, c) for a, c in l[1] if abs(c) == 1 and AT.struct[a]]
        if cand:
            # prefer to eliminate the most derived atom; never one that the rest depends on
            order = {'div': 3, 'phi': 0, 'pos': 2, 'cnt': 1, 'len': 4, 'nchars': 4}
            cand.sort(key=lambda x: (order.get(AT.key[x[0]][0], 9), -x[0]))
            for a, c in cand:
                rest = (l[0], tuple(x for x in l[1] if x[0] != a))
                t = scale(rest, -c)
                if any(atom_mentions(x, a) for x, _ in t[1]): continue
                lo, hi = self.rng(a)[0][0], self.rng(a)[-1][1]
                self.substitute(a, t)
                self.assume_ge(addc(t, -lo))
                if hi < (1 << 62): self.assume_ge(addc(scale(t, -1), hi))
                return
            # every candidate is circular (n = 4 * (n div 4) + r): name the quotient first
            for a, c in cand:
                for x, _ in l[1]:
                    if x != a and AT.struct[x] and a in AT.deep[x] and x not in self.sub and AT.key[x][:2] != ('cnt', 'q'):
                        y = AT.get(('cnt', 'q', x), AT.rng[x])
                        self.restrict(y, self.rng(x))
                        self.substitute(x, atom(y))
                        return self.assume_eq(l)
        # no structural atom: keep as two inequalities, and propagate sets for unit differences
        if len(l[1]) == 2 and abs(l[1][0][1]) == 1 and l[1][0][1] == -l[1][1][1]:
            (a, c), (b, _) = l[1]
            # c*a - c*b + k = 0 -> a = b - k/c
            k = l[0] * c
            ra, rb = self.rng(a), self.rng(b)
            self.restrict(a, tuple((x - k, y - k) for x, y in rb))
            self.restrict(b, tuple((x + k, y + k) for x, y in self.rng(a)))
        # mixed radix sums (bytes of a wider number): interval propagation determines every digit
        for _ in range(len(l[1])):
            ch = False
            for a, c in l[1]:
                rest = (l[0], tuple(x for x in l[1] if x[0] != a))
                lo, hi = self.bounds(rest)
                # c*a = -rest in [-hi, -lo]
                x, y = (-hi, -lo) if c > 0 else (lo, hi)
                k = abs(c)
                x, y = -(-x // k), y // k
                cur = self.rng(a)
                if x > cur[0][0] or y < cur[-1][1]:
                    self.restrict(a, ((x, y),)); ch = True
            if not ch: break
        fix = tuple(x for x in l[1] if self.rng(x[0])[0][0] == self.rng(x[0])[-1][1])
        if fix:
            l = (l[0] + sum(c * self.rng(a)[0][0] for a, c in fix), tuple(x for x in l[1] if x not in fix))
            if not l[1]:
                if l[0]: raise Infeasible()
                self.check_nf()
                return
            if len(l[1]) == 1: return self.assume_eq(l)
        self.lf = self.lf | {l, scale(l, -1)}

    def check_nf(self):
        for g in self.nf:
            lo, hi = self.bounds(g)
            if lo == hi == 0: raise Infeasible()

    def assume_ne(self, l):
        l = self.norm(l)
        if not l[1]:
            if l[0] == 0: raise Infeasible()
            return
        sg = single(l)
        if sg:
            a, c, k = sg
            if k % c: return
            v = -k // c
            self.restrict(a, iset_compl(((v, v),)))
            return
        g, le = self.ge(l), self.le0(l)
        if g and le: raise Infeasible()
        if g: return self.assume_ge(addc(l, -1))
        if le: return self.assume_ge(addc(scale(l, -1), -1))
        if scale(l, -1) not in self.nf: self.nf = self.nf | {l}

    def substitute(self, a, t):
        """record a = t and rewrite the whole state"""
        if a in self.sub: return
        ns = {}
        tmp = State()
        tmp.sub = {a: t}
        f = tmp.norm
        eqs = []
        for k, v in self.sub.items():
            ns[k] = v = f(v)
            y = tmp.norm_lin(k)
            if y is not None: eqs.append(sub(y, v))
        ns[a] = t
        self.sub = ns
        # isets
        old = self.iset
        self.iset = {}
        pend = []
        for x, s in old.items():
            if x == a:
                pend.append((t, s)); continue
            y = tmp.norm_lin(x)
            if y is None: self.iset[x] = s
            else: pend.append((y, s))
        lf = self.lf; self.lf = frozenset()
        keep = []
        for g in lf:
            h = f(g)
            if h == g: keep.append(g)
            else: pend.append((h, None))
        self.lf = frozenset(keep)
        self.nf = frozenset(f(g) for g in self.nf)
        for g in self.nf:
            if not g[1] and g[0] == 0: raise Infeasible()
        self.nf = frozenset(g for g in self.nf if g[1])
        self.quant = frozenset((subst_base(b, f), f(lo), f(hi), s) for b, lo, hi, s in self.quant)
        for k in list(self.env):
            v = self.env[k]
            w = subst_val(v, f)
            if w is not v: self.env[k] = w
        if self.ev: self.ev = tuple(subst_any(e, f) for e in self.ev)
        for l in eqs: self.assume_eq(self.norm(l))
        for l, s in pend:
            if s is None: self.assume_ge(l)
            elif not l[1]:
                if not iset_inter(s, ((l[0], l[0]),)): raise Infeasible()
            elif len(l[1]) == 1 and abs(l[1][0][1]) == 1:
                b, c = l[1][0]
                self.restrict(b, iset_norm([tuple(sorted(((x - l[0]) * c, (y - l[0]) * c))) for x, y in s]))
            else:
                if s[0][0] > NEG // 2: self.assume_ge(addc(l, -s[0][0]))
                if s[-1][1] < (1 << 62): self.assume_ge(addc(scale(l, -1), s[-1][1]))

    # ---- quantified facts
    def cells(self, base):
        for a, s in self.iset.items():
            k = AT.key[a]
            if k[0] == 'at' and k[1] == base: yield k[2], s

    def qset(self, base, lo, hi):
        """smallest known set covering every cell of base in [lo, hi); None when not covered
        by anything better than the full range"""
        if self.ge(sub(lo, hi)): return ()
        if base[0] == 'c':
            a, b = self.bounds(lo)[0], self.bounds(hi)[1]
            a = max(a, 0); b = min(b, len(base[1]))
            return iset_norm([(x, x) for x in base[1][a:b]])
        full = cell_range(base)
        out = ()
        cur = lo
        for _ in range(400):
            if self.ge(sub(cur, hi)): return out
            best = None
            a = at_atom(base, cur)
            s = self.rng(a)
            nxt = None
            # prefer quantified facts starting at or before cur
            for b, l2, h2, s2 in self.quant:
                if b != base: continue
                if self.ge(sub(cur, l2), 2) and not self.ge(sub(cur, h2), 2):
                    # must make progress: h2 > cur
                    if self.ge(addc(sub(h2, cur), -1), 2) or (h2 != cur and self.ge(sub(h2, cur), 2)):
                        if best is None or iset_size(s2) < iset_size(best[1]): best = (h2, s2)
            if best is not None:
                out = iset_union(out, best[1]); cur = best[0]; continue
            if s != full and (self.ge(addc(sub(hi, cur), -1), 3) or True):
                out = iset_union(out, s); cur = addc(cur, 1); continue
            return full
        return full

    def add_quant(self, base, lo, hi, s):
        if self.ge(sub(lo, hi)): return
        n = sub(hi, lo)
        if is_const(n) and n[0] <= 64:
            for i in range(n[0]): self.restrict_cell(base, addc(lo, i), s)
            return
        if base[0] == 'c': return
        if iset_sub(cell_range(base), s): return
        self.quant = self.quant | {(base, lo, hi, s)}

    def restrict_cell(self, base, idx, s):
        if base[0] == 'c':
            c = self.const_of(idx)
            if c is not None:
                if 0 <= c < len(base[1]) and not iset_inter(s, ((base[1][c], base[1][c]),)): raise Infeasible()
                return
        self.restrict(at_atom(base, idx), s)


def atom_mentions(x, a):
    return x == a or a in AT.deep[x]

def is_lin(k):
    return (type(k[0]) is int and type(k[1]) is tuple
            and all(type(t) is tuple and len(t) == 2 and type(t[0]) is int and type(t[1]) is int for t in k[1]))

def subst_any(v, f):
    """rewrite every linear term / atom reference nested in a tuple structure"""
    if len(v) == 2:
        if is_lin(v): return f(v)
        if v[0] == 'a' and type(v[1]) is int:
            l = f((0, ((v[1], 1),)))
            if l[0] == 0 and len(l[1]) == 1 and l[1][0][1] == 1 and l[1][0][0] != v[1]:
                return ('a', l[1][0][0])
            return v
    ch = False
    out = []
    for x in v:
        if type(x) is tuple:
            y = subst_any(x, f)
            if y is not x and y != x: ch = True
            out.append(y)
        else: out.append(x)
    return tuple(out) if ch else v

def subst_val(v, f):
    return subst_any(v, f) if type(v) is tuple else v
subst_base = subst_any
subst_key = subst_any
