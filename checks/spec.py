"""Specification formulas over abstract states and their entailment check.

A formula speaks about one input sequence (base, length) and arbitrary linear terms:
  T, F, ('c', cond), ('all', base, lo, hi, S), ('ex', base, lo, hi, S), ('and', [...]), ('or', [...])
`entails(ip, st, f)` is true when every concrete input described by the abstract state satisfies f.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from dom import *

T = ('T',)
F = ('F',)

def And(*fs):
    out = []
    for f in fs:
        if f == F: return F
        if f == T: continue
        if f[0] == 'and': out += f[1]
        else: out.append(f)
    if not out: return T
    return out[0] if len(out) == 1 else ('and', out)

def Or(*fs):
    out = []
    for f in fs:
        if f == T: return T
        if f == F: continue
        if f[0] == 'or': out += f[1]
        else: out.append(f)
    if not out: return F
    return out[0] if len(out) == 1 else ('or', out)

def Not(f):
    k = f[0]
    if k == 'T': return F
    if k == 'F': return T
    if k == 'c': return ('c', neg(f[1]))
    if k == 'all': return ('ex',) + f[1:4] + (iset_compl(f[4]),)
    if k == 'ex': return ('all',) + f[1:4] + (iset_compl(f[4]),)
    if k == 'and': return Or(*[Not(x) for x in f[1]])
    if k == 'or': return And(*[Not(x) for x in f[1]])
    raise ValueError(k)

def neg(c):
    k = c[0]
    if k == 'ge': return ('ge', addc(scale(c[1], -1), -1))
    if k == 'eq': return ('ne', c[1])
    if k == 'ne': return ('eq', c[1])
    if k == 'in': return ('in', c[1], iset_compl(c[2]))
    if k == 'and': return ('or', neg(c[1]), neg(c[2]))
    if k == 'or': return ('and', neg(c[1]), neg(c[2]))
    if k == 'true': return ('false',)
    if k == 'false': return ('true',)
    raise ValueError(k)

def C(c): return ('c', c)
def Ge(a, b): return ('c', ('ge', sub(lin(a), lin(b))))
def Le(a, b): return Ge(b, a)
def Eq(a, b): return ('c', ('eq', sub(lin(a), lin(b))))
def Ne(a, b): return ('c', ('ne', sub(lin(a), lin(b))))
def In(l, s): return ('c', ('in', lin(l), s))
def lin(x): return const(x) if isinstance(x, int) else x
def All(base, lo, hi, s): return ('all', base, lin(lo), lin(hi), s)
def Ex(base, lo, hi, s): return ('ex', base, lin(lo), lin(hi), s)
def Cell(base, i, s):
    i = lin(i)
    if base[0] == 'c' and is_const(i):
        return In(const(base[1][i[0]]), s)
    return In(atom(at_atom(base, i)), s)

WIDE = 24

def norm(st, f):
    """rewrite with the equalities of st and expand short quantifiers"""
    k = f[0]
    if k == 'c':
        c = f[1]
        if c[0] in ('true', 'false'): return T if c[0] == 'true' else F
        if c[0] in ('and', 'or'):
            return (And if c[0] == 'and' else Or)(norm(st, C(c[1])), norm(st, C(c[2])))
        l = st.norm(c[1])
        if not l[1]:
            v = l[0]
            r = v >= 0 if c[0] == 'ge' else v == 0 if c[0] == 'eq' else v != 0 if c[0] == 'ne' else bool(iset_inter(c[2], ((v, v),)))
            return T if r else F
        try:
            lo, hi = st.bounds(l)
            if c[0] == 'ge': r = True if lo >= 0 else False if hi < 0 else None
            elif c[0] in ('eq', 'ne'):
                r = True if lo == hi == 0 else False if lo > 0 or hi < 0 or len(l[1]) == 1 and not iset_inter(st.lrange(l), ((0, 0),)) else None
                if c[0] == 'ne' and r is not None: r = not r
            else:
                q = st.lrange(l)
                x = iset_inter(q, c[2])
                r = False if not x else True if x == q else None
            if r is not None: return T if r else F
        except Infeasible: return T
        return ('c', (c[0], l) + c[2:])
    if k in ('all', 'ex'):
        lo, hi = st.norm(f[2]), st.norm(f[3])
        base = subst_any(f[1], st.norm) if st.sub else f[1]
        w = sub(hi, lo)
        if is_const(w):
            if w[0] <= 0: return T if k == 'all' else F
            if w[0] <= WIDE:
                cs = [norm(st, Cell(base, addc(lo, i), f[4])) for i in range(w[0])]
                return And(*cs) if k == 'all' else Or(*cs)
        return (k, base, lo, hi, f[4])
    if k == 'and': return And(*[norm(st, x) for x in f[1]])
    if k == 'or': return Or(*[norm(st, x) for x in f[1]])
    return f

def holds(ip, st, f):
    """quick entailment of a literal"""
    k = f[0]
    if k == 'T': return True
    if k == 'F': return False
    if k == 'c': return not ip.assume(st.copy(), neg(f[1]))
    if k == 'all':
        try: q = st.qset(f[1], f[2], f[3])
        except Infeasible: return True
        return iset_sub(q, f[4])
    if k == 'ex':
        for idx, s in list(st.cells(f[1])):
            if s and iset_sub(s, f[4]) and st.ge(sub(idx, f[2])) and st.ge(addc(sub(f[3], idx), -1)): return True
        for b, lo, hi, s in st.quant:
            if b == f[1] and iset_sub(s, f[4]):
                # a non-empty part of [lo, hi) inside [f2, f3)
                if st.ge(sub(lo, f[2])) and st.ge(addc(sub(f[3], lo), -1)) and st.ge(addc(sub(hi, lo), -1)): return True
                if st.ge(sub(f[2], lo)) and st.ge(addc(sub(hi, f[2]), -1)) and st.ge(addc(sub(f[3], f[2]), -1)): return True
        for idx, s in list(st.cells(f[1])):
            if s and iset_sub(s, f[4]):
                if not ip.assume(st.copy(), ('ge', addc(sub(f[2], idx), -1))) and not ip.assume(st.copy(), ('ge', sub(idx, f[3]))): return True
        return False
    return None

def entails(ip, st, f, fuel=200):
    f = norm(st, f)
    fuel = [fuel] if isinstance(fuel, int) else fuel
    return ent(ip, st, f, fuel) or contradictory(ip, st)

def contradictory(ip, st):
    """deeper consistency rules, applied to a candidate counterexample only"""
    s = st.copy()
    try:
        for _ in range(4):
            before = (len(s.lf), len(s.iset), s.nf)
            for base in {AT.key[a][1] for a in s.iset if AT.key[a][0] == 'at'}:
                if base[0] == 'chars': n = s.norm(base[3])
                cs = list(s.cells(base))
                if len(cs) > 40: continue
                for i, si in cs:
                    for j, sj in cs:
                        if i == j or iset_inter(si, sj): continue
                        d = sub(j, i)
                        if s.ge(d): s.assume_ge(addc(d, -1))
                    for b, lo, hi, sq in list(s.quant):
                        if b != base: continue
                        a, z = s.ge(sub(i, lo)), s.ge(addc(sub(hi, i), -1))
                        if iset_inter(si, sq):
                            if a and z: s.restrict_cell(base, i, sq)
                        elif a and z: return True
                        elif a: s.assume_ge(sub(i, hi))
                        elif z: s.assume_ge(addc(sub(lo, i), -1))
            # a non-empty text has a character, and no more characters than bytes
            for a in list(s.iset) + list(s.sub) + [x for l in s.lf for x, _ in l[1]]:
                k = AT.key[a]
                if k[0] == 'len' and k[1][0] == 'chars':
                    n = s.norm(k[1][3])
                    m = s.norm(atom(a))
                    s.assume_ge(s.norm(sub(n, m))); s.assume_ge(s.norm(sub(scale(m, 4), n)))
            # the first and last characters of a text are ASCII exactly when its first and last bytes are
            for base in {AT.key[a][1] for a in s.iset if AT.key[a][0] == 'at' and AT.key[a][1][0] == 'chars'}:
                u, off, n = base[1], s.norm(base[2]), s.norm(base[3])
                m = s.norm(base_len(base))
                for i, j in ((const(0), off), (addc(m, -1), addc(add(off, n), -1))):
                    if not s.ge(addc(n, -1)): continue
                    c, b = at_atom(base, i), at_atom(u, j)
                    rc, rb = s.rng(c), s.rng(b)
                    asc = ((0, 127),)
                    if iset_sub(rb, asc): s.restrict(c, rb)
                    elif iset_sub(rc, asc): s.restrict(b, rc)
                    if not iset_inter(rc, asc): s.restrict(b, ((128, 255),))
            if (len(s.lf), len(s.iset), s.nf) == before: return False
    except Infeasible: return True
    return False

def ent(ip, st, f, fuel):
    fuel[0] -= 1
    k = f[0]
    if k == 'T': return True
    if k == 'and': return all(ent(ip, st, x, fuel) for x in f[1])
    if k != 'or':
        if holds(ip, st, f): return True
        if k == 'F': return False
        return False
    # disjunction
    rest = []
    for x in f[1]:
        if x[0] == 'and':
            y = [z for z in x[1] if z[0] in ('and', 'or') or not holds(ip, st, z)]
            if not y: return True
            # drop a disjunct that is refuted
            if any(z[0] == 'c' and not ip.assume(st.copy(), z[1]) for z in y): continue
            if any(z[0] == 'all' and holds(ip, st, Not(z)) for z in y): continue
            rest.append(('and', y) if len(y) > 1 else y[0])
        else:
            if holds(ip, st, x): return True
            if x[0] == 'c' and not ip.assume(st.copy(), x[1]): continue
            rest.append(x)
    if not rest: return False
    if fuel[0] <= 0: return False
    # case split on an undetermined condition
    pick = None
    for x in rest:
        if x[0] == 'c': pick = x[1]; break
    if pick is None:
        for x in rest:
            if x[0] == 'and':
                for z in x[1]:
                    if z[0] == 'c': pick = z[1]; break
                    if z[0] in ('and', 'or'):
                        for u in z[1]:
                            if u[0] == 'c': pick = u[1]; break
                    if pick: break
            if pick: break
    if pick is None:
        if len(rest) == 1: return ent(ip, st, rest[0], fuel) if rest[0][0] != 'or' else False
        return False
    g = Or(*rest)
    for c in (pick, neg(pick)):
        for s in ip.assume(st.copy(), c):
            if not ent(ip, s, norm(s, g), fuel): return False
    return True

def refine_pos(ip, st, base, idx, T):
    """cell idx of base lies in T: exclude the positions whose known contents are disjoint from T"""
    work = [st]
    def step(s, conds):
        out = []
        for c in conds: out += ip.assume(s.copy(), c)
        return out
    for q in list(st.quant):
        if q[0] != base or iset_inter(q[3], T): continue
        nxt = []
        for s in work:
            i, lo, hi = s.norm(idx), s.norm(q[1]), s.norm(q[2])
            nxt += step(s, (('ge', addc(sub(lo, i), -1)), ('ge', sub(i, hi))))
        work = nxt
    for c, cs in list(st.cells(base)):
        if iset_inter(cs, T): continue
        nxt = []
        for s in work:
            i, c2 = s.norm(idx), s.norm(c)
            if i == c2: continue
            nxt += step(s, (('ge', addc(sub(c2, i), -1)), ('ge', addc(sub(i, c2), -1))))
        work = nxt
    return work
