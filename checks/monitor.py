"""A specification automaton that reads the input alongside the analysed program.

The automaton's control state, reading position and recorded positions live in the abstract state
(under a negative environment key), so loop invariants relate them to the program's own variables.
It advances over a cell exactly when the program's knowledge of that cell decides the transition
(splitting the state when the program has examined the cell but kept several classes together)."""
from dom import *
MON = -(1 << 40)

class Automaton:
    """states: hashable names; delta[q] = [(byte set, q2, (marks...))]; marks: names of recorded positions"""
    def __init__(self, start, delta, absorbing, marks, dead):
        self.names = []
        self.ix = {}
        self.marks = list(marks)
        self.delta = []
        todo = [start]
        while todo:
            q = todo.pop(0)
            if q in self.ix: continue
            self.ix[q] = len(self.names); self.names.append(q)
            ts = [] if q in absorbing else delta(q)
            todo += [t[1] for t in ts]
            todo.append(dead)
        self.dead = self.ix[dead]
        self.absorbing = {self.ix[q] for q in absorbing if q in self.ix}
        self.tr = []
        for q in self.names:
            ts = [] if q in absorbing else delta(q)
            # classes by target and marks; anything not listed leads to the dead state
            by = {}
            seen = ()
            for S, q2, mk in ts:
                S = iset_diff(S, seen); seen = iset_union(seen, S)
                k = (self.ix[q2], tuple(self.marks.index(m) for m in mk))
                by[k] = iset_union(by.get(k, ()), S)
            rest = iset_diff(BYTE, seen)
            if rest and q not in absorbing:
                k = (self.dead, ())
                by[k] = iset_union(by.get(k, ()), rest)
            self.tr.append([(S, k[0], k[1]) for k, S in by.items() if S])
        # fewest further cells that are certainly before an absorbing non-dead state is entered
        INF = 1 << 30
        self.dist = [0 if i in self.absorbing and i != self.dead else INF for i in range(len(self.names))]
        ch = True
        while ch:
            ch = False
            for i, ts in enumerate(self.tr):
                for S, j, _ in ts:
                    if self.dist[j] + 1 < self.dist[i]: self.dist[i] = self.dist[j] + 1; ch = True

    def init(self, st, base, n):
        self.base, self.n = base, n
        st.env[MON] = ('A', -1, 0, (('I', const(0)),) * (1 + len(self.marks)))

    def get(self, st):
        """(state index, position, marks)"""
        v = st.env[MON]
        return v[2], st.norm(v[3][0][1]), [st.norm(x[1]) for x in v[3][1:]]

    def over(self, st):
        v = st.env.get(MON)
        return v is None or v[2] in self.absorbing and v[2] != self.dead

    def goto(self, st, q, pos, marks):
        if q == self.dead: pos, marks = const(0), [const(0)] * len(marks)
        st.env[MON] = ('A', -1, q, (('I', pos),) + tuple(('I', m) for m in marks))

    def __call__(self, ip, st):
        out = []
        todo = [st]
        while todo:
            s = todo.pop()
            if MON not in s.env: out.append(s); continue
            for _ in range(400):
                nx = self.step(s)
                if nx is None: out.append(s); break
                if nx == 'again': continue
                todo += nx; break
            else: out.append(s)
        return out

    def step(self, s):
        v = s.env[MON]
        q = v[2]
        if q in self.absorbing: return None
        pos = s.norm(v[3][0][1])
        base = self.base
        # runs of cells on which the automaton stays put
        loop = ()
        for S, q2, mk in self.tr[q]:
            if q2 == q and not mk: loop = iset_union(loop, S)
        if loop:
            for b, lo, hi, S in s.quant:
                if b == base and hi != pos and iset_sub(iset_inter(S, cell_range(base)), loop) and s.ge(sub(pos, lo), 2) and s.ge(sub(hi, pos), 2) and not s.ge(sub(pos, hi), 2):
                    self.goto(s, q, hi, [x[1] for x in v[3][1:]])
                    return 'again'
        a = at_atom(base, pos)
        r = s.rng(a)
        if r == cell_range(base): return None
        if not s.ge(addc(sub(s.norm(self.n), pos), -1)): return None
        cls = [(iset_inter(r, S), q2, mk) for S, q2, mk in self.tr[q]]
        cls = [c for c in cls if c[0]]
        if len(cls) > 1 and a not in s.iset: return None
        return self.split(s, pos, a, cls)

    def split(self, s, pos, a, cls):
        if len(cls) == 1:
            S, q2, mk = cls[0]
            m = [x[1] for x in s.env[MON][3][1:]]
            for i in mk: m[i] = pos
            self.goto(s, q2, addc(pos, 1), m)
            return 'again'
        out = []
        for S, q2, mk in cls:
            t = s.copy()
            try: t.restrict(a, S)
            except Infeasible: continue
            m = [x[1] for x in t.env[MON][3][1:]]
            for i in mk: m[i] = t.norm(pos)
            self.goto(t, q2, addc(t.norm(pos), 1), m)
            out.append(t)
        return out

    def force(self, s):
        """[(state, ended)]: decide whether the input ends at the position; else read one cell"""
        q, pos, _ = self.get(s)
        out = []
        n = s.norm(self.n)
        e = s.copy()
        try:
            e.assume_eq(sub(n, pos)); out.append((e, True))
        except Infeasible: pass
        e = s.copy()
        try:
            e.assume_ge(addc(sub(n, pos), -1))
            pos = e.norm(pos)
            a = at_atom(self.base, pos)
            r = e.rng(a)
            cls = [(iset_inter(r, S), q2, mk) for S, q2, mk in self.tr[q]]
            cls = [c for c in cls if c[0]]
            x = self.split(e, pos, a, cls) if cls else []
            out += [(y, False) for y in ([e] if x == 'again' else x)]
        except Infeasible: pass
        return out
