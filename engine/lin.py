"""Numeric domain: conjunctions of linear (in)equalities over interned symbols plus "nogoods"
(forbidden conjunctions of equalities).  Entailment is decided by Fourier-Motzkin elimination with
integer tightening - a polyhedral abstract domain, no external solver."""
from math import gcd

KEYS = []          # symbol id -> key
IDS = {}           # key -> symbol id
LO = []            # global (always valid) bounds of the symbol
HI = []
STATS = {'fm': 0, 'ent': 0}


def sym(key, lo=None, hi=None):
    i = IDS.get(key)
    if i is None:
        i = len(KEYS)
        IDS[key] = i
        KEYS.append(key)
        LO.append(lo)
        HI.append(hi)
    return i


class Lin:
    __slots__ = ('t', 'c', '_h')

    def __init__(self, t, c):
        self.t = t        # dict sym -> nonzero int
        self.c = c
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((frozenset(self.t.items()), self.c))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.c == o.c and self.t == o.t)

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o) if o else self
        if not o.t:
            return Lin(self.t, self.c + o.c) if o.c else self
        t = dict(self.t)
        for s, k in o.t.items():
            v = t.get(s, 0) + k
            if v:
                t[s] = v
            else:
                t.pop(s, None)
        return Lin(t, self.c + o.c)

    def __neg__(self):
        return Lin({s: -k for s, k in self.t.items()}, -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c - o) if o else self
        t = dict(self.t)
        for s, k in o.t.items():
            v = t.get(s, 0) - k
            if v:
                t[s] = v
            else:
                t.pop(s, None)
        return Lin(t, self.c - o.c)

    def __mul__(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin({s: a * k for s, a in self.t.items()}, self.c * k)

    def isconst(self):
        return not self.t

    def __repr__(self):
        r = []
        for s, k in sorted(self.t.items()):
            n = symname(s)
            r.append(('+' if k > 0 else '-') + ('' if abs(k) == 1 else str(abs(k)) + '*') + n)
        if self.c or not r:
            r.append(('+' if self.c >= 0 else '') + str(self.c))
        s = ''.join(r)
        return s[1:] if s[0] == '+' else s


def fmtkey(k):
    if isinstance(k, tuple):
        if k and k[0] == 'f':
            return '_'.join(str(x) for x in k[1:])
        if not k:
            return '()'
        return str(k[0]) + '(' + ','.join(fmtkey(x) for x in k[1:]) + ')'
    return str(k)


NAMES = {}


def symname(s):
    n = NAMES.get(s)
    if n is None:
        r = fmtkey(KEYS[s])
        n = NAMES[s] = r if len(r) < 60 else r[:50] + '~' + str(s)
    return n


def C(n):
    return Lin({}, n)


ZERO = C(0)
ONE = C(1)


def S(key, lo=None, hi=None):
    return Lin({sym(key, lo, hi): 1}, 0)


def subst(e, m):
    """substitute symbols by Lin"""
    if not any(s in m for s in e.t):
        return e
    r = C(e.c)
    keep = {}
    for s, k in e.t.items():
        if s in m:
            r = r + m[s] * k
        else:
            keep[s] = k
    return r + Lin(keep, 0)


def norm(e):
    """normalise e >= 0 (divide by gcd, round the constant down)"""
    g = 0
    for k in e.t.values():
        g = gcd(g, k)
    if g > 1:
        return Lin({s: k // g for s, k in e.t.items()}, e.c // g)
    return e


MAXFM = 500
_fmcache = {}


def fm_infeasible(cs):
    """cs: list of Lin meaning >= 0. True if provably no integer (rational) solution."""
    cs = {norm(c) for c in cs}
    key = frozenset(cs)
    r = _fmcache.get(key)
    if r is None:
        r = _fm(cs)
        if len(_fmcache) > 200000:
            _fmcache.clear()
        _fmcache[key] = r
    return r


def _fm(cs):
    STATS['fm'] += 1
    # keep the tightest constraint per term vector
    cur = {}

    def add(e):
        if not e.t:
            return e.c < 0
        k = frozenset(e.t.items())
        o = cur.get(k)
        if o is None or e.c < o.c:
            cur[k] = e
            nk = frozenset((s, -a) for s, a in e.t.items())
            n = cur.get(nk)
            if n is not None and n.c + e.c < 0:
                return True
        return False
    for e in cs:
        if add(e):
            return True
    while cur:
        pos, neg = {}, {}
        for e in cur.values():
            for s, a in e.t.items():
                (pos if a > 0 else neg).setdefault(s, []).append(e)
        # symbols with one-sided occurrence can be dropped together with their constraints
        one = [s for s in set(pos) | set(neg) if s not in pos or s not in neg]
        if one:
            ones = set(one)
            cur = {k: e for k, e in cur.items() if not any(s in ones for s in e.t)}
            continue
        best = min(pos, key=lambda s: (len(pos[s]) * len(neg[s]) - len(pos[s]) - len(neg[s]), s))
        P, N = pos[best], neg[best]
        if len(cur) + len(P) * len(N) > MAXFM:
            return False
        cur = {k: e for k, e in cur.items() if best not in e.t}
        for p in P:
            a = p.t[best]
            for n in N:
                b = -n.t[best]
                g = gcd(a, b)
                r = p * (b // g) + n * (a // g)
                if add(norm(r)):
                    return True
    return False


class Infeasible(Exception):
    pass


class Store:
    __slots__ = ('sub', 'ine', 'ng', 'dead', '_ec')

    def __init__(self):
        self.sub = {}       # sym -> Lin (solved equalities)
        self.ine = {}       # Lin -> None, >= 0, ordered
        self.ng = {}        # frozenset(Lin) -> None, conjunction of ==0 that cannot hold
        self.dead = False
        self._ec = {}

    def copy(self):
        n = Store.__new__(Store)
        n.sub = dict(self.sub)
        n.ine = dict(self.ine)
        n.ng = dict(self.ng)
        n.dead = self.dead
        n._ec = dict(self._ec) if len(self._ec) < 400 else {}
        return n

    def red(self, e):
        return subst(e, self.sub) if self.sub and e.t else e

    # -------------------------------------------------------------- bounds
    def bounds(self, e):
        e = self.red(e)
        lo = hi = e.c
        for s, k in e.t.items():
            l, h = LO[s], HI[s]
            if k > 0:
                lo = None if lo is None or l is None else lo + k * l
                hi = None if hi is None or h is None else hi + k * h
            else:
                lo = None if lo is None or h is None else lo + k * h
                hi = None if hi is None or l is None else hi + k * l
        return lo, hi

    def cone(self, es):
        syms = set()
        for e in es:
            syms.update(e.t)
        out = []
        rest = list(self.ine)
        ch = True
        while ch:
            ch = False
            nr = []
            for e in rest:
                if any(s in syms for s in e.t):
                    out.append(e)
                    n = len(syms)
                    syms.update(e.t)
                    if len(syms) != n:
                        ch = True
                else:
                    nr.append(e)
            rest = nr
        for s in syms:
            if LO[s] is not None:
                out.append(Lin({s: 1}, -LO[s]))
            if HI[s] is not None:
                out.append(Lin({s: -1}, HI[s]))
        return out

    def infeasible_with(self, es):
        es = [self.red(e) for e in es]
        for e in es:
            if not e.t and e.c < 0:
                return True
        return fm_infeasible(self.cone(es) + es)

    def ent(self, e):
        """does the store entail e >= 0 ?"""
        e = self.red(e)
        if not e.t:
            return e.c >= 0
        lo, hi = self.bounds(e)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        r = self._ec.get(e)
        if r is None:
            STATS['ent'] += 1
            r = self.infeasible_with([-e - 1])
            self._ec[e] = r
        return r

    def ent_eq(self, e):
        e = self.red(e)
        if not e.t:
            return e.c == 0
        return self.ent(e) and self.ent(-e)

    def ent_ne(self, e):
        e = self.red(e)
        if not e.t:
            return e.c != 0
        if self.ent(e - 1) or self.ent(-e - 1):
            return True
        k = frozenset([self.canon_eq(e)])
        if k in self.ng:
            return True
        c = self.copy()
        return not c.add_eq(e)

    def can_eq(self, e):
        return not self.ent_ne(e)

    @staticmethod
    def canon_eq(e):
        """canonical sign for e == 0"""
        if not e.t:
            return e
        g = 0
        for k in e.t.values():
            g = gcd(g, k)
        s = min(e.t)
        if e.t[s] < 0:
            e = -e
        if g > 1 and e.c % g == 0:
            e = Lin({a: k // g for a, k in e.t.items()}, e.c // g)
        return e

    # -------------------------------------------------------------- assume
    def add_ge(self, e):
        """assume e >= 0; False if infeasible"""
        if self.dead:
            return False
        e = norm(self.red(e))
        if not e.t:
            if e.c < 0:
                self.dead = True
            return not self.dead
        if e in self.ine:
            return True
        lo, hi = self.bounds(e)
        if lo is not None and lo >= 0:
            return True
        if (hi is not None and hi < 0) or self.infeasible_with([e]):
            self.dead = True
            return False
        # replace weaker
        for o in list(self.ine):
            if o.t == e.t and o.c >= e.c:
                del self.ine[o]
        self.ine[e] = None
        self._ec = {}
        # implied equality?
        ne = -e
        for o in self.ine:
            if o.t == ne.t and o.c == ne.c:
                return self.add_eq(e)
        if hi is not None and hi == 0:
            return self.add_eq(e)
        # implied value of a flag?
        if hi is not None and len(e.t) > 1:
            for k, a in e.t.items():
                if LO[k] == 0 and HI[k] == 1 and hi < abs(a):
                    return self.add_eq(Lin({k: 1}, 0 if a < 0 else -1))
        # tighten with disequalities
        for n in list(self.ng):
            if len(n) == 1:
                (d,) = n
                if d == e or -d == e or d.t == e.t and d.c == e.c or d.t == ne.t and d.c == ne.c:
                    return self.add_ge(e - 1)
        return True

    def add_eq(self, e, prefer=None):
        if self.dead:
            return False
        e = self.red(e)
        if not e.t:
            if e.c != 0:
                self.dead = True
            return not self.dead
        g = 0
        for k in e.t.values():
            g = gcd(g, k)
        if g > 1:
            if e.c % g:
                self.dead = True
                return False
            e = Lin({s: k // g for s, k in e.t.items()}, e.c // g)
        lo, hi = self.bounds(e)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            self.dead = True
            return False
        cand = [s for s, k in e.t.items() if k in (1, -1)]
        if not cand:
            return self.add_ge(e) and self.add_ge(-e)
        if prefer is not None:
            pc = [s for s in cand if prefer(s)]
            if pc:
                cand = pc
        s = max(cand)
        k = e.t[s]
        rhs = Lin({a: -b * k for a, b in e.t.items() if a != s}, -e.c * k)
        return self.elim(s, rhs)

    def elim(self, s, rhs):
        m = {s: rhs}
        for a, r in self.sub.items():
            if s in r.t:
                self.sub[a] = subst(r, m)
        self.sub[s] = rhs
        self._ec = {}
        old = self.ine
        self.ine = {}
        redo = []
        for o in old:
            if s in o.t:
                redo.append(subst(o, m))
            else:
                self.ine[o] = None
        if LO[s] is not None:
            redo.append(rhs - LO[s])
        if HI[s] is not None:
            redo.append(-rhs + HI[s])
        for o in redo:
            if not self.add_ge(o):
                return False
        return self.renorm_ng(s)

    def renorm_ng(self, s=None):
        old = self.ng
        if s is None or any(s in e.t for n in old for e in n):
            self.ng = {}
            for n in old:
                if not self.add_ng(n):
                    return False
        return True

    def add_ng(self, n):
        """assume that not all of n (== 0) hold"""
        if self.dead:
            return False
        out = set()
        for e in n:
            e = self.red(e)
            if not e.t:
                if e.c == 0:
                    continue
                return True
            e = self.canon_eq(e)
            lo, hi = self.bounds(e)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return True
            out.add(e)
        if not out:
            self.dead = True
            return False
        f = frozenset(out)
        if f in self.ng:
            return True
        if len(f) == 1:
            (e,) = f
            if self.ent(e):
                return self.add_ge(e - 1)
            if self.ent(-e):
                return self.add_ge(-e - 1)
        self.ng[f] = None
        return True

    def add_ne(self, e):
        return self.add_ng([e])

    def syms(self):
        r = set(self.sub)
        for e in self.sub.values():
            r.update(e.t)
        for e in self.ine:
            r.update(e.t)
        return r

    def project(self, keep):
        """drop constraints that only concern symbols outside keep (exact elimination of unconstrained ones is not
        needed: we only forget). Symbols with definitions are replaced first."""
        dead = [s for s in self.sub if s not in keep]
        for s in dead:
            del self.sub[s]
        return self

    def facts(self):
        """all constraints as list of ('eq'|'ge', Lin)"""
        r = [('eq', Lin({s: -1}, 0) + e) for s, e in self.sub.items()]
        r += [('ge', e) for e in self.ine]
        return r

    def __repr__(self):
        return '; '.join([f'{symname(s)}={e!r}' for s, e in self.sub.items()] + [f'{e!r}>=0' for e in self.ine] +
                         ['!' + repr(set(n)) for n in self.ng])


if __name__ == '__main__':
    x, y, z = S('x', 0, 255), S('y'), S('z')
    st = Store()
    assert st.add_ge(y - x) and st.add_ge(z - y)
    assert st.ent(z - x) and not st.ent(x - z)
    assert st.add_ne(z - y) and st.ent(z - y - 1)
    assert st.add_eq(z - 3)
    assert st.ent(-x + 2)
    c = st.copy()
    assert not c.add_eq(x - 3)
    assert not st.dead
    print('ok', st)
