"""Numeric domain: linear expressions over interned atoms and conjunctions of
linear facts (equalities, inequalities, disequalities) with an entailment test.

The entailment test is the usual polyhedra-domain operation (Gaussian
elimination of equalities, Fourier-Motzkin projection of inequalities, with
integer tightening).  "Not entailed" is always a safe answer.
"""
from math import gcd

BIG = 1 << 62


class Atoms:
    """Interned atoms.  An atom has a name, optional arguments (application
    atoms take part in congruence closure) and intrinsic bounds."""

    def __init__(self):
        self.name = []
        self.fn = []      # None or (function name, tuple of args (Lin / hashable))
        self.lo = []
        self.hi = []
        self.tab = {}
        self.cnt = {}

    def fresh(self, name, lo=None, hi=None):
        n = self.cnt.get(name, 0)
        self.cnt[name] = n + 1
        i = len(self.name)
        self.name.append(name if n == 0 else "%s'%d" % (name, n))
        self.fn.append(None)
        self.lo.append(lo)
        self.hi.append(hi)
        return i

    def app(self, fn, args, lo=None, hi=None):
        k = (fn, args)
        i = self.tab.get(k)
        if i is None:
            i = len(self.name)
            self.tab[k] = i
            nm = "%s(%s)" % (fn, ",".join(str(a) for a in args))
            self.name.append(nm if len(nm) < 160 else nm[:140] + "~%d)" % len(self.name))
            self.fn.append(k)
            self.lo.append(lo)
            self.hi.append(hi)
        return i


A = Atoms()


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    __radd__ = __add__

    def __mul__(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, tuple((a, v * k) for a, v in self.t))

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        return self + o * -1

    def __rsub__(self, o):
        return (-self) + o

    def atoms(self):
        return [a for a, _ in self.t]

    def coef(self, a):
        for b, k in self.t:
            if b == a:
                return k
        return 0

    def subst(self, m):
        hit = False
        for a, _ in self.t:
            if a in m:
                hit = True
                break
        if not hit:
            return self
        d = {}
        c = self.c
        for a, k in self.t:
            r = m.get(a)
            if r is None:
                d[a] = d.get(a, 0) + k
            else:
                c += k * r.c
                for b, kk in r.t:
                    d[b] = d.get(b, 0) + k * kk
        return Lin(c, tuple(sorted((a, k) for a, k in d.items() if k)))

    def div_exact(self, n):
        if n == 1:
            return self
        if self.c % n:
            return None
        for _, k in self.t:
            if k % n:
                return None
        return Lin(self.c // n, tuple((a, k // n) for a, k in self.t))

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = ""
        for a, k in self.t:
            n = A.name[a]
            if k == 1:
                s += "+" + n
            elif k == -1:
                s += "-" + n
            else:
                s += "%+d*%s" % (k, n)
        if self.c:
            s += "%+d" % self.c
        return s[1:] if s[0] == "+" else s


ZERO = Lin(0)
ONE = Lin(1)


def L(x):
    return x if isinstance(x, Lin) else Lin(x)


def atom(name, lo=None, hi=None):
    return Lin(0, ((A.fresh(name, lo, hi), 1),))


def app(fn, args, lo=None, hi=None):
    return Lin(0, ((A.app(fn, tuple(args), lo, hi), 1),))


def _ggcd(t):
    g = 0
    for _, k in t:
        g = gcd(g, k)
    return g


def tighten(l):
    """l >= 0 over the integers, divided by the gcd of its coefficients."""
    if not l.t:
        return l
    g = _ggcd(l.t)
    if g > 1:
        return Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
    return l


class Overflow(Exception):
    pass


STATS = {"fm": 0, "fm_over": 0, "ent": 0}


def fm_unsat(cons, limit=1500, exact=False):
    """True if the conjunction of l>=0 (l in cons) has no rational/tightened
    integer solution.  False means unknown or satisfiable.  With `exact`,
    atoms with small coefficients are eliminated first, which leaves bounds of
    quotients to the tightening."""
    STATS["fm"] += 1
    best = {}
    big = {}
    if exact:
        for l in cons:
            for a, k in l.t:
                big[a] = max(big.get(a, 0), abs(k))

    def put(d, l):
        l = tighten(l)
        if not l.t:
            return l.c < 0
        o = d.get(l.t)
        if o is None or l.c < o:
            d[l.t] = l.c
        return False

    for l in cons:
        if put(best, l):
            return True
    while best:
        pos, neg = {}, {}
        for t in best:
            for a, k in t:
                if k > 0:
                    pos[a] = pos.get(a, 0) + 1
                else:
                    neg[a] = neg.get(a, 0) + 1
        choice = None
        cost = None
        for a in set(pos) | set(neg):
            p, n = pos.get(a, 0), neg.get(a, 0)
            c = p * n - p - n
            if exact and big.get(a, 0) >= 1024:
                c += 100000
            if cost is None or c < cost:
                cost, choice = c, a
                if (p == 0 or n == 0) and not exact:
                    break
        a = choice
        P, N, R = [], [], {}
        for t, c in best.items():
            k = 0
            for b, kk in t:
                if b == a:
                    k = kk
                    break
            if k > 0:
                P.append((Lin(c, t), k))
            elif k < 0:
                N.append((Lin(c, t), -k))
            else:
                R[t] = c
        if len(R) + len(P) * len(N) > limit:
            STATS["fm_over"] += 1
            raise Overflow()
        for p, kp in P:
            for n, kn in N:
                g = gcd(kp, kn)
                if put(R, p * (kn // g) + n * (kp // g)):
                    return True
        best = R
    return False


class Facts:
    __slots__ = ("sub", "ge", "ne", "eqx", "apps", "dead", "cache", "over", "log")

    def __init__(self):
        self.sub = {}
        self.ge = {}     # terms tuple -> const (l>=0 strongest)
        self.ne = ()
        self.eqx = ()
        self.apps = frozenset()
        self.dead = False
        self.cache = {}
        self.over = False

    def copy(self):
        f = Facts.__new__(Facts)
        f.sub = dict(self.sub)
        f.ge = dict(self.ge)
        f.ne = self.ne
        f.eqx = self.eqx
        f.apps = self.apps
        f.dead = self.dead
        f.cache = dict(self.cache) if len(self.cache) < 400 else {}
        f.over = self.over
        return f

    # -- queries ---------------------------------------------------------
    def norm(self, l):
        return l.subst(self.sub)

    def rng(self, l):
        lo = hi = l.c
        for a, k in l.t:
            al, ah = A.lo[a], A.hi[a]
            if k > 0:
                lo = None if lo is None or al is None else lo + k * al
                hi = None if hi is None or ah is None else hi + k * ah
            else:
                lo = None if lo is None or ah is None else lo + k * ah
                hi = None if hi is None or al is None else hi + k * al
        return lo, hi

    def _component(self, atoms, hops=6):
        seen = set(atoms)
        used = set()
        cons = []
        items = list(self.ge.items())
        front = set(atoms)
        ex = [(i, l) for i, l in enumerate(self.eqx)]
        usedx = set()
        for _ in range(hops):
            new = set()
            for t, c in items:
                if t in used:
                    continue
                for a, _k in t:
                    if a in front:
                        used.add(t)
                        cons.append(Lin(c, t))
                        for b, _ in t:
                            if b not in seen:
                                seen.add(b)
                                new.add(b)
                        break
            for i, l in ex:
                if i in usedx:
                    continue
                if any(a in front for a in l.atoms()):
                    usedx.add(i)
                    cons.append(l)
                    cons.append(-l)
                    for b in l.atoms():
                        if b not in seen:
                            seen.add(b)
                            new.add(b)
            if not new:
                break
            front = new
        for a in seen:
            if A.lo[a] is not None:
                cons.append(Lin(-A.lo[a], ((a, 1),)))
            if A.hi[a] is not None:
                cons.append(Lin(A.hi[a], ((a, -1),)))
        return cons

    def entails_ge(self, l):
        """l >= 0 in every model?"""
        if self.dead:
            return True
        l = tighten(self.norm(l))
        if not l.t:
            return l.c >= 0
        key = ("g", l)
        r = self.cache.get(key)
        if r is None:
            r = self._entails_ge(l)
            self.cache[key] = r
        return r

    def _entails_ge(self, l):
        STATS["ent"] += 1
        lo, _ = self.rng(l)
        if lo is not None and lo >= 0:
            return True
        g = self.ge.get(l.t)
        if g is not None and l.c >= g:
            return True
        neg = (-l) - 1
        try:
            for hops in (2, 7):
                cons = self._component(l.atoms(), hops)
                if fm_unsat(cons + [neg]):
                    return True
                if any(abs(k) >= 1024 for c in cons for _, k in c.t) and fm_unsat(cons + [neg], exact=True):
                    return True
        except Overflow:
            self.over = True
            return False
        return False

    def entails_eq(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c == 0
        return self.entails_ge(l) and self.entails_ge(-l)

    def entails_ne(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c != 0
        for n in self.ne:
            if n == l or n == -l:
                return True
        g = _ggcd(l.t)
        if g > 1 and l.c % g:
            return True
        return self.entails_ge(l - 1) or self.entails_ge(-l - 1)

    def feasible(self):
        if self.dead:
            return False
        return True

    # -- updates (in place; callers copy first) --------------------------
    def kill(self):
        self.dead = True

    def add_ge(self, l):
        if self.dead:
            return
        l = tighten(self.norm(l))
        if not l.t:
            if l.c < 0:
                self.kill()
            return
        if self.entails_ge(l):
            # may still be an implicit equality
            return
        # contradiction?
        if self.entails_ge(-l - 1):
            self.kill()
            return
        if self.entails_ge(-l):
            self.add_eq(l)
            return
        self.cache = {}
        self.ge[l.t] = l.c
        self._recheck_ne(l)

    def keep_ge(self, l):
        """add_ge that keeps l even if integer reasoning implies it."""
        l = tighten(self.norm(l))
        if l.t and not self.dead and self.entails_ge(l):
            self.cache = {}
            self.ge.setdefault(l.t, l.c)
        else:
            self.add_ge(l)

    def _recheck_ne(self, l):
        if not self.ne:
            return
        at = set(l.atoms())
        for n in self.ne:
            if self.dead:
                return
            if at & set(n.atoms()):
                n2 = self.norm(n)
                if self.entails_ge(n2):
                    self.ne = tuple(x for x in self.ne if x != n)
                    self.add_ge(n2 - 1)
                elif self.entails_ge(-n2):
                    self.ne = tuple(x for x in self.ne if x != n)
                    self.add_ge(-n2 - 1)

    def add_ne(self, l):
        if self.dead:
            return
        l = self.norm(l)
        if not l.t:
            if l.c == 0:
                self.kill()
            return
        if self.entails_ne(l):
            return
        if self.entails_eq(l):
            self.kill()
            return
        if self.entails_ge(l):
            self.add_ge(l - 1)
        elif self.entails_ge(-l):
            self.add_ge(-l - 1)
        else:
            self.ne = self.ne + (l,)
            self.cache = {}

    def add_eq(self, l, deep=True):
        if self.dead:
            return
        l = self.norm(l)
        if not l.t:
            if l.c != 0:
                self.kill()
            return
        g = _ggcd(l.t)
        if g > 1:
            if l.c % g:
                self.kill()
                return
            l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
        if deep and (self.entails_ge(l - 1) or self.entails_ge(-l - 1)):
            self.kill()
            return
        if deep:
            for n in self.ne:
                if n == l or n == -l:
                    self.kill()
                    return
        best = None
        for a, k in l.t:
            if k in (1, -1) and (best is None or a > best[0]):
                best = (a, k)
        self.cache = {}
        if best is None:
            if l not in self.eqx and -l not in self.eqx:
                self.eqx = self.eqx + (l,)
            return
        a, k = best
        rhs = Lin(0, ((a, 1),)) - l * k   # a = a - k*l
        m = {a: rhs}
        for b, r in list(self.sub.items()):
            self.sub[b] = r.subst(m)
        self.sub[a] = rhs
        pend = []
        newge = {}
        for t, c in self.ge.items():
            if any(b == a for b, _ in t):
                pend.append(Lin(c, t).subst(m))
            else:
                newge[t] = c
        self.ge = newge
        if A.lo[a] is not None:
            pend.append(rhs - A.lo[a])
        if A.hi[a] is not None:
            pend.append(-rhs + A.hi[a])
        ne = self.ne
        eqx = self.eqx
        self.ne = tuple(n for n in ne if a not in n.atoms())
        self.eqx = tuple(e for e in eqx if a not in e.atoms())
        for p in pend:
            p = tighten(p)
            if not p.t:
                if p.c < 0:
                    self.kill()
                    return
                continue
            lo, _ = self.rng(p)
            if lo is not None and lo >= 0:
                continue
            o = self.ge.get(p.t)
            if o is None or p.c < o:
                self.ge[p.t] = p.c
            # implicit equality
            nt = tuple((b, -kk) for b, kk in p.t)
            o = self.ge.get(nt)
            if o is not None and o + self.ge[p.t] < 0:
                self.kill()
                return
        for e in eqx:
            if a in e.atoms():
                self.add_eq(e.subst(m))
                if self.dead:
                    return
        for n in ne:
            if a in n.atoms():
                self.add_ne(n.subst(m))
                if self.dead:
                    return
        # opposite pairs => equality
        for p in pend:
            p = tighten(self.norm(p))
            if not p.t:
                continue
            nt = tuple((b, -kk) for b, kk in p.t)
            if p.t in self.ge and nt in self.ge and self.ge[p.t] + self.ge[nt] == 0:
                self.add_eq(Lin(self.ge[p.t], p.t), deep=False)
                if self.dead:
                    return
        self._congruence()

    def note_app(self, a):
        if a not in self.apps:
            self.apps = self.apps | {a}
            self._congruence(a)

    def _congruence(self, only=None):
        """f(s)=f(t) when s=t is known."""
        if self.dead or len(self.apps) < 2 and only is None:
            return
        again = True
        while again and not self.dead:
            again = False
            groups = {}
            for x in self.apps:
                fn, args = A.fn[x]
                key = (fn, tuple(self.norm(y) if isinstance(y, Lin) else y for y in args))
                groups.setdefault(key, []).append(x)
            for key, xs in groups.items():
                if len(xs) > 1:
                    base = Lin(0, ((xs[0], 1),))
                    for y in xs[1:]:
                        d = base - Lin(0, ((y, 1),))
                        if self.norm(d) != ZERO:
                            self.add_eq(d)
                            again = True
                            break
                if again:
                    break
        for hook in CONGR_HOOKS:
            hook(self)

    def dump(self):
        return (["%s = %s" % (A.name[a], r) for a, r in self.sub.items()] +
                ["%r >= 0" % Lin(c, t) for t, c in self.ge.items()] +
                ["%r != 0" % n for n in self.ne] + ["%r == 0" % e for e in self.eqx])


CONGR_HOOKS = []


# -- linear algebra over the rationals (for affine-relation inference) -----
from fractions import Fraction


def nullspace(rows, ncols):
    """Basis (list of integer vectors x) of {x : rows * x = 0}."""
    m = [[Fraction(v) for v in r] for r in rows]
    piv = []
    r = 0
    for c in range(ncols):
        p = None
        for i in range(r, len(m)):
            if m[i][c] != 0:
                p = i
                break
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        pv = m[r][c]
        m[r] = [v / pv for v in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c] != 0:
                f = m[i][c]
                m[i] = [x - f * y for x, y in zip(m[i], m[r])]
        piv.append(c)
        r += 1
        if r == len(m):
            break
    free = [c for c in range(ncols) if c not in piv]
    out = []
    for fcol in free:
        v = [Fraction(0)] * ncols
        v[fcol] = Fraction(1)
        for i, pc in enumerate(piv):
            v[pc] = -m[i][fcol]
        den = 1
        for x in v:
            den = den * x.denominator // gcd(den, x.denominator)
        iv = [int(x * den) for x in v]
        g = 0
        for x in iv:
            g = gcd(g, x)
        out.append([x // g for x in iv] if g > 1 else iv)
    return out
