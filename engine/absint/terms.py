"""Identity test for word-level terms.

Terms (linear forms over uninterpreted atoms and div/mod/xor/... applications)
are compared by evaluating both over assignments of their atoms that satisfy
the path facts: different values prove the terms different; agreement on all
assignments is taken as equality (the terms are short compositions of xor,
shifts and masks, for which disagreement on a random word has probability
1 - 2^-8 or more per sample)."""
import random
import re
from .lin import A, Lin

_NUM = re.compile(r"^(div|mod)(\d+)$")


class Sample:
    def __init__(self, rnd, facts):
        self.rnd = rnd
        self.env = {}
        self.facts = facts
        self.memo = {}

    def val(self, l):
        if not isinstance(l, Lin):
            return l
        r = l.c
        for a, k in l.t:
            r += k * self.atom(a)
        return r

    def pick(self, key, a):
        v = self.env.get(key)
        if v is None:
            lo, hi = A.lo[a], A.hi[a]
            lo = 0 if lo is None else lo
            hi = lo + (1 << 16) if hi is None else hi
            if self.facts is not None:
                # bounds the path puts on the atom
                for t, c in self.facts.ge.items():
                    if len(t) == 1 and t[0][0] == a:
                        k = t[0][1]
                        if k < 0:
                            hi = min(hi, c // -k)
                        else:
                            lo = max(lo, -(c // k))
                hi = max(lo, hi)
            c = self.rnd.random()
            if c < .6:
                v = self.rnd.randint(lo, hi)
            elif c < .8:
                v = hi - self.rnd.randint(0, min(300, hi - lo))
            else:
                v = lo + self.rnd.randint(0, min(300, hi - lo))
            self.env[key] = v
        return v

    def atom(self, a):
        v = self.memo.get(a)
        if v is not None:
            return v
        fn = A.fn[a]
        if fn is None:
            s = self.facts.sub.get(a) if self.facts is not None else None
            v = s.c if s is not None and not s.t else self.pick(("a", a), a)
        else:
            args = [self.val(x) for x in fn[1]]
            m = _NUM.match(fn[0])
            try:
                if m:
                    n = int(m.group(2))
                    v = args[0] // n if m.group(1) == "div" else args[0] % n
                elif fn[0] in ("xor", "or", "and"):
                    v = args[0] ^ args[1] if fn[0] == "xor" else args[0] | args[1] if fn[0] == "or" else args[0] & args[1]
                elif fn[0] == "mul":
                    v = args[0] * args[1]
                elif fn[0] == "lshr":
                    v = args[0] >> args[1]
                elif fn[0] == "shl":
                    v = (args[0] << args[1]) & (A.hi[a] if A.hi[a] is not None else -1)
                elif fn[0] == "udiv":
                    v = args[0] // args[1]
                elif fn[0] == "urem":
                    v = args[0] % args[1]
            except (ZeroDivisionError, ValueError, OverflowError):
                v = None
            if v is None:
                v = self.pick((fn[0], tuple(map(repr, args))), a)
        self.memo[a] = v
        return v

    def admissible(self):
        f = self.facts
        for t, c in f.ge.items():
            if self.val(Lin(c, t)) < 0:
                return False
        for l in f.eqx:
            if self.val(l) != 0:
                return False
        for l in f.ne:
            if self.val(l) == 0:
                return False
        return True


def samples(facts, n=32, tries=400, seed=1):
    rnd = random.Random(seed)
    out = []
    for _ in range(tries):
        s = Sample(rnd, facts)
        if s.admissible():
            out.append(s)
            if len(out) >= n:
                break
    return out


def free(l, out=None):
    """Uninterpreted atoms a term is computed from."""
    out = [] if out is None else out
    if isinstance(l, Lin):
        for a, _ in l.t:
            if A.fn[a] is None:
                if a not in out:
                    out.append(a)
            else:
                for x in A.fn[a][1]:
                    free(x, out)
    return out


def sweep(facts, a, b, lo, hi):
    """Assignments that take the terms' first atom through [lo, hi]: both ends,
    all multiples of 256 with their neighbours; the others are 0 if they can be."""
    at = free(facts.norm(a - b))
    if not at:
        return []
    vs = set(range(lo, min(hi, lo + 300) + 1)) | set(range(max(lo, hi - 600), hi + 1))
    for k in range(lo // 256, hi // 256 + 1):
        vs |= {256 * k - 1, 256 * k, 256 * k + 1}
    out = []
    rnd = random.Random(2)
    for v in sorted(vs):
        if lo <= v <= hi:
            for x in at:
                s = Sample(rnd, facts)
                s.env = {("a", y): (v if y == x else 0) for y in at}
                if s.admissible():
                    out.append(s)
                    break
    return out


def equal(facts, a, b, ss=None, mod=None):
    """True / False, or None if nothing is known."""
    d = facts.norm(a - b)
    if not d.t and (d.c == 0 or mod and d.c % mod == 0):
        return True
    for s in (ss if ss is not None else samples(facts)):
        x, y = s.val(a), s.val(b)
        if x != y and not (mod and (x - y) % mod == 0):
            return False
        r = True
    try:
        return r
    except NameError:
        return None
