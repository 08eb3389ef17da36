"""S2AOptions and Identity: C31, C32.

Entry points are the wrappers of drivers/options.cc (one per public method),
interpreted together with the repository's source.  After every call of a
history all getters are compared with a reference model; strings, versions and
ciphersuites are arbitrary values."""
import os
from .common import *
from absint.models import sget, sput, streq, setget, set_items, vget

DRV = os.path.join(ir.VERIF, "drivers", "options.cc")
SRC = "src/options/s2a_options.cc"
O = "s2a::s2a_options::S2AOptions"
I = O + "::Identity"
KIND = dict(s=1, h=2, u=3)


def tus(**kw):
    return [(DRV, "openssl"), (SRC, "openssl")]


class Ref:
    __slots__ = ("min", "max", "addr", "cs", "local", "target")

    def __init__(self, **kw):
        for k in Ref.__slots__:
            setattr(self, k, kw[k])

    def w(self, **kw):
        d = {k: getattr(self, k) for k in Ref.__slots__}
        d.update(kw)
        return Ref(**d)


def definite(v):
    """Whether a string value is fully understood."""
    return v.t[1] not in ("?", "fmt", "ld") and all(definite(x) for x in v.t[2:] if isinstance(x, Opq) and x.t[0] == "str")


class Base:
    PROP = "C31"

    def __init__(self, peel=2):
        self.prog = program(tus())
        self.eng = mk_engine(self.prog, [("^rec_", self.rec)], peel)
        self.eng.hooks.setdefault("abort", []).append(lambda eng, st, fn: self.ob(st, "no assertion fails", False, "the process is aborted (%s)" % fn))
        self.eng.spin_cap = 200
        self.last = ""

    def fn(self, name):
        return one(self.prog, name)

    def rec(self, eng, st, c):
        if c.name == "rec_int":
            v = ("i", st.facts.norm(c.args[0]))
        elif c.name == "rec_str":
            v = ("s", sget(eng, st, c.args[0]))
        else:
            from absint.models import cstr_val
            v = ("s", cstr_val(eng, st, c.args[0], c.args[1]))
        st.mon["rec"] = st.mon.get("rec", ()) + (v,)
        return [(st, None)]

    def string(self, name, lit=None):
        r = Region("param", name, ty="std::basic_string<char>", size=L(32))
        v = Opq("str", "lit", lit) if lit is not None else Opq("str", name)
        r.init[0] = (32, v)
        return Ptr(r), v

    API = {"drv_new": "S2AOptions()", "drv_copy": "S2AOptions::Copy", "drv_set_min": "set_min_tls_version", "drv_set_max": "set_max_tls_version",
           "drv_set_addr": "set_s2a_address", "drv_add_cs": "add_supported_ciphersuite", "drv_ls": "add_local_spiffe_id",
           "drv_lh": "add_local_hostname", "drv_lu": "add_local_uid", "drv_ts": "add_target_spiffe_id", "drv_th": "add_target_hostname",
           "drv_tu": "add_target_uid"}

    def call(self, st, name, args):
        if name in self.API or self.PROP == "C32":
            self.last = self.API.get(name, "Identity " + name[7:])
        return self.eng.run(self.fn(name), args, st)

    def get_str(self, st, name, args):
        out = []
        r = Region("alloca", "out", size=L(32))
        for s, _ in self.call(st, name, [Ptr(r)] + args):
            out.append((s, sget(self.eng, s, Ptr(r))))
        return out

    def ob(self, st, kind, ok, msg, prop=None):
        self.eng.oblige(st, prop or self.PROP, kind, ok, msg, where="%s (%s)" % (SRC, self.last))

    def same_str(self, st, kind, got, want, msg, prop=None):
        """Obliges got == want; a value that is not understood is no evidence."""
        for s, e in streq(self.eng, st.fork(), got, want):
            if not e and not definite(got):
                self.eng.imprecise(s, "string value %r" % (got,))
            self.ob(s, kind, e, lambda: "%s: %r instead of %r" % (msg, got, want), prop)

    def same_int(self, st, kind, got, want, msg, prop=None):
        if isinstance(got, Lin):
            g = self.eng.u_nosplit(st, got, 32)
            got = g if g is not None else got
        ok = isinstance(got, Lin) and st.facts.entails_eq(got - want)
        self.ob(st, kind, ok, lambda: "%s: %r instead of %r" % (msg, got, want), prop)


class OptRun(Base):
    """hist: tokens '<object><op>', object 'o' (original) or 'c' (copy)."""

    def __init__(self, hist, peel, lits=False):
        Base.__init__(self, peel)
        self.hist = hist
        self.lits = lits

    def run(self):
        for h in (self.hist if isinstance(self.hist[0], list) else [self.hist]):
            self.run1(h)
        return self

    def run1(self, hist):
        eng = self.eng
        size = self.prog.classes[O]["size"]
        orig = Region("alloca", "options", size=L(size))
        st = State()
        ref = Ref(min=L(1), max=L(1), addr=Opq("str", "lit", ""), cs=(), local=(), target=())
        cur = []
        for s, _ in self.call(st, "drv_new", [Ptr(orig)]):
            self.check(s, Ptr(orig), ref, "a new instance")
            cur.append((s, {"o": (Ptr(orig), ref)}))
        for i, tok in enumerate(hist):
            nxt = []
            for s, objs in cur:
                nxt += self.step(s, objs, tok, i)
            cur = nxt
        self.ends = len(cur)
        return self

    def step(self, st, objs, tok, i):
        w, op = tok[0], tok[1:]
        out = []
        if op == "C":
            p, ref = objs[w]
            for s, v in self.call(st, "drv_copy", [p]):
                if not isinstance(v, Ptr):
                    self.ob(s, "copy exists", False, "Copy returns %r" % (v,))
                    continue
                self.ob(s, "copy is a distinct object", v.r is not p.r, "Copy returns the object itself")
                o2 = dict(objs)
                o2["c" if w == "o" else "o"] = (v, ref)
                self.check_all(s, o2, "after Copy")
                out.append((s, o2))
            return out
        p, ref = objs[w]
        if op in ("m", "M", "c"):
            x = atom("%s%d" % (op, i), 0, 2 if op == "c" else 1)
            f = dict(m="drv_set_min", M="drv_set_max", c="drv_add_cs")[op]
            rs = [(s, ref.w(**({"m": dict(min=x), "M": dict(max=x), "c": dict(cs=ref.cs + (x,))}[op])))
                  for s, _ in self.call(st, f, [p, x])]
        else:
            sp, v = self.string("s%d" % i, ("name%d" % i) if self.lits else None)
            f = "drv_set_addr" if op == "a" else "drv_" + op
            rs = []
            for s, _ in self.call(st, f, [p, sp]):
                if op == "a":
                    rs.append((s, ref.w(addr=v)))
                    continue
                fld = "local" if op[0] == "l" else "target"
                k = KIND[op[1]]
                for s2, present in self.member(s, getattr(ref, fld), k, v):
                    rs.append((s2, ref if present else ref.w(**{fld: getattr(ref, fld) + ((L(k), v),)})))
        for s, r2 in rs:
            o2 = dict(objs)
            o2[w] = (p, r2)
            self.check_all(s, o2, "after %s on %s" % (op, "the copy" if w == "c" else "the original"))
            out.append((s, o2))
        return out

    def member(self, st, items, k, v):
        cur = [st]
        out = []
        for k2, v2 in items:
            if k2 != L(k):
                continue
            nxt = []
            for s in cur:
                for s2, e in streq(self.eng, s, v2, v):
                    if e:
                        out.append((s2, True))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, False) for s in cur]

    def check_all(self, st, objs, when):
        for w, (p, ref) in objs.items():
            self.check(st, p, ref, ("copy " if w == "c" else "original ") + when)

    def check(self, st, p, ref, when):
        eng = self.eng
        for nm, want in (("min", ref.min), ("max", ref.max)):
            for s, v in self.call(st.fork(), "drv_" + nm, [p]):
                self.same_int(s, "%s TLS version" % nm, v, want, when)
        for s, v in self.get_str(st.fork(), "drv_addr", [p]):
            self.same_str(s, "S2A address", v, ref.addr, when)
        for s, v in self.call(st.fork(), "drv_cs", [p]):
            a, b = vget(eng, s, v)
            if ref.cs:
                n = None
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
                    n = b.off - a.off
                self.ob(s, "number of ciphersuites", n is not None and s.facts.entails_eq(n - 4 * len(ref.cs)),
                        lambda: "%s: %r bytes of ciphersuites instead of %d" % (when, n, 4 * len(ref.cs)))
                if n is not None:
                    for k, x in enumerate(ref.cs):
                        g = eng.load_at(s, a.r, s.facts.norm(a.off + 4 * k), 4, False)
                        self.same_int(s, "ciphersuite %d" % k if k < 3 else "ciphersuite", g, x, when)
            else:
                empty = a is NULL and b is NULL or isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and s.facts.entails_eq(a.off - b.off)
                self.ob(s, "number of ciphersuites", empty, lambda: "%s: ciphersuites present" % when)
        for fld in ("local", "target"):
            want = getattr(ref, fld)
            for s, v in self.call(st.fork(), "drv_" + fld, [p]):
                items = set_items(setget(eng, s, v))
                if items is None:
                    eng.imprecise(s, "unknown set")
                    self.ob(s, fld + " identities", False, "unknown set")
                    continue
                cur = [(s, ())]
                for i in items:
                    nxt = []
                    for s1, acc in cur:
                        for s2, k in self.call(s1, "drv_id_kind", [Ptr(REGS[i])]):
                            for s3, n in self.get_str(s2, "drv_id_name", [Ptr(REGS[i])]):
                                nxt.append((s3, acc + ((k, n),)))
                    cur = nxt
                for s1, got in cur:
                    self.same_set(s1, fld + " identities", got, want, when)

    def same_set(self, st, kind, got, want, when):
        ok = len(got) == len(want)
        if ok:
            cur = [(st.fork(), list(got), list(want))]
            while cur:
                s, g, w = cur.pop()
                if not g:
                    continue
                k, n = g[0]
                for j, (wk, wn) in enumerate(w):
                    if isinstance(k, Lin) and s.facts.entails_eq(k - wk) and (n == wn or any(e for _, e in [max(streq(self.eng, s.fork(), n, wn), key=lambda x: not x[1])])):
                        cur.append((s, g[1:], w[:j] + w[j + 1:]))
                        break
                else:
                    ok = False
                    if not definite(n):
                        self.eng.imprecise(st, "string value %r" % (n,))
        self.ob(st, kind, ok, lambda: "%s: %r instead of %r" % (when, got, want))


OPS = ("m", "M", "a", "c", "ls", "lh", "lu", "ts", "th", "tu")


class IdRun(Base):
    PROP = "C32"

    def mk(self, st, which, name):
        """[(state, ptr, kind, value)] of an identity from a factory."""
        size = self.prog.classes[I]["size"]
        r = Region("alloca", "identity", size=L(size))
        if which == "none":
            return [(s, Ptr(r), L(0), Opq("str", "lit", "")) for s, _ in self.call(st, "drv_id_none", [Ptr(r)])]
        sp, v = self.string(name)
        k = dict(host=2, spiffe=1, uid=3)[which]
        return [(s, Ptr(r), L(k), v) for s, _ in self.call(st, "drv_id_" + which, [Ptr(r), sp])]

    def expect(self, st, p, k, v, what):
        for s, g in self.call(st.fork(), "drv_id_kind", [p]):
            self.same_int(s, "kind " + what, g, k, what)
            self.same_int(s, "kind " + what, g, k, what, "C31")
        for s, g in self.get_str(st.fork(), "drv_id_name", [p]):
            self.same_str(s, "name " + what, g, v, what)
        for s, g in self.call(st.fork(), "drv_id_cname", [p]):
            from absint.models import cstr_val
            self.same_str(s, "C name " + what, cstr_val(self.eng, s, g), cstr_of(v), what)

    def run(self):
        eng = self.eng
        F = ("none", "host", "spiffe", "uid")
        size = self.prog.classes[I]["size"]
        for f in F:
            for s, p, k, v in self.mk(State(), f, "a"):
                self.expect(s, p, k, v, "from the factory")
                # copy, and changes of the copy leave the original alone
                r = Region("alloca", "copy", size=L(size))
                for s2, _ in self.call(s.fork(), "drv_id_copy", [Ptr(r), p]):
                    self.expect(s2, Ptr(r), k, v, "of a copy")
                    for s3, p3, k3, v3 in self.mk(s2, "spiffe" if f != "spiffe" else "uid", "b"):
                        for s4, _ in self.call(s3, "drv_id_assign", [Ptr(r), p3]):
                            self.expect(s4, Ptr(r), k3, v3, "after assignment")
                            self.expect(s4, p, k, v, "of the original after its copy was assigned")
                            self.expect(s4, p3, k3, v3, "of the assigned value")
                for s2, _ in self.call(s.fork(), "drv_id_assign", [p, p]):
                    self.expect(s2, p, k, v, "after self-assignment")
                for s2, e in self.cond(s.fork(), "drv_id_eq", [p, p]):
                    self.ob(s2, "equality is reflexive", e, "an identity differs from itself")
        for fa in F:
            for fb in F:
                for s, a, ka, va in self.mk(State(), fa, "a"):
                    for s1, b, kb, vb in self.mk(s, fb, "b"):
                        self.pair(s1, a, ka, va, b, kb, vb)
        self.ends = 1
        return self

    def cond(self, st, name, args):
        out = []
        for s, v in self.call(st, name, args):
            out += self.eng.split(s, self.eng.as_cond(s, v))
        return out

    def pair(self, st, a, ka, va, b, kb, vb):
        eng = self.eng
        for s, e in self.cond(st.fork(), "drv_id_eq", [a, b]):
            for s2, se in streq(eng, s, va, vb):
                want = se and ka == kb
                self.ob(s2, "equal exactly when kind and name agree", e == want,
                        lambda: "identities (%r,%r) and (%r,%r) compare %s" % (ka, va, kb, vb, "equal" if e else "different"))
        if ka != kb:
            return
        for s, se in streq(eng, st.fork(), va, vb):
            if not se:
                continue
            s.mon["rec"] = ()
            for s1, _ in self.call(s, "drv_id_hash", [a]):
                h1 = s1.mon.get("rec", ())
                s1.mon["rec"] = ()
                for s2, _ in self.call(s1, "drv_id_hash", [b]):
                    h2 = s2.mon.get("rec", ())
                    ok = len(h1) == len(h2)
                    for x, y in zip(h1, h2):
                        if x[0] != y[0]:
                            ok = False
                        elif x[0] == "i":
                            ok = ok and isinstance(x[1], Lin) and isinstance(y[1], Lin) and s2.facts.entails_eq(x[1] - y[1])
                        else:
                            # cstr of equal strings are equal
                            ok = ok and self.heq(s2, x[1], y[1], va, vb)
                            if not (definite(x[1]) and definite(y[1])):
                                eng.imprecise(s2, "hashed value")
                    self.ob(s2, "equal identities hash equally", ok, lambda: "hash of %r: %r / hash of the equal %r: %r" % (va, h1, vb, h2))

    def heq(self, st, x, y, va, vb):
        if x == y or (x == va and y == vb):
            return True
        if isinstance(x, Opq) and isinstance(y, Opq) and x.t[1] == y.t[1] == "cstrof":
            return self.heq(st, x.t[2], y.t[2], va, vb)
        r = streq(self.eng, st.fork(), x, y)
        return len(r) == 1 and r[0][1]


def cstr_of(v):
    if v.t[1] == "lit":
        return Opq("str", "lit", v.t[2].split("\0")[0])
    return Opq("str", "cstrof", v)


def job(kind, peel=2, **kw):
    if kind == "id":
        return IdRun(peel).run()
    if kind == "long":
        h = []
        for i in range(18):
            h += ["oc"]
        for op in ("lh", "ls", "lu", "tu", "ts", "th") * 3:
            h += ["o" + op]
        h += ["olh"] * 14 + ["oth"] * 14 + ["ols", "olu", "olh", "ots", "otu", "oth"]
        h += ["oa", "om", "oM", "oC", "cc", "clh", "ctu", "oth"]
        return OptRun(h, peel, True).run()
    if kind == "pairs":
        x = kw["op"]
        hs = []
        for y in OPS:
            hs.append(["o" + x, "o" + y, "oC", "c" + x, "o" + y, "o" + x, "c" + y, "oC", "cC"])
            hs.append(["oC", "o" + x, "c" + y, "oC", "c" + x])
            hs.append(["o" + x, "o" + x, "o" + y, "o" + x, "oC", "cC"])
        return OptRun(hs, peel).run()
    return OptRun(kw["hist"].split(), peel).run()
