"""Lockset discipline (C16).

Every access made by a public method to state that outlives the call is
recorded with the mutexes held on that abstract path.  A location that is
written by some method and whose accesses have no mutex in common can be
accessed concurrently."""
from absint.engine import Ptr
from absint.lin import Lin


class Locks:
    def __init__(self, run, prop="C16"):
        self.run = run
        self.eng = run.eng
        self.prop = prop
        self.acc = {}        # location -> [set of (lockset, write, where, op, path, imprecise)]
        self.active = None   # (operation name, first id of regions private to it)
        self.names = {}
        self.order = {}      # (mutex, mutex) -> where
        self.eng.hooks.setdefault("mutex", []).append(self.on_mutex)
        self.eng.hooks.setdefault("mem", []).append(self.on_mem)
        self.eng.hooks.setdefault("free", []).append(self.on_free)
        self.shared = lambda st, p: None
        self.side = None     # operation -> the thread that calls it ("both": either)

    def held(self, st):
        return st.mon.get("locks", ())

    def key(self, st, p):
        if not isinstance(p, Ptr):
            return None
        n = self.shared(st, p)
        return n if n is not None else "%s+%r" % (p.r.name, st.facts.norm(p.off))

    def on_mutex(self, eng, st, op, p, **kw):
        k = self.key(st, p)
        h = self.held(st)
        if op in ("Lock", "WriterLock", "ReaderLock"):
            self.run.eng.oblige(st, self.prop, "no mutex is acquired twice", all(x != k for x, _ in h),
                                lambda: "%s is acquired while already held" % k, where=self.where(st))
            for x, _ in h:
                if x != k:
                    self.order.setdefault((x, k), (self.where(st), st))
            st.mon["locks"] = h + ((k, op == "ReaderLock"),)
        elif op in ("Unlock", "WriterUnlock", "ReaderUnlock"):
            l = list(h)
            for i in range(len(l) - 1, -1, -1):
                if l[i][0] == k:
                    del l[i]
                    break
            else:
                self.run.eng.oblige(st, self.prop, "no mutex is released that is not held", False, lambda: "%s is released but not held" % k, where=self.where(st))
            st.mon["locks"] = tuple(l)

    def where(self, st):
        w = self.eng.where(st) if st.frames else "?"
        return w if w != "?" and "drivers/" not in w else (self.active or "?")

    def on_mem(self, eng, st, p, n, w, val=None, bulk=False):
        self.note(st, p, w)

    def on_free(self, eng, st, p, fn):
        self.note(st, p, True, "free")

    def note(self, st, p, w, what="access"):
        if self.active is None or not isinstance(p, Ptr):
            return
        loc = self.shared(st, p)
        if loc is None:
            return
        h = self.held(st)
        locks = frozenset(k for k, rd in h if not (rd and w))
        d = self.acc.setdefault(loc, {})
        k = (locks, bool(w), self.side(self.active) if self.side else "both")
        if k not in d or (d[k][3] and not st.imp):
            d[k] = (self.where(st), self.active, st.path(), list(st.imp), st)

    def at_exit(self, st, op):
        self.run.eng.oblige(st, self.prop, "all mutexes are released", not self.held(st),
                            lambda: "%s returns holding %s" % (op, ", ".join(k for k, _ in self.held(st))), where=op)

    def finish(self):
        """Two accesses from different threads, one of them a write, need a
        mutex in common."""
        eng = self.eng
        for loc, d in sorted(self.acc.items()):
            bad = None
            for a, xa in d.items():
                for b, xb in d.items():
                    if not (a[1] or b[1]) or a[0] & b[0] or a[2] == b[2] != "both":
                        continue
                    k = (bool(xa[3]) + bool(xb[3]), len(a[0]) + len(b[0]), not b[1])
                    if bad is None or k < bad[0]:
                        bad = (k, a, xa, b, xb)
            if bad is None:
                if any(k[1] for k in d):
                    for k, x in d.items():
                        eng.oblige(x[4], self.prop, "%s is guarded" % loc, True, "", where=x[0])
                continue
            _, a, xa, b, xb = bad
            st = xb[4] if xb[3] else xa[4]
            eng.oblige(st, self.prop, "%s is guarded" % loc, False,
                       lambda: "%s (%s) accesses %s holding {%s}; %s (%s) %s it holding {%s}" % (
                           xa[1], xa[0], loc, ", ".join(sorted(a[0])), xb[1], xb[0], "writes" if b[1] else "reads", ", ".join(sorted(b[0]))),
                       where=xa[0])
        for (a, b), (w, st) in sorted(self.order.items()):
            bad = (b, a) in self.order
            eng.oblige(st, self.prop, "lock order", not bad, lambda: "%s and %s are acquired in both orders" % (a, b), where=w)
