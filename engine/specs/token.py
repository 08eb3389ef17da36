"""Access token managers: C33.

The manager is created through BuildAccessTokenManager with an arbitrary
environment (every getenv call yields its own value), then histories of
requests are interpreted: each must return the token captured at creation, and
none may write memory that another request can see."""
import os
from .common import *
from absint.models import sget, streq, cstr_val, lit_at
from . import options

DRV = os.path.join(ir.VERIF, "drivers", "token.cc")
SRCS = dict(single="src/token_manager/single_token_access_token_manager.cc", fake="src/token_manager/fake_access_token_manager.cc")
VAR = "S2A_ACCESS_TOKEN"
FAKE = "fake_s2a_access_token"


def tus(which="single", **kw):
    return [(DRV, "openssl"), (SRCS[which], "openssl"), (options.SRC, "openssl")]


class TokenRun:
    def __init__(self, which, hist, peel):
        self.which = which
        self.hist = hist
        self.prog = program(tus(which))
        self.eng = mk_engine(self.prog, [(r"^(std::)?(secure_)?getenv$", self.getenv)], peel)
        self.eng.hooks["mem"] = [self.on_mem]
        self.eng.hooks["mutex"] = [self.on_mutex]
        self.eng.hooks["abort"] = [lambda eng, st, fn: self.ob(st, "no assertion fails", False, "the process is aborted (%s)" % fn)]
        self.op = None
        self.start = None

    def ob(self, st, kind, ok, msg):
        w = self.eng.where(st) if st.frames else None
        if not w or w == "?" or "drivers/" in w:
            w = "%s (%s)" % (SRCS[self.which], self.op)
        self.eng.oblige(st, "C33", kind, ok, msg, where=w)

    def getenv(self, eng, st, c):
        b = lit_at(eng, c.args[0])
        name = b.split(b"\0")[0].decode("latin1") if b is not None else None
        s2 = st.fork()
        r = Region("env", "getenv(%s)" % name)
        r.info = {}
        st.mon["env"] = st.mon.get("env", ()) + ((name, r.id),)
        s2.mon["env"] = s2.mon.get("env", ()) + ((name, None),)
        st.note("env", "%s is set" % name)
        s2.note("env", "%s is not set" % name)
        return [(st, Ptr(r)), (s2, NULL)]

    def on_mutex(self, eng, st, op, p, **kw):
        h = st.mon.get("held", 0)
        if op in ("Lock", "WriterLock"):
            st.mon["held"] = h + 1
        elif op in ("Unlock", "WriterUnlock"):
            st.mon["held"] = h - 1

    def on_mem(self, eng, st, p, n, w, val=None, bulk=False):
        if self.start is None or not w or not isinstance(p, Ptr) or st.mon.get("held", 0) > 0:
            return
        if p.r.kind in ("heap", "vecbuf", "obj", "param", "strdata") and p.r.id < self.start or p.r.kind == "global":
            self.ob(st, "requests do not write shared state", False,
                    lambda: "%s writes %s, which concurrent requests share" % (self.op, p.r.name))

    def ident(self, i):
        r = Region("param", "identity%d" % i, ty=options.I)
        r.size = L(self.prog.classes[options.I]["size"])
        return Ptr(r)

    def run(self):
        eng = self.eng
        self.op = "BuildAccessTokenManager"
        cur = []
        for s, m in eng.run(one(self.prog, "drv_build"), [], State()):
            env = s.mon.get("env", ())
            want = None
            if self.which == "fake":
                want = Opq("str", "lit", FAKE)
            else:
                vals = [i for n, i in env if n == VAR]
                if len(vals) == 1 and vals[0] is not None:
                    want = cstr_val(eng, s, Ptr(REGS[vals[0]]))
                elif len(vals) != 1 and any(v is not None for v in vals):
                    # several reads: any of the values read at creation will do
                    if not all(v is not None for v in vals):
                        continue
                    want = [cstr_val(eng, s, Ptr(REGS[v])) for v in vals]
                elif not vals:
                    self.ob(s, "the token is read at creation", False, "the environment variable is not read")
            if not isinstance(m, Ptr):
                self.ob(s, "creation succeeds", False, "no manager is created")
                continue
            cur.append((s, m, want))
        for i, op in enumerate(self.hist):
            nxt = []
            for s, m, want in cur:
                nxt += self.step(s, m, want, op, i)
            cur = nxt
        self.ends = len(cur)
        return self

    def step(self, st, m, want, op, i):
        eng = self.eng
        out = Region("alloca", "out%d" % i, size=L(32))
        self.op = dict(G="GetToken", D="GetDefaultToken", N="DebugName")[op]
        fn = one(self.prog, dict(G="drv_token", D="drv_default", N="drv_name")[op])
        args = [m, self.ident(i), Ptr(out)] if op == "G" else [m, Ptr(out)]
        self.start = Region("mark", "mark").id
        rs = eng.run(fn, args, st)
        self.start = None
        res = []
        for s, v in rs:
            self.ob(s, "requests do not write shared state", True, "")
            if op == "N":
                res.append((s, m, want))
                continue
            for s2, ok in eng.split(s, eng.as_cond(s, v)):
                self.ob(s2, "a token exactly when one is configured", ok == (want is not None),
                        lambda: "%s %s although the variable was %s at creation" % (self.op, "succeeds" if ok else "fails", "absent" if want is None else "set"))
                if ok and want is not None:
                    got = sget(eng, s2, Ptr(out))
                    if isinstance(want, list) and got in want:
                        pass
                    else:
                        w = want[0] if isinstance(want, list) else want
                        for s3, e in streq(eng, s2.fork(), got, w):
                            if not e and not options.definite(got):
                                eng.imprecise(s3, "string value %r" % (got,))
                            self.ob(s3, "the configured token, unchanged", e, lambda: "%s returns %r instead of %r" % (self.op, got, w))
                res.append((s2, m, want))
        return res


def job(which, hist, peel=2):
    return TokenRun(which, hist, peel).run()
