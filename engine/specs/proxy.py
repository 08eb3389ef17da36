"""The handshaker: S2AProxy, S2AContext, s2a_util: C25-C30, and the ticket
request of C21.

Messages are modelled at the generated accessors (absint/upb.py): a response of
the S2A has arbitrary contents, a request is compared field by field with what
the options say.  The frame protector and the token manager are cut off in
drivers/proxy.cc.

Operations of a history: `s` GetBytesForS2A without bytes, `b` with bytes, `p`
GetBytesForPeer with bytes, `e` without, `f` CreateFrameProtector, `c`
GetS2AContext, `d` IsHandshakeFinished."""
import os
from .common import *
from absint.models import sget, sput, streq, cstr_val, vget, ssize
from absint.upb import Upb

DRV = os.path.join(ir.VERIF, "drivers", "proxy.cc")
PROXY = "src/handshaker/s2a_proxy.cc"
CTX = "src/handshaker/s2a_context.cc"
UTIL = "src/handshaker/s2a_util.cc"
OPT = "src/options/s2a_options.cc"
TICKET = "src/record_protocol/s2a_upb_ticket_sender.cc"
I = "s2a::s2a_options::S2AOptions::Identity"
VERSIONS = ("TLS1_2", "TLS1_3")
SUITES = ("AES_128_GCM_SHA256", "AES_256_GCM_SHA384", "CHACHA20_POLY1305_SHA256")
KINDS = ("spiffe_id", "hostname", "uid")
RESULT = ("the result has no state", "the TLS version or ciphersuite is unknown", "the result has no local identity")


def tus(**kw):
    return [(DRV, "openssl"), (PROXY, "openssl"), (CTX, "openssl"), (UTIL, "openssl"), (OPT, "openssl"), (TICKET, "openssl")]


def definite(v):
    return v.t[1] not in ("?", "fmt", "ld") and all(definite(x) for x in v.t[2:] if isinstance(x, Opq) and x.t[0] == "str")


class Base:
    def __init__(self, peel):
        self.prog = program(tus())
        self.upb = Upb(self.on_parse)
        ms = [(r"^stub_log$", self.m_log), (r"^stub_token$", self.m_token), (r"^stub_default_token$", self.m_default), (r"^stub_frame$", self.m_frame)] + self.upb.models()
        self.eng = mk_engine(self.prog, ms, peel)
        self.eng.max_steps = 30000000
        self.eng.spin_cap = 200
        self.op, self.src = "", UTIL
        self.ends = 0
        self.eng.hooks.setdefault("abort", []).append(self.on_abort)
        self.enums()

    def on_abort(self, eng, st, fn):
        self.ob(st, self.ABORT, "no assertion fails", False, "%s is reached" % fn)

    ABORT = "C26"

    def on_parse(self, st, msg, r, a):
        pass

    def m_log(self, eng, st, c):
        if eng.taint is not None:
            eng.emit(st, "output", vals=[sget(eng, st, c.args[0])])
        return [(st, None)]

    def m_token(self, eng, st, c):
        return [(st, FALSE)]

    m_default = m_frame = m_token

    def fn(self, name):
        return one(self.prog, name)

    def call(self, st, name, args):
        return self.eng.run(self.fn(name), args, st)

    def ob(self, st, prop, kind, ok, msg):
        w = self.eng.where(st) if st.frames else None
        if not w or w == "?" or "drivers/" in w:
            w = "%s (%s)" % (self.src, self.op)
        for p in prop.split():
            self.eng.oblige(st, p, kind, ok, msg, where=w)

    def const(self, name, i):
        (s, v), = self.call(State(), name, [L(i)])
        return s.facts.norm(v).c

    def enums(self):
        self.ver = {n: self.const("drv_api_enum", i) for i, n in enumerate(VERSIONS)}
        self.cs = {n: self.const("drv_api_enum", 2 + i) for i, n in enumerate(SUITES)}
        self.kind = {n: self.const("drv_api_enum", 5 + i) for i, n in enumerate(KINDS)}
        self.none = self.const("drv_api_enum", 8)
        self.wver = self.upb.s.enums["TLSVersion"]
        self.wcs = self.upb.s.enums["Ciphersuite"]

    # ---- values ---------------------------------------------------------------
    def string(self, name):
        r = Region("param", name, ty="std::basic_string<char>", size=L(32))
        v = Opq("str", name)
        r.init[0] = (32, v)
        return Ptr(r), v

    def same_str(self, st, prop, kind, got, want, msg, cut=False):
        """Obliges got == want.  cut: want cut at its first NUL will do."""
        if cut and got == Opq("str", "cstrof", want):
            got = want
        for s, e in streq(self.eng, st.fork(), got, want):
            if not e and not (definite(got) and definite(want)):
                self.eng.imprecise(s, "string value %r" % (got,))
            self.ob(s, prop, kind, e, lambda: "%s: %r instead of %r" % (msg, got, want))

    def same_int(self, st, prop, kind, got, want, msg, bits=32):
        want = want if isinstance(want, Lin) else L(want)
        if isinstance(got, Lin):
            g = self.eng.u_nosplit(st, got, bits)
            got = g if g is not None else got
        if not isinstance(got, Lin):
            self.eng.imprecise(st, "integer value %r" % (got,))
        self.ob(st, prop, kind, isinstance(got, Lin) and st.facts.entails_eq(got - want), lambda: "%s: %r instead of %r" % (msg, got, want))

    def ident(self, st, kind, name):
        """[(state, pointer)] to an identity of this kind (0 none)."""
        r = Region("alloca", "identity", size=L(self.prog.classes[I]["size"]))
        return [(s, Ptr(r)) for s, _ in self.call(st, "drv_id", [Ptr(r), L(kind), name])]

    def same_id(self, st, prop, p, want, msg):
        """*p is the identity want = (kind constant, string value or None)."""
        for s, k in self.call(st.fork(), "drv_id_kind", [p]):
            self.same_int(s, prop, msg + ": kind", k, want[0], msg)
        if want[1] is None:
            return
        r = Region("alloca", "name", size=L(32))
        for s, _ in self.call(st.fork(), "drv_id_name", [Ptr(r), p]):
            self.same_str(s, prop, msg + ": name", sget(self.eng, s, Ptr(r)), want[1], msg)

    def wire_id(self, st, r):
        """[(state, (kind, name))] of the wire identity r (None: absent)."""
        if r is None:
            return [(st, (self.none, None))]
        out, cur = [], [st]
        for k in KINDS:
            nxt = []
            for s in cur:
                for s2, h in self.upb.has(self.eng, s, r, k):
                    if h:
                        p, n = self.upb.fields(s2, r)[k]
                        out.append((s2, (self.kind[k], cstr_val(self.eng, s2, p, n))))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, (self.none, None)) for s in cur]

    def known(self, st, x, table):
        """[(state, name of x in the table or None)]"""
        out, cur = [], [st]
        for n, v in table.items():
            nxt = []
            for s in cur:
                for s2, e in self.eng.split(s, ("eq", x - v)):
                    (out if e else nxt).append((s2, n) if e else s2)
            cur = nxt
        return out + [(s, None) for s in cur]

    def buffer(self, st, prop, p, msg):
        """The message tree whose serialization the vector *p holds, or None."""
        eng, f = self.eng, st.facts
        a, b = vget(eng, st, p) if isinstance(p, Ptr) else (None, None)
        ok = isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r
        self.ob(st, prop, "the message is returned", ok, lambda: "%r is returned" % (p,))
        if not ok:
            return None
        n = f.norm(b.off - a.off)
        src = None
        for x in eng.pieces(st, a, n):
            if x[0] is None:
                eng.imprecise(st, "bytes of unknown origin")
            elif not f.entails_ge(-x[2]):
                src = x[0][1] if x[0][0] == "init" and src in (None, x[0][1]) else -1
        ser = st.mon.get(("ser", src))
        if ser is None and src is None:
            c = [k[1] for k in st.mon if isinstance(k, tuple) and k[0] == "ser" and f.entails_eq(REGS[k[1]].size - n)]
            ser, src = (st.mon[("ser", c[-1])], c[-1]) if c else (None, None)
        ok = ser is not None and ser[0].info["msg"] == msg and f.entails_eq(n - REGS[src].size)
        self.ob(st, prop, "the whole message is returned", ok, lambda: "the bytes returned are not the serialized %s" % msg)
        return ser[1] if ok else None

    def check(self, st, prop, c, want):
        """All getters of the context *c."""
        out = Region("alloca", "out", size=L(40))
        for f, k in (("proto", "application protocol"), ("pf", "peer fingerprint"), ("lf", "local fingerprint")):
            for s, _ in self.call(st.fork(), "drv_ctx_" + f, [Ptr(out), c]):
                self.same_str(s, prop, "context " + k, sget(self.eng, s, Ptr(out)), want[f], k)
        for f, k in (("version", "TLS version"), ("cs", "ciphersuite"), ("resumed", "resumption flag")):
            for s, v in self.call(st.fork(), "drv_ctx_" + f, [c]):
                self.same_int(s, prop, "context " + k, v, want[f], k)
        for f in ("peer", "local"):
            for s, _ in self.call(st.fork(), "drv_ctx_" + f, [Ptr(out), c]):
                self.same_id(s, prop, Ptr(out), want[f], "context %s identity" % f)

    def tree_id(self, st, prop, t, want, msg, cut=True):
        """The serialized identity t (dict or None) is want = (kind name, string)."""
        if want is None:
            self.ob(st, prop, msg, not t, lambda: "%s: an identity is sent" % msg)
            return
        k, v = want
        ok = isinstance(t, dict) and set(t) == {k}
        self.ob(st, prop, msg + ": kind", ok, lambda: "%s: %s instead of %s" % (msg, t if not isinstance(t, dict) else sorted(t), k))
        if ok:
            self.same_str(st, prop, msg + ": name", t[k][2], v, msg, cut=cut)


class Util(Base):
    """C29"""
    ABORT = "C29"

    def run(self):
        eng = self.eng
        self.src = UTIL
        for names, api, wire, to, frm, what in ((VERSIONS, self.ver, self.wver, "drv_to_version", "drv_from_version", "TLS version"), (SUITES, self.cs, self.wcs, "drv_to_cs", "drv_from_cs", "ciphersuite")):
            for i, n in enumerate(names):
                g = self.const("drv_wire_enum", i + (0 if what == "TLS version" else 2))
                self.op = "generated enumerators"
                self.ob(State(), "C29", "wire number of " + n, wire.get(n) == g, "the generated header gives %s the number %r, the .proto file %r" % (n, g, wire.get(n)))
                self.op = "Convert%sToProto" % what
                self.conv(to, api[n], wire[n], n)
                self.op = "ConvertFromProto to %s" % what
                self.conv(frm, wire[n], api[n], n)
            for f, known in ((to, api), (frm, wire)):
                self.op = "conversion of an unknown %s" % what
                self.conv(f, None, None, "unknown " + what, [known[n] for n in names])
        self.ids()
        self.ends = 1
        return self

    def conv(self, f, x, want, n, not_in=()):
        eng = self.eng
        st = State()
        a = L(x) if x is not None else atom("value", 0, (1 << 32) - 1)
        for k in not_in:
            st.facts.add_ne(a - k)
        ok = Region("alloca", "ok", size=L(4))
        for s, v in self.call(st, f, [a, Ptr(ok)]):
            idx = eng.load_at(s, ok, ZERO, 4, False)
            if want is None:
                self.same_int(s, "C29", n + " is an error", idx, 0, "conversion of an unknown value succeeds")
                if s.facts.entails_eq(idx):
                    self.same_int(s, "C29", n + " is a non-OK status", v, 0, "the error status is OK")
            else:
                self.same_int(s, "C29", n + " is known", idx, 1, "conversion of %s fails" % n)
                if s.facts.entails_eq(idx - 1):
                    self.same_int(s, "C29", n, v, want, "conversion of %s" % n)

    def ids(self):
        eng = self.eng
        for i, k in enumerate(KINDS + (None,)):
            p, v = self.string("name")
            for s, idp in self.ident(State(), i + 1 if k else 0, p):
                ok = Region("alloca", "ok", size=L(4))
                self.op = "ConvertIdentityToProto"
                for s2, m in self.call(s, "drv_to_id", [Ptr(Region("lib", "arena")), idp, Ptr(ok)]):
                    idx = eng.load_at(s2, ok, ZERO, 4, False)
                    if k is None:
                        good = m is NULL or isinstance(m, Ptr) and m.r.kind == "pb" and not self.upb.tree(eng, s2, m.r)
                        self.ob(s2, "C29", "the empty identity", good, lambda: "the empty identity becomes %r" % (m,))
                        continue
                    self.same_int(s2, "C29", k + " is converted", idx, 1, "conversion of a %s fails" % k)
                    good = isinstance(m, Ptr) and m.r.kind == "pb"
                    self.ob(s2, "C29", k + " yields an identity", good, lambda: "%r" % (m,))
                    if good:
                        self.tree_id(s2, "C29", self.upb.tree(eng, s2, m.r), (k, v), "identity to the wire")
        self.op = "ConvertFromProtoToIdentity"
        for present in (True, False):
            out = Region("alloca", "out", size=L(self.prog.classes[I]["size"]))
            w = self.upb.new("Identity", True, "identity")
            for s, _ in self.call(State(), "drv_from_id", [Ptr(out), Ptr(w) if present else NULL]):
                for s2, want in self.wire_id(s, w if present else None):
                    self.same_id(s2, "C29", Ptr(out), want, "identity from the wire")



class Context(Base):
    """C30: construction, serialization, deserialization."""
    ABORT = "C30"

    def __init__(self, peel, mode, kinds=(1, 2)):
        self.mode, self.kinds = mode, kinds
        Base.__init__(self, peel)
        self.src = CTX

    def run(self):
        (self.parse if self.mode == "parse" else self.make)()
        return self

    def make(self):
        eng = self.eng
        st = State()
        w = {}
        pa, w["proto"] = self.string("protocol")
        ver, cs, res = atom("version", 0, (1 << 31) - 1), atom("suite", 0, (1 << 31) - 1), atom("resumed", 0, 1)
        pf, w["pf"] = self.string("peer fingerprint")
        lf, w["lf"] = self.string("local fingerprint")
        pn, pv = self.string("peer name")
        ln, lv = self.string("local name")
        cur = [(s2, a, b) for s, a in self.ident(st, self.kinds[0], pn) for s2, b in self.ident(s, self.kinds[1], ln)]
        k = [self.kind[KINDS[i - 1]] if i else self.none for i in self.kinds]
        want = dict(proto=w["proto"], version=ver, cs=cs, resumed=res, pf=w["pf"], lf=w["lf"], peer=(k[0], pv if self.kinds[0] else None), local=(k[1], lv if self.kinds[1] else None))
        for s, a, b in cur:
            self.op = "S2AContext()"
            for s2, c in self.call(s, "drv_ctx_new", [pa, ver, cs, a, b, pf, lf, res]):
                self.ends += 1
                self.check(s2, "C30", c, want)
                self.serialize(s2, c, want, (pv, lv))

    def serialize(self, st, c, want, names):
        eng = self.eng
        self.op = "GetSerializedContext"
        out = Region("alloca", "out", size=L(8))
        for s, v in self.call(st, "drv_ctx_ser", [c, Ptr(out)]):
            for s1, n in self.known(s, want["version"], self.ver):
                for s2, m in self.known(s1, want["cs"], self.cs):
                    self.serialized(s2, v, out, want, names, n, m)

    def serialized(self, st, v, out, want, names, n, m):
        eng = self.eng
        bad = n is None or m is None or st.mon.get("serfail")
        ok = st.facts.entails_eq(v - 1)
        self.ob(st, "C30", "serialization succeeds exactly when possible", ok != bool(bad), lambda: "serialization %s (version %s, ciphersuite %s)" % ("succeeds" if ok else "fails", n, m))
        if not ok or bad:
            return
        t = self.buffer(st, "C30", eng.load_at(st, out, ZERO, 8, True), "S2AContext")
        if t is None:
            return
        for f, k in (("application_protocol", "proto"), ("peer_cert_fingerprint", "pf"), ("local_cert_fingerprint", "lf")):
            self.same_str(st, "C30", "serialized " + f, t[f][2] if f in t else Opq("str", "lit", ""), want[k], f)
        self.same_int(st, "C30", "serialized version", t.get("tls_version", ZERO), self.wver[n], "TLS version")
        self.same_int(st, "C30", "serialized ciphersuite", t.get("ciphersuite", ZERO), self.wcs[m], "ciphersuite")
        r = t.get("is_handshake_resumed", ZERO)
        if not isinstance(r, Lin):
            for s2, b in eng.split(st.fork(), eng.as_cond(st, r)):
                self.same_int(s2, "C30", "serialized resumption flag", L(int(b)), want["resumed"], "resumption flag", 8)
        else:
            self.same_int(st, "C30", "serialized resumption flag", r, want["resumed"], "resumption flag", 8)
        for f, i in (("peer_identity", 0), ("local_identity", 1)):
            k = self.kinds[i]
            self.tree_id(st, "C30", t.get(f), (KINDS[k - 1], names[i]) if k else None, "serialized " + f, cut=False)

    def parse(self):
        eng = self.eng
        self.op = "GetS2AContextFromSerializedContext"
        n = atom("n", 0, SIZE_HI)
        b = Region("param", "serialized")
        b.size = n
        self.inp = (b, n)
        for s, c in self.call(State(), "drv_ctx_parse", [Ptr(b), n]):
            self.ends += 1
            r = s.mon.get("resp")
            if r is None:
                self.ob(s, "C30", "an undecodable context is an error", c is NULL, "a context is made from undecodable bytes")
                continue
            for s2, want in self.wire(s, r):
                if want is None:
                    self.ob(s2, "C30", "an invalid context is an error", c is NULL, "a context with an unknown version or ciphersuite is accepted")
                    continue
                self.ob(s2, "C30", "a valid context is accepted", isinstance(c, Ptr), "a valid serialized context is rejected")
                if isinstance(c, Ptr):
                    self.check(s2, "C30", c, want)

    def on_parse(self, st, msg, r, a):
        st.mon["resp"] = r
        b, n = self.inp
        self.ob(st, "C30", "the whole context is decoded", isinstance(a[0], Ptr) and a[0].r is b and st.facts.entails_eq(a[0].off) and st.facts.entails_eq(a[1] - n), "other bytes are decoded")

    def wire(self, st, r):
        out = []
        u, eng = self.upb, self.eng
        (s, ver), = u.get(eng, st, r, "tls_version")
        (s, cs), = u.get(eng, s, r, "ciphersuite")
        (s, res), = u.get(eng, s, r, "is_handshake_resumed")
        w = dict(resumed=res)
        for k, f in (("proto", "application_protocol"), ("pf", "peer_cert_fingerprint"), ("lf", "local_cert_fingerprint")):
            (s, (p, n)), = u.get(eng, s, r, f)
            w[k] = cstr_val(eng, s, p, n)
        for s1, v in self.known(s, ver, self.wver):
            for s2, c in self.known(s1, cs, self.wcs):
                if v is None or c is None:
                    out.append((s2, None))
                    continue
                for s3, pid in [(y, i) for x, p in u.get(eng, s2, r, "peer_identity") for y, i in self.wire_id(x, p)]:
                    for s4, lid in [(y, i) for x, p in u.get(eng, s3, r, "local_identity") for y, i in self.wire_id(x, p)]:
                        out.append((s4, dict(w, version=L(self.ver[v]), cs=L(self.cs[c]), peer=pid, local=lid)))
        return out


class Proxy(Base):
    """hist: tokens (see the module).  local: kinds of the local identities,
    target: kinds of the targets, ncs: ciphersuites."""

    def __init__(self, peel, hist, client=True, local="", target="", ncs=1, tokens=False, faults=True, fixed=(), sym=True, distinct=False):
        self.distinct = distinct
        self.hist, self.client, self.local, self.target, self.ncs, self.tokens, self.faults = hist, client, local, target, ncs, tokens, faults
        Base.__init__(self, peel)
        self.upb.fixed.update(fixed)
        self.sym = sym
        self.src = PROXY

    # ---- boundaries -------------------------------------------------------------
    def fetched(self, st, kind, name, out):
        eng = self.eng
        st.mon["asked"] = st.mon.get("asked", ()) + ((kind, name),)
        k = st.mon.get("ntok", 0)
        st.mon["ntok"] = k + 1
        res = []
        if self.faults:
            s2 = st.fork()
            s2.note("fault", "the token manager has no token")
            res.append((s2, FALSE))
        v = Opq("str", "token%d" % k)
        st.mon["tokens"] = st.mon.get("tokens", ()) + ((kind, name, v),)
        sput(eng, st, out, v)
        return [(st, TRUE)] + res

    def m_token(self, eng, st, c):
        k = st.facts.norm(c.args[0]) if isinstance(c.args[0], Lin) else None
        kind = next((n for n in KINDS if k is not None and k.is_const() and k.c == self.kind[n]), "none")
        return self.fetched(st, kind, sget(eng, st, c.args[1]), c.args[2])

    def m_default(self, eng, st, c):
        return self.fetched(st, "none", None, c.args[0])

    def on_parse(self, st, msg, r, a):
        eng = self.eng
        st.mon["resp"] = r
        st.mon["parsed"] = st.mon.get("parsed", 0) + 1
        b, n = self.inp
        ok = isinstance(a[0], Ptr) and isinstance(a[1], Lin) and st.facts.entails_eq(a[1] - n) and self.bytes_are(st, a[0], n, b)
        self.ob(st, "C26", "the whole response is decoded", ok, "other bytes than the response are decoded")

    def bytes_are(self, st, p, n, b):
        """The n bytes at p are the initial bytes of region b."""
        f = st.facts
        if p.r is b:
            return f.entails_eq(p.off)
        pos = ZERO
        for x in self.eng.pieces(st, p, n):
            if x[0] is None:
                self.eng.imprecise(st, "bytes of unknown origin")
                return False
            if f.entails_ge(-x[2]):
                continue
            if tuple(x[0][:2]) != ("init", b.id):
                return False
        return True

    def m_frame(self, eng, st, c):
        ver, cs, vin, vout, inq, outq, url, kind, name, cid, fac, opt, fns = c.args
        w = st.mon.get("session")
        st.mon["frames"] = st.mon.get("frames", 0) + 1
        self.ob(st, "C25", "no frame protector before the handshake completed", w is not None, "a frame protector is created without a complete session")
        if w is not None:
            self.same_int(st, "C28", "TLS version", ver, w["version"], "TLS version of the frame protector")
            self.same_int(st, "C28", "ciphersuite", cs, w["cs"], "ciphersuite of the frame protector")
            self.same_int(st, "C28", "inbound sequence", inq, w["inq"], "inbound sequence", 64)
            self.same_int(st, "C28", "outbound sequence", outq, w["outq"], "outbound sequence", 64)
            self.same_int(st, "C28", "connection id", cid, w["cid"], "connection id", 64)
            self.same_int(st, "C28", "kind of the local identity", kind, w["local"][0], "local identity")
            if w["local"][1] is not None:
                self.same_str(st, "C28", "local identity", sget(eng, st, name), w["local"][1], "local identity")
            self.same_str(st, "C28", "S2A address", sget(eng, st, url), self.addr, "S2A address")
            for v, (p, n), what in ((vin, w["ink"], "inbound secret"), (vout, w["outk"], "outbound secret")):
                a, b = vget(eng, st, v)
                ok = isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and st.facts.entails_eq(b.off - a.off - n) and self.bytes_are(st, a, n, p.r)
                self.ob(st, "C28", what, ok, lambda: "%s: other bytes are handed over" % what)
            if st.mon["frames"] == 1:
                self.ob(st, "C28", "channel", fac == eng.load_at(st, self.fac, ZERO, 8, True) and opt == eng.load_at(st, self.opt, ZERO, 8, True), "another channel factory is handed over")
            for s, b in eng.split(st.fork(), eng.as_cond(st, fns)):
                self.ob(s, "C28", "allocator, destroy function and logger", b, "a function is missing")
        s2 = st.fork()
        s2.note("fault", "the frame protector cannot be created")
        st.mon["frameok"], s2.mon["frameok"] = True, False
        return [(st, TRUE), (s2, FALSE)]

    # ---- the run ------------------------------------------------------------------
    def run(self):
        eng = self.eng
        st = State()
        self.vmin, self.vmax = (atom("min", 0, 1), atom("max", 0, 1)) if self.sym else (L(self.ver["TLS1_2"]), L(self.ver["TLS1_3"]))
        pa, self.addr = self.string("address")
        pp, self.proto = self.string("protocol")
        ph, self.host = self.string("target name")
        self.suites = [atom("suite%d" % i, 0, 2) if self.sym else L((i + 1) % 3) for i in range(self.ncs)]
        (s, o), = self.call(st, "drv_opt_new", [self.vmin, self.vmax, pa])
        for x in self.suites:
            (s, _), = self.call(s, "drv_opt_cs", [o, x])
        cur = [(s, (), ())]
        for i, k in enumerate(self.local):
            cur = self.add(cur, o, "l" + k, i, 1)
        for i, k in enumerate(self.target):
            cur = self.add(cur, o, "t" + k, i, 2)
        self.fac, self.opt = Region("alloca", "factory", size=L(8)), Region("alloca", "options", size=L(8))
        self.op = "Create"
        nxt = []
        for s, loc, tgt in cur:
            for s2, p in self.call(s, "drv_proxy_create", [L(int(self.client)), pp, ph, o, L(int(self.tokens)), ONE, Ptr(self.fac), Ptr(self.opt)]):
                self.ob(s2, "C27", "creation succeeds", isinstance(p, Ptr), "no proxy is created")
                if isinstance(p, Ptr):
                    s2.mon.update(loc=loc, tgt=tgt, first=True, session=None, selected=None)
                    nxt.append((s2, p))
        cur = nxt
        for i, tok in enumerate(self.hist):
            nxt = []
            for s, p in cur:
                nxt += [(s2, p) for s2 in getattr(self, "op_" + tok)(s, p, i)]
            cur = nxt
        self.ends = len(cur)
        return self

    def add(self, cur, o, f, i, which):
        out = []
        k = dict(s="spiffe_id", h="hostname", u="uid")[f[1]]
        for t in cur:
            sp, v = self.string("%s name %d" % ("local" if which == 1 else "target", i))
            if self.distinct:       # many names, all different
                t[0].facts.add_eq(ssize(self.eng, t[0], v) - (10 + i))
            for s, _ in self.call(t[0], "drv_opt_" + f, [o, sp]):
                dup = False
                x = [s, t[1], t[2]]
                st = s
                rs = [(s, False)]
                for k2, v2 in t[which]:
                    if k2 == k:
                        rs = [(b, d or e) for a, d in rs for b, e in ([(a, True)] if d else streq(self.eng, a, v2, v))]
                for b, d in rs:
                    y = [b, t[1], t[2]]
                    if not d:
                        y[which] = y[which] + ((k, v),)
                    out.append(tuple(y))
        return out

    def buf(self, st, name, empty=False):
        r = Region("heap", name, size=L(24))
        b = Region("param", name + " bytes", elem=1)
        n = ZERO if empty else atom("n" + name, 1, SIZE_HI)
        b.size = n
        b.info = dict(elemty="char", vec=True)
        for o, v in ((0, Ptr(b)), (8, Ptr(b, n)), (16, Ptr(b, n))):
            self.eng.store_at(st, r, L(o), 8, v)
        return Ptr(r), b, n

    def invoke(self, st, f, p, bp):
        out, con = Region("alloca", "out", size=L(8)), Region("alloca", "consumed", size=L(8))
        res = []
        for s, v in self.call(st, f, [p, bp, Ptr(out), Ptr(con)]):
            for s2, ok in self.eng.split(s, self.eng.as_cond(s, v)):
                res.append((s2, ok, self.eng.load_at(s2, out, ZERO, 8, True), self.eng.load_at(s2, con, ZERO, 8, False)))
        return res

    def null_result(self, st, prop, b, n):
        self.ob(st, prop, "an error carries no bytes", b is NULL and isinstance(n, Lin) and st.facts.entails_eq(n), lambda: "an error comes with %r and %r consumed bytes" % (b, n))

    # ---- requests -------------------------------------------------------------------
    def op_s(self, st, p, i, null=True):
        return self.request(st, p, NULL, None, ZERO)

    def op_z(self, st, p, i):
        bp, b, n = self.buf(st, "peer%d" % i, True)
        return self.request(st, p, bp, b, n)

    def op_b(self, st, p, i):
        bp, b, n = self.buf(st, "peer%d" % i)
        return self.request(st, p, bp, b, n)

    def request(self, st, p, bp, b, n):
        eng = self.eng
        self.op = "GetBytesForS2A"
        has = b is not None and n != ZERO
        out = []
        st.mon["serfail"] = False
        for s, ok, rb, con in self.invoke(st, "drv_proxy_s2a", p, bp):
            first = s.mon["first"]
            err = s.mon["serfail"] or (has and self.client if first else not has) or (first and self.client and len(s.mon["loc"]) > 1)
            self.ob(s, "C27", "a request is prepared exactly when it can be", ok != bool(err), lambda: "GetBytesForS2A %s" % ("succeeds" if ok else "fails"))
            if not ok:
                self.null_result(s, "C27", rb, con)
                out.append(s)
                continue
            if err:
                continue
            self.same_int(s, "C27", "nothing is consumed", con, 0, "consumed bytes", 64)
            t = self.buffer(s, "C27", rb, "SessionReq")
            if t is not None:
                self.message(s, t, first, b if has else None, n)
            s.mon["first"] = False
            out.append(s)
        return out

    def message(self, st, t, first, b, n):
        eng = self.eng
        kind = "next" if not first else "client_start" if self.client else "server_start"
        got = set(t) - {"auth_mechanisms"}
        self.ob(st, "C27", "kind of request", got == {kind}, lambda: "the request is %s instead of %s" % (sorted(got), kind))
        if got != {kind}:
            return
        m = t[kind]
        if kind != "client_start":
            x = m.get("in_bytes", (NULL, ZERO, None))
            if b is None:
                ok = isinstance(x[1], Lin) and st.facts.entails_eq(x[1])
            else:
                ok = isinstance(x[0], Ptr) and isinstance(x[1], Lin) and st.facts.entails_eq(x[1] - n) and self.bytes_are(st, x[0], n, b)
            self.ob(st, "C27", "bytes of the peer", ok, lambda: "the request carries %r instead of the peer's bytes" % (x[:2],))
        if first:
            ap = m.get("application_protocols", ())
            self.ob(st, "C27", "one application protocol", len(ap) == 1, lambda: "%d application protocols" % len(ap))
            if len(ap) == 1:
                self.same_str(st, "C27", "application protocol", ap[0][2], self.proto, "application protocol", cut=True)
            self.version(st, m.get("min_tls_version", ZERO), self.vmin, "minimum TLS version")
            self.version(st, m.get("max_tls_version", ZERO), self.vmax, "maximum TLS version")
            cs = m.get("tls_ciphersuites", ())
            self.ob(st, "C27", "number of ciphersuites", len(cs) == len(self.suites), lambda: "%d ciphersuites instead of %d" % (len(cs), len(self.suites)))
            if len(cs) == len(self.suites):
                for g, x in zip(cs, self.suites):
                    for s2, nme in self.known(st.fork(), x, self.cs):
                        if nme:
                            self.same_int(s2, "C27", "ciphersuite", g, self.wcs[nme], "ciphersuite")
            if self.client:
                self.ids(st, m.get("target_identities", ()), st.mon["tgt"], "target identity")
                self.ids(st, (m["local_identity"],) if m.get("local_identity") else (), st.mon["loc"], "local identity")
                x = m.get("target_name")
                self.same_str(st, "C27", "target name", x[2] if x else Opq("str", "lit", ""), self.host, "target name", cut=True)
            else:
                self.ids(st, m.get("local_identities", ()), st.mon["loc"], "local identity")
        self.auth(st, t.get("auth_mechanisms", ()), first)

    def version(self, st, got, want, what):
        for s, n in self.known(st.fork(), want, self.ver):
            if n:
                self.same_int(s, "C27", what, got, self.wver[n], what)

    def ids(self, st, got, want, what):
        """The serialized identities are exactly the configured ones, in any order."""
        self.ob(st, "C27", what + ": number", len(got) == len(want), lambda: "%d instead of %d (%s)" % (len(got), len(want), what))
        if len(got) != len(want):
            return
        left = list(want)
        for g in got:
            m = [w for w in left if isinstance(g, dict) and set(g) == {w[0]} and self.is_str(st, g[w[0]][2], w[1])]
            if not m and isinstance(g, dict):
                for v in g.values():
                    if not definite(v[2]):
                        self.eng.imprecise(st, "identity %r" % (v[2],))
            self.ob(st, "C27", what, bool(m), lambda: "%s: %r is sent" % (what, {k: v[2] for k, v in g.items()} if isinstance(g, dict) else g))
            if m:
                left.remove(m[0])

    def is_str(self, st, got, want):
        if got == Opq("str", "cstrof", want):
            return True
        r = streq(self.eng, st.fork(), got, want)
        return bool(r) and all(e for _, e in r)

    def auth(self, st, got, first):
        recs = st.mon.get("tokens", ())
        seen = []
        for m in got:
            tok = m.get("token")
            r = [x for x in recs if tok is not None and self.is_str(st, tok[2], x[2])]
            if tok is not None and not r and not definite(tok[2]):
                self.eng.imprecise(st, "token value")
            self.ob(st, "C27", "a token of the token manager", bool(r), lambda: "%r is sent as a token" % (tok,))
            if not r:
                continue
            kind, name, v = r[0]
            seen.append(v)
            ident = m.get("identity")
            if kind == "none":
                self.ob(st, "C27", "the default token goes without identity", not ident, "the default token is sent for an identity")
            else:
                self.tree_id(st, "C27", ident, (kind, name), "identity of a token")
        if first and st.mon["selected"] is None:
            for k, nme in st.mon["loc"] or (("none", None),):
                mine = [x for x in recs if x[0] == k and (nme is None or self.is_str(st, x[1], nme))]
                if self.tokens:
                    asked = any(x[0] == k and (nme is None or self.is_str(st, x[1], nme)) for x in st.mon.get("asked", ()))
                    self.ob(st, "C27", "a token is requested for every local identity", asked, "the token manager is not asked for the token of a local identity")
                if mine:
                    self.ob(st, "C27", "every token is attached", any(x[2] in seen for x in mine), "a token that was obtained is not attached")
        if st.mon["selected"] is not None and st.mon["selected"][1] is not None:
            k, nme = st.mon["selected"]
            mine = [x for x in recs if self.kind.get(x[0]) == k and self.is_str(st, x[1], nme)]
            if mine:
                self.ob(st, "C27", "the token of the selected identity is attached", any(x[2] in seen for x in mine), "the token of the identity the S2A selected is not attached")

    # ---- responses ------------------------------------------------------------------
    def op_e(self, st, p, i):
        return self.response(st, p, NULL, None, ZERO)

    def op_p(self, st, p, i):
        bp, b, n = self.buf(st, "s2a%d" % i)
        return self.response(st, p, bp, b, n)

    def response(self, st, p, bp, b, n):
        eng = self.eng
        self.op = "GetBytesForPeer"
        self.inp = (b, n)
        st.mon["resp"], st.mon["parsed"] = None, 0
        out = []
        for s, ok, rb, con in self.invoke(st, "drv_proxy_peer", p, bp):
            for s2, what, w in self.judge(s):
                if what is not None:
                    self.ob(s2, "C26", "an error of the S2A surfaces", not ok, lambda: "GetBytesForPeer returns OK although %s" % what)
                    if not ok:
                        self.null_result(s2, "C26", rb, con)
                    if what in RESULT:
                        s2.mon["maybe"] = True
                        self.ob(s2, "C25", "an invalid session result is not accepted", not ok, lambda: "a session result is accepted although %s" % what)
                    out.append(s2)
                    continue
                self.ob(s2, "C26", "a valid response is accepted", ok, "GetBytesForPeer fails on a valid response")
                if not ok:
                    continue
                r = s2.mon["resp"]
                (s2, (fp, fn)), = self.upb.get(eng, s2, r, "out_frames")
                (s2, bc), = self.upb.get(eng, s2, r, "bytes_consumed")
                self.same_int(s2, "C26", "consumed bytes", con, bc, "consumed bytes", 64)
                a, e = vget(eng, s2, rb) if isinstance(rb, Ptr) else (None, None)
                good = isinstance(a, Ptr) and isinstance(e, Ptr) and a.r is e.r and s2.facts.entails_eq(e.off - a.off - fn) and self.bytes_are(s2, a, fn, fp.r)
                self.ob(s2, "C26", "frames for the peer", good, lambda: "other bytes than the response's frames are returned")
                if w is not None:
                    s2.mon["session"] = w
                    s2.mon["maybe"] = s2.mon["taken"] = False
                lids = [(s2, s2.mon["selected"])]
                if self.upb.fields(s2, r).get("local_identity") is not None:
                    lids = self.wire_id(s2, self.upb.fields(s2, r)["local_identity"])
                for s3, l in lids:
                    s3.mon["selected"] = l
                    out.append(s3)
        return out

    def judge(self, st):
        """[(state, why the response is an error or None, session or None)]"""
        u, eng = self.upb, self.eng
        r = st.mon["resp"]
        if r is None:
            return [(st, "it cannot be decoded" if st.mon["parsed"] else "there is no response", None)]
        out = []
        for s, status in u.get(eng, st, r, "status"):
            if status is None:
                out.append((s, "it has no status", None))
                continue
            (s, code), = u.get(eng, s, status, "code")
            for s1, zero in eng.split(s, ("eq", code)):
                if not zero:
                    out.append((s1, "its status is not OK", None))
                    continue
                for s2, has in u.has(eng, s1, r, "result"):
                    if has:
                        out += self.result(s2, u.fields(s2, r)["result"])
                    else:
                        out.append((s2, None, None))
        return out

    def result(self, st, r):
        u, eng = self.upb, self.eng
        out = []
        for s, state in u.get(eng, st, r, "state"):
            if state is None:
                out.append((s, "the result has no state", None))
                continue
            w = {}
            for k, f in (("wver", "tls_version"), ("wcs", "tls_ciphersuite"), ("inq", "in_sequence"), ("outq", "out_sequence"), ("ink", "in_key"), ("outk", "out_key"), ("cid", "connection_id"), ("resumed", "is_handshake_resumed")):
                (s, w[k]), = u.get(eng, s, state, f)
            for k, f in (("proto", "application_protocol"), ("pf", "peer_cert_fingerprint"), ("lf", "local_cert_fingerprint")):
                (s, (p, n)), = u.get(eng, s, r, f)
                w[k] = cstr_val(eng, s, p, n)
            for s1, v in self.known(s, w["wver"], self.wver):
                for s2, c in self.known(s1, w["wcs"], self.wcs):
                    if v is None or c is None:
                        out.append((s2, "the TLS version or ciphersuite is unknown", None))
                        continue
                    for s3, l in u.get(eng, s2, r, "local_identity"):
                        if l is None:
                            out.append((s3, "the result has no local identity", None))
                            continue
                        for s4, lid in self.wire_id(s3, l):
                            for s5, pid in [(y, j) for x, q in u.get(eng, s4, r, "peer_identity") for y, j in self.wire_id(x, q)]:
                                out.append((s5, None, dict(w, version=L(self.ver[v]), cs=L(self.cs[c]), local=lid, peer=pid)))
        return out

    # ---- the session --------------------------------------------------------------------
    def op_f(self, st, p, i):
        self.op = "CreateFrameProtector"
        out = []
        n0 = st.mon.get("frames", 0)
        for s, v in self.call(st, "drv_proxy_frame", [p]):
            for s2, ok in self.eng.split(s, self.eng.as_cond(s, v)):
                made = s2.mon.get("frames", 0) > n0
                w = s2.mon["session"]
                self.ob(s2, "C25", "no session before the handshake completed", not ok or w is not None, "CreateFrameProtector succeeds without a complete session")
                if w is not None and s2.mon.get("maybe"):
                    # An invalid result may take back an earlier session.
                    pass
                elif w is not None:
                    self.ob(s2, "C25", "a frame protector once the handshake completed", made, "CreateFrameProtector fails after the handshake completed")
                    self.ob(s2, "C28", "failures of the frame protector are reported", ok == (made and s2.mon["frameok"]), "CreateFrameProtector returns another outcome than the frame protector's")
                out.append(s2)
        return out

    def op_c(self, st, p, i):
        self.op = "GetS2AContext"
        out = []
        r = Region("alloca", "out", size=L(8))
        for s, v in self.call(st, "drv_proxy_context", [p, Ptr(r)]):
            w = s.mon["session"]
            ok = s.facts.entails_eq(v - 1)
            bad = s.facts.entails_eq(v)
            self.ob(s, "C25", "no context before the handshake completed", bad or w is not None, "GetS2AContext succeeds without a complete session")
            if w is not None and (ok or not s.mon.get("maybe")):
                self.ob(s, "C25", "a context once the handshake completed", ok, "GetS2AContext fails after the handshake completed")
                c = self.eng.load_at(s, r, ZERO, 8, True)
                if ok and not s.mon.get("taken"):       # the context is handed out once
                    self.ob(s, "C25", "a context exists", isinstance(c, Ptr), "GetS2AContext returns no context")
                s.mon["taken"] = True
                if ok and isinstance(c, Ptr):
                    self.check(s, "C30", c, w)
            out.append(s)
        return out

    def op_d(self, st, p, i):
        self.op = "IsHandshakeFinished"
        out = []
        for s, v in self.call(st, "drv_proxy_done", [p]):
            for s2, ok in self.eng.split(s, self.eng.as_cond(s, v)):
                self.ob(s2, "C25", "finished exactly when a session exists", ok == (s2.mon["session"] is not None) or not ok and s2.mon.get("maybe"), "IsHandshakeFinished says %s" % ok)
                out.append(s2)
        return out


class Ticket(Base):
    """The resumption-ticket request of C21."""
    ABORT = "C21"

    def __init__(self, peel, kind=1, n=2):
        self.k, self.n = kind, n
        Base.__init__(self, peel)
        self.src = TICKET

    def run(self):
        eng = self.eng
        self.op = "PrepareResumptionTicketReq"
        st = State()
        pn, name = self.string("local name")
        cid = atom("connection id", 0, (1 << 64) - 1)
        vec, arr = Region("heap", "tickets", size=L(24)), Region("heap", "tickets array", elem=8)
        arr.size = L(8 * self.n)
        arr.info = dict(elemty="std::unique_ptr<std::basic_string<char>>", vec=True)
        for o, v in ((0, Ptr(arr)), (8, Ptr(arr, L(8 * self.n))), (16, Ptr(arr, L(8 * self.n)))):
            eng.store_at(st, vec, L(o), 8, v)
        vals = []
        for i in range(self.n):
            p, v = self.string("ticket%d" % i)
            eng.store_at(st, arr, L(8 * i), 8, p)
            vals.append(v)
        for s, idp in self.ident(st, self.k, pn):
            req = self.upb.new("SessionReq")
            for s2, v in self.call(s, "drv_ticket_req", [cid, idp, Ptr(vec), Ptr(Region("lib", "arena")), Ptr(req)]):
                for s3, ok in eng.split(s2, eng.as_cond(s2, v)):
                    self.ends += 1
                    self.ob(s3, "C21", "a ticket request exactly for a known identity", ok == bool(self.k), "the ticket request %s" % ("is made without an identity" if ok else "fails"))
                    if not ok or not self.k:
                        continue
                    t = self.upb.tree(eng, s3, req)
                    self.ob(s3, "C21", "kind of request", set(t) == {"resumption_ticket"}, lambda: "the request is %s" % sorted(t))
                    m = t.get("resumption_ticket")
                    if not m:
                        continue
                    self.same_int(s3, "C21", "connection id", m.get("connection_id", ZERO), cid, "connection id of the ticket request", 64)
                    self.tree_id(s3, "C21", m.get("local_identity"), (KINDS[self.k - 1], name), "local identity of the ticket request")
                    b = m.get("in_bytes", ())
                    self.ob(s3, "C21", "number of tickets sent", len(b) == self.n, lambda: "%d tickets instead of %d" % (len(b), self.n))
                    if len(b) == self.n:
                        for g, x in zip(b, vals):
                            self.same_str(s3, "C21", "ticket bytes", g[2], x, "a ticket")
        return self


def job(part="util", peel=2, **kw):
    return dict(util=Util, ctx=Context, proxy=Proxy, ticket=Ticket)[part](peel, **kw).run()
