"""S2AHalfConnection: C13, C14, C15 and its part of C16.

Histories of public calls are interpreted from Create on, with HKDF and the
AEAD crypters cut off at their interfaces (drivers/half.cc): a derivation is
named by its inputs (hash, secret, label, output size), so that the key, nonce
and secret in use can be compared with the derivation tree of RFC 8446
section 7.2/7.3.  Every derivation, creation and cipher call may also fail."""
import os
from .common import *
from .locks import Locks
from absint import terms
from absint.models import vget

DRV = os.path.join(ir.VERIF, "drivers", "half.cc")
HC = "src/record_protocol/s2a_half_connection.cc"
UT = "src/record_protocol/s2a_crypter_util.cc"
CLS = "s2a::record_protocol::S2AHalfConnection"
# ciphersuite -> (hash, secret size, key size, nonce size, AEAD)
SUITES = {0: (0, 32, 16, 12, 0), 1: (1, 48, 32, 12, 0), 2: (0, 32, 32, 12, 1)}
NAMES = {0: "AES_128_GCM_SHA256", 1: "AES_256_GCM_SHA384", 2: "CHACHA20_POLY1305_SHA256"}


def tus(**kw):
    return [(DRV, "openssl"), (HC, "openssl"), (UT, "openssl"), ("src/crypto/s2a_aead_crypter.cc", "openssl")]


def label(n, name):
    s = b"tls13 " + name
    return (n >> 8, n & 255, len(s)) + tuple(s) + (0,)


class Ref:
    __slots__ = ("cs", "secret", "seq", "over", "failed", "id", "dead")

    def __init__(self, **kw):
        for k in Ref.__slots__:
            setattr(self, k, kw.get(k))

    def w(self, **kw):
        d = {k: getattr(self, k) for k in Ref.__slots__}
        d.update(kw)
        return Ref(**d)


class HalfRun:
    def __init__(self, hist, seq, fail, cs, peel):
        self.hist, self.seqkind, self.fail, self.cs = hist, seq, fail, cs
        self.prog = program(tus())
        self.eng = mk_engine(self.prog, [(r"^stub_hkdf$", self.m_hkdf), (r"^stub_new$", self.m_new), (r"^stub_cipher$", self.m_cipher),
                                         (r"^stub_delete$", self.m_delete)], 96)
        self.eng.max_steps = 20000000
        self.op = None
        self.locks = Locks(self)
        self.locks.shared = self.shared
        self.obj = None
        self.mark = None
        self.ends = 0
        self.eng.hooks.setdefault("mem", []).append(self.on_mem)
        self.eng.hooks.setdefault("uaf", []).append(self.on_uaf)
        self.eng.hooks.setdefault("badshift", []).append(self.on_shift)
        self.eng.hooks.setdefault("abort", []).append(self.on_abort)

    def ob(self, st, prop, kind, ok, msg):
        w = self.eng.where(st) if st.frames else None
        if not w or w == "?" or "drivers/" in w:
            w = "%s (%s)" % (HC, self.op)
        for p in prop.split():
            self.eng.oblige(st, p, kind, ok, msg, where=w)

    def on_abort(self, eng, st, fn):
        self.ob(st, {"Encrypt": "C13", "Decrypt": "C13", "UpdateKey": "C14"}.get(self.op, "C15"), "no assertion fails", False, "the process is aborted (%s)" % fn)

    # ---- boundaries ---------------------------------------------------------
    def bytes_of(self, st, p, n):
        """Contents description of n bytes at p."""
        n = st.facts.norm(n)
        ps = self.eng.pieces(st, p, n)
        if n.is_const() and n.c <= 64 and (not ps or any(s is None or s[0] not in ("gen", "init") for s, o, l in ps)):
            out = []
            for i in range(n.c):
                v = self.eng.load_at(st, p.r, st.facts.norm(p.off + i), 1, False) if isinstance(p, Ptr) else None
                v = st.facts.norm(v) if isinstance(v, Lin) else None
                out.append(v.c if v is not None and v.is_const() else ("?", repr(v)))
            return tuple(out)
        if len(ps) == 1 and ps[0][0] is not None and ps[0][0][0] in ("gen", "init"):
            s, o, l = ps[0]
            return (s[:2] if s[0] == "init" else s, st.facts.norm(o), st.facts.norm(l))
        return ("mixed",) + tuple((s, repr(o), repr(l)) for s, o, l in ps)

    def may_fail(self, st):
        return st.mon.get("failures", 0) < self.fail

    def failed(self, st, what):
        s = st.fork()
        s.mon["failures"] = s.mon.get("failures", 0) + 1
        s.mon["opfail"] = True
        s.note("fault", what + " fails")
        return s

    def m_hkdf(self, eng, st, c):
        h, prk, nprk, info, ninfo, out, nout = c.args
        h = st.facts.norm(h)
        d = ("gen", "hkdf", h.c if h.is_const() else repr(h), self.bytes_of(st, prk, nprk), self.bytes_of(st, info, ninfo), st.facts.norm(nout))
        for p, n, w in ((prk, nprk, False), (info, ninfo, False), (out, nout, True)):
            eng.emit(st, "mem", p=p, n=n, w=w, bulk=True)
        res = []
        if self.may_fail(st):
            s = self.failed(st, "key derivation")
            eng.havoc(s, out, nout, "hkdf failed", src=("gen", "partial", Region("mark", "x").id))
            res.append((s, FALSE))
        eng.havoc(st, out, nout, "hkdf", src=d)
        res.append((st, TRUE))
        return res

    def m_new(self, eng, st, c):
        kind, key, n = c.args
        k = self.bytes_of(st, key, n)
        eng.emit(st, "mem", p=key, n=n, w=False, bulk=True)
        res = []
        if self.may_fail(st):
            res.append((self.failed(st, "crypter creation"), ZERO))
        i = st.mon.get("nid", 0) + 1
        st.mon["nid"] = i
        st.mon[("crypter", i)] = (st.facts.norm(kind).c, k, "live")
        res.append((st, L(i)))
        return res

    def m_delete(self, eng, st, c):
        i = st.facts.norm(c.args[0]).c
        k = st.mon.get(("crypter", i))
        if k:
            self.ob(st, "C14", "a crypter is destroyed once", k[2] == "live", "a crypter is destroyed twice")
            st.mon[("crypter", i)] = k[:2] + ("gone",)
        return [(st, None)]

    def m_cipher(self, eng, st, c):
        i, enc, nonce, n, aad, inp, out, nout, written = c.args
        i = st.facts.norm(i)
        n = st.facts.norm(n)
        nb = None
        if n.is_const() and 0 <= n.c <= 64 and isinstance(nonce, Ptr):
            nb = tuple(eng.load_at(st, nonce.r, st.facts.norm(nonce.off + k), 1, False) for k in range(n.c))
        eng.emit(st, "mem", p=nonce, n=n, w=False, bulk=True)
        st.mon["cipher"] = st.mon.get("cipher", ()) + ((i.c if i.is_const() else repr(i), enc.c, nb, aad, inp, out, nout),)
        if self.locks.active:
            self.locks.acc.setdefault("the AEAD crypter", {}).setdefault(
                (frozenset(k for k, rd in self.locks.held(st) if not rd), True),
                (self.locks.where(st), self.op, st.path(), list(st.imp), st))
        s2 = st.fork()
        res = []
        for s, ok in ((st, True), (s2, False))[:1 if self.fail < 0 else 2]:     # long histories: only successes
            w = atom("written", 0, SIZE_HI)
            eng.store(s, written, w, ["i", 64])
            s.mon["result"] = (ok, w)
            s.note("cipher", "the cipher operation %s" % ("succeeds" if ok else "fails"))
            res.append((s, TRUE if ok else FALSE))
        return res

    # ---- monitors -----------------------------------------------------------
    def shared(self, st, p):
        """Name of the shared location at p, or None if it is private."""
        if self.obj is None:
            return None
        if p.r is self.obj.r:
            off = st.facts.norm(p.off)
            if off.is_const():
                for m in self.prog.classes[CLS]["members"]:
                    if m[1] <= off.c < m[1] + m[2]:
                        return m[0]
            return "connection+%r" % off
        if self.mark is not None and p.r.kind == "heap" and p.r.id < self.mark:
            nm = p.r.name.split("@")[0]
            m = __import__("re").match(r"heap.*?\+(\d+)\.buf$", p.r.name)
            return "memory of %s" % nm if "buf" in nm else "the AEAD crypter"
        return None

    def on_mem(self, eng, st, p, n, w, val=None, bulk=False):
        f = st.facts
        if f.entails_ge(-n):
            return
        if p is NULL:
            self.ob(st, "C13 C14 C15", "no null access", False, "null pointer accessed")
        elif isinstance(p, Ptr):
            size = p.r.size if p.r.size is not None else st.vsize.get(p.r.id)
            if size is None or p.r.kind in ("lib", "libconst", "opaque", "global"):
                return
            if p.r.kind == "heap" or w:
                self.ob(st, "C13 C14 C15", "access inside the buffer", f.entails_ge(p.off) and f.entails_ge(size - p.off - n),
                        lambda: "access of %r bytes at offset %r of %s (%r bytes)" % (n, p.off, p.r.name, size))

    def on_uaf(self, eng, st, **kw):
        self.ob(st, "C13 C14", "no use after free", False, "freed memory is used")

    def on_shift(self, eng, st, amount):
        self.ob(st, "C13", "shift amounts are in range", False, lambda: "shift by %r" % amount)

    # ---- reference ------------------------------------------------------------
    def derive(self, cs, secret, name, n):
        return ("gen", "hkdf", SUITES[cs][0], secret, label(n, name), L(n))

    def whole(self, src, n):
        return (src, ZERO, L(n))

    def key_of(self, cs, secret):
        n = SUITES[cs][2]
        return self.whole(self.derive(cs, secret, b"key", n), n)

    def advance(self, cs, secret):
        n = SUITES[cs][1]
        return self.whole(self.derive(cs, secret, b"traffic upd", n), n)

    def nonce_byte(self, st, ref, i):
        n = SUITES[ref.cs][3]
        src = self.derive(ref.cs, ref.secret, b"iv", n)
        b = app("byte", (src, L(i)), 0, 255)
        st.facts.note_app(b.t[0][0])
        if i < n - 8:
            return b
        k = 8 * (n - 1 - i)
        q = ref.seq if k == 0 else app("div%d" % (1 << k), (ref.seq,), 0, None)
        q = app("mod256", (q,), 0, 255)
        return app("xor", (b, q), 0, 255)

    def check_crypter(self, st, ref, when):
        k = st.mon.get(("crypter", st.mon.get("nid", 0)))
        if k is None:
            self.ob(st, "C14 C15", "a crypter is installed", False, "%s: no crypter was created" % when)
            return False
        want = self.key_of(ref.cs, ref.secret)
        if k[1] != want and "'?'" in repr(k[1]):
            self.eng.imprecise(st, "derivation input of unknown value")
        self.ob(st, "C15", "AEAD algorithm", k[0] == SUITES[ref.cs][4],
                lambda: "%s: %s creates a %s crypter" % (when, NAMES[ref.cs], ("AES-GCM", "ChaCha20-Poly1305")[k[0]] if k[0] in (0, 1) else k[0]))
        ok = k[1] == want
        self.ob(st, "C14", "the key is derived from the current traffic secret", ok, lambda: "%s: the crypter is keyed with %s instead of %s" % (when, short(k[1]), short(want)))
        g = k[1]
        if isinstance(g, tuple) and g and isinstance(g[0], tuple) and g[0][:2] == ("gen", "hkdf"):
            self.ob(st, "C15", "hash function", g[0][2] == SUITES[ref.cs][0], lambda: "%s: the key of %s is derived with hash %r" % (when, NAMES[ref.cs], g[0][2]))
            self.ob(st, "C15", "key size", g[2] == L(SUITES[ref.cs][2]) and g[0][5] == L(SUITES[ref.cs][2]), lambda: "%s: the key of %s has %r bytes" % (when, NAMES[ref.cs], g[2]))
        elif not ok:
            self.ob(st, "C15", "key size", False, lambda: "%s: the key is %s" % (when, short(g)))
        return ok

    # ---- driving --------------------------------------------------------------
    def start(self, st, op):
        self.op = op
        self.mark = Region("mark", "mark").id
        self.locks.active = op
        st.mon["opfail"] = False
        st.mon["cipher"] = ()
        st.mon["result"] = None

    def stop(self):
        self.locks.active = None
        self.mark = None

    def run(self):
        eng = self.eng
        cases = []
        for cs in ((0, 1, 2) if self.cs is None else (self.cs,)):
            if cs == "any":
                v = atom("ciphersuite", 0, (1 << 32) - 1)
                cur = State()
                for k in SUITES:
                    cur.facts.add_ne(v - k)
                cases.append((cur, v, None))
            else:
                cases.append((State(), L(cs), cs))
        for st, v, cs in cases:
            self.one(st, v, cs)
        self.locks.finish()
        return self

    def one(self, st, v, cs):
        eng = self.eng
        sec = vec_param(eng, "secret", "unsigned char")
        buf = vec_buf(eng, sec)
        n = buf.info["n"]
        seq = L(self.seqkind) if self.seqkind is not None else atom("sequence", 0, (1 << 64) - 1)
        if isinstance(self.seqkind, int) and self.seqkind < 0:
            seq = L((1 << 64) + self.seqkind)
        self.obj = None
        self.start(st, "Create")
        self.stop()
        cur = []
        for s, h in eng.run(one(self.prog, "drv_create"), [v, seq, sec], st):
            if cs is None:
                self.ob(s, "C15", "unknown ciphersuites are rejected", h is NULL, "a half connection is created for an unknown ciphersuite")
                continue
            for s1, b in eng.split(s, ("eq", n - SUITES[cs][1])):
                if not b:
                    self.ob(s1, "C15", "secrets of the wrong size are rejected", h is NULL,
                            lambda: "a traffic secret of another size than %d is accepted for %s" % (SUITES[cs][1], NAMES[cs]))
                    continue
                if s1.mon["opfail"]:
                    self.ob(s1, "C14 C15", "a failure while creating is reported", h is NULL, "Create succeeds although a derivation or creation step failed")
                    continue
                self.ob(s1, "C15", "supported ciphersuites are accepted", isinstance(h, Ptr), lambda: "%s with a secret of %d bytes is rejected" % (NAMES[cs], SUITES[cs][1]))
                if not isinstance(h, Ptr):
                    continue
                ref = Ref(cs=cs, secret=(("init", buf.id), ZERO, L(SUITES[cs][1])), seq=seq, over=False, failed=False)
                if self.check_crypter(s1, ref, "Create"):
                    cur.append((s1, h, ref.w(id=s1.mon.get("nid"))))
        for i, op in enumerate(self.hist):
            nxt = []
            for s, h, ref in cur:
                self.obj = h
                nxt += [(s2, h, r2) for s2, r2 in self.step(s, h, ref, op, i)]
            cur = nxt
        self.ends += len(cur)

    def step(self, st, h, ref, op, i):
        eng = self.eng
        if op == "T":
            self.start(st, "TagLength")
            rs = eng.run(one(self.prog, "drv_tag"), [h], st)
            self.stop()
            for s, v in rs:
                self.locks.at_exit(s, "TagLength")
                self.ob(s, "C15", "tag length", isinstance(v, Lin) and s.facts.entails_eq(v - 16), lambda: "TagLength returns %r" % (v,))
            return [(s, ref) for s, _ in rs]
        if op == "U":
            self.start(st, "UpdateKey")
            rs = eng.run(one(self.prog, "drv_update"), [h], st)
            self.stop()
            out = []
            for s, v in rs:
                self.locks.at_exit(s, "UpdateKey")
                for s1, ok in eng.split(s, eng.as_cond(s, v)):
                    out += self.updated(s1, ref, ok)
            return out
        name, drv = ("Encrypt", "drv_encrypt") if op == "E" else ("Decrypt", "drv_decrypt")
        self.start(st, name)
        aad, inp = Ptr(Region("param", "aad%d" % i)), Ptr(Region("param", "in%d" % i))
        out = Ptr(Region("param", "out%d" % i))
        nout = atom("outlen%d" % i, 0, SIZE_HI)
        wr = Region("alloca", "written%d" % i, size=L(8))
        rs = eng.run(one(self.prog, drv), [h, aad, inp, out, nout, Ptr(wr)], st)
        self.stop()
        res = []
        for s, v in rs:
            self.locks.at_exit(s, name)
            for s1, ok in eng.split(s, eng.as_cond(s, v)):
                res += self.ciphered(s1, ref, op, name, ok, wr, (aad, inp, out, nout))
        return res

    def updated(self, st, ref, ok):
        if ref.failed:
            return [(st, ref)]
        if st.mon["opfail"]:
            self.ob(st, "C14", "a failed key update is reported", not ok, "UpdateKey returns OK although a step failed")
            return [(st, ref.w(failed=True))]
        self.ob(st, "C14", "a key update without failures succeeds", ok, "UpdateKey fails although every step succeeded")
        if not ok:
            return [(st, ref.w(failed=True))]
        new = ref.w(secret=self.advance(ref.cs, ref.secret), seq=ZERO, over=False)
        self.ob(st, "C14 C13", "a new crypter is installed", st.mon.get("nid") == ref.id + 1 or st.mon.get("nid", 0) > ref.id, "UpdateKey installs no new crypter")
        if not self.check_crypter(st, new, "UpdateKey"):
            return []
        return [(st, new.w(id=st.mon.get("nid")))]

    def ciphered(self, st, ref, op, name, ok, wr, args):
        eng, f = self.eng, st.facts
        calls = st.mon["cipher"]
        if ref.failed or ref.over:
            why = "a failed key update" if ref.failed else "the sequence number wrapped"
            p = "C14" if ref.failed else "C13"
            self.ob(st, p, "an unusable connection never reaches the cipher", not calls, "%s reaches the cipher after %s" % (name, why))
            self.ob(st, p, "an unusable connection reports an error", not ok, "%s succeeds after %s" % (name, why))
            b = eng.load_at(st, wr, ZERO, 8, False)
            self.ob(st, p, "an unusable connection reports 0 bytes", isinstance(b, Lin) and f.entails_eq(b), lambda: "%s reports %r bytes after %s" % (name, b, why))
            return [(st, ref)]
        self.ob(st, "C13 C14", "a usable connection reaches the cipher exactly once", len(calls) == 1,
                lambda: "%s reaches the cipher %d times" % (name, len(calls)))
        if len(calls) != 1:
            return []
        i, enc, nb, aad, inp, out, nout = calls[0]
        self.ob(st, "C14 C13", "the current crypter is used", i == ref.id and st.mon[("crypter", i)][2] == "live",
                lambda: "%s uses crypter %r instead of the current one (%r)" % (name, i, ref.id))
        self.ob(st, "C13", "direction of the cipher", (enc == 1) == (op == "E"), "%s performs the opposite cipher operation" % name)
        self.ob(st, "C13", "arguments reach the cipher unchanged",
                (aad, inp, out) == args[:3] and isinstance(nout, Lin) and f.entails_eq(nout - args[3]), lambda: "%s passes %r" % (name, (aad, inp, out, nout)))
        r = st.mon["result"]
        b = eng.load_at(st, wr, ZERO, 8, False)
        self.ob(st, "C13", "the cipher's result is returned", ok == r[0] and isinstance(b, Lin) and f.entails_eq(b - r[1]),
                lambda: "the cipher %s with %r bytes, %s reports %s with %r bytes" % ("succeeds" if r[0] else "fails", r[1], name, "success" if ok else "failure", b))
        n = SUITES[ref.cs][3]
        self.ob(st, "C15 C13", "nonce size", nb is not None and len(nb) == n, lambda: "the nonce has %s bytes" % (len(nb) if nb is not None else "unknown"))
        if nb is None or len(nb) != n:
            return []
        ss = terms.samples(f)
        pure, seqok = True, True
        for k in range(n):
            want = self.nonce_byte(st, ref, k)
            if not isinstance(nb[k], Lin):
                e = None
            else:
                e = terms.equal(f, nb[k], want, ss)
            if e is None:
                eng.imprecise(st, "nonce byte")
                e = False
            # derived from the wrong secret / label: C14; wrong sequence: C13
            self.ob(st, "C13 C14" if k < n - 8 else "C13", "nonce byte %d" % k, e, lambda: "%s: byte %d of the nonce is %r instead of %r" % (name, k, nb[k], want))
            if k >= n - 8 and not e and ref.seq == ZERO:
                self.ob(st, "C14", "nonce after a key update", False, lambda: "byte %d of the nonce is %r instead of %r" % (k, nb[k], want))
        res = []
        for s, wrap in eng.split(st, ("eq", ref.seq - ((1 << 64) - 1))):
            res.append((s, ref.w(seq=ZERO if wrap else s.facts.norm(ref.seq + 1), over=wrap)))
        return res


class HashRun(HalfRun):
    """CiphersuiteToHashFunction on every ciphersuite and output pointer."""

    def __init__(self):
        HalfRun.__init__(self, "", 0, 0, None, 8)

    def run(self):
        eng = self.eng
        self.op = "CiphersuiteToHashFunction"
        f = one(self.prog, "drv_hash")
        for null in (False, True):
            v = atom("ciphersuite", 0, (1 << 32) - 1)
            out = Region("alloca", "hash", size=L(4))
            for s, r in eng.run(f, [v, NULL if null else Ptr(out)], State()):
                for s1, ok in eng.split(s, eng.as_cond(s, r)):
                    if null:
                        self.ob(s1, "C15", "a null result pointer is rejected", not ok, "OK with a null result pointer")
                        continue
                    cur = s1
                    for k, par in SUITES.items():
                        for s2, b in eng.split(cur, ("eq", v - k)):
                            if not b:
                                cur = s2
                                continue
                            h = eng.load_at(s2, out, ZERO, 4, False)
                            self.ob(s2, "C15", "hash function of a ciphersuite", ok and isinstance(h, Lin) and s2.facts.entails_eq(h - par[0]),
                                    lambda: "%s is given %s" % (NAMES[k], "hash function %r" % h if ok else "an error"))
                        if cur is None:
                            break
                        if not cur.facts.entails_ne(v - k):
                            cur = None
                            break
                    if cur is not None:
                        self.ob(cur, "C15", "unknown ciphersuites are rejected", not ok, "a hash function is given for an unknown ciphersuite")
        self.ends = 1
        return self


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def job(hist="", seq=None, fail=0, cs=None, peel=2, kind="hist"):
    if kind == "hash":
        return HashRun().run()
    return HalfRun(hist, seq, fail, cs, peel).run()
