"""What one side protects the other side recovers: C35.

Two ends of a connection with mirrored secrets and sequence numbers, the whole
record layer of each (frame protector, S2ACrypter, half connections, handshake
handler), are interpreted in one state: the bytes one end's Protect produces
are handed, cut into buffers at arbitrary places, to the other end's Unprotect.
HKDF is a function of its inputs and the AEAD has its defining property only:
Decrypt gives back what Encrypt was given if key, nonce, additional data and
ciphertext are the same, which are compared byte by byte; anything else is a
violation (the record would be rejected).  Library failures are not considered.

Operations: `a` the first end protects and the second unprotects, `b` the other
way round, `A`/`B` the same into the caller's own buffers; with level "crypter"
also `k` a key update of the first end's sending direction, `K` of the second
end's."""
import os
from .common import *
from .crypter import iovecs, read_iovecs
from . import half
from absint import terms

DRV = os.path.join(ir.VERIF, "drivers", "roundtrip.cc")
SRCS = ("src/frame_protector/s2a_frame_protector.cc", "src/record_protocol/s2a_crypter.cc", half.HC, half.UT,
        "src/record_protocol/handshake_message_handler.cc", "src/options/s2a_options.cc", "src/crypto/s2a_aead_crypter.cc")
MAXP, OVER, HDR, TAG = 16384, 22, 5, 16
ROOM = 64           # sequence numbers left, for arbitrary ones: no more records are sent


def tus(**kw):
    return [(DRV, "openssl")] + [(s, "openssl") for s in SRCS]


class TripRun:
    bytes_of = half.HalfRun.bytes_of

    def __init__(self, hist, level, cs, niov, recs, cuts, seq, null, peel, lo=0, lens=None, step=None):
        self.lens, self.stepsize = lens, step
        self.hist, self.level, self.cs, self.niov, self.recs, self.cuts, self.seq, self.null, self.lo = hist, level, cs, niov, recs, cuts, seq, null, lo
        self.prog = program(tus())
        self.eng = mk_engine(self.prog, [(r"^stub_hkdf$", self.m_hkdf), (r"^stub_new$", self.m_new), (r"^stub_cipher$", self.m_cipher),
                                         (r"^stub_alloc$", self.m_alloc)], max(96, peel))
        self.eng.max_steps = 60000000
        self.eng.spin_cap = 40000 if lens else 400
        self.op = None
        self.ends = 0
        self.eng.hooks.setdefault("abort", []).append(lambda eng, st, fn: self.ob(st, "no assertion fails", False, "the process is aborted (%s)" % fn))

    def ob(self, st, kind, ok, msg):
        # with key updates: both ends stay in step only if each is followed once
        for p in ("C35", "C20") if "k" in self.hist.lower() and kind in ("both ends use the same key", "nothing is rejected", "key updates succeed") else ("C35",):
            self.oblige(p, st, kind, ok, msg)

    def oblige(self, prop, st, kind, ok, msg):
        self.eng.oblige(st, prop, kind, ok, msg, where="%s (round trip)" % (SRCS[0] if self.level == "frame" else SRCS[1]))

    # ---- boundaries ---------------------------------------------------------
    def m_hkdf(self, eng, st, c):
        h, prk, nprk, info, ninfo, out, nout = c.args
        h = st.facts.norm(h)
        d = ("gen", "hkdf", h.c if h.is_const() else repr(h), self.bytes_of(st, prk, nprk), self.bytes_of(st, info, ninfo), st.facts.norm(nout))
        eng.havoc(st, out, nout, "hkdf", src=d)
        return [(st, TRUE)]

    def m_new(self, eng, st, c):
        kind, key, n = c.args
        k = self.bytes_of(st, key, n)
        i = st.mon.get("nid", 0) + 1
        st.mon["nid"] = i
        st.mon[("key", i)] = (st.facts.norm(kind).c, k)
        return [(st, L(i))]

    def m_alloc(self, eng, st, c):
        n, base, ln = c.args
        r = Region("lib2", "allocated%d" % st.mon.get("nalloc", 0))
        st.mon["nalloc"] = st.mon.get("nalloc", 0) + 1
        r.size = st.facts.norm(n)
        eng.store(st, base, Ptr(r), "p")
        eng.store(st, ln, r.size, ["i", 64])
        return [(st, None)]

    def contents(self, st, vec):
        """[(source, offset, length)] of a vector of iovecs, single bytes as
        ("value", v); adjacent ranges of one source are merged.  None: unknown."""
        ps = read_iovecs(self.eng, st, vec)
        f = st.facts
        if ps is None:
            return None
        out = []
        for b, l in ps:
            if not isinstance(l, Lin):
                return None
            if f.entails_ge(-l):
                continue
            for s, o, n in self.eng.pieces(st, b, l):
                if f.entails_ge(-n):
                    continue
                if s is None:
                    return None
                if s[0] == "value":
                    v = self.eng.u_nosplit(st, s[1], 8)
                    s = ("value", f.norm(v if v is not None else s[1]))
                else:
                    s = s[:2] if s[0] == "init" else s
                if out and out[-1][0] == s and s[0] != "value" and f.entails_eq(out[-1][1] + out[-1][2] - o):
                    out[-1] = (s, out[-1][1], f.norm(out[-1][2] + n))
                else:
                    out.append((s, f.norm(o), f.norm(n)))
        return out

    def same_value(self, st, a, b):
        f = st.facts
        if f.entails_eq(a - b):
            return True
        e = terms.equal(f, f.norm(a), f.norm(b), terms.samples(f))
        if e is None:
            self.eng.imprecise(st, "byte value")
        return bool(e)

    def same_nonce(self, st, a, b):
        return len(a) == len(b) and all(isinstance(x, Lin) and isinstance(y, Lin) and self.same_value(st, x, y) for x, y in zip(a, b))

    def same_contents(self, st, a, b):
        f = st.facts
        if a is None or b is None:
            self.eng.imprecise(st, "bytes of unknown origin")
            return False
        if len(a) != len(b):
            return False
        for (s, o, n), (t, q, m) in zip(a, b):
            if s[0] == "value" == t[0]:
                if not self.same_value(st, s[1], t[1]):
                    return False
            elif s != t or not f.entails_eq(o - q) or not f.entails_eq(n - m):
                return False
        return True

    def m_cipher(self, eng, st, c):
        i, enc, nonce, n, aad, inp, out, nout, written = c.args
        f = st.facts
        i, n = f.norm(i), f.norm(n)
        if not (i.is_const() and n.is_const() and 0 < n.c <= 64 and isinstance(nonce, Ptr) and isinstance(out, Ptr)):
            eng.imprecise(st, "arguments of the cipher")
            self.ob(st, "arguments of the cipher", False, "unknown arguments")
            return []
        nb = tuple(eng.load_at(st, nonce.r, f.norm(nonce.off + k), 1, False) for k in range(n.c))
        key, a, x = st.mon[("key", i.c)], self.contents(st, aad), self.contents(st, inp)
        log = st.mon.get("sealed", ())
        if f.norm(enc).c:
            if x is None:
                eng.imprecise(st, "plaintext of unknown origin")
                self.ob(st, "the plaintext is encrypted", False, "unknown plaintext")
                return []
            total = f.norm(sum((p[2] for p in x), ZERO))
            src = ("gen", "sealed", len(log))
            if not f.entails_ge(nout - total - TAG):
                eng.imprecise(st, "size of the ciphertext")
                self.ob(st, "there is room for the ciphertext", False, lambda: "%r bytes for %r bytes of ciphertext" % (f.norm(nout), f.norm(total + TAG)))
                return []
            eng.havoc(st, out, f.norm(total + TAG), "encrypt", src=src)
            eng.store(st, written, f.norm(total + TAG), ["i", 64])
            st.mon["sealed"] = log + ((key, nb, a, x, total),)
            return [(st, TRUE)]
        # the record that is due
        k = st.mon.get("opened", 0)
        due = st.mon.get("due", ())
        self.ob(st, "records are decrypted once and in order", bool(due), "more records are decrypted than were protected")
        if not due:
            return []
        key2, nb2, a2, x2, total = log[due[0]]
        want = [(("gen", "sealed", due[0]), ZERO, f.norm(total + TAG))]
        if key != key2 and "'?'" in repr((key, key2)):
            eng.imprecise(st, "key of unknown value")
        self.ob(st, "both ends use the same key", key == key2, lambda: "record %d was encrypted with %s and is decrypted with %s" % (due[0], half.short(key2), half.short(key)))
        self.ob(st, "both ends use the same nonce", self.same_nonce(st, nb, nb2), lambda: "record %d was encrypted under nonce %r and is decrypted under %r" % (due[0], nb2, nb))
        self.ob(st, "both ends authenticate the same header", self.same_contents(st, a, a2), lambda: "the additional data was %r and is %r" % (a2, a))
        self.ob(st, "the ciphertext arrives intact", self.same_contents(st, x, want), lambda: "the ciphertext of record %d is %r instead of %r" % (due[0], x, want))
        self.ob(st, "there is room for the plaintext", f.entails_ge(nout - total), lambda: "%r bytes of room for %r bytes" % (f.norm(nout), total))
        if not f.entails_ge(nout - total):
            return []
        st.mon["due"] = due[1:]
        eng.havoc(st, out, total, "decrypt")
        pos = out.off
        for s, o, m in x2:
            if s[0] == "value":
                eng.store_at(st, out.r, f.norm(pos), 1, s[1])
            else:
                eng.add_seg(st, out.r, f.norm(pos), f.norm(pos + m), s, f.norm(o - pos))
            pos = f.norm(pos + m)
        eng.store(st, written, total, ["i", 64])
        return [(st, TRUE)]

    # ---- driving --------------------------------------------------------------
    def run(self):
        eng = self.eng
        st = State()
        sec = [vec_param(eng, n, "unsigned char") for n in ("first_secret", "second_secret")]
        seq = [atom("sequence%d" % k, 0, (1 << 64) - 1 - ROOM) if self.seq is None else L(self.seq if self.seq >= 0 else (1 << 64) + self.seq) for k in (0, 1)]
        for v in sec:
            st.facts.add_eq(vec_buf(eng, v).info["n"] - half.SUITES[self.cs][1])
        cur = [(st, ())]
        new = one(self.prog, "drv_frame_create" if self.level == "frame" else "drv_create")
        for k in (0, 1):
            nxt = []
            for s, hs in cur:
                for s2, h in eng.run(new, [ONE, L(self.cs), sec[1 - k], sec[k], seq[1 - k], seq[k]], s):
                    self.ob(s2, "both ends are created", isinstance(h, Ptr), "creation fails")
                    if isinstance(h, Ptr):
                        nxt.append((s2, hs + (h,)))
            cur = nxt
        for i, op in enumerate(self.hist):
            nxt = []
            for s, hs in cur:
                nxt += [(s2, hs) for s2 in self.step(s, hs, op, i)]
            cur = nxt
        self.ends = len(cur)
        return self

    def step(self, st, hs, op, i):
        x, y = (hs[0], hs[1]) if op in "aAk" else (hs[1], hs[0])
        if op in "kK":
            return self.keyupdate(st, x, y, i)
        out = []
        for s, vec, items, total in self.plain(st, i):
            out += (self.frame if self.level == "frame" else self.record)(s, x, y, op, i, vec, items, total)
        return out

    def plain(self, st, i):
        """[(state, vector, items, total)]; whether a component is empty is
        decided first."""
        if self.lens:
            vec, items = iovecs(self.eng, st, "plaintext%d" % i, len(self.lens), null=self.null)
            for (_, l), n in zip(items, self.lens):
                st.facts.add_eq(l - n)
            return [(st, vec, items, L(sum(self.lens)))]
        vec, items = iovecs(self.eng, st, "plaintext%d" % i, self.niov, null=self.null)
        total = st.facts.norm(sum((l for _, l in items), ZERO))
        self.restrict(st, total)
        cur = [] if st.facts.dead else [st]
        for b, l in items:
            cur = [s2 for s in cur for s2, _ in self.eng.split(s, ("ge", l - 1))]
        return [(s, vec, items, total) for s in cur]

    def views(self, st, base, total, i, cuts=None):
        """A vector of iovecs over the given bytes, cut at arbitrary places."""
        eng, f = self.eng, st.facts
        cuts = self.cuts if cuts is None else cuts
        total = f.norm(total)
        if self.stepsize and total.is_const():
            cuts = max(0, (total.c - 1) // self.stepsize)
        v = Region("param", "received%d" % i, ty="std::vector<iovec>")
        v.size = L(24)
        b = Region("vecbuf", "received%d.buf" % i, size=L(16 * (cuts + 1)))
        b.info = {}
        pos = ZERO
        for k in range(cuts + 1):
            end = total if k == cuts else L((k + 1) * self.stepsize) if self.stepsize else atom("cut%d.%d" % (i, k), 0, SIZE_HI)
            f.add_ge(end - pos)
            if k < cuts:
                f.add_ge(total - end)
            eng.store_at(st, b, L(16 * k), 8, Ptr(base.r, f.norm(base.off + pos)))
            eng.store_at(st, b, L(16 * k + 8), 8, f.norm(end - pos))
            pos = end
        for o, e in ((0, 0), (8, 16 * (cuts + 1)), (16, 16 * (cuts + 1))):
            eng.store_at(st, v, L(o), 8, Ptr(b, L(e)))
        return Ptr(v)

    def empty_vec(self, st, name):
        v = Region("alloca", name, size=L(24))
        for o in (0, 8, 16):
            self.eng.store_at(st, v, L(o), 8, NULL)
        return Ptr(v)

    def one_iov(self, st, name, base, n):
        io = Region("alloca", name, size=L(16))
        self.eng.store_at(st, io, ZERO, 8, base)
        self.eng.store_at(st, io, L(8), 8, n)
        return Ptr(io)

    def restrict(self, st, total):
        f = st.facts
        f.add_ge(L(MAXP * max(self.recs, 1)) - total)
        if self.recs == 0:
            f.add_eq(total)
        else:
            f.add_ge(total - max(MAXP * (self.recs - 1) + 1, self.lo))

    def frame(self, st, x, y, op, i, vec, items, total):
        eng = self.eng
        own = op in "AB"
        first = len(st.mon.get("sealed", ()))
        want = self.expected(st, items)
        sent = []
        if own:
            n = st.facts.norm(total + OVER * (-(-total.c // MAXP) if self.lens else max(self.recs, 1)))
            r = Region("param", "record%d" % i)
            r.size = n
            io = self.one_iov(st, "recio%d" % i, Ptr(r), n)
            rs = eng.run(one(self.prog, "drv_frame_protect_into"), [x, vec, io], st)
        else:
            io = self.empty_vec(st, "sent%d" % i)
            rs = eng.run(one(self.prog, "drv_frame_protect"), [x, vec, io], st)
        for s, v in rs:
            for s1, ok in eng.split(s, eng.as_cond(s, v)):
                if not ok:
                    self.rejected(s1, "Protect fails on plaintext that can be protected")
                    continue
                if own:
                    b = [(eng.load_at(s1, io.r, ZERO, 8, True), s1.facts.norm(eng.load_at(s1, io.r, L(8), 8, False)))]
                else:
                    b = read_iovecs(eng, s1, io)
                if b is None or len(b) != 1 or not isinstance(b[0][0], Ptr) or not isinstance(b[0][1], Lin):
                    eng.imprecise(s1, "protected bytes")
                    self.ob(s1, "Protect returns one buffer", False, lambda: "Protect returns %r" % (b,))
                    continue
                sent.append((s1, b[0]))
        out = []
        for s, (b, n) in sent:
            s.mon["due"] = tuple(range(first, len(s.mon.get("sealed", ()))))
            rv = self.views(s, b, s.facts.norm(n), i)
            if own:
                pr = Region("param", "plain_out%d" % i)
                pr.size = s.facts.norm(n)
                io = self.one_iov(s, "plainio%d" % i, Ptr(pr), pr.size)
                rs = eng.run(one(self.prog, "drv_frame_unprotect_into"), [y, rv, io], s)
            else:
                io = self.empty_vec(s, "got%d" % i)
                rs = eng.run(one(self.prog, "drv_frame_unprotect"), [y, rv, io], s)
            for s1, v in rs:
                for s2, ok in eng.split(s1, eng.as_cond(s1, v)):
                    if not ok:
                        self.rejected(s2, "Unprotect rejects what Protect produced")
                        continue
                    if own:
                        g = self.bytes_at(s2, eng.load_at(s2, io.r, ZERO, 8, True), eng.load_at(s2, io.r, L(8), 8, False))
                    else:
                        g = self.contents(s2, io)
                    self.ob(s2, "every record is delivered", not s2.mon["due"], lambda: "%d records were not decrypted" % len(s2.mon["due"]))
                    self.ob(s2, "the plaintext is recovered", self.same_contents(s2, g, self.live(s2, want)), lambda: "recovered: %r, protected: %r" % (g, want))
                    out.append(s2)
        return out

    def rejected(self, st, msg):
        """The library does not fail and the sequence numbers are not used up:
        there is no reason for a failure."""
        self.ob(st, "nothing is rejected", False, msg)

    def bytes_at(self, st, b, n):
        v = Region("alloca", "tmpv", size=L(24))
        buf = Region("vecbuf", "tmpb", size=L(16))
        buf.info = {}
        eng = self.eng
        eng.store_at(st, buf, ZERO, 8, b)
        eng.store_at(st, buf, L(8), 8, n)
        for o, e in ((0, 0), (8, 16), (16, 16)):
            eng.store_at(st, v, L(o), 8, Ptr(buf, L(e)))
        return self.contents(st, Ptr(v))

    def expected(self, st, items):
        return [(("init", b.r.id), ZERO, l) for b, l in items if isinstance(b, Ptr)]

    def live(self, st, want):
        """The expected pieces that are not empty."""
        return [w for w in want if not st.facts.entails_ge(-w[2])]

    # ---- without the frame protector ------------------------------------------------
    def seal(self, st, x, t, vec, total, i):
        """[(state, record, length)] of a successful Protect."""
        eng = self.eng
        rec = Region("param", "record%d" % i)
        rec.size = st.facts.norm(total + OVER)
        wr = Region("alloca", "written%d" % i, size=L(8))
        out = []
        for s, v in eng.run(one(self.prog, "drv_protect"), [x, L(t), vec, Ptr(rec), rec.size, Ptr(wr)], st):
            for s1, ok in eng.split(s, eng.as_cond(s, v)):
                if not ok:
                    self.rejected(s1, "Protect fails on plaintext that can be protected")
                    continue
                out.append((s1, Ptr(rec), s1.facts.norm(eng.load_at(s1, wr, ZERO, 8, False))))
        return out

    def open(self, st, y, rec, n, i):
        """[(state, output, length)] of a successful Unprotect."""
        eng = self.eng
        body = self.views(st, Ptr(rec.r, L(HDR)), st.facts.norm(n - HDR), i)
        o = Region("param", "plain_out%d" % i)
        o.size = st.facts.norm(n)
        wr = Region("alloca", "recovered%d" % i, size=L(8))
        out = []
        for s, v in eng.run(one(self.prog, "drv_unprotect"), [y, rec, L(HDR), body, Ptr(o), o.size, Ptr(wr)], st):
            for s1, ok in eng.split(s, eng.as_cond(s, v)):
                if not ok:
                    self.rejected(s1, "Unprotect rejects what Protect produced")
                    continue
                self.ob(s1, "every record is delivered", not s1.mon["due"], lambda: "%d records were not decrypted" % len(s1.mon["due"]))
                out.append((s1, Ptr(o), s1.facts.norm(eng.load_at(s1, wr, ZERO, 8, False))))
        return out

    def record(self, st, x, y, op, i, vec, items, total):
        want = self.expected(st, items)
        out = []
        for s, rec, n in self.seal(st, x, 0, vec, total, i):
            s.mon["due"] = (len(s.mon["sealed"]) - 1,)
            for s1, o, k in self.open(s, y, rec, n, i):
                g = self.bytes_at(s1, o, k)
                self.ob(s1, "the plaintext is recovered", self.same_contents(s1, g, self.live(s1, want)), lambda: "recovered: %r, protected: %r" % (g, want))
                out.append(s1)
        return out

    def keyupdate(self, st, x, y, i):
        """x announces a key update in a handshake record and updates its
        outbound key; y has to follow."""
        eng = self.eng
        r = Region("param", "keyupdate%d" % i)
        r.size = L(5)
        for k, v in enumerate((24, 0, 0, 1, 0)):
            eng.store_at(st, r, L(k), 1, L(v))
        vec = self.bytes_vec(st, Ptr(r), L(5))
        out = []
        for s, rec, n in self.seal(st, x, 2, vec, L(5), i):
            s.mon["due"] = (len(s.mon["sealed"]) - 1,)
            for s1, v in eng.run(one(self.prog, "drv_update_out"), [x], s):
                for s2, ok in eng.split(s1, eng.as_cond(s1, v)):
                    self.ob(s2, "key updates succeed", ok, "UpdateOutboundKey fails though nothing failed")
                    if not ok:
                        continue
                    for s3, o, k in self.open(s2, y, rec, n, i):
                        self.ob(s3, "a key update carries no plaintext", isinstance(k, Lin) and s3.facts.entails_eq(k), lambda: "%r bytes are delivered" % k)
                        out.append(s3)
        return out

    def bytes_vec(self, st, b, n):
        eng = self.eng
        v = Region("param", "vec", ty="std::vector<iovec>")
        v.size = L(24)
        buf = Region("vecbuf", "vecb", size=L(16))
        buf.info = {}
        eng.store_at(st, buf, ZERO, 8, b)
        eng.store_at(st, buf, L(8), 8, n)
        for o, e in ((0, 0), (8, 16), (16, 16)):
            eng.store_at(st, v, L(o), 8, Ptr(buf, L(e)))
        return Ptr(v)


def job(hist="a", level="frame", cs=0, niov=1, recs=1, cuts=0, seq=0, null=None, peel=3, lo=0, lens=None, step=None):
    return TripRun(hist, level, cs, niov, recs, cuts, seq, null, peel, lo, lens, step).run()
