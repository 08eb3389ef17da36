"""S2ACrypter: C17-C21 and its part of C16.

Histories of public calls are interpreted from Create on.  The half connections
and the handshake message handler are cut off at their interfaces
(drivers/crypter.cc, drivers/handler_cut.cc: any outcome).  Every outcome is compared with the reference record layer below.

Operations: `p` Protect, `U` Unprotect of anything, and Unprotect of a
well-formed record that decrypts to `a` application data, `h` handshake bytes,
`c` a close-notify alert, `x` nothing (decryption fails), `z` application data
with the longest possible padding; `O` UpdateOutboundKey,
`R` RecordOverhead, `D` destruction (last)."""
import os
from .common import *
from .locks import Locks
from absint.models import vget, sget, streq

DRV = os.path.join(ir.VERIF, "drivers", "crypter.cc")
CUT = os.path.join(ir.VERIF, "drivers", "handler_cut.cc")
SRC = "src/record_protocol/s2a_crypter.cc"
OPT = "src/options/s2a_options.cc"
AEAD = "src/crypto/s2a_aead_crypter.cc"
CLS = "s2a::record_protocol::S2ACrypter"
OK, INVALID_RECORD, CLOSE, OTHER = 0, 3, 5, 7
MAXP, OVER, HDR, TAG = 16384, 22, 5, 16
TYPES = {0: 0x17, 1: 0x15, 2: 0x16}


def tus(**kw):
    return [(DRV, "openssl"), (SRC, "openssl"), (CUT, "openssl"), (OPT, "openssl"), (AEAD, "openssl")]


class Ref:
    __slots__ = ("closed", "more", "phase", "sent", "wait", "retrieved", "dead")

    def __init__(self, **kw):
        for k in Ref.__slots__:
            setattr(self, k, kw.get(k))

    def w(self, **kw):
        d = {k: getattr(self, k) for k in Ref.__slots__}
        d.update(kw)
        return Ref(**d)


def iovecs(eng, st, name, n, hi=(1 << 31) - 1, null=None):
    """A vector of n iovecs of arbitrary buffers: (vector, [(base, len)]); the
    one at index `null` is empty and has no buffer."""
    v = Region("param", name, ty="std::vector<iovec>")
    v.size = L(24)
    items = []
    if n == 0:
        for o in (0, 8, 16):
            eng.store_at(st, v, L(o), 8, NULL)
        return Ptr(v), items
    b = Region("vecbuf", name + ".buf", size=L(16 * n))
    b.info = {}
    for i in range(n):
        if i == null:
            eng.store_at(st, b, L(16 * i), 8, NULL)
            eng.store_at(st, b, L(16 * i + 8), 8, ZERO)
            items.append((NULL, ZERO))
            continue
        r = Region("param", "%s[%d]" % (name, i))
        ln = atom("%s[%d].len" % (name, i), 0, hi)
        r.size = ln
        eng.store_at(st, b, L(16 * i), 8, Ptr(r))
        eng.store_at(st, b, L(16 * i + 8), 8, ln)
        items.append((Ptr(r), ln))
    eng.store_at(st, v, ZERO, 8, Ptr(b))
    eng.store_at(st, v, L(8), 8, Ptr(b, L(16 * n)))
    eng.store_at(st, v, L(16), 8, Ptr(b, L(16 * n)))
    return Ptr(v), items


def read_iovecs(eng, st, p):
    """[(base, len)] of a vector of iovecs, or None."""
    a, b = vget(eng, st, p)
    if a is NULL or isinstance(a, Lin) and a == ZERO:
        return []
    if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r):
        return None
    n = st.facts.norm(b.off - a.off)
    if not n.is_const():
        return None
    out = []
    for k in range(0, n.c, 16):
        base = eng.load_at(st, a.r, st.facts.norm(a.off + k), 8, True)
        ln = eng.load_at(st, a.r, st.facts.norm(a.off + k + 8), 8, False)
        out.append((base, ln))
    return out


class CrypterRun:
    def __init__(self, hist, niov, fail, small, peel, pad, null=None, extra=0, frag=False):
        self.null, self.extra, self.frag = null, extra, frag
        self.hist, self.niov, self.fail, self.small = hist, niov, fail, small
        self.prog = program(tus())
        ms = [(r"^stub_half$", self.m_half), (r"^stub_crypt$", self.m_crypt), (r"^stub_update$", self.m_update), (r"^stub_log$", self.m_log),
              (r"^stub_send$", self.m_send), (r"^stub_wait$", self.m_wait), (r"^stub_has_wait$", self.m_has_wait), (r"^stub_process$", self.m_process),
              (r"^stub_tickets$", self.m_tickets), (r"^stub_fragments$", self.m_fragments), (r"^stub_fragment$", self.m_fragment),
              (r"S2AHalfConnection::~S2AHalfConnection$", self.m_half_dtor)]
        self.eng = mk_engine(self.prog, ms, pad)
        self.eng.max_steps = 30000000
        if "z" in hist:
            self.eng.spin_cap = 20000
        self.pad = pad
        self.op = self.cur = None
        self.obj = self.mark = None
        self.ends = 0
        self.locks = Locks(self)
        self.locks.shared = self.shared
        self.locks.side = lambda op: {"Protect": "sender", "UpdateOutboundKey": "sender", "Unprotect": "receiver", "RecordOverhead": "both"}.get(op, op)
        self.eng.hooks.setdefault("mem", []).append(self.on_mem)
        self.eng.hooks.setdefault("uaf", []).append(self.on_uaf)
        self.eng.hooks.setdefault("fncall", []).append(self.on_call)
        self.eng.hooks.setdefault("abort", []).append(self.on_abort)

    def ob(self, st, prop, kind, ok, msg):
        w = self.eng.where(st) if st.frames else None
        if not w or w == "?" or "drivers/" in w:
            w = "%s (%s)" % (SRC, self.op)
        for p in prop.split():
            self.eng.oblige(st, p, kind, ok, msg, where=w)

    def on_abort(self, eng, st, fn):
        self.ob(st, {"Protect": "C19", "UpdateOutboundKey": "C20"}.get(self.op, "C17 C18"), "no assertion fails", False, "the process is aborted (%s)" % fn)

    # ---- boundaries ---------------------------------------------------------
    def m_half(self, eng, st, c):
        cs, seq, sec, n = c.args
        hs = st.mon.get("halves", ())
        res = []
        if st.mon.get("failures", 0) < self.fail:
            s = st.fork()
            s.mon["failures"] = s.mon.get("failures", 0) + 1
            s.mon["halves"] = hs + (None,)
            s.note("fault", "creation of a half connection fails")
            res.append((s, NULL))
        r = Region("lib", "half%d" % len(hs))
        st.mon["halves"] = hs + ((r.id, st.facts.norm(cs), st.facts.norm(seq), sec, st.facts.norm(n)),)
        res.append((st, Ptr(r)))
        return res

    def m_half_dtor(self, eng, st, c):
        return [(st, None)]

    def which(self, st, h):
        if not isinstance(h, Ptr):
            return None
        return {st.mon.get("in"): "inbound", st.mon.get("out"): "outbound"}.get(h.r.id, "unknown")

    def load_bytes(self, st, p, n):
        return [self.eng.load_at(st, p.r, st.facts.norm(p.off + k), 1, False) for k in range(n)]

    def m_crypt(self, eng, st, c):
        h, enc, aad, inp, out, nout, written = c.args
        f = st.facts
        enc = f.norm(enc).c
        w = self.which(st, h)
        cur = self.cur
        st.mon["crypts"] = st.mon.get("crypts", 0) + 1
        a = read_iovecs(eng, st, aad)
        i = read_iovecs(eng, st, inp)
        P = "C19" if self.op == "Protect" else "C17 C18"
        self.ob(st, P, "one cipher operation per record", st.mon["crypts"] == 1, "%s performs a second cipher operation" % self.op)
        if a is None or i is None:
            eng.imprecise(st, "iovecs of unknown length")
            self.ob(st, P, "arguments of the cipher", False, "the cipher is given buffers of unknown number")
            return []
        if self.op == "Protect":
            self.ob(st, "C19", "Protect uses the outbound keys", w == "outbound" and enc == 1, lambda: "Protect uses the %s half connection to %s" % (w, "encrypt" if enc else "decrypt"))
            return self.crypt_protect(eng, st, a, i, out, nout, written)
        self.ob(st, "C19", "Unprotect uses the inbound keys", w == "inbound" and enc == 0, lambda: "%s uses the %s half connection to %s" % (self.op, w, "encrypt" if enc else "decrypt"))
        return self.crypt_unprotect(eng, st, a, i, out, nout, written)

    def nonempty(self, st, v):
        """The non-empty components, in order; None if undecided."""
        out = []
        for b, l in v:
            if isinstance(l, Lin) and st.facts.entails_ge(-l):
                continue
            out.append((b, l))
        return out

    def same_io(self, st, got, want):
        g, w = self.nonempty(st, got), self.nonempty(st, want)
        if len(g) != len(w):
            # components that may be empty make the lists differ in form only
            g, w = got, want
            if len(g) != len(w):
                return False
        for (b1, l1), (b2, l2) in zip(g, w):
            if not (isinstance(l1, Lin) and isinstance(l2, Lin) and st.facts.entails_eq(l1 - l2)):
                return False
            if st.facts.entails_ge(-l1):
                continue
            if isinstance(b1, Ptr) and isinstance(b2, Ptr):
                if b1.r is not b2.r or not st.facts.entails_eq(b1.off - b2.off):
                    return False
            elif b1 is not b2:
                return False
        return True

    def crypt_protect(self, eng, st, a, i, out, nout, written):
        f, cur = st.facts, self.cur
        rec = cur["rec"]
        total = cur["total"]
        self.ob(st, "C19", "too long plaintext is rejected before encryption", f.entails_ge(L(MAXP) - total), lambda: "%r plaintext bytes are encrypted into one record" % f.norm(total))
        self.ob(st, "C19", "too small record is rejected before encryption", f.entails_ge(cur["n"] - total - OVER), lambda: "a record buffer of %r bytes is accepted for %r plaintext bytes" % (f.norm(cur["n"]), f.norm(total)))
        # additional data: exactly the 5 header bytes in the record buffer
        ok = len(a) == 1 and isinstance(a[0][1], Lin) and f.entails_eq(a[0][1] - HDR)
        self.ob(st, "C19", "the header is authenticated", ok and isinstance(a[0][0], Ptr), lambda: "additional data: %r" % (a,))
        if ok and isinstance(a[0][0], Ptr):
            self.header(st, self.load_bytes(st, a[0][0], HDR), total, "the authenticated header")
        self.header(st, self.load_bytes(st, rec, HDR), total, "the header")
        # content: the caller's components and the type byte
        last = i[-1] if i else None
        okl = last is not None and isinstance(last[1], Lin) and f.entails_eq(last[1] - 1) and isinstance(last[0], Ptr)
        self.ob(st, "C19", "the record type is appended", okl, lambda: "last component: %r" % (last,))
        if okl:
            b = self.load_bytes(st, last[0], 1)[0]
            self.ob(st, "C19", "the appended type is the requested one", isinstance(b, Lin) and f.entails_eq(b - TYPES[cur["type"]]), lambda: "type byte %r is appended instead of 0x%x" % (b, TYPES[cur["type"]]))
            self.ob(st, "C19", "the whole plaintext is encrypted in order", self.same_io(st, i[:-1], cur["items"]), lambda: "the cipher is given %r instead of %r" % (i[:-1], cur["items"]))
        ok = isinstance(out, Ptr) and out.r is rec.r and f.entails_eq(out.off - HDR) and isinstance(nout, Lin)
        self.ob(st, "C19", "the ciphertext follows the header", ok, lambda: "ciphertext is written to %r" % (out,))
        if not ok:
            return []
        self.ob(st, "C19", "the cipher may write inside the record only", f.entails_ge(cur["n"] - HDR - nout), lambda: "the cipher is told it may write %r bytes" % nout)
        # the AEAD writes the content and the tag if there is room (C03, C04)
        res = []
        s2 = st.fork()
        s2.note("fault", "encryption fails")
        s2.mon["enc"] = False
        eng.havoc(s2, out, nout, "encrypt failed")
        res.append((s2, FALSE))
        n = f.norm(total + 1 + TAG)
        for s, room in eng.split(st, ("ge", nout - n)):
            if not room:
                continue
            eng.havoc(s, out, n, "encrypt", src=("gen", "enc", 0))
            eng.store(s, written, n, ["i", 64])
            s.mon["enc"] = True
            res.append((s, TRUE))
        return res

    def header(self, st, b, total, what):
        f = st.facts
        ok = all(isinstance(x, Lin) for x in b)
        if ok:
            b = [self.eng.u_nosplit(st, x, 8) for x in b]
            ok = all(x is not None for x in b)
        if not ok:
            self.eng.imprecise(st, "header bytes")
            self.ob(st, "C19", "record header", False, "%s has unknown bytes" % what)
            return
        self.ob(st, "C19", "record header: type and version", f.entails_eq(b[0] - 0x17) and f.entails_eq(b[1] - 3) and f.entails_eq(b[2] - 3),
                lambda: "%s starts with %r %r %r" % (what, f.norm(b[0]), f.norm(b[1]), f.norm(b[2])))
        want = total + 1 + TAG
        got = b[3] * 256 + b[4]
        ok = f.entails_eq(got - want) or self.term_eq(st, got, want)
        self.ob(st, "C19", "record header: length", ok, lambda: "%s states a length of %r, what follows has %r bytes" % (what, f.norm(got), f.norm(want)))

    def term_eq(self, st, a, b):
        """Equality up to the byte decomposition of a value below 2^16."""
        from absint import terms
        f = st.facts
        e = terms.equal(f, f.norm(a), f.norm(b), terms.samples(f) + terms.sweep(f, a, b, 0, MAXP))
        if e is None:
            self.eng.imprecise(st, "length bytes")
            return False
        return e

    def crypt_unprotect(self, eng, st, a, i, out, nout, written):
        f, cur = st.facts, self.cur
        total = cur["total"]
        self.ob(st, "C17", "nothing is decrypted after close-notify", not cur["ref"].closed, "a record is decrypted after a close-notify alert")
        hb, hn = cur["hdr"], cur["nhdr"]
        self.ob(st, "C17", "the header has 5 bytes", f.entails_eq(hn - HDR) and isinstance(hb, Ptr), lambda: "a header of %r bytes is accepted" % f.norm(hn))
        self.ob(st, "C17", "record size is within the limits", f.entails_ge(hn + total - OVER) and f.entails_ge(L(OVER + MAXP) - hn - total),
                lambda: "a record of %r bytes is accepted" % f.norm(hn + total))
        if isinstance(hb, Ptr) and f.entails_eq(hn - HDR):
            b = self.load_bytes(st, hb, HDR)
            b = [self.eng.u_nosplit(st, x, 8) if isinstance(x, Lin) else None for x in b]
            if any(x is None for x in b):
                eng.imprecise(st, "header bytes")
                b = [ZERO] * 5
            self.ob(st, "C17", "header bytes", f.entails_eq(b[0] - 0x17) and f.entails_eq(b[1] - 3) and f.entails_eq(b[2] - 3),
                    lambda: "a header starting with %r %r %r is accepted" % (f.norm(b[0]), f.norm(b[1]), f.norm(b[2])))
            self.ob(st, "C17", "header length equals payload length", f.entails_eq(b[3] * 256 + b[4] - total), lambda: "a header length of %r is accepted for a payload of %r bytes" % (f.norm(b[3] * 256 + b[4]), f.norm(total)))
        self.ob(st, "C17 C18", "the header is authenticated", self.same_io(st, a, [(hb, hn)]), lambda: "additional data: %r" % (a,))
        self.ob(st, "C17 C18", "the whole payload is decrypted", self.same_io(st, i, cur["items"]), lambda: "the cipher is given %r instead of %r" % (i, cur["items"]))
        self.ob(st, "C18", "plaintext goes to the caller's buffer", isinstance(out, Ptr) and isinstance(cur["out"], Ptr) and out.r is cur["out"].r and f.entails_eq(out.off) and isinstance(nout, Lin) and f.entails_eq(nout - cur["n"]),
                lambda: "plaintext is written to %r (%r bytes)" % (out, nout))
        if not (isinstance(out, Ptr) and isinstance(nout, Lin)):
            return []
        res = []
        n = f.norm(total - TAG)
        if cur["op"] in "Ux":
            s2 = st.fork()
            s2.note("fault", "decryption fails")
            s2.mon["dec"] = None
            res.append((s2, FALSE))
            if cur["op"] == "x":
                return res
        for s, room in eng.split(st, ("ge", nout - n)):
            if not room:
                continue
            src = ("gen", "dec", Region("mark", "d").id)
            eng.havoc(s, out, n, "decrypt", src=src)
            eng.store(s, written, n, ["i", 64])
            s.mon["dec"] = (src, n)
            if cur["op"] == "z":
                # 3 content bytes, the type, and as much padding as a record takes
                eng.set_mem(s, out.add(L(3)), L(0x17), ONE)
                eng.set_mem(s, out.add(L(4)), ZERO, s.facts.norm(n - 4))
            if cur["op"] in "ahc":
                b = eng.load_at(s, out.r, s.facts.norm(out.off + n - 1), 1, False)
                s.facts.add_eq(b - {"a": 0x17, "h": 0x16, "c": 0x15}[cur["op"]])
                if cur["op"] == "c":
                    s.facts.add_ge(n - 3)
                    s.facts.add_eq(eng.load_at(s, out.r, s.facts.norm(out.off + 1), 1, False))
            res.append((s, TRUE))
        return res

    def m_update(self, eng, st, c):
        w = self.which(st, c.args[0])
        st.mon["updates"] = st.mon.get("updates", ()) + (w,)
        s2 = st.fork()
        s2.note("fault", "key update fails")
        s2.mon["updfail"] = True
        return [(st, TRUE), (s2, FALSE)]

    def m_log(self, eng, st, c):
        if eng.taint is not None:
            eng.emit(st, "output", vals=[sget(eng, st, c.args[0])])
        return [(st, None)]

    def m_process(self, eng, st, c):
        p, n, more, ku, ty, tk, stored = c.args
        st.mon["processed"] = st.mon.get("processed", ()) + ((p, st.facts.norm(n)),)
        res = []
        s = st.fork()
        s.note("handler", "the handshake handler reports an error")
        s.mon["hres"] = "error"
        res.append((s, FALSE))
        for m in (0, 1):
            for k in (0, 1):
                for t in (0, 1):
                    for full in ((0, 1) if t else (0,)):
                        s = st.fork()
                        s.note("handler", "handler: %smessage, key update %d, ticket %d, store %sfull" % ("incomplete " if m else "", k, t, "" if full else "not "))
                        x = atom("stored", 0, 4)
                        for q, v, w in ((more, L(m), 8), (ku, L(k), 8), (ty, atom("kutype", 0, 255), 8), (tk, L(t), 8), (stored, L(5) if full else x, 64)):
                            eng.store(s, q, v, ["i", w])
                        s.mon["hres"] = (m, k, t, full)
                        res.append((s, TRUE))
        return res

    def m_tickets(self, eng, st, c):
        st.mon["gets"] = st.mon.get("gets", 0) + 1
        last = st.mon.get("hres_last")
        cur = st.mon.get("hres") or last
        res = []
        if st.mon.get("retrieved"):
            st.mon["got"] = None
            return [(st, L(-1))]
        pend = cur is not None and cur != "error" and cur[0] and cur[2]
        if pend:
            st.mon["got"] = None
            return [(st, L(-1))]
        for n in (1, 2):
            s = st.fork()
            s.mon["got"] = n
            s.mon["retrieved"] = True
            res.append((s, L(n)))
        return res

    NF = {0: 3, 1: 1}

    def m_fragments(self, eng, st, c):
        return [(st, L(self.NF[st.facts.norm(c.args[0]).c]))]

    def m_fragment(self, eng, st, c):
        i, k, n = c.args
        i, k = st.facts.norm(i).c, st.facts.norm(k).c
        r = Region("vecbuf", "ticket%d.%d" % (i, k))
        ln = L(2 + i + (k + 1) % 3) if self.frag else atom("ticket%d.%d.len" % (i, k), 1, 1 << 20)
        r.size = ln
        r.info = {}
        eng.store(st, n, ln, ["i", 64])
        st.mon[("frag", i, k)] = (r, ln)
        return [(st, Ptr(r))]

    def m_has_wait(self, eng, st, c):
        s2 = st.fork()
        s2.mon["haswait"] = False
        st.mon["haswait"] = True
        return [(st, TRUE), (s2, FALSE)]

    def m_wait(self, eng, st, c):
        st.mon["waits"] = st.mon.get("waits", 0) + 1
        s2 = st.fork()
        return [(st, TRUE), (s2, FALSE)]

    def m_send(self, eng, st, c):
        url, cid, kind, name, n, ts, fac, opt = c.args
        f = st.facts
        st.mon["sends"] = st.mon.get("sends", 0) + 1
        st.mon["allsends"] = st.mon.get("allsends", 0) + 1
        self.ob(st, "C21", "tickets are sent at most once", st.mon["allsends"] == 1, "tickets are sent twice on one connection")
        self.ob(st, "C21", "connection id of the tickets", isinstance(cid, Lin) and f.entails_eq(cid - self.cid), lambda: "sent with connection id %r" % cid)
        for p, want, what in ((url, self.url, "S2A address"), (name, self.name, "local identity")):
            r = streq(eng, st.fork(), sget(eng, st, p), want)
            good = all(b for _, b in r) if r else False
            if not good and not (r and any(b is False for _, b in r)):
                eng.imprecise(st, "string comparison")
            self.ob(st, "C21", what + " of the tickets", good, lambda: "sent with %s %r" % (what, sget(eng, st, p)))
        self.ob(st, "C21", "kind of the local identity", f.entails_eq(kind - 1), lambda: "sent with identity kind %r" % kind)
        self.ob(st, "C21", "channel factory", fac == self.fac_of(st, "fac") and opt == self.fac_of(st, "opt"), "another channel factory or options are handed over")
        n = f.norm(n)
        if not n.is_const():
            eng.imprecise(st, "ticket count")
            self.ob(st, "C21", "number of tickets", False, "unknown number of tickets")
            return [(st, None)]
        self.tickets(st, n.c, ts)
        return [(st, None)]

    def fac_of(self, st, k):
        return st.mon.get(k)

    def want_tickets(self, st):
        n = st.mon.get("got") or 0
        return [[(("init", st.mon[("frag", i, k)][0].id), ZERO, st.mon[("frag", i, k)][1]) for k in range(self.NF[i])] for i in range(n)]

    def tickets(self, st, n, ts):
        eng, f = self.eng, st.facts
        want = self.want_tickets(st)
        self.ob(st, "C21", "number of tickets", n == len(want), lambda: "%d tickets are sent, %d were stored" % (n, len(want)))
        if n != len(want):
            return
        for i in range(n):
            s = eng.load_at(st, ts.r, f.norm(ts.off + 8 * i), 8, True)
            if not isinstance(s, Ptr):
                self.ob(st, "C21", "ticket contents", False, "ticket %d is null" % i)
                continue
            got = self.string_pieces(st, s)
            if got is None:
                eng.imprecise(st, "ticket string")
                self.ob(st, "C21", "ticket contents", False, "ticket of unknown contents")
                continue
            self.ob(st, "C21", "a ticket is the concatenation of its fragments", self.same_pieces(st, got, want[i]),
                    lambda: "ticket %d holds %r instead of %r" % (i, got, want[i]))

    def string_pieces(self, st, s):
        """[(source, offset, length)] of the non-empty parts of a string, or None."""
        eng, f = self.eng, st.facts
        out = []

        def add(v):
            if v.t[1] == "cat":
                return all(add(x) for x in v.t[2:])
            if v.t[1] == "lit":
                if v.t[2]:
                    out.append((("lit", v.t[2]), ZERO, L(len(v.t[2]))))
                return True
            if v.t[1] == "at" and isinstance(v.t[3], int) and isinstance(v.t[-1], Lin):
                p = Ptr(models.REGS[v.t[3]], v.t[4])
            elif v.t[1] in ("fill", "edited"):
                p = models.sdata(eng, st, v)
            else:
                return False
            out.extend(x for x in eng.pieces(st, p, models.ssize(eng, st, v)) if not f.entails_ge(-x[2]))
            return True

        return out if add(sget(eng, st, s)) else None

    def same_pieces(self, st, got, want):
        f = st.facts
        if len(got) != len(want):
            if any(g[0] is None for g in got):
                self.eng.imprecise(st, "bytes of unknown origin")
            return False
        for g, w in zip(got, want):
            if g[0] is None:
                self.eng.imprecise(st, "bytes of unknown origin")
                return False
            if tuple(g[0][:2]) != tuple(w[0][:2]) or not f.entails_eq(g[1] - w[1]) or not f.entails_eq(g[2] - w[2]):
                return False
        return True

    # ---- monitors -------------------------------------------------------------
    def shared(self, st, p):
        if self.obj is None or self.mark is None:
            return None
        if p.r is self.obj.r:
            off = st.facts.norm(p.off)
            if off.is_const():
                for m in self.prog.classes[CLS]["members"]:
                    if m[1] <= off.c < m[1] + m[2]:
                        return m[0]
            return "crypter+%r" % off
        if p.r.kind == "heap" and p.r.id < self.mark:
            return "memory of " + p.r.name
        return None

    def on_mem(self, eng, st, p, n, w, val=None, bulk=False):
        f = st.facts
        if f.entails_ge(-n) or self.op is None:
            return
        P = "C19" if self.op == "Protect" else "C18"
        if p is NULL:
            self.ob(st, P, "no null access", False, "null pointer accessed")
        elif isinstance(p, Ptr):
            size = p.r.size if p.r.size is not None else st.vsize.get(p.r.id)
            if size is None or p.r.kind in ("lib", "libconst", "opaque", "global"):
                return
            if p.r.kind in ("heap", "param") or w:
                self.ob(st, P, "access inside the buffer", f.entails_ge(p.off) and f.entails_ge(size - p.off - n),
                        lambda: "access of %r bytes at offset %r of %s (%r bytes)" % (n, p.off, p.r.name, size))

    def on_call(self, eng, st, v, c):
        if c.ret == "v" and len(c.args) == 2:       # the logger
            if eng.taint is not None:
                eng.emit(st, "output", vals=[sget(eng, st, c.args[1])])
            return [(st, None)]
        return None

    def on_uaf(self, eng, st, **kw):
        self.ob(st, "C18 C21", "no use after free", False, "freed memory is used")

    # ---- driving ----------------------------------------------------------------
    def start(self, st, op):
        self.op = op
        self.mark = Region("mark", "mark").id
        self.locks.active = op if not op.startswith("~") else None
        for k in ("crypts", "updates", "processed", "gets", "sends", "waits", "hres", "dec", "enc", "updfail", "got"):
            st.mon[k] = None if k not in ("crypts", "gets", "sends", "waits") else 0
        st.mon["updates"] = ()
        st.mon["processed"] = ()

    def stop(self):
        self.locks.active = None
        self.mark = None

    def run(self):
        eng = self.eng
        st = State()
        self.cid = atom("connection id", 0, (1 << 64) - 1)
        self.url, self.name = Opq("str", "url"), Opq("str", "identity")
        su, sn = Region("alloca", "url", size=L(32)), Region("alloca", "name", size=L(32))
        models.sput(eng, st, Ptr(su), self.url)
        models.sput(eng, st, Ptr(sn), self.name)
        vi, vo = vec_param(eng, "in_secret", "unsigned char"), vec_param(eng, "out_secret", "unsigned char")
        inseq, outseq = atom("inseq", 0, (1 << 64) - 1), atom("outseq", 0, (1 << 64) - 1)
        cs = atom("ciphersuite", 0, 2)
        ver = atom("version", 0, 5)
        fr, opr = Region("alloca", "facp", size=L(8)), Region("alloca", "optp", size=L(8))
        cur = []
        self.start(st, "Create")
        self.stop()
        for s, h in eng.run(one(self.prog, "drv_create"), [ver, cs, self.cid, Ptr(su), Ptr(sn), vi, vo, inseq, outseq, Ptr(fr), Ptr(opr)], st):
            hs = s.mon.get("halves", ())
            if None in hs:
                self.ob(s, "C19", "a failed half connection fails the creation", h is NULL, "Create succeeds although a half connection could not be created")
                continue
            if not isinstance(h, Ptr):
                continue
            f = s.facts
            ids = {}
            for rid, c, q, sec, n in hs:
                for k, v, sq in (("in", vi, inseq), ("out", vo, outseq)):
                    b = vec_buf(eng, v)
                    if isinstance(sec, Ptr) and sec.r is b and f.entails_eq(n - b.info["n"]):
                        ids[k] = rid
                        self.ob(s, "C13 C19 C28", "each direction starts at its own sequence number", f.entails_eq(q - sq), lambda: "the %sbound sequence number is %r" % (k, q))
                        self.ob(s, "C15 C28", "each direction uses the negotiated ciphersuite", f.entails_eq(c - cs), lambda: "the %sbound ciphersuite is %r" % (k, c))
            self.ob(s, "C19 C28", "each direction is created from its own secret", len(hs) == 2 and len(ids) == 2, lambda: "half connections created: %r" % (hs,))
            if len(ids) != 2:
                continue
            s.mon.update(ids)
            s.mon["fac"] = eng.load_at(s, fr, ZERO, 8, True)
            s.mon["opt"] = eng.load_at(s, opr, ZERO, 8, True)
            cur.append((s, h, Ref(closed=False, more=False, phase=0, sent=False, wait=False)))
        for i, op in enumerate(self.hist):
            nxt = []
            for s, h, ref in cur:
                self.obj = h
                nxt += [(s2, h, r2) for s2, r2 in self.step(s, h, ref, op, i)]
            cur = nxt
        self.ends += len(cur)
        self.op = None
        self.locks.finish()
        return self

    def step(self, st, h, ref, op, i):
        eng = self.eng
        if op == "R":
            self.start(st, "RecordOverhead")
            rs = eng.run(one(self.prog, "drv_overhead"), [h], st)
            self.stop()
            for s, v in rs:
                self.ob(s, "C19", "record overhead", isinstance(v, Lin) and s.facts.entails_eq(v - OVER), lambda: "RecordOverhead returns %r" % (v,))
            return [(s, ref) for s, _ in rs]
        if op == "O":
            self.start(st, "UpdateOutboundKey")
            rs = eng.run(one(self.prog, "drv_update_out"), [h], st)
            self.stop()
            out = []
            for s, v in rs:
                self.ob(s, "C20", "UpdateOutboundKey updates the outbound key once", s.mon["updates"] == ("outbound",), lambda: "updates: %r" % (s.mon["updates"],))
                for s1, ok in eng.split(s, eng.as_cond(s, v)):
                    self.ob(s1, "C20", "the outcome of the update is returned", ok == (not s1.mon["updfail"]), "UpdateOutboundKey hides the outcome of the update")
                    out.append((s1, ref))
            return out
        if op == "D":
            self.start(st, "~S2ACrypter")
            rs = eng.run(one(self.prog, "drv_destroy"), [h], st)
            self.stop()
            for s, v in rs:
                w = 1 if ref.wait else 0
                self.ob(s, "C21", "the destructor waits for the transmission", s.mon["waits"] == w, lambda: "the destructor waits %d times, %d transmissions are pending" % (s.mon["waits"], w))
            return [(s, ref) for s, _ in rs]
        if op == "p":
            out = []
            for t in (0, 1, 2):
                out += self.protect(st.fork() if t < 2 else st, h, ref, t, i)
            return out
        return self.unprotect(st, h, ref, op, i)

    def protect(self, st, h, ref, t, i):
        eng, f = self.eng, st.facts
        self.start(st, "Protect")
        vec, items = iovecs(eng, st, "plaintext%d" % i, self.niov, null=self.null)
        total = sum((l for _, l in items), ZERO)
        n = atom("reclen%d" % i, 0, SIZE_HI)
        if self.small is not None:
            f.add_eq(total - self.small)
            f.add_eq(n - total - OVER - self.extra)
        rec = Region("param", "record%d" % i)
        rec.size = n
        wr = Region("alloca", "written%d" % i, size=L(8))
        self.cur = dict(op="p", rec=Ptr(rec), n=n, items=items, total=total, type=t, ref=ref)
        rs = eng.run(one(self.prog, "drv_protect"), [h, L(t), vec, Ptr(rec), n, Ptr(wr)], st)
        self.stop()
        out = []
        for s, v in rs:
            f = s.facts
            b = eng.load_at(s, wr, ZERO, 8, False)
            for s1, ok in eng.split(s, ("eq", v)):
                f = s1.facts
                if s1.mon["crypts"] == 0:
                    bad = None
                    for s2, c in eng.split(s1, ("ge", L(MAXP) - total)):
                        for s3, c2 in eng.split(s2, ("ge", n - total - OVER)):
                            self.ob(s3, "C19", "inadmissible arguments are an error", not ok, "Protect returns OK without encrypting")
                            self.ob(s3, "C19", "admissible plaintext is protected", not (c and c2), "plaintext within the limits and a large enough record are rejected")
                    self.ob(s1, "C19", "errors report 0 bytes", isinstance(b, Lin) and f.entails_eq(b), lambda: "an error reports %r bytes" % b)
                    out.append((s1, ref))
                    continue
                if s1.mon["enc"]:
                    self.ob(s1, "C19", "a successful encryption is reported", ok, "Protect fails although encryption succeeded")
                    self.ob(s1, "C19", "number of bytes reported", isinstance(b, Lin) and f.entails_eq(b - total - OVER), lambda: "Protect reports %r bytes for %r plaintext bytes" % (f.norm(b), f.norm(total)))
                    ps = eng.pieces(s1, Ptr(rec, L(HDR)), total + 1 + TAG)
                    self.ob(s1, "C19", "the ciphertext is left intact", len(ps) == 1 and ps[0][0] is not None and ps[0][0][:2] == ("gen", "enc") and f.entails_eq(ps[0][1]), lambda: "record contents: %r" % ps)
                    self.header(s1, self.load_bytes(s1, Ptr(rec), HDR), total, "the header returned")
                else:
                    self.ob(s1, "C19", "a failed encryption is an error", not ok, "Protect returns OK although encryption failed")
                    self.ob(s1, "C19", "errors report 0 bytes", isinstance(b, Lin) and f.entails_eq(b), lambda: "an error reports %r bytes" % b)
                    nn = f.norm(n)
                    if nn.is_const() and nn.c <= 64:
                        bs = self.load_bytes(s1, Ptr(rec), nn.c)
                        k = [j for j, x in enumerate(bs) if not (isinstance(x, Lin) and f.entails_eq(x))]
                        self.ob(s1, "C19", "a failed encryption leaves the record zeroed", not k, lambda: "byte %d of the record is %r after a failed encryption" % (k[0], bs[k[0]]))
                out.append((s1, ref))
        return out

    def unprotect(self, st, h, ref, op, i):
        eng, f = self.eng, st.facts
        self.start(st, "Unprotect")
        vec, items = iovecs(eng, st, "payload%d" % i, self.niov, null=self.null)
        total = sum((l for _, l in items), ZERO)
        n = atom("outlen%d" % i, 0, SIZE_HI)
        outr = Region("param", "plaintext%d" % i)
        outr.size = n
        if self.small is not None:
            f.add_ge(L(17 + self.small) - total)
            f.add_eq(n - total)
        hn = atom("hdrlen%d" % i, 0, 1 << 20)
        hr = Region("param", "header%d" % i)
        hr.size = hn
        wr = Region("alloca", "written%d" % i, size=L(8))
        res = []
        cases = [(st, Ptr(hr), hn)]
        if op == "U":
            cases.append((st.fork(), NULL, hn))
        else:
            f.add_eq(hn - HDR)
            b = [eng.load_at(st, hr, L(k), 1, False) for k in range(5)]
            for k, v in ((0, 0x17), (1, 3), (2, 3)):
                f.add_eq(b[k] - v)
            f.add_eq(b[3] * 256 + b[4] - total)
            f.add_ge(total - 17)
            f.add_ge(L(MAXP + 17) - total)
            f.add_ge(n - total)
        if op == "z":
            f.add_eq(total - MAXP - 17)
            f.add_eq(n - total)
        for s0, hb, hn in cases:
            self.cur = dict(op=op, hdr=hb, nhdr=hn, out=Ptr(outr), n=n, items=items, total=total, ref=ref)
            s0.mon["hres_last"] = st.mon.get("hres_last")
            rs = eng.run(one(self.prog, "drv_unprotect"), [h, hb, hn, vec, Ptr(outr), n, Ptr(wr)], s0)
            for s, v in rs:
                res += self.unprotected(s, ref, op, v, wr, hb, hn, total, outr, n)
        self.stop()
        return res

    def unprotected(self, st, ref, op, code, wr, hb, hn, total, outr, n):
        eng = self.eng
        code = st.facts.norm(code)
        b = eng.load_at(st, wr, ZERO, 8, False)
        if not code.is_const():
            eng.imprecise(st, "status code")
            self.ob(st, "C17 C18", "status code", False, "unknown status code")
            return []
        code = code.c
        f = st.facts
        zero = isinstance(b, Lin) and f.entails_eq(b)
        if code != OK:
            self.ob(st, "C17 C18", "errors report 0 bytes", zero, lambda: "an error reports %r bytes" % b)
        if st.mon["crypts"] == 0:
            self.ob(st, "C17", "a record that is not decrypted is an error", code != OK, "Unprotect returns OK without decrypting anything")
            self.ob(st, "C20", "key updates happen only for key update messages", not st.mon["updates"], "the key is updated without any record")
            self.ob(st, "C21", "tickets are sent only when complete", not st.mon["sends"], "tickets are sent without any record")
            if ref.closed:
                self.ob(st, "C17", "close-notify is final", code == CLOSE, "Unprotect returns code %d after a close-notify alert" % code)
            elif op in "ahcxz":
                self.ob(st, "C17", "a well-formed record is decrypted", False, "a well-formed record is rejected with code %d" % code)
            else:
                self.ob(st, "C17", "close-notify only after an alert", code != CLOSE, "Unprotect reports close-notify without having received it")
                self.admissible(st, hb, hn, total)
            return [(st, ref)]
        if ref.closed:
            return []
        if st.mon["dec"] is None:
            self.ob(st, "C18", "a failed decryption is an error", code != OK, "Unprotect returns OK although decryption failed")
            self.ob(st, "C20", "key updates happen only for key update messages", not st.mon["updates"], "the key is updated after a failed decryption")
            return [(st, ref)]
        out = []
        src, m = st.mon["dec"]
        if op == "z":
            return self.dispatched(st, ref, code, b, L(0x17), L(3), outr, src)
        for s, t, k in self.scan(st, outr, m, src):
            out += self.dispatched(s, ref, code, b, t, k, outr, src)
        return out

    def admissible(self, st, hb, hn, total):
        """No well-formed record is rejected."""
        f = st.facts
        if hb is NULL:
            return
        work = [st.fork()]
        for c in (("eq", hn - HDR), ("ge", hn + total - OVER), ("ge", L(OVER + MAXP) - hn - total)):
            work = [s for w in work for s, y in self.eng.split(w, c) if y]
        for s in work:
            bs = [self.eng.u_nosplit(s, x, 8) if isinstance(x, Lin) else None for x in self.load_bytes(s, hb, HDR)]
            if any(x is None for x in bs):
                continue
            ws = [s]
            for c in (("eq", bs[0] - 0x17), ("eq", bs[1] - 3), ("eq", bs[2] - 3), ("eq", bs[3] * 256 + bs[4] - total)):
                ws = [s1 for w in ws for s1, y in self.eng.split(w, c) if y]
            for s1 in ws:
                self.ob(s1, "C17", "a well-formed record is decrypted", False, lambda: "a well-formed record of %r bytes is rejected" % s1.facts.norm(hn + total))
            if not ws:
                self.ob(s, "C17", "a well-formed record is decrypted", True, "")

    def orig(self, st, src, off):
        x = app("byte", (src, st.facts.norm(off)), 0, 255)
        st.facts.note_app(x.t[0][0])
        return x

    def scan(self, st, outr, m, src):
        """[(state, type or None, content length)] by the reference scan; the
        decrypted bytes are those the cipher wrote."""
        eng = self.eng
        cur, out = [st], []
        for k in range(self.pad + 2):
            nx = []
            for s in cur:
                for s1, some in eng.split(s, ("ge", m - k - 1)):
                    if not some:
                        out.append((s1, None, ZERO))
                        continue
                    x = self.orig(s1, src, m - k - 1)
                    for s2, z in eng.split(s1, ("eq", x)):
                        if z:
                            nx.append(s2)
                        else:
                            out.append((s2, x, s2.facts.norm(m - k - 1)))
            cur = nx
        return out

    def dispatched(self, st, ref, code, b, t, k, outr, src):
        eng = self.eng
        f = st.facts
        b = f.norm(b) if isinstance(b, Lin) else b
        zero = isinstance(b, Lin) and f.entails_eq(b)
        upd, proc = st.mon["updates"], st.mon["processed"]
        self.ob(st, "C20", "the outbound key is not touched by received records", "outbound" not in upd and "unknown" not in upd, "Unprotect updates the outbound key")

        def quiet(s):
            self.ob(s, "C20", "key updates happen only for key update messages", not upd, "the key is updated although no key update message was received")
            self.ob(s, "C18", "only handshake content reaches the handler", not proc, "content of another type is given to the handshake handler")

        if t is None:
            self.ob(st, "C18", "content without a type is invalid", code == INVALID_RECORD, "an all-zero content gives code %d" % code)
            quiet(st)
            return [(st, ref)]
        res = []
        rest = st
        for ty in (0x17, 0x16, 0x15):
            nx = None
            for s, y in eng.split(rest, ("eq", t - ty)):
                if y:
                    res += getattr(self, "on_%x" % ty)(s, ref, code, b, k, outr, src, quiet)
                else:
                    nx = s
            rest = nx
            if rest is None:
                break
        if rest is not None:
            self.ob(rest, "C18", "an unknown type is invalid", code == INVALID_RECORD, lambda: "inner type %r gives code %d" % (rest.facts.norm(t), code))
            quiet(rest)
            res.append((rest, ref))
        return res

    def on_17(self, st, ref, code, b, k, outr, src, quiet):
        eng, f = self.eng, st.facts
        quiet(st)
        if ref.more:
            self.ob(st, "C18", "application data inside a handshake message is invalid", code == INVALID_RECORD, "application data in the middle of a handshake message gives code %d" % code)
            self.ob(st, "C21", "no tickets are sent while a message is incomplete", not st.mon["sends"], "tickets are sent while a handshake message is incomplete")
            return [(st, ref)]
        self.ob(st, "C18", "application data is returned", code == OK, "application data gives code %d" % code)
        if code != OK:
            return []
        self.ob(st, "C18", "length of the application data", isinstance(b, Lin) and f.entails_eq(b - k), lambda: "%r bytes are reported, the content has %r" % (b, k))
        if not f.entails_ge(-k):
            for s, some in eng.split(st.fork(), ("ge", k - 1)):
                if not some:
                    continue
                ps = eng.pieces(s, Ptr(outr), s.facts.norm(k))
                self.ob(s, "C18", "application data is left intact", len(ps) == 1 and ps[0][0] == src and s.facts.entails_eq(ps[0][1]), lambda: "the plaintext buffer holds %r" % ps)
        return self.forward(st, ref, ref.phase == 1, "the first application data after tickets", after=2 if ref.phase == 1 else ref.phase)

    def forward(self, st, ref, expect, why, after):
        n = st.mon["sends"]
        if expect:
            self.ob(st, "C21", "tickets are forwarded", n == 1, "stored tickets are not forwarded upon " + why)
        else:
            self.ob(st, "C21", "tickets are forwarded only when due", n == 0, "tickets are forwarded too early or again")
        if n != (1 if expect else 0):
            return []
        r = ref.w(phase=after)
        if n:
            r = r.w(sent=True, wait=st.mon.get("haswait", False))
        return [(st, r)]

    def on_15(self, st, ref, code, b, k, outr, src, quiet):
        eng = self.eng
        quiet(st)
        self.ob(st, "C21", "tickets are forwarded only when due", not st.mon["sends"], "tickets are forwarded upon an alert")
        out = []
        for s, two in eng.split(st, ("ge", k - 2)):
            if not two:
                self.ob(s, "C18", "a too short alert is invalid", code == INVALID_RECORD, lambda: "an alert of %r bytes gives code %d" % (s.facts.norm(k), code))
                out.append((s, ref))
                continue
            for s1, cn in eng.split(s, ("eq", self.orig(s, src, ONE))):
                if cn:
                    self.ob(s1, "C18 C17", "close-notify is reported", code == CLOSE, "a close-notify alert gives code %d" % code)
                    out.append((s1, ref.w(closed=True)))
                else:
                    self.ob(s1, "C18", "another alert is reported", code == OTHER, "an alert other than close-notify gives code %d" % code)
                    out.append((s1, ref))
        return out

    def on_16(self, st, ref, code, b, k, outr, src, quiet):
        eng, f = self.eng, st.facts
        proc, upd, hr = st.mon["processed"], st.mon["updates"], st.mon["hres"]
        ok = len(proc) == 1 and isinstance(proc[0][0], Ptr) and proc[0][0].r is outr and f.entails_eq(proc[0][0].off) and f.entails_eq(proc[0][1] - k)
        self.ob(st, "C18", "handshake content is given to the handler", ok, lambda: "the handler is given %r instead of the %r content bytes" % (proc, f.norm(k)))
        if len(proc) != 1 or hr is None:
            return []
        self.ob(st, "C18", "handshake content is not returned", isinstance(b, Lin) and f.entails_eq(b), lambda: "%r bytes of handshake content are reported" % b)
        if hr == "error":
            self.ob(st, "C18", "a handshake error is reported", code != OK, "Unprotect returns OK although the handshake message is invalid")
            self.ob(st, "C20", "key updates happen only for key update messages", not upd, "the key is updated although the handshake message is invalid")
            return []
        more, ku, tk, full = hr
        want = ("inbound",) if ku and not more else ()
        self.ob(st, "C20", "one inbound key update per complete key update message", upd == want,
                lambda: "%d key updates for a record with %s" % (len(upd), "a complete key update" if want else "a fragment of a key update" if ku else "no key update"))
        if st.mon["updfail"]:
            self.ob(st, "C20", "a failed key update is an error", code != OK, "Unprotect returns OK although the key update failed")
            return []
        self.ob(st, "C18", "a valid handshake record is accepted", code == OK, "a valid handshake record gives code %d" % code)
        if code != OK or upd != want:
            return []
        st.mon["hres_last"] = hr
        r = ref.w(more=bool(more))
        if tk and r.phase == 0:
            r = r.w(phase=1)
        if r.phase == 1 and tk and full and not more:
            return self.forward(st, r, True, "the store being full", after=2)
        return self.forward(st, r, False, "", after=r.phase)


def job(hist="U", niov=1, fail=0, small=None, peel=2, pad=3, null=None, extra=0, frag=False):
    return CrypterRun(hist, niov, fail, small, peel, pad, null, extra, frag).run()
