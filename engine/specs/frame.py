"""S2AFrameProtector: C22-C24, the creation half of C28 and its part of C16.

The record layer is cut off at its interface (drivers/frame.cc).  Its contract
is what C17-C19 establish: Protect fails or writes its input plus 22 bytes of
overhead if there is room; Unprotect fails or, given a well-formed record and
room for the content, writes fewer bytes than the payload.  The allocator
returns a buffer of exactly the requested size or an empty one.

Operations: `p` Protect, `q` Protect into the caller's buffer, `u` Unprotect,
`v` Unprotect into the caller's buffer, `n` the size queries."""
import os
from .common import *
from .locks import Locks
from .crypter import iovecs, read_iovecs
from absint.models import sget, streq

DRV = os.path.join(ir.VERIF, "drivers", "frame.cc")
SRC = "src/frame_protector/s2a_frame_protector.cc"
OPT = "src/options/s2a_options.cc"
AEAD = "src/crypto/s2a_aead_crypter.cc"
CLS = "s2a::frame_protector::S2AFrameProtector"
MAXP, OVER, HDR = 16384, 22, 5
SIDE = {"Protect": "sender", "Unprotect": "receiver"}


def tus(**kw):
    return [(DRV, "openssl"), (SRC, "openssl"), (OPT, "openssl"), (AEAD, "openssl")]


class FrameRun:
    def __init__(self, hist, niov, recs, null, sizes, lens, alloc, peel):
        self.hist, self.niov, self.recs, self.null, self.sizes, self.lens, self.allocfail = hist, niov, recs, null, sizes, lens, alloc
        self.prog = program(tus())
        ms = [(r"^stub_crypter$", self.m_crypter), (r"^stub_protect$", self.m_protect), (r"^stub_unprotect$", self.m_unprotect), (r"^stub_alloc$", self.m_alloc),
              (r"^stub_destroy$", self.m_destroy), (r"^stub_log$", self.m_log), (r"S2ACrypter::~S2ACrypter$", self.m_nop)]
        self.eng = mk_engine(self.prog, ms, peel)
        self.eng.max_steps = 30000000
        self.eng.spin_cap = 40000 if lens else 400
        self.op = self.cur = self.obj = self.mark = None
        self.ends = 0
        self.locks = Locks(self)
        self.locks.shared = self.shared
        self.locks.side = lambda op: SIDE.get(op.split()[0], "both")
        self.eng.hooks.setdefault("mem", []).append(self.on_mem)
        self.eng.hooks.setdefault("uaf", []).append(self.on_uaf)
        self.eng.hooks.setdefault("abort", []).append(self.on_abort)

    def ob(self, st, prop, kind, ok, msg):
        w = self.eng.where(st) if st.frames else None
        if not w or w == "?" or "drivers/" in w:
            w = "%s (%s)" % (SRC, self.op)
        for p in prop.split():
            self.eng.oblige(st, p, kind, ok, msg, where=w)

    # ---- boundaries -----------------------------------------------------------
    def m_nop(self, eng, st, c):
        return [(st, None)]

    def m_log(self, eng, st, c):
        if eng.taint is not None:
            eng.emit(st, "output", vals=[sget(eng, st, c.args[0])])
        return [(st, None)]

    def m_crypter(self, eng, st, c):
        ver, cs, cid, url, kind, name, vin, vout, inq, outq, fac, opt = c.args
        f, w = st.facts, self.want
        st.mon["created"] = st.mon.get("created", 0) + 1

        def num(what, got, want):
            self.ob(st, "C28", what, isinstance(got, Lin) and f.entails_eq(got - want), lambda: "%s: %r is handed over instead of %r" % (what, got, want))

        num("TLS version", ver, w["ver"])
        num("ciphersuite", cs, w["cs"])
        num("connection id", cid, w["cid"])
        num("kind of the local identity", kind, ONE)
        num("inbound sequence", inq, w["inq"])
        num("outbound sequence", outq, w["outq"])
        for p, want, what in ((url, w["url"], "S2A address"), (name, w["name"], "local identity")):
            r = streq(eng, st.fork(), sget(eng, st, p), want)
            good = all(b for _, b in r) if r else False
            if not good and not (r and any(b is False for _, b in r)):
                eng.imprecise(st, "string comparison")
            self.ob(st, "C28", what, good, lambda: "%s: %r is handed over" % (what, sget(eng, st, p)))
        for p, want, what in ((vin, w["vin"], "inbound secret"), (vout, w["vout"], "outbound secret")):
            self.ob(st, "C28", what, self.same_vec(st, p, want), lambda: "%s: other bytes are handed over" % what)
        self.ob(st, "C28", "channel factory", fac == eng.load_at(st, self.fr, ZERO, 8, True) and opt == eng.load_at(st, self.opr, ZERO, 8, True), "another channel factory or options are handed over")
        s2 = st.fork()
        s2.note("fault", "creation of the record layer fails")
        s2.mon["nocrypter"] = True
        return [(st, Ptr(Region("lib", "crypter"))), (s2, NULL)]

    def same_vec(self, st, p, want):
        eng, f = self.eng, st.facts
        a, b = models.vget(eng, st, p)
        buf = vec_buf(eng, want)
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r):
            eng.imprecise(st, "secret vector")
            return False
        n = f.norm(b.off - a.off)
        if not f.entails_eq(n - buf.info["n"]):
            return False
        if a.r is buf:
            return f.entails_eq(a.off)
        for x in eng.pieces(st, a, n):
            if x[0] is None:
                eng.imprecise(st, "bytes of unknown origin")
                return False
            if f.entails_ge(-x[2]):
                continue
            if tuple(x[0][:2]) != ("init", buf.id):
                return False
        return True

    def m_alloc(self, eng, st, c):
        n, base, ln = c.args
        f = st.facts
        k = st.mon.get("nalloc", 0)
        st.mon["nalloc"] = k + 1
        self.ob(st, "C24" if self.op.startswith("Protect") else "C22", "allocation is a size", isinstance(n, Lin), "an unknown number of bytes is allocated")
        if not isinstance(n, Lin):
            return []
        if self.op == "Protect" and self.cur.get("need") is not None:
            self.ob(st, "C24", "size of the buffer", f.entails_eq(n - self.cur["need"]), lambda: "a buffer of %r bytes is allocated, the records take %r" % (f.norm(n), f.norm(self.cur["need"])))
        res = []
        if self.allocfail is not None and k == self.allocfail:
            s = st.fork()
            s.note("fault", "the allocator fails")
            s.mon["fault"] = "allocator"
            eng.store(s, base, NULL, "p")
            eng.store(s, ln, ZERO, ["i", 64])
            res.append((s, None))
        r = Region("lib2", "allocated%d" % k)
        r.size = n
        st.mon["live"] = st.mon.get("live", ()) + (r.id,)
        eng.store(st, base, Ptr(r), "p")
        eng.store(st, ln, n, ["i", 64])
        res.append((st, None))
        return res

    def m_destroy(self, eng, st, c):
        p, n = c.args
        if p is NULL or isinstance(p, Lin) and p == ZERO:
            return [(st, None)]
        if not isinstance(p, Ptr):
            eng.imprecise(st, "destroyed pointer")
            self.ob(st, "C22", "only allocated buffers are destroyed", False, "an unknown pointer is destroyed")
            return [(st, None)]
        live = st.mon.get("live", ())
        ok = p.r.id in live and st.facts.entails_eq(p.off)
        self.ob(st, "C22", "only buffers that are still owned are destroyed", ok,
                lambda: "%s is destroyed %s" % (p.r.name, "a second time" if p.r.id in st.mon.get("gone", ()) else "though it belongs to the caller" if p.r.kind == "param" else "at offset %r" % p.off))
        st.mon["live"] = tuple(x for x in live if x != p.r.id)
        st.mon["gone"] = st.mon.get("gone", ()) + (p.r.id,)
        return [(st, None)]

    # ---- the input cursor -------------------------------------------------------
    def skip(self, st, cur):
        """[(state, cursor)] with the cursor at a byte or at the end."""
        items = self.cur["items"]
        out, work = [], [(st, cur)]
        while work:
            s, (i, o) = work.pop()
            if i >= len(items):
                out.append((s, (i, ZERO)))
                continue
            for s1, more in self.eng.split(s, ("ge", items[i][1] - o - 1)):
                if more:
                    out.append((s1, (i, o)))
                else:
                    work.append((s1, (i + 1, ZERO)))
        return out

    def take(self, st, cur, pieces):
        """[(state, cursor, problem or None)] after consuming the pieces."""
        eng = self.eng
        items = self.cur["items"]
        work = [(st, cur, tuple(pieces))]
        out = []
        while work:
            s, c, ps = work.pop()
            if not ps:
                out.append((s, c, None))
                continue
            (b, l), rest = ps[0], ps[1:]
            if not isinstance(l, Lin):
                eng.imprecise(s, "piece length")
                out.append((s, c, "a piece of unknown length"))
                continue
            for s0, some in eng.split(s, ("ge", l - 1)):
                if not some:
                    work.append((s0, c, rest))
                    continue
                for s1, (i, o) in self.skip(s0, c):
                    f = s1.facts
                    if i >= len(items):
                        out.append((s1, c, "more bytes than the input has (%r)" % (b,)))
                        continue
                    ib, il = items[i]
                    if not isinstance(b, Ptr):
                        out.append((s1, c, "bytes from %r" % (b,)))
                        continue
                    if b.r is not ib.r or not f.entails_eq(b.off - o - ib.off):
                        out.append((s1, c, "bytes at %s+%r instead of %s+%r" % (b.r.name, f.norm(b.off), ib.r.name, f.norm(o))))
                        continue
                    if not f.entails_ge(il - o - l):
                        out.append((s1, c, "%r bytes of %s where %r are left" % (f.norm(l), ib.r.name, f.norm(il - o))))
                        continue
                    work.append((s1, (i, f.norm(o + l)), rest))
        return out

    def total_left(self, st, cur):
        i, o = cur
        items = self.cur["items"]
        return st.facts.norm(sum((l for _, l in items[i:]), ZERO) - o)

    # ---- the record layer --------------------------------------------------------
    def access(self, st, what):
        """The record layer's state counts as state of the connection."""
        self.locks.note(st, Ptr(self.obj.r, L(-1)), True)

    def m_protect(self, eng, st, c):
        _, t, inp, out, nout, written = c.args
        f, cur = st.facts, self.cur
        st.mon["records"] = st.mon.get("records", 0) + 1
        self.ob(st, "C24", "only Protect protects", self.op.startswith("Protect"), "%s encrypts a record" % self.op)
        if not self.op.startswith("Protect"):
            return []
        self.ob(st, "C24", "record type", isinstance(t, Lin) and f.entails_eq(t), lambda: "record type %r" % t)
        ps = read_iovecs(eng, st, inp)
        if ps is None or not all(isinstance(l, Lin) for _, l in ps):
            eng.imprecise(st, "iovecs of unknown length")
            self.ob(st, "C24", "input of the record", False, "unknown input pieces")
            return []
        n = f.norm(sum((l for _, l in ps), ZERO))
        self.ob(st, "C24", "a record carries at most 2^14 bytes", f.entails_ge(L(MAXP) - n), lambda: "a record of %r bytes" % n)
        buf, cap = st.mon.get("outbuf") or (None, None)
        if cur["out"] is not None:
            buf, cap = cur["out"].r, cur["n"]
        elif isinstance(out, Ptr) and buf is None and out.r.id in st.mon.get("live", ()):
            buf, cap = out.r, out.r.size
            st.mon["outbuf"] = (buf, cap)
        prod = st.mon.get("produced", ZERO)
        res = []
        if out is NULL or isinstance(out, Lin):
            self.ob(st, "C24", "records go to the buffer", st.mon.get("fault") is not None, "a record is written to a null buffer")
            st.mon["fault"] = st.mon.get("fault") or "no room"
            return [(st, FALSE)]
        ok = isinstance(out, Ptr) and out.r is buf and f.entails_eq(out.off - prod)
        self.ob(st, "C24", "records are written one after the other", ok, lambda: "a record is written to %r instead of offset %r" % (out, f.norm(prod)))
        if not ok:
            return []
        self.ob(st, "C24", "records are written inside the buffer", isinstance(nout, Lin) and f.entails_ge(cap - prod - nout), lambda: "the record layer may write %r bytes where %r are left" % (nout, f.norm(cap - prod)))
        s2 = st.fork()
        s2.note("fault", "protecting a record fails")
        s2.mon["fault"] = "protect"
        res.append((s2, FALSE))
        for s1, cu, bad in self.take(st, st.mon.get("cursor", (0, ZERO)), ps):
            self.ob(s1, "C24", "the input is consumed in order", bad is None, lambda: "the record layer is given " + bad)
            if bad is not None:
                continue
            for s, room in eng.split(s1, ("ge", nout - n - OVER)):
                if not room:
                    if cur.get("need") is not None:
                        self.ob(s, "C24", "there is room for every record", False, lambda: "only %r bytes are left for a record of %r bytes" % (s.facts.norm(nout), s.facts.norm(n + OVER)))
                    s.mon["fault"] = "no room"
                    res.append((s, FALSE))
                    continue
                s.mon["cursor"] = cu
                s.mon["produced"] = s.facts.norm(prod + n + OVER)
                eng.store(s, written, s.facts.norm(n + OVER), ["i", 64])
                res.append((s, TRUE))
        return res

    def header_at(self, st, cu):
        """[(state, cursor after the header, [5 bytes] or None)]"""
        work = [(st, cu, ())]
        out = []
        while work:
            s, c, bs = work.pop()
            if len(bs) == HDR:
                out.append((s, c, bs))
                continue
            for s1, (i, o) in self.skip(s, c):
                if i >= len(self.cur["items"]):
                    out.append((s1, (i, o), None))
                    continue
                b = self.eng.load_at(s1, self.cur["items"][i][0].r, s1.facts.norm(o + self.cur["items"][i][0].off), 1, False)
                b = self.eng.u_nosplit(s1, b, 8) if isinstance(b, Lin) else None
                if b is None:
                    b = atom("byte?", 0, 255)
                    self.eng.imprecise(s1, "input byte")
                work.append((s1, (i, s1.facts.norm(o + 1)), bs + (b,)))
        return out

    def m_unprotect(self, eng, st, c):
        _, hdr, nhdr, inp, out, nout, written = c.args
        f, cur = st.facts, self.cur
        st.mon["records"] = st.mon.get("records", 0) + 1
        self.ob(st, "C23", "only Unprotect unprotects", self.op.startswith("Unprotect"), "%s decrypts a record" % self.op)
        if not self.op.startswith("Unprotect"):
            return []
        ps = read_iovecs(eng, st, inp)
        ok = isinstance(hdr, Ptr) and isinstance(nhdr, Lin) and f.entails_eq(nhdr - HDR)
        self.ob(st, "C23", "the header has 5 bytes", ok, lambda: "a header of %r bytes is given to the record layer" % nhdr)
        if not ok:
            return []
        if ps is None or not all(isinstance(l, Lin) for _, l in ps):
            eng.imprecise(st, "iovecs of unknown length")
            self.ob(st, "C23", "payload of the record", False, "unknown payload pieces")
            return []
        n = f.norm(sum((l for _, l in ps), ZERO))
        prev = st.mon.get("outs", ())
        faulty = st.mon.get("fault") is not None
        if cur["out"] is not None:
            self.ob(st, "C23", "plaintext goes to the caller's buffer", isinstance(out, Ptr) and out.r is cur["out"].r and f.entails_eq(out.off) and isinstance(nout, Lin) and f.entails_ge(cur["n"] - nout), lambda: "plaintext is written to %r (%r bytes)" % (out, nout))
            self.ob(st, "C23", "one record per call", st.mon["records"] == 1, "a second record is decrypted into the caller's buffer")
        elif not (faulty and not isinstance(out, Ptr)):
            ok = isinstance(out, Ptr) and out.r.id in st.mon.get("live", ()) and f.entails_eq(out.off) and isinstance(nout, Lin) and f.entails_ge(out.r.size - nout)
            self.ob(st, "C22 C23", "plaintext goes to a buffer of its own", ok, lambda: "plaintext is written to %r (%r bytes)" % (out, nout))
            if not ok:
                return []
            self.ob(st, "C23", "a plaintext is not overwritten", all(x[0] is not out.r for x in prev), "the plaintext of an earlier record is overwritten")
            self.ob(st, "C23", "there is room for the plaintext", f.entails_ge(nout - n + 16), lambda: "a buffer of %r bytes for a payload of %r bytes" % (f.norm(nout), n))
        res = []
        for s1, cu, bs in self.header_at(st, st.mon.get("cursor", (0, ZERO))):
            f1 = s1.facts
            self.ob(s1, "C23", "a header is read inside the input", bs is not None, "a header is taken from beyond the end of the input")
            if bs is None:
                continue
            got = [self.eng.load_at(s1, hdr.r, f1.norm(hdr.off + k), 1, False) for k in range(HDR)]
            got = [self.eng.u_nosplit(s1, x, 8) if isinstance(x, Lin) else None for x in got]
            bad = [k for k in range(HDR) if got[k] is None or not f1.entails_eq(got[k] - bs[k])]
            if any(x is None for x in got):
                eng.imprecise(s1, "header bytes")
            self.ob(s1, "C23", "the header is the record's header", not bad, lambda: "header byte %d is %r instead of the input byte %r" % (bad[0], got[bad[0]], bs[bad[0]]))
            if bad:
                continue
            self.ob(s1, "C23", "the payload has the length in the header", f1.entails_eq(n - bs[3] * 256 - bs[4]), lambda: "a payload of %r bytes is given, the header says %r" % (n, f1.norm(bs[3] * 256 + bs[4])))
            for s, c2, why in self.take(s1, cu, ps):
                self.ob(s, "C23", "the payload follows the header", why is None, lambda: "the record layer is given " + why)
                if why is not None:
                    continue
                # fails
                sf = s.fork()
                sf.note("fault", "unprotecting a record fails")
                sf.mon["fault"] = "unprotect"
                res.append((sf, FALSE))
                if not isinstance(out, Ptr):
                    continue
                ws = [s]
                for cond in (("eq", bs[0] - 0x17), ("eq", bs[1] - 3), ("eq", bs[2] - 3), ("ge", n - 17), ("ge", L(MAXP + 17) - n), ("ge", nout - n + 16)):
                    ws = [x for w in ws for x, y in eng.split(w, cond) if y]
                for w in ws:
                    k = atom("plain%d" % len(prev), 0, MAXP)
                    w.facts.add_ge(n - 17 - k)
                    eng.store(w, written, k, ["i", 64])
                    w.mon["cursor"] = c2
                    w.mon["outs"] = prev + ((out.r, k),)
                    res.append((w, TRUE))
        return res

    # ---- monitors ----------------------------------------------------------------
    def shared(self, st, p):
        if self.obj is None or self.mark is None:
            return None
        if p.r is self.obj.r:
            off = st.facts.norm(p.off)
            if off.is_const():
                for m in self.prog.classes[CLS]["members"]:
                    if m[1] <= off.c < m[1] + m[2]:
                        return m[0]
            return "frame protector+%r" % off
        if p.r.kind == "heap" and p.r.id < self.mark:
            return "memory of " + p.r.name
        return None

    def on_mem(self, eng, st, p, n, w, val=None, bulk=False):
        f = st.facts
        if f.entails_ge(-n) or self.op is None:
            return
        P = "C24" if self.op.startswith("Protect") else "C23"
        if p is NULL:
            self.ob(st, P, "no null access", False, "null pointer accessed")
        elif isinstance(p, Ptr):
            size = p.r.size if p.r.size is not None else st.vsize.get(p.r.id)
            if size is None or p.r.kind in ("lib", "libconst", "opaque", "global"):
                return
            self.ob(st, P, "access inside the buffer", f.entails_ge(p.off) and f.entails_ge(size - p.off - n),
                    lambda: "access of %r bytes at offset %r of %s (%r bytes)" % (n, p.off, p.r.name, size))
            if w and p.r.kind == "param" and p.r.name.startswith(("input", "plaintext")):
                self.ob(st, P, "the input is not modified", False, "the input is written to")

    def on_uaf(self, eng, st, **kw):
        self.ob(st, "C22", "no use after free", False, "freed memory is used")

    def on_abort(self, eng, st, fn):
        if self.op is not None:
            self.ob(st, "C24" if self.op.startswith("Protect") else "C23", "no assertion fails", False, "the process is aborted (%s)" % fn)

    # ---- driving --------------------------------------------------------------------
    def start(self, st, op):
        self.op = op
        self.mark = Region("mark", "mark").id
        self.locks.active = op if op not in ("Create",) else None
        for k in ("records", "fault", "live", "gone", "nalloc", "outbuf", "produced", "cursor", "outs"):
            st.mon.pop(k, None)

    def stop(self, rs):
        self.locks.active = None
        for s, _ in rs:
            self.locks.at_exit(s, self.op)
        self.mark = None

    def run(self):
        eng = self.eng
        st = State()
        url, name = Opq("str", "url"), Opq("str", "identity")
        su, sn = Region("alloca", "url", size=L(32)), Region("alloca", "name", size=L(32))
        models.sput(eng, st, Ptr(su), url)
        models.sput(eng, st, Ptr(sn), name)
        vi, vo = vec_param(eng, "in_secret", "unsigned char"), vec_param(eng, "out_secret", "unsigned char")
        self.want = dict(ver=atom("version", 0, 1), cs=atom("ciphersuite", 0, 2), cid=atom("connection id", 0, (1 << 64) - 1), url=url, name=name, vin=vi, vout=vo,
                         inq=atom("inseq", 0, (1 << 64) - 1), outq=atom("outseq", 0, (1 << 64) - 1))
        w = self.want
        self.fr, self.opr = Region("alloca", "facp", size=L(8)), Region("alloca", "optp", size=L(8))
        cur = []
        for null in (0, 1, 2, 3) if self.hist == "" else (0,):
            s0 = st.fork()
            self.start(s0, "Create")
            rs = eng.run(one(self.prog, "drv_frame_create"), [L(null), w["ver"], w["cs"], w["cid"], Ptr(su), Ptr(sn), vi, vo, w["inq"], w["outq"], Ptr(self.fr), Ptr(self.opr)], s0)
            self.stop(rs)
            for s, h in rs:
                if null or s.mon.get("nocrypter"):
                    self.ob(s, "C28", "creation fails without its collaborators", h is NULL, "Create succeeds without %s" % ("a record layer" if not null else "one of its callbacks"))
                    continue
                self.ob(s, "C28", "creation succeeds otherwise", isinstance(h, Ptr) and s.mon.get("created") == 1, "Create fails although the record layer was created")
                if isinstance(h, Ptr):
                    cur.append((s, h))
        for i, op in enumerate(self.hist):
            nxt = []
            for s, h in cur:
                self.obj = h
                nxt += [(s2, h) for s2 in self.step(s, h, op, i)]
            cur = nxt
        self.ends += len(cur)
        self.op = None
        self.locks.finish()
        return self

    def make_input(self, st, i):
        eng = self.eng
        vec, items = iovecs(eng, st, ("input%d" if self.hist[i] in "uv" else "plaintext%d") % i, self.niov, null=self.null)
        if self.lens:
            for (b, l), n in zip(items, self.lens):
                if n is not None:
                    st.facts.add_eq(l - n)
        if self.sizes:
            # records with payloads of these sizes, laid over the buffers
            flat = [(b, k) for (b, _), n in zip(items, self.lens) for k in range(n)]
            pos = 0
            for z in self.sizes:
                for k, v in ((0, 23), (1, 3), (2, 3), (3, z >> 8), (4, z & 255)):
                    if pos + k < len(flat):
                        b, o = flat[pos + k]
                        st.facts.add_eq(eng.load_at(st, b.r, L(o), 1, False) - v)
                pos += 5 + z
        return vec, items, st.facts.norm(sum((l for _, l in items), ZERO))

    def result_vec(self, st, i):
        eng = self.eng
        v = Region("alloca", "result%d" % i, size=L(24))
        for o in (0, 8, 16):
            eng.store_at(st, v, L(o), 8, NULL)
        return Ptr(v)

    def step(self, st, h, op, i):
        eng, f = self.eng, st.facts
        if op == "n":
            return self.queries(st, h, i)
        self.start(st, {"p": "Protect", "q": "Protect into a buffer", "u": "Unprotect", "v": "Unprotect into a buffer"}[op])
        vec, items, total = self.make_input(st, i)
        self.cur = dict(items=items, total=total, out=None, n=None, need=None)
        if op in "pq":
            if self.recs is not None:
                k = self.recs
                if k:
                    f.add_ge(total - (MAXP * (k - 1) + 1))
                    f.add_ge(L(MAXP * k) - total)
                else:
                    f.add_eq(total)
                self.cur["need"] = f.norm(total + OVER * max(k, 1))
        if op == "p" or op == "u":
            res = self.result_vec(st, i)
            rs = eng.run(one(self.prog, "drv_frame_protect" if op == "p" else "drv_frame_unprotect"), [h, vec, res], st)
        else:
            n = atom("outlen%d" % i, 0, SIZE_HI)
            if op == "q" and self.cur["need"] is not None:
                f.add_ge(n - self.cur["need"])
            if op == "v":
                f.add_ge(n - total + HDR)
            r = Region("param", "callers%d" % i)
            r.size = n
            self.cur["out"], self.cur["n"] = Ptr(r), n
            io = Region("alloca", "callerio%d" % i, size=L(16))
            eng.store_at(st, io, ZERO, 8, Ptr(r))
            eng.store_at(st, io, L(8), 8, n)
            res = Ptr(io)
            rs = eng.run(one(self.prog, "drv_frame_protect_into" if op == "q" else "drv_frame_unprotect_into"), [h, vec, res], st)
        self.stop(rs)
        out = []
        for s, v in rs:
            for s1, ok in eng.split(s, eng.as_cond(s, v)):
                out += getattr(self, "end_" + op)(s1, ok, res)
        return out

    def owned(self, st, handed):
        """Every allocated buffer is handed to the caller or destroyed."""
        live = st.mon.get("live", ())
        ids = [x.id for x in handed]
        left = [x for x in live if x not in ids]
        self.ob(st, "C22", "every buffer is handed over or destroyed", not left, lambda: "%d allocated buffers are neither returned nor destroyed" % len(left))
        self.ob(st, "C22", "a buffer handed over is still owned", all(x in live for x in ids), "a buffer is returned that was destroyed or is not the frame protector's")
        self.ob(st, "C22", "a buffer is handed over once", len(set(ids)) == len(ids), "a buffer is returned twice")

    def results(self, st, res):
        v = read_iovecs(self.eng, st, res)
        if v is None:
            self.eng.imprecise(st, "result vector")
        return v

    def consumed(self, st, prop, what):
        """States in which the whole input was consumed."""
        out = []
        for s, (i, o) in self.skip(st, st.mon.get("cursor", (0, ZERO))):
            done = i >= len(self.cur["items"])
            self.ob(s, prop, what, done, lambda: "%r input bytes are dropped" % self.total_left(s, (i, o)))
            if done:
                out.append(s)
        return out

    def end_p(self, st, ok, res):
        f = st.facts
        v = self.results(st, res)
        if v is None:
            self.ob(st, "C24 C22", "result", False, "unknown result")
            return []
        handed = [b.r for b, _ in v if isinstance(b, Ptr)]
        self.owned(st, handed)
        if not ok:
            self.ob(st, "C24", "an error has a reason", st.mon.get("fault") is not None, "Protect fails although nothing failed")
            self.ob(st, "C24", "an error returns no bytes", not v, "Protect returns bytes with an error")
            return [st]
        self.ob(st, "C24", "a failure is an error", st.mon.get("fault") is None, lambda: "Protect returns OK although %s failed" % st.mon.get("fault"))
        if st.mon.get("fault"):
            return []
        out = []
        for s in self.consumed(st, "C24", "the whole input is protected"):
            f = s.facts
            prod = s.mon.get("produced", ZERO)
            self.ob(s, "C24", "something is protected", s.mon.get("records", 0) >= 1, "no record is produced")
            good = len(v) == 1 and isinstance(v[0][0], Ptr) and s.mon.get("outbuf") and v[0][0].r is s.mon["outbuf"][0] and f.entails_eq(v[0][0].off)
            self.ob(s, "C24", "the buffer is returned", bool(good), lambda: "returned: %r" % (v,))
            if good:
                self.ob(s, "C24", "length of the result", isinstance(v[0][1], Lin) and f.entails_eq(v[0][1] - prod), lambda: "%r bytes are returned, %r were produced" % (f.norm(v[0][1]), f.norm(prod)))
            out.append(s)
        return out

    def end_q(self, st, ok, res):
        f = st.facts
        b = self.eng.load_at(st, res.r, ZERO, 8, True)
        self.owned(st, [])
        if not ok:
            self.ob(st, "C24", "an error has a reason", st.mon.get("fault") is not None, "Protect fails although nothing failed")
            return [st]
        self.ob(st, "C24", "a failure is an error", st.mon.get("fault") is None, lambda: "Protect returns OK although %s failed" % st.mon.get("fault"))
        if st.mon.get("fault"):
            return []
        self.ob(st, "C24", "something is protected", st.mon.get("records", 0) >= 1, "no record is produced")
        self.ob(st, "C24", "the caller's buffer is kept", isinstance(b, Ptr) and b.r is self.cur["out"].r and f.entails_eq(b.off), "the caller's buffer is replaced")
        return self.consumed(st, "C24", "the whole input is protected")

    def reason(self, st, prop):
        """A failure of Unprotect has a reason: a collaborator failed, or the
        input left over is not a complete record."""
        eng = self.eng
        if st.mon.get("fault") is not None:
            return
        s0 = st.fork()
        any_ = False
        for s, cu, bs in self.header_at(s0, s0.mon.get("cursor", (0, ZERO))):
            if bs is None:
                continue
            ws = [s]
            n = bs[3] * 256 + bs[4]
            left = self.total_left(s, cu)
            conds = [("eq", bs[0] - 0x17), ("eq", bs[1] - 3), ("eq", bs[2] - 3), ("ge", n - 17), ("ge", L(MAXP + 17) - n)]
            conds.append(("eq", left - n) if "into" in self.op else ("ge", left - n))
            for c in conds:
                ws = [s1 for w in ws for s1, y in eng.split(w, c) if y]
            for s1 in ws:
                any_ = True
                self.ob(s1, prop, "a complete record is unprotected", False, lambda: "an error is returned although a complete record is left and nothing failed")
        if not any_:
            self.ob(st, prop, "a complete record is unprotected", True, "")

    def end_u(self, st, ok, res):
        f = st.facts
        v = self.results(st, res)
        if v is None:
            self.ob(st, "C23 C22", "result", False, "unknown result")
            return []
        handed = [b.r for b, _ in v if isinstance(b, Ptr)]
        self.owned(st, handed)
        if not ok:
            self.reason(st, "C23")
            self.ob(st, "C23", "an error returns no bytes", not v, "Unprotect returns bytes with an error")
            return [st]
        self.ob(st, "C23", "a failure is an error", st.mon.get("fault") is None, lambda: "Unprotect returns OK although %s failed" % st.mon.get("fault"))
        if st.mon.get("fault"):
            return []
        out = []
        for s in self.consumed(st, "C23", "no input is dropped"):
            self.ob(s, "C23", "an empty input is an error", s.mon.get("records", 0) >= 1, "OK without any record")
            f = s.facts
            outs = s.mon.get("outs", ())
            got = [x for x in v if not (isinstance(x[1], Lin) and f.entails_eq(x[1]))]
            want = [x for x in outs if not f.entails_eq(x[1])]
            good = len(got) == len(want) and all(isinstance(b, Ptr) and b.r is r and f.entails_eq(b.off) and isinstance(l, Lin) and f.entails_eq(l - k) for (b, l), (r, k) in zip(got, want))
            self.ob(s, "C23", "plaintexts are returned in record order", good, lambda: "returned %r; the records gave %r" % (got, want))
            out.append(s)
        return out

    def end_v(self, st, ok, res):
        eng, f = self.eng, st.facts
        b = eng.load_at(st, res.r, ZERO, 8, True)
        n = eng.load_at(st, res.r, L(8), 8, False)
        self.owned(st, [])
        if not ok:
            self.reason(st, "C23")
            return [st]
        self.ob(st, "C23", "a failure is an error", st.mon.get("fault") is None, lambda: "Unprotect returns OK although %s failed" % st.mon.get("fault"))
        if st.mon.get("fault"):
            return []
        out = []
        for s in self.consumed(st, "C23", "no input is dropped"):
            outs = s.mon.get("outs", ())
            self.ob(s, "C23", "exactly one record", len(outs) == 1, "OK after %d records" % len(outs))
            if len(outs) == 1:
                f = s.facts
                self.ob(s, "C23", "length of the plaintext", isinstance(n, Lin) and f.entails_eq(n - outs[0][1]) and isinstance(b, Ptr) and b.r is self.cur["out"].r and f.entails_eq(b.off),
                        lambda: "%r bytes at %r are returned instead of %r" % (n, b, outs[0][1]))
            out.append(s)
        return out

    def queries(self, st, h, i):
        """NumberBytesToProtect, NumberBytesToUnprotect, MaxRecordSize."""
        eng = self.eng
        self.start(st, "queries")
        vec, items, total = self.make_input(st, i)
        f = st.facts
        out = []
        # k records: (k-1) * 2^14 < total <= k * 2^14, at least one
        k = atom("records", 1, 1 << 40)
        f.add_ge(L(MAXP) * k - total if False else k * MAXP - total)
        for s0, none in eng.split(st, ("eq", total)):
            if none:
                s0.facts.add_eq(k - 1)
            else:
                s0.facts.add_ge(total - (k - 1) * MAXP - 1)
            want = total + k * OVER
            for fn, a in (("drv_frame_bytes", total), ("drv_frame_bytes_vec", vec)):
                for s, v in eng.run(one(self.prog, fn), [h, a], s0.fork()):
                    self.ob(s, "C24", "number of bytes to protect", isinstance(v, Lin) and s.facts.entails_eq(v - want), lambda: "NumberBytesToProtect returns %r for %r bytes" % (s.facts.norm(v), s.facts.norm(total)))
            for s, v in eng.run(one(self.prog, "drv_frame_max"), [h], s0.fork()):
                self.ob(s, "C24", "largest record", isinstance(v, Lin) and s.facts.entails_eq(v - MAXP - OVER), lambda: "MaxRecordSize returns %r" % v)
            for s, v in eng.run(one(self.prog, "drv_frame_un"), [h, vec], s0.fork()):
                for s1, big in eng.split(s, ("ge", total - OVER)):
                    self.ob(s1, "C23", "number of bytes to unprotect", isinstance(v, Lin) and s1.facts.entails_ge(v - (total - OVER if big else ZERO)), lambda: "NumberBytesToUnprotect returns %r for %r bytes" % (v, total))
            out.append(s0)
        self.stop([(s, None) for s in out])
        return out


def job(hist="p", niov=1, recs=None, null=None, sizes=None, lens=None, alloc=None, peel=3):
    return FrameRun(hist, niov, recs, null, sizes, lens, alloc, peel).run()
