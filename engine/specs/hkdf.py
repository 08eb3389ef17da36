"""HKDF-Expand: C09 (and C07 / C08 for key derivation).

The HMAC inputs are checked against the RFC 5869 grammar
    T(i) = HMAC(prk, T(i-1) | info | i)
with the block number as a ghost counter; the output buffer must, on success,
consist of the concatenation T(1) T(2) ... from its first to its last byte."""
from .common import *
from absint.cryptolib import key, DIGESTS, rid

FN = "s2a::hkdf::HkdfDeriveSecret"
HASH = {0: "EVP_sha256", 1: "EVP_sha384"}
SRC = "src/crypto/hkdf.cc"
T = ("gen", "hkdf-stream")


class HkdfRun:
    def __init__(self, variant, alias, peel, over=False):
        self.over = over
        self.prog = program([(SRC, variant)])
        self.eng = mk_engine(self.prog, [], peel)
        self.alias = alias
        self.returns = 0
        h = self.eng.hooks
        h["mem"] = [self.on_mem]
        h["hmacinit"] = [self.on_init]
        h["hmacupdate"] = [self.on_update]
        h["hmacfinal"] = [self.on_final]

    def ob(self, st, prop, kind, ok, msg):
        self.eng.oblige(st, prop, kind, ok, msg)

    def on_abort(self, eng, st, fn):
        self.ob(st, "C09", "no assertion fails", False, "the process is aborted (%s)" % fn)

    def run(self):
        eng = self.eng
        eng.hooks.setdefault("abort", []).append(self.on_abort)
        f = one(self.prog, FN)
        st = State()
        st.mon["libfail"] = False
        self.prk = vec_param(eng, "out" if self.alias else "prk", "unsigned char")
        self.info = vec_param(eng, "info", "unsigned char")
        self.out = self.prk if self.alias else vec_param(eng, "out", "unsigned char")
        self.pb, self.ib, self.ob_ = vec_buf(eng, self.prk), vec_buf(eng, self.info), vec_buf(eng, self.out)
        st.ghost["blk"] = ZERO
        st.facts.add_ge(L((1 << 31) - 1) - self.pb.info["n"])   # documented size assumption
        h = atom("hash_function", 0, (1 << 32) - 1)
        self.h = h
        ret = Region("alloca", "status", size=L(8))
        # case split over the hash functions (finite enum plus everything else)
        for s, which in self.cases(st, h):
            self.which = which
            self.md = HASH.get(which)
            self.D = DIGESTS[self.md][1] if self.md else None
            if self.over:
                # the largest request within / the smallest beyond the RFC limit
                if not self.D:
                    continue
                s = s.fork()
                s.facts.add_eq(self.ob_.info["n"] - 255 * self.D - (1 if self.over == "beyond" else 0))
            for s2, _ in eng.run(f, [Ptr(ret), h, self.prk, self.info, self.out], s):
                self.returns += 1
                self.at_return(s2, ret)
        return self

    def cases(self, st, h):
        out = []
        cur = st
        for v in HASH:
            for s, b in self.eng.split(cur, ("eq", h - v)):
                if b:
                    out.append((s, v))
                else:
                    cur = s
        out.append((cur, None))
        return out

    def on_mem(self, eng, st, p, n, w, val=None, bulk=False):
        f = st.facts
        if f.entails_ge(-n):
            return
        if p is NULL:
            self.ob(st, "C09", "no null access", False, "null pointer accessed")
            return
        if isinstance(p, Ptr):
            size = p.r.size
            if size is None:
                size = st.vsize.get(p.r.id)
            if size is None or p.r.kind in ("lib", "libconst", "opaque", "global"):
                return
            self.ob(st, "C09", "access inside %s" % p.r.name, f.entails_ge(p.off) and f.entails_ge(size - p.off - n),
                    lambda: "access of %r bytes at offset %r of %s (%r bytes)" % (n, p.off, p.r.name, size))
            if w and p.r is self.ob_ and not bulk:
                pass

    def on_init(self, eng, st, p, key, n, md):
        k = "hm%d." % p.r.id
        if key is not NULL:
            src = eng.source_of(st, key, n)
            ok = (src is not None and src[0][0] == "init" and src[0][1] == self.pb.id and st.facts.entails_eq(src[1]) and
                  st.facts.entails_eq(n - self.pb.info["n"]))
            self.ob(st, "C09", "HMAC keyed with the whole pseudo-random key", ok, lambda: "HMAC is keyed with %r (%r bytes)" % (src, n))
            st.mon[k + "keyed"] = True
        if isinstance(md, Ptr) and md.r.kind == "libconst":
            st.mon["lib%d.md" % p.r.id] = md.r.name
        self.ob(st, "C09", "requested hash", st.mon.get("lib%d.md" % p.r.id) == self.md,
                lambda: "HMAC uses %s, requested %s" % (st.mon.get("lib%d.md" % p.r.id), self.md))
        self.ob(st, "C09", "HMAC has a key", st.mon.get(k + "keyed") is True, "HMAC used without a key")
        st.mon[k + "seq"] = "start"

    def on_update(self, eng, st, p, d, n):
        f = st.facts
        n = f.norm(n)
        if f.entails_ge(-n) and not self.is_info(st, d, n):
            return
        k = "hm%d." % p.r.id
        blk = st.ghost["blk"]
        for src, off, ln in eng.pieces(st, d, n):
            seq = st.mon.get(k + "seq")
            isz = self.ib.info["n"]
            if src == T:
                ok = seq == "start" and f.entails_eq(off - (blk - 1) * self.D) and f.entails_eq(ln - self.D)
                self.ob(st, "C09", "block input starts with the previous block", ok,
                        lambda: "%r bytes of the stream at %r are fed for block %r" % (ln, off, blk + 1))
                st.mon[k + "seq"] = "prev"
            elif src is not None and src[0] == "init" and src[1] == self.ib.id:
                ok = (seq == "prev" or seq == "start" and f.entails_eq(blk)) and f.entails_eq(off) and f.entails_eq(ln - isz)
                self.ob(st, "C09", "info follows the previous block", ok,
                        lambda: "%r bytes of info are fed in state %s of block %r" % (ln, seq, blk + 1))
                st.mon[k + "seq"] = "info"
            elif src is not None and src[0] == "value":
                v = src[1]
                ok = f.entails_eq(v - blk - 1) and (seq == "info" or f.entails_eq(isz) and (
                    seq == "prev" or seq == "start" and f.entails_eq(blk)))
                self.ob(st, "C09", "counter byte is the block number", ok,
                        lambda: "byte %r is fed in state %s of block %r" % (v, seq, blk + 1))
                st.mon[k + "seq"] = "ctr"
            else:
                if src is None:
                    eng.imprecise(st, "HMAC input of unknown origin")
                self.ob(st, "C09", "HMAC input is previous block, info or counter", False, lambda: "HMAC is fed %r" % (src,))
                st.mon[k + "seq"] = "bad"

    def is_info(self, st, d, n):
        return isinstance(d, Ptr) and d.r is self.ib and st.facts.entails_eq(n - self.ib.info["n"])

    def on_final(self, eng, st, p, out, n):
        k = "hm%d." % p.r.id
        self.ob(st, "C09", "block input complete", st.mon.get(k + "seq") == "ctr",
                lambda: "HMAC finalized in state %s" % st.mon.get(k + "seq"))
        st.mon[k + "seq"] = "done"
        blk = st.ghost["blk"]
        if isinstance(out, Ptr) and self.D:
            off = st.facts.norm(out.off)
            eng.add_seg(st, out.r, off, off + n, T, st.facts.norm(blk * self.D - off))
        st.ghost["blk"] = st.facts.norm(blk + 1)

    def at_return(self, st, ret):
        eng = self.eng
        rep = eng.load_at(st, ret, ZERO, 8, False)
        live = [k for k, v in st.mon.items() if k.endswith(".res") and v == "live"]
        self.ob(st, "C08", "HMAC context released", not live, "HMAC context leaked")
        if not isinstance(rep, Lin):
            eng.imprecise(st, "status value")
            return
        for s, ok in eng.split(st, models.status_ok(eng, rep)):
            self.final(s, ok)

    def final(self, st, ok):
        eng, f = self.eng, st.facts
        on, pn = self.ob_.info["n"], self.pb.info["n"]
        if ok:
            self.ob(st, "C07", "library failure is never swallowed", not st.mon["libfail"], "derivation returns OK although a library call failed")
            self.ob(st, "C09", "unknown hash rejected", self.D is not None, "an unknown hash function is accepted")
            if self.D is None:
                return
            self.ob(st, "C09", "short key rejected", f.entails_ge(pn - self.D), lambda: "a key of %r bytes is accepted" % f.norm(pn))
            self.ob(st, "C09", "at most 255 blocks", f.entails_ge(L(255 * self.D) - on), "an output of more than 255 blocks is accepted")
            if f.entails_ge(-on):
                return
            # the vector must still be the caller's buffer
            b = eng.rm(st, self.out.r).cells.get(ZERO)
            src = None
            if b is None or isinstance(b[1], Ptr) and b[1].r is self.ob_:
                src = [x for x in eng.pieces(st, Ptr(self.ob_), on)]
                good = all(s == T and f.entails_eq(o) if i == 0 else True for i, (s, o, l) in enumerate(src))
                pos = ZERO
                for s, o, l in src:
                    good = good and s == T and f.entails_eq(o - pos)
                    if s is None or s[0] == "value" and eng.unnamed(s[1]):
                        eng.imprecise(st, "bytes of unknown origin")
                    pos = pos + l
            else:
                eng.imprecise(st, "output vector was reallocated")
                good = False
            self.ob(st, "C09", "every output byte is the HKDF stream", good, lambda: "the output holds %r" % (src,))
        elif not st.mon["libfail"]:
            r = self.D is None or f.entails_ge(L(self.D - 1) - pn) or f.entails_ge(on - 255 * self.D - 1)
            self.ob(st, "C09", "valid request not rejected", r, "a valid derivation request is rejected")


def job(variant="openssl", alias=False, peel=None, over=False):
    return HkdfRun(variant, alias, 270 if over else peel, over).run()


def tus(variant="openssl", **kw):
    return [(SRC, variant)]
