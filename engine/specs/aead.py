"""AEAD crypters: C01-C08, C36.

Whole-program analysis from the public factory functions: the factory is
interpreted abstractly, every crypter object it can return is taken as the
receiver of Encrypt / Decrypt (dispatched through its vtable), and the
crypto-library typestate is checked at every library call and every return."""
from .common import *
from absint.engine import REGS
from absint.cryptolib import key, CIPHERS

NS = "s2a::aead_crypter::"
BASE = NS + "S2AAeadCrypter"

IMPLS = {
    "aes-openssl": ("src/crypto/aes_gcm_crypter.cc", "openssl", NS + "CreateAesGcmAeadCrypter",
                    {16: "aes-128-gcm", 32: "aes-256-gcm"}),
    "aes-boringssl": ("src/crypto/aes_gcm_crypter.cc", "boringssl", NS + "CreateAesGcmAeadCrypter",
                      {16: "aes-128-gcm", 32: "aes-256-gcm"}),
    "chacha-openssl": ("src/crypto/chacha_poly_crypter_openssl.cc", "openssl", NS + "CreateChachaPolyAeadCrypter",
                       {32: "chacha20-poly1305"}),
    "chacha-boringssl": ("src/crypto/chacha_poly_crypter_boringssl.cc", "boringssl",
                         NS + "CreateChachaPolyAeadCrypter", {32: "chacha20-poly1305"}),
}
NONCE, TAG = 12, 16


class AeadRun:
    def __init__(self, impl, unroll=None, obj=None, only=None, many=None):
        self.sel, self.only, self.many = obj, only, many
        src, variant, self.factory, self.keys = IMPLS[impl]
        self.impl = impl
        self.prog = program([(src, variant), ("src/crypto/s2a_aead_crypter.cc", variant)])
        self.eng = mk_engine(self.prog, [(r"GetSSLErrors$", ssl_errors_model)], unroll)
        self.op = None
        h = self.eng.hooks
        h["mem"] = [self.on_mem]
        h["memset"] = [self.on_memset]
        h["cipheraad"] = [self.on_aad]
        h["cipherdata"] = [self.on_data]
        h["settag"] = [self.on_settag]
        h["gettag"] = [self.on_gettag]
        h["cipherfinal"] = [self.on_final]
        h["aeadop"] = [self.on_aeadop]
        self.returns = 0
        self.objects = 0

    def ob(self, st, prop, kind, ok, msg):
        self.eng.oblige(st, prop, kind, ok, msg)
        # what Encrypt makes of its input Decrypt takes apart again
        if prop in ("C01", "C04", "C36") and kind != "tag verified before success":
            self.eng.oblige(st, "C35", kind, ok, msg)

    def on_abort(self, eng, st, fn):
        # the output may be missing only when it has no room for a tag
        ok = self.op is not None and st.facts.entails_eq(self.op["out"].nul - 1)
        for p in ("C05", "C06", "C36") if self.op else ("C06", "C36"):
            self.ob(st, p, "no assertion fails", ok, "the process is aborted (%s)" % fn)

    # ---- entry points ------------------------------------------------------
    def run(self):
        eng = self.eng
        eng.hooks.setdefault("abort", []).append(self.on_abort)
        f = one(self.prog, self.factory)
        st = State()
        st.mon["libfail"] = False
        keyv = vec_param(eng, "key", "unsigned char")
        self.keybuf = vec_buf(eng, keyv)
        ret = Region("param", "result", size=L(f.args[0].get("sret", 16)))
        ret.kind = "alloca"
        self.phase = "create"
        self.op = None
        outs = eng.run(f, [Ptr(ret), keyv], st)
        objs = []
        for s, _ in outs:
            self.returns += 1
            o = find_obj(eng, s, ret)
            live = [k for k, v in s.mon.items() if k.endswith(".res") and v == "live"]
            if not o:
                self.ob(s, "C08", "no leak when creation fails", not live,
                        "creation fails without releasing a library object")
                n = self.keybuf.info["n"]
                for k in self.keys:
                    g = s.facts.copy()
                    g.add_eq(n - k)
                    self.ob(s, "C06", "supported keys create a crypter", s.mon["libfail"] or not g.feasible(),
                            "a key of %d bytes is refused although no library call failed" % k)
                continue
            self.ob(s, "C07", "library failure is reported by creation", not s.mon["libfail"],
                    "a crypter is returned although a library call failed")
            self.check_created(s, o[0])
            objs.append((s, o[0]))
        self.objects = len(objs)
        if not objs:
            raise Anchor("%s returns no crypter object" % self.factory)
        for i, (s, o) in enumerate(objs):
            if self.sel is not None and i != self.sel:
                continue
            for name in ("Encrypt", "Decrypt"):
                if self.only in (None, name):
                    self.run_op(s.fork(), o, name)
            if self.only in (None, "~"):
                self.run_dtor(s.fork(), o)
        return self

    def check_created(self, s, o):
        eng = self.eng
        n = self.keybuf.info["n"]
        ks = s.facts.norm(n)
        known = ks.is_const() and ks.c in self.keys
        self.ob(s, "C06", "only supported key sizes create a crypter", known,
                "a crypter is created for key size %r" % ks)
        for meth, want in (("KeyLength", n), ("NonceLength", L(NONCE)), ("TagLength", L(TAG))):
            f = one(self.prog, BASE + "::" + meth)
            for s2, v in eng.run(f, [o], s.fork()):
                self.ob(s2, "C06", meth + " reports the configured size", isinstance(v, Lin) and s2.facts.entails_eq(v - want),
                        "%s() returns %r" % (meth, v))
        ctxs = [r for k, r in self.ctxs(s)]
        self.ob(s, "C06", "crypter holds one configured context", len(ctxs) == 1, "created crypter holds %d library contexts" % len(ctxs))
        for r in ctxs:
            p = Ptr(r)
            nm = CIPHERS.get(s.mon.get(key(p, "cipher")), (None, 0))
            want = self.keys.get(ks.c) if known else None
            self.ob(s, "C06", "cipher matches the key size", nm[0] == want, "context configured with %s for a %r-byte key" % (nm[0], ks))
            self.ob(s, "C06", "whole caller key installed", s.mon.get(key(p, "key")) == "init:%s@0" % self.keybuf.id,
                    "the key given to the library is not the caller's key")
            self.ob(s, "C06", "nonce length 12 configured", s.mon.get(key(p, "ivlen")) == NONCE,
                    "nonce length configured as %s" % s.mon.get(key(p, "ivlen")))
            if s.mon.get(key(p, "kind")) == "EVP_AEAD_CTX":
                self.ob(s, "C06", "tag length 16 configured", s.mon.get(key(p, "taglen")) == TAG,
                        "tag length configured as %s" % s.mon.get(key(p, "taglen")))

    def ctxs(self, s):
        for k, v in s.mon.items():
            if k.endswith(".res") and v == "live":
                rid = int(k[3:].split(".")[0])
                if s.mon.get("lib%d.kind" % rid) in ("EVP_CIPHER_CTX", "EVP_AEAD_CTX"):
                    yield rid, REGS[rid]

    def run_dtor(self, s, o):
        eng = self.eng
        r = vcall(eng, s, o, 1, [o])
        if r is None:
            return
        for s2, _ in r:
            live = [k for k, v in s2.mon.items() if k.endswith(".res") and v == "live"]
            self.ob(s2, "C08", "destruction releases the context", not live, "destroying the crypter leaks its library context")

    def run_op(self, s, o, name):
        eng = self.eng
        slot = [v[0] for v in self.prog.classes[BASE]["virt"] if v[1] == name]
        if not slot:
            raise Anchor(BASE + "::" + name)
        vp = eng.rm(s, o.r).cells[s.facts.norm(o.off)][1]
        t = eng.load_at(s, vp.r, s.facts.norm(vp.off + 8 * slot[0]), 8, True)
        f = self.prog.funcs[t.name]
        # a previous operation may have left the context in any phase
        for _, r in list(self.ctxs(s)):
            p = Ptr(r)
            for x in ("iv", "phase", "tag", "final", "dir"):
                s.mon.pop(key(p, x), None)
            s.mon[key(p, "phase")] = "stale"
            s.ghost[key(p, "aad")] = atom("stale aad", 0, SIZE_HI)
            s.ghost[key(p, "data")] = atom("stale data", 0, SIZE_HI)
        s.mon["libfail"] = False
        s.trace = None
        nonce = vec_param(eng, "nonce", "unsigned char")
        aad = vec_param(eng, "aad", NS + "Iovec")
        inp = vec_param(eng, "plaintext" if name == "Encrypt" else "ciphertext_and_tag", NS + "Iovec")
        outn = atom("out_len", 0, SIZE_HI)
        out = Region("param", "output buffer", size=outn)
        out.nul = atom("out_null", 0, 1)
        # contract: the output base may be null only when its length is 0
        op = dict(name=name, nonce=vec_buf(eng, nonce), aad=vec_buf(eng, aad).stream, inp=vec_buf(eng, inp).stream,
                  out=out, outn=outn, this=o.r, nsize=vec_buf(eng, nonce).info["n"])
        if self.many:
            # long inputs: so many components of so many bytes, all valid
            na, ni, ln = self.many
            f1 = s.facts
            f1.add_eq(op["nsize"] - NONCE)
            for x, n in ((vec_buf(eng, aad), na), (vec_buf(eng, inp), ni)):
                f1.add_eq(x.info["n"] - n)
                for k in range(n):
                    f1.add_eq(eng.stream_elem(s, x, L(k), 8) - ln)
                    f1.add_eq(eng.stream_elem(s, x, L(k), 0).nul)
            f1.add_ge(outn - ni * ln - TAG)
        self.op = op
        self.phase = name
        s.mon["dirty"] = False
        s.ghost["zeroed"] = ZERO
        ret = Region("alloca", "status", size=L(16))
        args = [Ptr(ret), o, nonce, aad, inp]
        pa = f.args[5]
        if "byval" in pa:
            iov = Region("alloca", "iovec", size=L(16))
            eng.store_at(s, iov, ZERO, 8, Ptr(out))
            eng.store_at(s, iov, L(8), 8, outn)
            args.append(Ptr(iov))
        else:
            args += [Ptr(out), outn]
        states = []
        for s1, nz in eng.split(s, ("ge", outn - 1)):
            if nz:
                s1.facts.add_eq(out.nul)
            states.append(s1)
        self.obj_before = dict(eng.rm(s, o.r).cells)
        for s1 in states:
            for s2, _ in eng.run(f, args, s1):
                self.returns += 1
                self.at_return(s2, Ptr(ret))
        self.op = None

    # ---- monitors -----------------------------------------------------------
    def is_out(self, p):
        return self.op is not None and isinstance(p, Ptr) and p.r is self.op["out"]

    def touch_out(self, st, n):
        if n == ZERO:
            return
        self.ob(st, "C06", "no output before the nonce length is checked",
                st.facts.entails_eq(self.op["nsize"] - NONCE), "output buffer is written although the nonce may not be 12 bytes")

    def on_mem(self, eng, st, p, n, w, val=None, bulk=False):
        f = st.facts
        if f.norm(n) == ZERO:
            return
        empty = f.entails_ge(-n)
        if empty:
            return
        if self.is_out(p) and w and not bulk:
            self.touch_out(st, n)
            z = st.ghost.get("zeroed", ZERO)
            if isinstance(val, Lin) and f.entails_eq(val) and f.entails_eq(p.off - z):
                st.ghost["zeroed"] = f.norm(z + n)
            elif isinstance(val, Lin) and f.entails_eq(val):
                pass
            else:
                st.mon["dirty"] = True
                st.ghost["zeroed"] = ZERO
        if isinstance(p, Chunk):
            self.ob(st, "C05", "input component is not null when read", f.entails_eq(p.nul) or f.entails_ge(-n) or self.checked(st, p),
                    lambda: "%d-or-more bytes of %s are read although the component may be null" % (1, p.s.name))
            self.ob(st, "C03", "input access inside its component", f.entails_ge(p.pos - p.start) and f.entails_ge(p.end - p.pos - n),
                    lambda: "access of %r bytes at %r leaves the component [%r,%r) of %s" % (n, p.pos, p.start, p.end, p.s.name))
            if w:
                self.ob(st, "C03", "inputs are not written", False, "an input component is written")
            return
        if p is NULL:
            self.ob(st, "C03", "no null access", False, "null pointer accessed")
            return
        if isinstance(p, Ptr):
            r = p.r
            if r.kind in ("lib", "libconst", "opaque", "strdata", "wild", "global"):
                return
            if r.kind == "heap" and r.id in st.freed:
                self.ob(st, "C03", "no use after free", False, "freed memory accessed")
            size = r.size
            if size is None:
                size = st.vsize.get(r.id)
            if size is None:
                return
            if r.kind == "vecbuf" and r.info and not r.info.get("vec"):
                pass
            ok = f.entails_ge(p.off) and f.entails_ge(size - p.off - n)
            self.ob(st, "C03", "access inside %s" % r.name, ok,
                    lambda: "access of %r bytes at offset %r of %s (%r bytes)" % (n, p.off, r.name, size))
            if self.is_out(p) and w:
                pass
        elif isinstance(p, Lin):
            self.ob(st, "C03", "no wild access", False, "access through an integer")

    def checked(self, st, p):
        """Component k lies in the prefix already found empty-or-non-null."""
        if len(p.nul.t) == 1 and A.fn[p.nul.t[0][0]] is not None:
            k = A.fn[p.nul.t[0][0]][1][1]
            return st.facts.entails_ge(st.ghost.get("nchk%d" % p.s.id, ZERO) - k - 1)
        return False

    def on_memset(self, eng, st, d, v, n):
        if not self.is_out(d):
            return
        f = st.facts
        if f.entails_ge(-n):
            return
        self.touch_out(st, n)
        z = st.ghost.get("zeroed", ZERO)
        if isinstance(v, Lin) and f.entails_eq(v):
            if f.entails_ge(z - d.off) and f.entails_ge(d.off + n - z):
                st.ghost["zeroed"] = f.norm(d.off + n)
            if f.entails_eq(st.ghost["zeroed"] - self.op["outn"]):
                st.mon["dirty"] = False
        else:
            st.mon["dirty"] = True
            st.ghost["zeroed"] = ZERO

    def taint_out(self, st, out, n):
        if self.is_out(out) and not st.facts.entails_ge(-n):
            self.touch_out(st, n)
            st.mon["dirty"] = True
            st.ghost["zeroed"] = ZERO

    def nonce_ok(self, eng, st, p):
        return st.mon.get(key(p, "iv")) == "init:%s@0" % self.op["nonce"].id

    def prop(self):
        return "C04" if self.op and self.op["name"] == "Encrypt" else "C01"

    def origin(self, eng, st, src, p, n):
        """Bytes the analysis lost track of are no ground for a report."""
        if src is None and any(x[0] is None for x in eng.pieces(st, p, n)) and eng.blurred(st, p, n):
            eng.imprecise(st, "bytes of unknown origin")

    def feed(self, eng, st, p, inp, n, stream, pos, what):
        if st.facts.entails_ge(-n):
            return
        src = eng.source_of(st, inp, n)
        ok = src is not None and src[0][0] == "stream" and src[0][1] == stream.id and st.facts.entails_eq(src[1] - pos)
        self.origin(eng, st, src, inp, n)
        self.ob(st, self.prop(), "%s bytes given to the library in order, once" % what, ok,
                lambda: "%s: library is given %r (source %r) where byte %r of %s is due" % (self.impl, inp, src, pos, stream.name))

    def on_aad(self, eng, st, p, inp, n, dir):
        if not self.op:
            return
        pr = self.prop()
        self.ob(st, pr, "associated data before payload", st.mon.get(key(p, "phase")) == "ready",
                "associated data is given in phase %s" % st.mon.get(key(p, "phase")))
        self.ob(st, pr, "right direction", dir == ("enc" if pr == "C04" else "dec"), "wrong cipher direction")
        self.feed(eng, st, p, inp, n, self.op["aad"], st.ghost[key(p, "aad")], "associated-data")

    def on_data(self, eng, st, p, out, inp, n, dir, failed):
        if not self.op:
            return
        pr = self.prop()
        self.taint_out(st, out, n)
        if failed:
            return
        ph = st.mon.get(key(p, "phase"))
        self.ob(st, pr, "payload under a fresh nonce", ph in ("ready", "data") and self.nonce_ok(eng, st, p),
                "payload is processed in phase %s" % ph)
        self.ob(st, pr, "right direction", dir == ("enc" if pr == "C04" else "dec"), "wrong cipher direction")
        st.mon[key(p, "phase")] = "data"
        pos = st.ghost[key(p, "data")]
        self.feed(eng, st, p, inp, n, self.op["inp"], pos, "payload")
        ok = self.is_out(out) and st.facts.entails_eq(out.off - pos)
        self.ob(st, "C04", "output contiguous from the front", ok or st.facts.entails_ge(-n),
                lambda: "output of payload byte %r is written at %r" % (pos, out))

    def on_settag(self, eng, st, p, ptr, n):
        if not self.op:
            return
        ok = False
        src = eng.source_of(st, ptr, n)
        tot = eng.total(st, self.op["inp"])
        if src is not None and src[0][0] == "stream" and src[0][1] == self.op["inp"].id:
            ok = st.facts.entails_eq(src[1] - (tot - TAG)) and st.facts.entails_eq(n - TAG)
        self.origin(eng, st, src, ptr, n)
        self.ob(st, "C01", "the last 16 input bytes are the tag", ok,
                lambda: "the tag given to the library is %r (source %r), expected input bytes [%r,+16)" % (ptr, src, tot - TAG))
        st.mon[key(p, "tag")] = "set" if st.mon.get(key(p, "phase")) in ("ready", "data") else "early"

    def on_gettag(self, eng, st, p, ptr, n):
        if not self.op:
            return
        tot = eng.total(st, self.op["inp"])
        self.taint_out(st, ptr, n)
        fin = st.mon.get(key(p, "final")) == "enc"
        ok = self.is_out(ptr) and st.facts.entails_eq(ptr.off - tot) and st.facts.entails_eq(n - TAG) and fin
        self.ob(st, "C04", "tag follows the ciphertext", ok,
                lambda: "tag of %r bytes written at %r (ciphertext ends at %r, finalized=%s)" % (n, ptr, tot, fin))
        st.mon[key(p, "gottag")] = True

    def on_final(self, eng, st, p, dir):
        if not self.op:
            return
        pr = self.prop()
        if dir == "dec":
            self.ob(st, pr, "tag set before it is checked", st.mon.get(key(p, "tag")) == "set",
                    "finalized without the tag of this record")
        self.ob(st, pr, "right direction", dir == ("enc" if pr == "C04" else "dec"), "wrong cipher direction")
        self.ob(st, pr, "finalized under this call's nonce", st.mon.get(key(p, "phase")) in ("ready", "data") and self.nonce_ok(eng, st, p),
                "finalized without initialising this call's nonce")
        self.check_fed(eng, st, p)

    def check_fed(self, eng, st, p):
        pr = self.prop()
        op = self.op
        ta, ti = eng.total(st, op["aad"]), eng.total(st, op["inp"])
        a, d = st.ghost[key(p, "aad")], st.ghost[key(p, "data")]
        self.ob(st, pr, "all associated data authenticated", st.facts.entails_eq(a - ta),
                lambda: "%r of %r associated-data bytes were given to the library" % (a, ta))
        want = ti if pr == "C04" else ti - TAG
        self.ob(st, pr, "whole payload processed", st.facts.entails_eq(d - want),
                lambda: "%r of %r payload bytes were given to the library" % (d, want))

    def on_aeadop(self, eng, st, p, out, nonce, nlen, inp, inl, ad, adl, seal, tag):
        op = self.op
        if not op:
            return
        pr = self.prop()
        f = st.facts
        self.taint_out(st, out, f.norm(inl + tag if seal else inl - tag))
        self.ob(st, pr, "right direction", seal == (pr == "C04"), "wrong AEAD direction")
        src = eng.source_of(st, nonce, nlen)
        self.ob(st, pr, "caller's nonce used", src is not None and src[0][0] == "init" and src[0][1] == op["nonce"].id and f.entails_eq(src[1]) and f.entails_eq(nlen - op["nsize"]),
                "the nonce given to the library is not the caller's")
        for x, n, s, what in ((inp, inl, op["inp"], "payload"), (ad, adl, op["aad"], "associated-data")):
            self.feed(eng, st, p, x, n, s, ZERO, what)
            self.ob(st, pr, "all %s bytes given" % what, f.entails_eq(n - eng.total(st, s)),
                    lambda: "%r of %r %s bytes are given to the library" % (n, eng.total(st, s), what))
        self.ob(st, "C04", "output contiguous from the front", self.is_out(out) and f.entails_eq(out.off), "output does not start at the front of the buffer")
        st.mon[key(p, "final")] = "enc" if seal else "dec"
        st.mon[key(p, "gottag")] = True
        st.mon[key(p, "oneshot")] = True

    # ---- returns -------------------------------------------------------------
    def at_return(self, st, ret):
        eng, op = self.eng, self.op
        cs = BASE + "::CrypterStatus::"
        g = one(self.prog, cs + "GetBytesWritten")
        h = one(self.prog, cs + "GetStatus")
        tmp = Region("alloca", "st", size=L(8))
        for s1, nb in eng.run(g, [ret], st):
            for s2, _ in eng.run(h, [Ptr(tmp), ret], s1):
                rep = eng.load_at(s2, tmp, ZERO, 8, False)
                if not isinstance(rep, Lin):
                    eng.imprecise(s2, "status value")
                    continue
                for s3, ok in eng.split(s2, models.status_ok(eng, rep)):
                    self.final(s3, ok, nb)

    def final(self, st, ok, nb):
        eng, op = self.eng, self.op
        f = st.facts
        enc = op["name"] == "Encrypt"
        pr = self.prop()
        where = "%s %s" % (self.impl, op["name"])
        ti = eng.total(st, op["inp"])
        # receiver unchanged (class invariant of the created object)
        now = eng.rm(st, op["this"]).cells
        self.ob(st, "C06", "operations do not alter the crypter's configuration",
                all(now.get(k) == v for k, v in self.obj_before.items()), where + " changes the crypter object")
        if ok:
            self.ob(st, "C07", "library failure is never swallowed", not st.mon["libfail"], where + " returns OK although a library call failed")
            ctx = [Ptr(r) for _, r in self.ctxs(st)]
            c = [p for p in ctx if st.mon.get(key(p, "final")) == ("enc" if enc else "dec")]
            self.ob(st, pr, "operation finalized" if enc else "tag verified before success", bool(c),
                    where + " returns OK without " + ("finalizing" if enc else "a verified tag"))
            for p in c:
                if not st.mon.get(key(p, "oneshot")):
                    self.check_fed(eng, st, p)
                    if enc:
                        self.ob(st, "C04", "tag written", st.mon.get(key(p, "gottag")) is True, where + " returns OK without writing the tag")
            self.ob(st, "C06", "nonce of 12 bytes", f.entails_eq(op["nsize"] - NONCE), where + " returns OK for a nonce that may not be 12 bytes")
            want = ti + TAG if enc else ti - TAG
            self.ob(st, "C04", "reported count", isinstance(nb, Lin) and f.entails_eq(nb - want),
                    lambda: "%s reports %r bytes, expected %r" % (where, nb, want))
        else:
            if not enc:
                self.ob(st, "C02", "failed decrypt reports 0 bytes", isinstance(nb, Lin) and f.entails_eq(nb), lambda: "%s fails and reports %r bytes" % (where, nb))
                z = f.entails_eq(st.ghost["zeroed"] - op["outn"])
                self.ob(st, "C02", "failed decrypt leaves a zeroed buffer", not st.mon["dirty"] or z,
                        where + " fails after writing plaintext without zeroing the whole buffer")
            if not st.mon["libfail"]:
                self.ob(st, "C36", "rejection has a reason", self.has_reason(st, enc, ti), where + " rejects an input that satisfies its contract")

    def has_reason(self, st, enc, ti):
        op, f = self.op, st.facts
        if f.entails_ne(op["nsize"] - NONCE):
            return True
        need = ti + TAG if enc else ti - TAG
        if f.entails_ge(need - op["outn"] - 1):
            return True
        if not enc and f.entails_ge(L(TAG - 1) - ti):
            return True
        for x in f.apps:
            fn, args = A.fn[x]
            if fn.startswith("Nul:") and args[0] in (op["aad"].id, op["inp"].id):
                l = Lin(0, ((x, 1),))
                if f.entails_eq(l - 1):
                    for y in f.apps:
                        fn2, a2 = A.fn[y]
                        if fn2.startswith("Len:") and a2[0] == args[0] and f.norm(a2[1] - args[1]) == ZERO and f.entails_ge(Lin(-1, ((y, 1),))):
                            return True
        return False


def job(impl, peel=None, obj=None, op=None, many=None):
    r = AeadRun(impl, peel, obj, op, many)
    r.run()
    return r


def tus(impl, **kw):
    src, variant = IMPLS[impl][:2]
    return [(src, variant), ("src/crypto/s2a_aead_crypter.cc", variant)]
