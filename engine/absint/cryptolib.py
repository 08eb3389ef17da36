"""Abstract semantics of the OpenSSL / BoringSSL functions used by the crypto
layer, as typestate: finite state in st.mon, byte counters in st.ghost."""
import re
from .lin import *
from .lin import A, Lin, ZERO, ONE, L
from .engine import *
from .engine import SIZE_HI

LIB = []


def model(pat):
    def deco(fn):
        LIB.append((re.compile(pat), fn))
        return fn
    return deco


CIPHERS = {"EVP_aes_128_gcm": ("aes-128-gcm", 16), "EVP_aes_192_gcm": ("aes-192-gcm", 24),
           "EVP_aes_256_gcm": ("aes-256-gcm", 32), "EVP_chacha20_poly1305": ("chacha20-poly1305", 32),
           "EVP_aead_chacha20_poly1305": ("chacha20-poly1305", 32),
           "EVP_aead_aes_128_gcm": ("aes-128-gcm", 16), "EVP_aead_aes_256_gcm": ("aes-256-gcm", 32),
           "EVP_aead_xchacha20_poly1305": ("xchacha20-poly1305", 32),
           "EVP_aes_128_ctr": ("aes-128-ctr", 16), "EVP_aes_256_ctr": ("aes-256-ctr", 32),
           "EVP_aes_128_cbc": ("aes-128-cbc", 16), "EVP_aes_256_cbc": ("aes-256-cbc", 32)}
DIGESTS = {"EVP_sha256": ("sha256", 32), "EVP_sha384": ("sha384", 48), "EVP_sha512": ("sha512", 64),
           "EVP_sha1": ("sha1", 20), "EVP_sha224": ("sha224", 28)}


def const_obj(eng, kind, name):
    key = ("libconst", name)
    p = eng.elemreg.get(key)
    if p is None:
        r = Region("libconst", name)
        r.info = dict(kind=kind, name=name)
        p = Ptr(r)
        eng.elemreg[key] = p
    return p


@model(r"^EVP_(aes|chacha|aead)[a-z0-9_]*$")
def m_cipher(eng, st, c):
    if c.args or c.short not in CIPHERS:
        return NotImplemented
    return [(st, const_obj(eng, "cipher", c.short))]


@model(r"^EVP_sha\d+$")
def m_digest(eng, st, c):
    return [(st, const_obj(eng, "digest", c.short))]


@model(r"^EVP_MD_(size|get_size)$")
def m_mdsize(eng, st, c):
    p = c.args[0]
    if isinstance(p, Ptr) and p.r.kind == "libconst" and p.r.name in DIGESTS:
        return [(st, L(DIGESTS[p.r.name][1]))]
    return [(st, atom("mdsize", 0, 64))]


def rid(p):
    if isinstance(p, Ptr) and p.r.kind == "lib":
        return p.r.id
    return None


def key(p, f):
    return "lib%d.%s" % (p.r.id, f)


def fail(eng, st, why):
    """Fork a state in which the library call failed."""
    s = st.fork()
    s.mon["libfail"] = True
    s.note("fail", why, eng.where(s))
    return s


def live(eng, st, p, fn):
    """The library object must be live when used."""
    if not isinstance(p, Ptr) or p.r.kind != "lib":
        return
    ok = st.mon.get(key(p, "res")) == "live"
    eng.oblige(st, "C08", "use of a released library object", ok,
               lambda: "%s uses a released %s" % (fn, p.r.name))


def acquire(eng, st, kind):
    k = ("lib", kind, eng.where(st), tuple(f.f.name for f in st.frames))
    n = 0
    while True:
        r = eng.elemreg.get((k, n))
        if r is None:
            r = Region("lib", kind)
            eng.elemreg[(k, n)] = r
            break
        if ("lib%d.res" % r.id) not in st.mon:
            break
        n += 1
    st.mon["lib%d.res" % r.id] = "live"
    st.mon["lib%d.kind" % r.id] = kind
    return Ptr(r)


def release(eng, st, p, fn):
    if p is NULL:
        return
    if isinstance(p, Ptr) and p.r.kind == "lib":
        ok = st.mon.get(key(p, "res")) == "live"
        eng.oblige(st, "C08", "release exactly once", ok, lambda: "%s on an already released %s" % (fn, p.r.name))
        st.mon[key(p, "res")] = "freed"
    else:
        eng.imprecise(st, "%s of unknown object" % fn)


@model(r"^(EVP_CIPHER_CTX|HMAC_CTX)_new$")
def m_new(eng, st, c):
    s2 = fail(eng, st, c.short)
    p = acquire(eng, st, c.short[:-4])
    return [(st, p), (s2, NULL)]


@model(r"^(EVP_CIPHER_CTX|HMAC_CTX|EVP_AEAD_CTX)_free$|^BIO_free(_all)?$|^BIO_vfree$")
def m_free(eng, st, c):
    release(eng, st, c.args[0], c.short)
    return [(st, None if c.ret == "v" else ONE)]


@model(r"^HMAC_CTX_init$")
def m_hinit(eng, st, c):
    return NotImplemented


@model(r"^EVP_CIPHER_CTX_(init|reset|cleanup)$|^HMAC_CTX_reset$")
def m_reset(eng, st, c):
    p = c.args[0]
    live(eng, st, p, c.short)
    if rid(p) is not None:
        for k in list(st.mon):
            if k.startswith("lib%d." % p.r.id) and not k.endswith((".res", ".kind")):
                del st.mon[k]
    return [(st, None if c.ret == "v" else ONE)]


def cipher_info(st, p):
    n = st.mon.get(key(p, "cipher"))
    return CIPHERS.get(n, (None, None))


@model(r"^EVP_(Encrypt|Decrypt|Cipher)Init(_ex)?$")
def m_init(eng, st, c):
    a = c.args
    p = a[0]
    ex = c.short.endswith("_ex")
    cipher = a[1]
    k, iv = (a[3], a[4]) if ex else (a[2], a[3])
    if rid(p) is None:
        if p is NULL:
            st.mon["libfail"] = True
            return [(st, ZERO)]
        eng.imprecise(st, "unknown cipher context")
        return [(fail(eng, st, c.short), ZERO), (st, ONE)]
    live(eng, st, p, c.short)
    s0 = fail(eng, st, c.short)
    if isinstance(cipher, Ptr) and cipher.r.kind == "libconst":
        st.mon[key(p, "cipher")] = cipher.r.name
        st.mon[key(p, "ivlen")] = 12
        st.mon.pop(key(p, "key"), None)
    elif cipher is not NULL:
        st.mon[key(p, "cipher")] = "?"
    nm, kl = cipher_info(st, p)
    if k is not NULL:
        if kl is not None:
            eng.emit(st, "mem", p=k, n=L(kl), w=False, bulk=True)
            src = eng.source_of(st, k, L(kl))
            st.mon[key(p, "key")] = srckey(st, src)
        else:
            st.mon[key(p, "key")] = "?"
    if iv is not NULL:
        ivlen = st.mon.get(key(p, "ivlen"))
        n = L(ivlen if ivlen is not None else 12)
        eng.emit(st, "mem", p=iv, n=n, w=False, bulk=True)
        src = eng.source_of(st, iv, n)
        st.mon[key(p, "iv")] = srckey(st, src)
        st.mon[key(p, "ivn")] = st.mon.get("opn", 0)
        st.mon[key(p, "phase")] = "ready"
        for x in ("tag", "final"):
            st.mon.pop(key(p, x), None)
        st.ghost[key(p, "aad")] = ZERO
        st.ghost[key(p, "data")] = ZERO
    if c.short.startswith("EVP_Encrypt"):
        d = "enc"
    elif c.short.startswith("EVP_Decrypt"):
        d = "dec"
    else:
        e = a[-1]
        d = "?" if not isinstance(e, Lin) or not e.is_const() else {1: "enc", 0: "dec"}.get(e.c, st.mon.get(key(p, "dir"), "?"))
    st.mon[key(p, "dir")] = d
    eng.emit(st, "cipherinit", p=p, cipher=cipher, key=k, iv=iv)
    return [(s0, ZERO), (st, ONE)]


def srckey(st, src):
    if src is None:
        return "?"
    s, off = src
    off = st.facts.norm(off)
    return "%s:%s@%s" % (s[0], s[1], off.c if off.is_const() else "?")


@model(r"^EVP_CIPHER_CTX_ctrl$")
def m_ctrl(eng, st, c):
    p, ty, arg, ptr = c.args
    if rid(p) is None:
        if p is NULL:
            st.mon["libfail"] = True
            return [(st, ZERO)]
        eng.imprecise(st, "unknown cipher context")
        return [(fail(eng, st, c.short), ZERO), (st, ONE)]
    live(eng, st, p, c.short)
    ty = st.facts.norm(ty) if isinstance(ty, Lin) else None
    arg = st.facts.norm(arg) if isinstance(arg, Lin) else atom("arg?")
    s0 = fail(eng, st, c.short)
    if ty is not None and ty.is_const():
        if ty.c == 0x9:
            st.mon[key(p, "ivlen")] = arg.c if arg.is_const() else "?"
        elif ty.c == 0x11:
            eng.emit(st, "mem", p=ptr, n=arg, w=False, bulk=True)
            eng.emit(st, "settag", p=p, ptr=ptr, n=arg)
        elif ty.c == 0x10:
            eng.emit(st, "mem", p=ptr, n=arg, w=True, bulk=True)
            eng.emit(st, "gettag", p=p, ptr=ptr, n=arg)
            eng.havoc(st, ptr, arg, "tag", src=("tag", p.r.id))
        else:
            eng.imprecise(st, "EVP_CIPHER_CTX_ctrl type %d" % ty.c)
    else:
        eng.imprecise(st, "EVP_CIPHER_CTX_ctrl of unknown type")
    return [(s0, ZERO), (st, ONE)]


@model(r"^EVP_CIPHER_CTX_set_key_length$|^EVP_CIPHER_CTX_set_padding$")
def m_setpad(eng, st, c):
    live(eng, st, c.args[0], c.short)
    return [(fail(eng, st, c.short), ZERO), (st, ONE)]


@model(r"^EVP_(Encrypt|Decrypt|Cipher)Update$")
def m_update(eng, st, c):
    p, out, outl, inp, inl = c.args
    if rid(p) is None:
        eng.imprecise(st, "unknown cipher context")
        return [(fail(eng, st, c.short), ZERO), (st, ONE)]
    live(eng, st, p, c.short)
    res = []
    for s, n in eng.as_signed(st, inl, 32):
        n = s.facts.norm(n)
        d = "enc" if "Encrypt" in c.short else "dec" if "Decrypt" in c.short else s.mon.get(key(p, "dir"))
        eng.emit(s, "mem", p=inp, n=n, w=False, bulk=True)
        aad = out is NULL
        if not aad:
            eng.emit(s, "mem", p=out, n=n, w=True, bulk=True)
        # failure: nothing is known about the output
        s0 = fail(eng, s, c.short)
        eng.store(s0, outl, atom("outl", -(1 << 31), (1 << 31) - 1), ["i", 32])
        if not aad:
            eng.emit(s0, "cipherdata", p=p, out=out, inp=inp, n=n, dir=d, failed=True)
            eng.havoc(s0, out, n, "cipher")
        res.append((s0, ZERO))
        eng.store(s, outl, n, ["i", 32])
        if aad:
            eng.emit(s, "cipheraad", p=p, inp=inp, n=n, dir=d)
            s.ghost[key(p, "aad")] = s.facts.norm(s.ghost.get(key(p, "aad"), ZERO) + n)
        else:
            eng.emit(s, "cipherdata", p=p, out=out, inp=inp, n=n, dir=d, failed=False)
            pos = s.ghost.get(key(p, "data"), ZERO)
            s.ghost[key(p, "data")] = s.facts.norm(pos + n)
            if isinstance(out, Ptr):
                eng.havoc(s, out, n, "cipher")
                eng.add_seg(s, out.r, s.facts.norm(out.off), s.facts.norm(out.off + n), (d, p.r.id), s.facts.norm(pos - out.off))
        res.append((s, ONE))
    return res


@model(r"^EVP_(Encrypt|Decrypt|Cipher)Final(_ex)?$")
def m_final(eng, st, c):
    p, out, outl = c.args
    if rid(p) is None:
        eng.imprecise(st, "unknown cipher context")
        return [(fail(eng, st, c.short), ZERO), (st, ONE)]
    live(eng, st, p, c.short)
    d = "enc" if "Encrypt" in c.short else "dec" if "Decrypt" in c.short else st.mon.get(key(p, "dir"))
    s0 = fail(eng, st, c.short)
    eng.store(s0, outl, atom("outl", 0, 64), ["i", 32])
    eng.store(st, outl, ZERO, ["i", 32])
    eng.emit(st, "cipherfinal", p=p, dir=d)
    st.mon[key(p, "final")] = d
    return [(s0, ZERO), (st, ONE)]


# ---- BoringSSL AEAD -----------------------------------------------------------
@model(r"^EVP_AEAD_CTX_new$")
def m_aead_new(eng, st, c):
    aead, k, kl, tl = c.args
    s0 = fail(eng, st, c.short)
    if isinstance(k, (Ptr, Chunk)):
        eng.emit(st, "mem", p=k, n=kl, w=False, bulk=True)
    p = acquire(eng, st, "EVP_AEAD_CTX")
    nm = aead.r.name if isinstance(aead, Ptr) and aead.r.kind == "libconst" else "?"
    st.mon[key(p, "cipher")] = nm
    info = CIPHERS.get(nm)
    st.mon[key(p, "key")] = srckey(st, eng.source_of(st, k, kl))
    st.mon[key(p, "ivlen")] = 24 if nm.startswith("EVP_aead_xch") else 12
    t = st.facts.norm(tl)
    st.mon[key(p, "taglen")] = (16 if t.c == 0 else t.c) if t.is_const() else "?"
    st.ghost[key(p, "keylen")] = st.facts.norm(kl)
    if info and not st.facts.entails_eq(kl - info[1]):
        # the library rejects other key lengths
        for s, b in eng.split(st, ("eq", kl - info[1])):
            if b:
                return [(s0, NULL), (s, p)]
        return [(s0, NULL)]
    return [(s0, NULL), (st, p)]


@model(r"^EVP_AEAD_CTX_(seal|open)$")
def m_aead_op(eng, st, c):
    p, out, outl, maxo, nonce, nlen, inp, inl, ad, adl = c.args
    seal = c.short.endswith("seal")
    if rid(p) is None:
        eng.imprecise(st, "unknown AEAD context")
        return [(fail(eng, st, c.short), ZERO), (st, ONE)]
    live(eng, st, p, c.short)
    f = st.facts
    for x, n in ((nonce, nlen), (inp, inl), (ad, adl)):
        eng.emit(st, "mem", p=x, n=f.norm(n), w=False, bulk=True)
    tl = st.mon.get(key(p, "taglen"), "?")
    tag = L(tl) if tl != "?" else atom("taglen", 0, 64)
    # on failure the library zeroes the whole output buffer
    s0 = fail(eng, st, c.short)
    eng.emit(s0, "mem", p=out, n=maxo, w=True, bulk=True)
    eng.store(s0, outl, ZERO, ["i", 64])
    eng.set_mem(s0, out, ZERO, s0.facts.norm(maxo))
    res = [(s0, ZERO)]
    # success requires room, a matching nonce length and a tag
    ivlen = st.mon.get(key(p, "ivlen"), 12)
    n = inl + tag if seal else inl - tag
    conds = [("eq", nlen - ivlen), ("ge", n), ("ge", maxo - n)]
    cur = [st]
    for cd in conds:
        nxt = []
        for s in cur:
            nxt += [s2 for s2, b in eng.split(s, cd) if b]
        cur = nxt
    for s in cur:
        n2 = s.facts.norm(n)
        eng.emit(s, "mem", p=out, n=n2, w=True, bulk=True)
        eng.emit(s, "aeadop", p=p, out=out, nonce=nonce, nlen=nlen, inp=inp, inl=inl, ad=ad, adl=adl, seal=seal, tag=tag)
        eng.store(s, outl, n2, ["i", 64])
        eng.havoc(s, out, n2, "aead")
        res.append((s, ONE))
    return res


# ---- HMAC -------------------------------------------------------------------------
@model(r"^HMAC_Init_ex$")
def m_hmac_init(eng, st, c):
    p, k, kl, md, impl = c.args
    if rid(p) is None:
        if p is NULL:
            st.mon["libfail"] = True
            return [(st, ZERO)]
        eng.imprecise(st, "unknown HMAC context")
        return [(fail(eng, st, c.short), ZERO), (st, ONE)]
    live(eng, st, p, c.short)
    s0 = fail(eng, st, c.short)
    out = []
    for s, n in eng.as_signed(st, kl, 32):
        if k is not NULL:
            eng.emit(s, "mem", p=k, n=s.facts.norm(n), w=False, bulk=True)
        eng.emit(s, "hmacinit", p=p, key=k, n=n, md=md)
        out.append((s, ONE))
    return [(s0, ZERO)] + out


@model(r"^HMAC_Update$")
def m_hmac_update(eng, st, c):
    p, d, n = c.args
    if rid(p) is None:
        eng.imprecise(st, "unknown HMAC context")
        return [(fail(eng, st, c.short), ZERO), (st, ONE)]
    live(eng, st, p, c.short)
    eng.emit(st, "mem", p=d, n=st.facts.norm(n), w=False, bulk=True)
    s0 = fail(eng, st, c.short)
    eng.emit(st, "hmacupdate", p=p, d=d, n=n)
    return [(s0, ZERO), (st, ONE)]


@model(r"^HMAC_Final$")
def m_hmac_final(eng, st, c):
    p, out, outl = c.args
    if rid(p) is None:
        eng.imprecise(st, "unknown HMAC context")
        return [(fail(eng, st, c.short), ZERO), (st, ONE)]
    live(eng, st, p, c.short)
    s0 = fail(eng, st, c.short)
    md = st.mon.get(key(p, "md"))
    n = L(DIGESTS[md][1]) if md in DIGESTS else atom("mdsize", 0, 64)
    eng.emit(st, "mem", p=out, n=n, w=True, bulk=True)
    eng.havoc(s0, out, n, "hmac")
    eng.havoc(st, out, n, "hmac")
    eng.emit(st, "hmacfinal", p=p, out=out, n=n)
    if outl is not NULL:
        eng.store(st, outl, n, ["i", 32])
    return [(s0, ZERO), (st, ONE)]


@model(r"^HMAC$")
def m_hmac_oneshot(eng, st, c):
    md, k, kl, d, n, out, outl = c.args
    p = acquire(eng, st, "HMAC_CTX")
    st.mon[key(p, "res")] = "freed"
    s0 = fail(eng, st, c.short)
    eng.emit(st, "mem", p=k, n=st.facts.norm(kl), w=False, bulk=True)
    eng.emit(st, "hmacinit", p=p, key=k, n=kl, md=md)
    eng.emit(st, "mem", p=d, n=st.facts.norm(n), w=False, bulk=True)
    eng.emit(st, "hmacupdate", p=p, d=d, n=n)
    m = md.r.name if isinstance(md, Ptr) and md.r.kind == "libconst" else None
    sz = L(DIGESTS[m][1]) if m in DIGESTS else atom("mdsize", 0, 64)
    eng.emit(st, "mem", p=out, n=sz, w=True, bulk=True)
    eng.havoc(s0, out, sz, "hmac")
    eng.havoc(st, out, sz, "hmac")
    eng.emit(st, "hmacfinal", p=p, out=out, n=sz)
    if outl is not NULL:
        eng.store(st, outl, sz, ["i", 32])
    return [(s0, NULL), (st, out)]


# ---- BIO / errors -------------------------------------------------------------------
@model(r"^BIO_new$")
def m_bio_new(eng, st, c):
    # allocation of the error BIO is assumed to succeed (documented)
    return [(st, acquire(eng, st, "BIO"))]


@model(r"^BIO_s_mem$")
def m_bio_smem(eng, st, c):
    return [(st, const_obj(eng, "bio", "BIO_s_mem"))]


@model(r"^BIO_ctrl$")
def m_bio_ctrl(eng, st, c):
    live(eng, st, c.args[0], c.short)
    n = atom("biolen", 0, 1 << 31)
    r = Region("obj", "biodata", size=n)
    eng.store(st, c.args[3], Ptr(r), "p")
    return [(st, n)]


@model(r"^BIO_(mem_contents|get_mem_data|read|write|puts|printf|number_written)$")
def m_bio_misc(eng, st, c):
    live(eng, st, c.args[0], c.short)
    n = atom("biolen", 0, 1 << 31)
    r = Region("obj", "biodata", size=n)
    if c.short == "BIO_mem_contents":
        eng.store(st, c.args[1], Ptr(r), "p")
        eng.store(st, c.args[2], n, ["i", 64])
        return [(st, ONE)]
    return [(st, atom("bio", 0, 1 << 31))]


@model(r"^ERR_")
def m_err(eng, st, c):
    if c.args:
        live(eng, st, c.args[0], c.short)
    return [(st, None if c.ret == "v" else eng.fresh_val(c.ret, c.short))]
