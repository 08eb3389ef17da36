"""Abstract semantics of the C++ standard library, abseil and the C runtime.

Every model works on the abstract state only.  Library containers are modelled
by what their documentation promises; anything not listed here is either
interpreted from its own source (header-only code) or treated as an unknown
call, which marks the path imprecise."""
import re
from .lin import *
from .lin import A, Lin, ZERO, ONE, L
from .engine import *
from .engine import _Null, _Undef, _first_targ, SIZE_HI

LIB = []      # (matcher, handler)


def model(pat):
    def deco(fn):
        LIB.append((re.compile(pat), fn))
        return fn
    return deco


def vec_elem(eng, dn):
    m = re.search(r"std::vector<(.*)", dn)
    if not m:
        return None, 1
    t = _first_targ(m.group(1))
    # cut at the closing bracket of the first template argument list
    return t, (eng.sizeof_name(t) or 1)


def is_trivial(t):
    if t is None:
        return False
    return not (t.startswith("std::") or t.startswith("absl::")) or t.endswith("*")


# ---- vectors --------------------------------------------------------------
def vget(eng, st, p):
    if not isinstance(p, Ptr):
        return None, None
    a = eng.load_at(st, p.r, st.facts.norm(p.off), 8, True)
    b = eng.load_at(st, p.r, st.facts.norm(p.off + 8), 8, True)
    return a, b


def vset(eng, st, p, a, b):
    if not isinstance(p, Ptr):
        return
    off = st.facts.norm(p.off)
    eng.emit(st, "mem", p=p, n=L(24), w=True)
    for i, v in enumerate((a, b, b)):
        eng.store_at(st, p.r, off + 8 * i, 8, v)


def vbuf(eng, st, name, es, elemty):
    r = Region("heap", name, elem=es)
    r.info = dict(elemty=elemty, vec=True)
    return r


def vsize_bytes(eng, st, p):
    a, b = vget(eng, st, p)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
        return b.off - a.off
    if a is NULL:
        return ZERO
    return None


def setend(eng, st, p, a, newend):
    off = st.facts.norm(p.off)
    eng.emit(st, "mem", p=p, n=L(24), w=True)
    eng.store_at(st, p.r, off + 8, 8, newend)
    st.vsize[newend.r.id] = st.facts.norm(newend.off)


def vname(p):
    return "%s%s" % (p.r.name, "" if p.off == ZERO else "+%r" % p.off)


def move_elem(eng, st, dst, src, t, es):
    """Move-construct one element of type t from *src into *dst."""
    if t.startswith("std::basic_string<"):
        v = sget(eng, st, src)
        sput(eng, st, dst, v)
        return
    eng.copy_mem(st, dst, src, L(es))
    if isinstance(src, Ptr) and (t.startswith("std::unique_ptr<") or t.startswith("std::vector<")):
        n = 1 if t.startswith("std::unique_ptr<") else 3
        for i in range(n):
            eng.store_at(st, src.r, st.facts.norm(src.off) + 8 * i, 8, NULL)


def copy_elem(eng, st, dst, src, t, es):
    if t.startswith("std::basic_string<"):
        sput(eng, st, dst, sget(eng, st, src))
        return
    if t.startswith("std::vector<"):
        t2 = _first_targ(t[len("std::vector<"):])
        vec_copy(eng, st, dst, src, t2, eng.sizeof_name(t2) or 1)
        return
    eng.copy_mem(st, dst, src, L(es))


def vec_copy(eng, st, dst, src, t, es):
    a, b = vget(eng, st, src)
    buf = vbuf(eng, st, vname(dst) + ".buf", es, t)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
        n = st.facts.norm(b.off - a.off)
        st.vsize[buf.id] = n
        if is_trivial(t):
            eng.copy_mem(st, Ptr(buf), a, n)
        elif n.is_const() and n.c // es <= 8:
            for i in range(n.c // es):
                copy_elem(eng, st, Ptr(buf, L(i * es)), a.add(L(i * es)), t, es)
        else:
            eng.havoc(st, Ptr(buf), n, "vcopy", src=("vcopy", a.r.id))
        vset(eng, st, dst, Ptr(buf), Ptr(buf, n))
        st.vsize[buf.id] = n
    elif a is NULL:
        vset(eng, st, dst, Ptr(buf), Ptr(buf))
        st.vsize[buf.id] = ZERO
    else:
        n = atom("size?", 0, SIZE_HI)
        vset(eng, st, dst, Ptr(buf), Ptr(buf, n * es))
        st.vsize[buf.id] = n * es
        eng.imprecise(st, "copy of unknown vector")


def span(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
        return b.off - a.off
    if isinstance(a, Chunk) and isinstance(b, Chunk) and a.s is b.s:
        return b.pos - a.pos
    if a is NULL and b is NULL:
        return ZERO
    return None


def iterval(eng, st, a):
    """Iterators are passed by value (coerced pointer) at -O0."""
    return a


@model(r"^std::vector::vector$")
def m_vec_ctor(eng, st, c):
    t, es = vec_elem(eng, c.dn)
    this = c.args[0]
    par = c.dn[c.dn.rindex("::vector"):] if "::vector" in c.dn else ""
    par = params(c.dn)
    buf = vbuf(eng, st, vname(this) + ".buf" if isinstance(this, Ptr) else "vec", es, t)
    if not par or (len(par) == 1 and "std::allocator" == par[0][:14] and "vector" not in par[0][:12]):
        vset(eng, st, this, Ptr(buf), Ptr(buf))
        st.vsize[buf.id] = ZERO
        return [(st, None)]
    p0 = par[0]
    if p0.startswith("std::vector<"):
        src = c.args[1]
        if p0.endswith("&&"):
            a, b = vget(eng, st, src)
            vset(eng, st, this, a, b)
            if isinstance(src, Ptr):
                vset(eng, st, src, NULL, NULL)
        else:
            vec_copy(eng, st, this, src, t, es)
        return [(st, None)]
    if p0.startswith("std::initializer_list<"):
        src, n = c.args[1], c.args[2]
        if isinstance(n, Lin):
            nn = st.facts.norm(n * es)
            st.vsize[buf.id] = nn
            if is_trivial(t):
                eng.copy_mem(st, Ptr(buf), src, nn)
            elif nn.is_const() and nn.c // es <= 32 and isinstance(src, Ptr):
                for i in range(nn.c // es):
                    copy_elem(eng, st, Ptr(buf, L(i * es)), src.add(L(i * es)), t, es)
            else:
                eng.imprecise(st, "initializer list")
            vset(eng, st, this, Ptr(buf), Ptr(buf, nn))
            st.vsize[buf.id] = nn
            return [(st, None)]
    if p0 == "unsigned long" and isinstance(c.args[1], Lin):
        n = st.facts.norm(c.args[1] * es)
        st.vsize[buf.id] = n
        fill(eng, st, Ptr(buf), n, None if len(par) == 1 or par[1].startswith("std::allocator") else c.args[2], es)
        vset(eng, st, this, Ptr(buf), Ptr(buf, n))
        st.vsize[buf.id] = n
        return [(st, None)]
    if len(c.args) >= 3:
        n = span(c.args[1], c.args[2])
        if n is not None and is_trivial(t):
            st.vsize[buf.id] = st.facts.norm(n)
            eng.copy_mem(st, Ptr(buf), c.args[1], n)
            vset(eng, st, this, Ptr(buf), Ptr(buf, st.facts.norm(n)))
            st.vsize[buf.id] = st.facts.norm(n)
            return [(st, None)]
    n = atom("size?", 0, SIZE_HI)
    vset(eng, st, this, Ptr(buf), Ptr(buf, n * es))
    st.vsize[buf.id] = n * es
    eng.imprecise(st, "vector constructor %s" % c.dn[-120:])
    return [(st, None)]


def params(dn):
    """Parameter type list of a demangled function name."""
    s = dn
    if s.endswith(" const"):
        s = s[:-6]
    if not s.endswith(")"):
        return []
    d = 0
    i = len(s) - 1
    while i >= 0:
        if s[i] == ")":
            d += 1
        elif s[i] == "(":
            d -= 1
            if d == 0:
                break
        i -= 1
    body = s[i + 1:-1]
    out, d, cur = [], 0, ""
    for k, ch in enumerate(body):
        if ch in "<([{":
            d += 1
        elif ch in ">)]}":
            if not (ch == ">" and k and body[k - 1] == "-"):
                d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def fill(eng, st, d, n, valp, es):
    if valp is None:
        eng.set_mem(st, d, ZERO, n)
        return
    v = eng.load_at(st, valp.r, st.facts.norm(valp.off), es, False) if isinstance(valp, Ptr) and es <= 8 else None
    if isinstance(v, Lin) and (es == 1 or v == ZERO):
        eng.set_mem(st, d, v, n)
    else:
        eng.havoc(st, d, n, "fill")


@model(r"^std::vector::~vector$")
def m_vec_dtor(eng, st, c):
    return vec_destroy(eng, st, c)


def vec_destroy(eng, st, c):
    t, es = vec_elem(eng, c.dn)
    if t and t.startswith("std::unique_ptr<") and isinstance(c.args[0], Ptr):
        eng.emit(st, "vecdtor", p=c.args[0], t=t)
    return [(st, None)]


@model(r"^std::vector::operator=$")
def m_vec_assign(eng, st, c):
    t, es = vec_elem(eng, c.dn)
    this, src = c.args[0], c.args[1]
    p0 = params(c.dn)[0]
    if p0.endswith("&&"):
        a, b = vget(eng, st, src)
        if this == src:
            return [(st, this)]
        vset(eng, st, this, a, b)
        vset(eng, st, src, NULL, NULL)
    elif p0.startswith("std::initializer_list"):
        buf = vbuf(eng, st, vname(this) + ".buf", es, t)
        n = c.args[2]
        nn = st.facts.norm(n * es)
        st.vsize[buf.id] = nn
        eng.copy_mem(st, Ptr(buf), src, nn)
        vset(eng, st, this, Ptr(buf), Ptr(buf, nn))
        st.vsize[buf.id] = nn
    else:
        if this == src:
            return [(st, this)]
        vec_copy(eng, st, this, src, t, es)
    return [(st, this)]


def ensure_buf(eng, st, p, es, t):
    a, b = vget(eng, st, p)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and a.r.kind not in ("opaque", "wild"):
        return a, b
    key = ("vecgrow", p.r.id, p.off)
    r = eng.elemreg.get(key)
    if r is None:
        r = vbuf(eng, st, vname(p) + ".buf", es, t)
        eng.elemreg[key] = r
    if a is not NULL:
        eng.imprecise(st, "vector of unknown shape")
    vset(eng, st, p, Ptr(r), Ptr(r))
    st.vsize[r.id] = ZERO
    return Ptr(r), Ptr(r)


def open_gap(eng, st, pos, end, n):
    """Moves the bytes [pos, end) up by n bytes; what they were stays known."""
    f, r = st.facts, pos.r
    lo, hi, n = f.norm(pos.off), f.norm(end.off), f.norm(n)
    m = eng.rm(st, r)
    segs, cells = [], []
    for s in m.segs:
        if f.entails_ge(lo - s.hi) or f.entails_ge(s.lo - hi):
            continue
        s_lo = s.lo if f.entails_ge(s.lo - lo) else lo if f.entails_ge(lo - s.lo) else None
        s_hi = s.hi if f.entails_ge(hi - s.hi) else hi if f.entails_ge(s.hi - hi) else None
        if s_lo is not None and s_hi is not None:
            segs.append((s_lo, s_hi, s.src, s.delta))
    for k, (sz, v) in m.cells.items():
        if f.entails_ge(k - lo) and f.entails_ge(hi - k - sz):
            cells.append((k, sz, v))
    if not f.entails_ge(lo - hi):
        eng.havoc(st, pos, f.norm(hi + n - lo), "insert")
    for a, b, src, d in segs:
        eng.add_seg(st, r, f.norm(a + n), f.norm(b + n), src, f.norm(d - n))
    m = eng.wm(st, r)
    for k, sz, v in cells:
        m.cells[f.norm(k + n)] = (sz, v)


@model(r"^std::vector::insert$|^std::vector::_M_range_insert$|^std::vector::_M_insert_range$")
def m_vec_insert(eng, st, c):
    t, es = vec_elem(eng, c.dn)
    this = c.args[0]
    a, b = ensure_buf(eng, st, this, es, t)
    pos = c.args[1]
    eng.emit(st, "vecgrow", p=this)
    par = params(c.dn)
    at_end = isinstance(pos, Ptr) and pos.r is b.r and st.facts.entails_eq(pos.off - b.off)
    ret = pos
    if len(c.args) >= 4:
        n = span(c.args[2], c.args[3])
        if n is None and isinstance(c.args[2], Lin):
            n = c.args[2] * es
            if at_end:
                setend(eng, st, this, a, b.add(st.facts.norm(n)))
                fill(eng, st, b, n, c.args[3], es)
                return [(st, ret)]
        if n is not None and at_end and (is_trivial(t)):
            setend(eng, st, this, a, b.add(st.facts.norm(n)))
            eng.copy_mem(st, b, c.args[2], n)
            return [(st, ret)]
        if n is not None and isinstance(pos, Ptr) and pos.r is b.r and is_trivial(t):
            # insertion in the middle
            eng.emit(st, "mem", p=c.args[2], n=n, w=False, bulk=True)
            nb = b.add(st.facts.norm(n))
            open_gap(eng, st, pos, b, n)
            setend(eng, st, this, a, nb)
            eng.copy_mem(st, pos, c.args[2], n)
            return [(st, ret)]
    elif len(c.args) == 3 and at_end and is_trivial(t):
        setend(eng, st, this, a, b.add(L(es)))
        eng.copy_mem(st, b, c.args[2], L(es))
        return [(st, ret)]
    elif len(c.args) == 3 and isinstance(pos, Ptr) and pos.r is b.r and (is_trivial(t) or t.startswith("std::unique_ptr<") and par and par[-1].endswith("&&")):
        open_gap(eng, st, pos, b, L(es))
        setend(eng, st, this, a, b.add(L(es)))
        move_elem(eng, st, pos, c.args[2], t, es) if not is_trivial(t) else eng.copy_mem(st, pos, c.args[2], L(es))
        return [(st, ret)]
    n = atom("inserted?", 0, SIZE_HI)
    eng.havoc(st, a, None, "insert?")
    setend(eng, st, this, a, b.add(n * es))
    eng.imprecise(st, "vector insert")
    return [(st, ret)]


@model(r"^std::vector::(push_back|emplace_back)$")
def m_vec_push(eng, st, c):
    t, es = vec_elem(eng, c.dn)
    this = c.args[0]
    a, b = ensure_buf(eng, st, this, es, t)
    eng.emit(st, "vecgrow", p=this)
    setend(eng, st, this, a, b.add(L(es)))
    if c.short.endswith("push_back") or (len(c.args) == 2):
        par = params(c.dn)
        src = c.args[1]
        p0 = par[0] if par else ""
        mv = p0.endswith("&&")
        same = (t in p0)
        if c.short.endswith("emplace_back") and not same and not is_trivial(t):
            if t.startswith("std::basic_string<"):
                v = cstr_val(eng, st, src) if isinstance(src, Ptr) else Opq("str", "?")
                sput(eng, st, b, Opq("str", fresh_id(), "emplaced"))
            elif t.startswith("std::unique_ptr<"):
                eng.copy_mem(st, b, src, L(8))
                if isinstance(src, Ptr):
                    eng.store_at(st, src.r, st.facts.norm(src.off), 8, NULL)
            else:
                eng.havoc(st, b, L(es), "emplace")
                eng.imprecise(st, "emplace_back")
        elif mv:
            move_elem(eng, st, b, src, t, es)
        else:
            copy_elem(eng, st, b, src, t, es)
    elif len(c.args) == 1:
        eng.set_mem(st, b, ZERO, L(es))
    else:
        # aggregate / two-argument emplacement: Iovec-like structs
        eng.havoc(st, b, L(es), "emplace")
        eng.imprecise(st, "emplace_back")
    return [(st, b)]


@model(r"^std::vector::resize$")
def m_vec_resize(eng, st, c):
    t, es = vec_elem(eng, c.dn)
    this = c.args[0]
    a, b = ensure_buf(eng, st, this, es, t)
    n = c.args[1]
    eng.emit(st, "vecgrow", p=this)
    if not isinstance(n, Lin):
        n = atom("resize?", 0, SIZE_HI)
    out = []
    cur = b.off - a.off
    for s, g in eng.split(st, ("ge", n * es - cur)):
        setend(eng, s, this, a, Ptr(a.r, s.facts.norm(a.off + n * es)))
        if g:
            fill(eng, s, b, s.facts.norm(n * es - cur), c.args[2] if len(c.args) > 2 else None, es)
        out.append((s, None))
    return out


@model(r"^std::vector::(reserve|shrink_to_fit)$")
def m_vec_reserve(eng, st, c):
    return [(st, None)]


@model(r"^std::vector::clear$")
def m_vec_clear(eng, st, c):
    t, es = vec_elem(eng, c.dn)
    a, b = ensure_buf(eng, st, c.args[0], es, t)
    setend(eng, st, c.args[0], a, a)
    return [(st, None)]


@model(r"^std::vector::assign$")
def m_vec_assign2(eng, st, c):
    t, es = vec_elem(eng, c.dn)
    this = c.args[0]
    a, b = ensure_buf(eng, st, this, es, t)
    buf = vbuf(eng, st, vname(this) + ".buf", es, t)
    n = span(c.args[1], c.args[2]) if len(c.args) > 2 else None
    if n is not None and is_trivial(t):
        st.vsize[buf.id] = st.facts.norm(n)
        eng.copy_mem(st, Ptr(buf), c.args[1], n)
    elif len(c.args) > 2 and isinstance(c.args[1], Lin):
        n = c.args[1] * es
        st.vsize[buf.id] = st.facts.norm(n)
        fill(eng, st, Ptr(buf), n, c.args[2], es)
    else:
        n = atom("assign?", 0, SIZE_HI) * es
        eng.imprecise(st, "vector assign")
    n = st.facts.norm(n)
    vset(eng, st, this, Ptr(buf), Ptr(buf, n))
    st.vsize[buf.id] = n
    return [(st, None)]


@model(r"^std::vector::swap$")
def m_vec_swap(eng, st, c):
    a, b = vget(eng, st, c.args[0])
    x, y = vget(eng, st, c.args[1])
    vset(eng, st, c.args[0], x, y)
    vset(eng, st, c.args[1], a, b)
    return [(st, None)]


@model(r"^std::vector::pop_back$")
def m_vec_pop(eng, st, c):
    t, es = vec_elem(eng, c.dn)
    a, b = vget(eng, st, c.args[0])
    if isinstance(b, Ptr):
        setend(eng, st, c.args[0], a, b.add(L(-es)))
    return [(st, None)]


@model(r"^std::vector::erase$")
def m_vec_erase(eng, st, c):
    t, es = vec_elem(eng, c.dn)
    this = c.args[0]
    a, b = vget(eng, st, this)
    pos = c.args[1]
    if len(c.args) == 3:
        n = span(pos, c.args[2])
    else:
        n = L(es)
    if n is None or not isinstance(b, Ptr) or not isinstance(pos, Ptr):
        eng.imprecise(st, "vector erase")
        return [(st, pos)]
    tail = b.off - (pos.off + n)
    if not st.facts.entails_eq(tail):
        if is_trivial(t):
            eng.copy_mem(st, pos, Ptr(b.r, pos.off + n), st.facts.norm(tail))
        else:
            eng.imprecise(st, "vector erase")
    setend(eng, st, this, a, b.add(st.facts.norm(-n)))
    return [(st, pos)]


# ---- strings -----------------------------------------------------------------
_ids = [0]


def fresh_id():
    _ids[0] += 1
    return _ids[0]


def resolve(st, v):
    """Value of a string that was given out for in-place modification."""
    if len(v.t) == 4 and v.t[1] == "mut":
        n = st.mon.get(("dirty", v.t[2]), 0)
        return Opq("str", "edited", v.t[2], n) if n else v.t[3]
    return v


def smut(eng, st, p):
    """Data pointer of the string at p for writing."""
    v = sget(eng, st, p)
    if not isinstance(p, Ptr):
        return sdata(eng, st, v)
    raw = eng.rm(st, p.r).cells.get(st.facts.norm(p.off))
    if raw is None or len(raw[1].t) != 4 or raw[1].t[1] != "mut":
        r = Region("strmut", "data(%r)" % (v,))
        r.size = ssize(eng, st, v) + 1
        src = sdata(eng, st, v)
        r.info = dict(orig=src.r)
        nv = Opq("str", "mut", r.id, v)
        eng.store_at(st, p.r, st.facts.norm(p.off), 32, nv)
        st.mon = dict(st.mon)
        m = eng.rm(st, src.r)
        if src.r.kind == "strmut" or m.segs or m.cells:
            eng.copy_mem(st, Ptr(r), src, ssize(eng, st, v))
            st.mon.pop(("dirty", r.id), None)
        else:
            eng.add_seg(st, r, ZERO, r.size, ("init", src.r.id), ZERO)
        return Ptr(r)
    return Ptr(REGS[raw[1].t[2]])


def cat(*vals):
    """Concatenation in normal form."""
    out = []
    for v in vals:
        for x in (v.t[2:] if v.t[1] == "cat" else (v,)):
            if x.t[:2] == ("str", "lit"):
                if not x.t[2]:
                    continue
                if out and out[-1].t[:2] == ("str", "lit"):
                    out[-1] = Opq("str", "lit", out[-1].t[2] + x.t[2])
                    continue
            out.append(x)
    if not out:
        return Opq("str", "lit", "")
    return out[0] if len(out) == 1 else Opq("str", "cat", *out)


def streq(eng, st, a, b):
    """[(state, bool)]: whether two string values are equal."""
    if a == b:
        return [(st, True)]
    if a.t[:2] == ("str", "lit") and b.t[:2] == ("str", "lit"):
        return [(st, False)]
    if a.t[1] == b.t[1] == "prefix" and a.t[3] == b.t[3]:
        # equal strings have equal prefixes; different ones may have, too
        out = []
        for s, e in streq(eng, st, a.t[2], b.t[2]):
            if e:
                out.append((s, True))
            else:
                x = app("streq", (a, b), 0, 1)
                s.facts.note_app(x.t[0][0])
                out += eng.split(s, ("ne", x))
        return out
    if repr(b) < repr(a):
        a, b = b, a
    x = app("streq", (a, b), 0, 1)
    st.facts.note_app(x.t[0][0])
    sa, sb = ssize(eng, st, a), ssize(eng, st, b)
    if st.facts.entails_ne(sa - sb):
        st.facts.add_eq(x)
        return [(st, False)]
    d = eng.decide(st, ("ne", x))
    if d is None:
        n = st.facts.norm(sa)
        if n.is_const() and n.c <= 16 and st.facts.entails_eq(sa - sb):
            pa, pb = sdata(eng, st, a), sdata(eng, st, b)
            same = True
            for k in range(n.c):
                u, v = eng.load_at(st, pa.r, L(k), 1, False), eng.load_at(st, pb.r, L(k), 1, False)
                if not (isinstance(u, Lin) and isinstance(v, Lin)) or not st.facts.entails_eq(u - v):
                    same = False
                    if isinstance(u, Lin) and isinstance(v, Lin) and st.facts.entails_ne(u - v):
                        st.facts.add_eq(x)
                        return [(st, False)]
            if same:
                st.facts.add_eq(x - 1)
                return [(st, True)]
    out = []
    for s, e in eng.split(st, ("ne", x)):
        if e:
            s.facts.add_eq(sa - sb)
            if s.facts.dead:
                continue
        out.append((s, e))
    return out


def sget(eng, st, p):
    if not isinstance(p, Ptr):
        return Opq("str", "?", fresh_id())
    off = st.facts.norm(p.off)
    m = eng.rm(st, p.r)
    c = m.cells.get(off)
    if c is not None and isinstance(c[1], Opq):
        return resolve(st, c[1])
    if c is None and p.r.kind in ("obj", "opaque", "param") and off.is_const() and not m.clob:
        i = p.r.init.get(off.c)
        if i is not None and isinstance(i[1], Opq):
            return i[1]
        f = eng.field_at(p.r, off.c)
        nm = p.r.name
        if f is not None and f[3]:
            nm = p.r.name + "." + f[3]
        v = Opq("str", nm)
        p.r.init[off.c] = (32, v)
        return v
    v = Opq("str", "ld", p.r.name, p.r.id, off, fresh_id())
    if c is None:
        m2 = eng.wm(st, p.r)
        m2.cells[off] = (32, v)
    return v


def sput(eng, st, p, v):
    if isinstance(p, Ptr):
        eng.emit(st, "mem", p=p, n=L(32), w=True)
        eng.store_at(st, p.r, st.facts.norm(p.off), 32, v)


def ssize(eng, st, v):
    if len(v.t) == 3 and v.t[1] == "lit":
        return Lin(len(v.t[2]))
    if v.t[1] == "cat":
        n = ZERO
        for x in v.t[2:]:
            n = n + ssize(eng, st, x)
        return n
    if v.t[1] == "edited":
        return REGS[v.t[2]].size - 1
    if v.t[1] in ("at", "fill") and isinstance(v.t[-1], Lin):
        return v.t[-1]
    x = app("strsize", (v,), 0, SIZE_HI)
    st.facts.note_app(x.t[0][0])
    return x


def sdata(eng, st, v):
    if v.t[1] == "edited" and st.mon.get(("dirty", v.t[2]), 0) == v.t[3]:
        return Ptr(REGS[v.t[2]])
    key = ("sdata", v)
    r = eng.elemreg.get(key)
    if r is None:
        r = Region("strdata", "data(%r)" % (v,))
        r.info = dict(val=v)
        eng.elemreg[key] = r
    if r.size is None:
        r.size = ssize(eng, st, v) + 1
    return Ptr(r)


def lit_at(eng, p):
    """Literal text at a pointer into a constant global, or None."""
    if isinstance(p, Ptr) and p.r.kind == "global" and p.off.is_const():
        g = p.r.info
        if g and "init" in g:
            i = g["init"]
            if i[0] == "ca" and i[1][1] == 8:
                b = bytes(int(x) & 0xff for x in i[2][p.off.c:])
                return b
            if i[0] == "z":
                return b"\0"
    return None


def cstrlen_at(st, p):
    return app("cstrlenat", (p.r.id, st.facts.norm(p.off)), 0, SIZE_HI)


def cstr_val(eng, st, p, n=None):
    """String value of the characters at p (length n, or NUL-terminated)."""
    b = lit_at(eng, p)
    if b is not None:
        if n is None:
            return Opq("str", "lit", b.split(b"\0")[0].decode("latin1"))
        n = st.facts.norm(n)
        if n.is_const():
            return Opq("str", "lit", b[:n.c].decode("latin1"))
    if isinstance(p, Ptr) and p.r.kind == "strdata" and st.facts.norm(p.off) == ZERO:
        v = p.r.info["val"]
        if n is None and v.t[1] == "lit":
            return Opq("str", "lit", v.t[2].split("\0")[0])
        if n is None:
            return Opq("str", "cstrof", v)      # cut at the first NUL
        if st.facts.entails_eq(n - ssize(eng, st, v)):
            return v
        if st.facts.entails_eq(n - app("cstrlen", (v,), 0, SIZE_HI)):
            return Opq("str", "cstrof", v)
    if isinstance(p, Ptr) and p.r.kind == "strmut" and st.facts.norm(p.off) == ZERO:
        o = p.r.info["orig"].info["val"]
        k = st.mon.get(("dirty", p.r.id), 0)
        v = Opq("str", "edited", p.r.id, k) if k else o
        if n is None:
            return Opq("str", "cstrof", v)
        if st.facts.entails_eq(n - ssize(eng, st, o)):
            return v
    if isinstance(p, Ptr) and n is not None and st.facts.entails_eq(n - cstrlen_at(st, p)):
        n = None
    if eng.taint is not None:
        w = eng.taint.bytes(st, p, n)
        if w:
            return Opq("str", "at", p.r.name if isinstance(p, Ptr) else repr(p), Opq("secret", w), fresh_id())
    if isinstance(p, Ptr):
        return Opq("str", "at", p.r.name, p.r.id, st.facts.norm(p.off), "nul" if n is None else st.facts.norm(n))
    return Opq("str", "at", repr(p), "nul" if n is None else st.facts.norm(n), fresh_id())


@model(r"^std::basic_string::")
def m_string(eng, st, c):
    meth = c.short[len("std::basic_string::"):]
    a = c.args
    par = params(c.dn)
    if meth == "basic_string":
        if not par or par[0].startswith("std::allocator"):
            sput(eng, st, a[0], Opq("str", "lit", ""))
        elif par[0].startswith("std::basic_string<"):
            v = sget(eng, st, a[1])
            sput(eng, st, a[0], v)
            if par[0].endswith("&&"):
                sput(eng, st, a[1], Opq("str", "lit", ""))
        elif par[0] == "char const*" and len(par) > 1 and par[1] == "unsigned long":
            sput(eng, st, a[0], cstr_val(eng, st, a[1], a[2]))
        elif par[0] == "char const*" and len(par) > 1 and par[1].startswith("std::allocator"):
            sput(eng, st, a[0], cstr_val(eng, st, a[1]))
        elif len(a) >= 3 and span(a[1], a[2]) is not None:
            sput(eng, st, a[0], cstr_val(eng, st, a[1], span(a[1], a[2])))
        elif par[0] == "unsigned long" and isinstance(a[1], Lin):
            n = st.facts.norm(a[1])
            v = Opq("str", "fill", fresh_id(), n)
            eng.set_mem(st, sdata(eng, st, v), a[2] if isinstance(a[2], Lin) else atom("fill", 0, 255), n)
            sput(eng, st, a[0], v)
        else:
            sput(eng, st, a[0], Opq("str", "?", fresh_id()))
        return [(st, None)]
    if meth == "~basic_string":
        return [(st, None)]
    if meth in ("size", "length"):
        return [(st, ssize(eng, st, sget(eng, st, a[0])))]
    if meth == "empty":
        return [(st, ("eq", ssize(eng, st, sget(eng, st, a[0]))))]
    const = c.dn.rstrip().endswith(" const") or (isinstance(a[0], Ptr) and a[0].r.kind in ("param", "obj", "global"))
    if meth in ("data", "c_str", "begin", "cbegin", "_M_data"):
        v = sget(eng, st, a[0])
        return [(st, sdata(eng, st, v) if const else smut(eng, st, a[0]))]
    if meth in ("end", "cend"):
        v = sget(eng, st, a[0])
        return [(st, (sdata(eng, st, v) if const else smut(eng, st, a[0])).add(ssize(eng, st, v)))]
    if meth in ("operator=", "assign"):
        if par and par[0].startswith("std::basic_string<"):
            sput(eng, st, a[0], sget(eng, st, a[1]))
        elif par and par[0] == "char const*":
            sput(eng, st, a[0], cstr_val(eng, st, a[1], a[2] if len(a) > 2 else None))
        elif len(a) >= 3 and span(a[1], a[2]) is not None:
            sput(eng, st, a[0], cstr_val(eng, st, a[1], span(a[1], a[2])))
        else:
            sput(eng, st, a[0], Opq("str", "?", fresh_id()))
        return [(st, a[0])]
    if meth in ("operator+=", "append", "push_back", "insert", "resize", "clear", "replace", "erase", "reserve",
                "shrink_to_fit", "pop_back"):
        v = sget(eng, st, a[0])
        if meth == "clear":
            sput(eng, st, a[0], Opq("str", "lit", ""))
        elif meth not in ("reserve", "shrink_to_fit"):
            src = None
            if par and par[0].startswith("std::basic_string<"):
                src = sget(eng, st, a[1])
            elif par and par[0] == "char const*":
                src = cstr_val(eng, st, a[1], a[2] if len(a) > 2 and isinstance(a[2], Lin) else None)
            elif meth == "insert" and len(par) == 2 and par[1] == "char const*":
                src = cstr_val(eng, st, a[2])
            if src is None and meth == "append" and len(a) >= 3 and span(a[1], a[2]) is not None:
                src = cstr_val(eng, st, a[1], span(a[1], a[2]))
            if src is not None and meth in ("operator+=", "append") and len(par) <= 2:
                nv = cat(v, src)
            elif meth == "resize" and len(a) > 1 and isinstance(a[1], Lin) and st.facts.entails_eq(a[1] - ssize(eng, st, v)):
                nv = v
            elif meth == "resize" and len(a) > 1 and isinstance(a[1], Lin) and st.facts.entails_eq(ssize(eng, st, v)):
                nv = Opq("str", "fill", fresh_id(), st.facts.norm(a[1]))
                eng.set_mem(st, sdata(eng, st, nv), a[2] if len(a) > 2 and isinstance(a[2], Lin) else ZERO, a[1])
            else:
                nv = Opq("str", meth, v, src if src is not None else fresh_id(), *[x for x in a[1:] if isinstance(x, Lin) and src is None and eng.taint is not None])
                if meth == "resize" and len(a) > 1 and isinstance(a[1], Lin):
                    st.facts.add_eq(ssize(eng, st, nv) - a[1])
            sput(eng, st, a[0], nv)
        return [(st, a[0])]
    if meth == "compare" and len(a) == 2:
        v = sget(eng, st, a[0])
        w = sget(eng, st, a[1]) if par[0].startswith("std::basic_string<") else cstr_val(eng, st, a[1])
        return cmp_result(eng, streq(eng, st, v, w), c.ret)
    if meth == "compare" and len(a) in (4, 6) and par[2].startswith("std::basic_string<") and a[1] == ZERO and isinstance(a[2], Lin) and (
            len(a) == 4 or a[4] == ZERO and isinstance(a[5], Lin)):
        out = []
        for s, v in sprefix(eng, st, sget(eng, st, a[0]), a[2]):
            w = sget(eng, s, a[3])
            for s2, w2 in sprefix(eng, s, w, a[5]) if len(a) == 6 else [(s, w)]:
                out += cmp_result(eng, streq(eng, s2, v, w2), c.ret)
        return out
    if meth in ("compare", "find", "rfind"):
        eng.imprecise(st, "string::" + meth)
        return [(st, eng.fresh_val(c.ret, meth))]
    if meth in ("operator[]", "at", "front", "back"):
        v = sget(eng, st, a[0])
        b = sdata(eng, st, v) if const else smut(eng, st, a[0])
        k = ssize(eng, st, v) - 1 if meth == "back" else a[1] if len(a) > 1 and isinstance(a[1], Lin) else ZERO
        return [(st, b.add(k))]
    if meth == "substr":
        v = sget(eng, st, a[1])
        whole = len(a) >= 4 and a[2] == ZERO and isinstance(a[3], Lin) and (
            st.facts.entails_ge(a[3] - ssize(eng, st, v)) or a[3].is_const() and a[3].c in (-1, (1 << 64) - 1))
        if not whole and len(a) >= 4 and a[2] == ZERO and isinstance(a[3], Lin):
            out = sprefix(eng, st, v, a[3])
            for s, x in out:
                sput(eng, s, a[0], x)
            return [(s, None) for s, x in out]
        sput(eng, st, a[0], v if whole else Opq("str", "substr", v, fresh_id()))
        return [(st, None)]
    if meth == "swap":
        v, w = sget(eng, st, a[0]), sget(eng, st, a[1])
        sput(eng, st, a[0], w)
        sput(eng, st, a[1], v)
        return [(st, None)]
    eng.imprecise(st, "string::" + meth)
    if c.ret == "v":
        return [(st, None)]
    return [(st, eng.fresh_val(c.ret, "string::" + meth))]


def sprefix(eng, st, v, n):
    """[(state, value)]: the first n characters of v, all of it if shorter."""
    n = st.facts.norm(n)
    sz = ssize(eng, st, v)
    if n.is_const() and n.c < 0:
        return [(st, v)]
    out = []
    for s, fits in eng.split(st, ("ge", n - sz)):
        if fits:
            out.append((s, v))
        elif v.t[1] == "lit" and n.is_const():
            out.append((s, Opq("str", "lit", v.t[2][:n.c])))
        else:
            x = Opq("str", "prefix", v, n)
            s.facts.add_eq(ssize(eng, s, x) - n)
            out.append((s, x))
    return out


def cmp_result(eng, outs, ret):
    """memcmp/compare-like integer: 0 exactly when equal."""
    res = []
    for s, e in outs:
        if e:
            res.append((s, ZERO))
        else:
            x = eng.fresh_val(ret, "cmp")
            s.facts.add_ne(x)
            res.append((s, x))
    return res


@model(r"^std::operator\+$")
def m_string_plus(eng, st, c):
    vals = []
    for x, p in zip(c.args[1:], params(c.dn)):
        vals.append(sget(eng, st, x) if p.startswith("std::basic_string") else cstr_val(eng, st, x) if p.startswith("char const*") else Opq("str", "?", fresh_id()))
    sput(eng, st, c.args[0], cat(*vals))
    return [(st, None)]


@model(r"^std::operator(==|!=)$")
def m_string_eq(eng, st, c):
    par = params(c.dn)
    if not any(p.startswith("std::basic_string<") for p in par):
        return NotImplemented
    vals = [sget(eng, st, x) if p.startswith("std::basic_string") else cstr_val(eng, st, x) for x, p in zip(c.args, par)]
    eq = c.short.endswith("==")
    return [(s2, ("c", e == eq)) for s2, e in streq(eng, st, *vals)]


@model(r"^absl::(EqualsIgnoreCase|StartsWith|EndsWith|StrContains|StartsWithIgnoreCase|EndsWithIgnoreCase)$")
def m_str_pred(eng, st, c):
    """Weaker than equality: true for equal strings, free otherwise."""
    a = c.args
    if len(a) == 4 and all(isinstance(x, (Ptr, _Null)) for x in (a[0], a[2])):
        v, w = cstr_val(eng, st, a[0], a[1]), cstr_val(eng, st, a[2], a[3])
        out = []
        for s, e in streq(eng, st, v, w):
            if e:
                out.append((s, ("c", True)))
            else:
                x = app(c.short, (v, w), 0, 1)
                s.facts.note_app(x.t[0][0])
                out.append((s, ("ne", x)))
        return out
    eng.imprecise(st, c.short)
    return [(st, eng.fresh_val(c.ret, c.short))]


@model(r"^(std::)?(tolower|toupper|isalpha|isdigit|isspace|isupper|islower|isalnum|isprint|isxdigit|ispunct|iscntrl)$|^absl::ascii_(tolower|toupper|isalpha|isdigit|isspace|isupper|islower|isalnum|isprint|isxdigit)$")
def m_ctype(eng, st, c):
    nm = c.short.split("::")[-1].replace("ascii_", "")
    x = c.args[0]
    if not isinstance(x, Lin):
        return [(st, eng.fresh_val(c.ret, nm))]
    r = app(nm, (st.facts.norm(x),), 0, 255)
    st.facts.note_app(r.t[0][0])
    if c.ret == "i1":
        return [(st, ("ne", r))]
    return [(st, r)]


@model(r"^absl::AlphaNum::AlphaNum$")
def m_alphanum(eng, st, c):
    par = params(c.dn)
    v = None
    if par:
        if par[0].startswith("std::basic_string<"):
            v = sget(eng, st, c.args[1])
        elif par[0].startswith("char const*"):
            v = cstr_val(eng, st, c.args[1])
        elif par[0].startswith("absl::string_view") or par[0].startswith("std::basic_string_view"):
            v = cstr_val(eng, st, c.args[1], c.args[2]) if len(c.args) > 2 else None
        elif isinstance(c.args[1], Lin):
            x = st.facts.norm(c.args[1])
            v = Opq("str", "lit", str(x.c)) if x.is_const() and par[0] not in ("char", "bool", "float", "double") else Opq("str", "dec", x)
        elif eng.taint is not None and isinstance(c.args[1], Ptr) and re.match(r"absl::(Hex|Dec)\b", par[0]):
            x = eng.load(st, c.args[1], ["i", 64])
            v = Opq("str", "dec", x) if isinstance(x, Lin) else None
    if v is None:
        v = Opq("str", "fmt", fresh_id())
    sput(eng, st, c.args[0], v)
    return [(st, None)]


@model(r"^absl::StrCat$")
def m_strcat2(eng, st, c):
    if c.ret != "v" or not all(isinstance(x, Ptr) for x in c.args) or any(p.startswith("std::initializer") for p in params(c.dn)):
        return m_strcat(eng, st, c)
    n = sum(1 for p in params(c.dn) if p.startswith("absl::AlphaNum"))
    if n + 1 != len(c.args):
        return m_strcat(eng, st, c)
    sput(eng, st, c.args[0], cat(*[sget(eng, st, x) for x in c.args[1:]]))
    return [(st, None)]


def fmt_parts(eng, st, args, par):
    """What the arguments of a formatting function contribute to its result."""
    out, i = [], 0
    for q in par:
        if i >= len(args):
            break
        x = args[i]
        i += 1
        k = re.sub(r"^(std::__cxx11::|std::)", "", q)
        if k.startswith("basic_string_view") or k.startswith("absl::string_view"):
            if q.rstrip().endswith("&"):
                if isinstance(x, Ptr):
                    d, n = eng.load(st, x.add(8), "p"), eng.load(st, x, ["i", 64])
                    out.append(cstr_val(eng, st, d, n if isinstance(n, Lin) else None))
            elif i < len(args):
                # passed as (length, data) or (data, length)
                y = args[i]
                i += 1
                if isinstance(x, Lin):
                    x, y = y, x
                out.append(cstr_val(eng, st, x, y if isinstance(y, Lin) else None))
        elif k.startswith("basic_string<") or k.startswith("absl::AlphaNum"):
            if isinstance(x, Ptr):
                out.append(sget(eng, st, x))
        elif q.startswith("char const* const&") or q.startswith("char* const&"):
            if isinstance(x, Ptr):
                out.append(cstr_val(eng, st, eng.load(st, x, "p")))
        elif q.startswith("char const*"):
            out.append(cstr_val(eng, st, x))
        elif isinstance(x, Lin):
            out.append(x)
        elif isinstance(x, Ptr) and re.match(r"(unsigned |signed )?(char|short|int|long|long long) const&$", q):
            w = 8 if "char" in q else 16 if "short" in q else 32 if "int" in q else 64
            v = eng.load(st, x, ["i", w])
            if isinstance(v, Lin):
                out.append(v)
    return [x for x in out if x is not None]


@model(r"^std::to_string$|^absl::StrCat$|^absl::StrFormat$|^absl::str_format_internal::FormatPack$|^absl::Substitute$|^absl::StrJoin$|^absl::strings_internal::CatPieces$|^absl::CEscape$|^absl::CHexEscape$|^absl::Utf8SafeCEscape$|^absl::(WebSafe)?Base64Escape$|^absl::BytesToHexString$|^absl::AsciiStrTo")
def m_strcat(eng, st, c):
    if c.ret != "v":
        return [(st, eng.fresh_val(c.ret, c.short))]
    parts = []
    if eng.taint is not None:
        parts = fmt_parts(eng, st, c.args[1:], params(c.dn))
    sput(eng, st, c.args[0], Opq("str", "fmt", fresh_id(), *parts))
    return [(st, None)]


@model(r"^absl::StrAppend$|^absl::StrAppendFormat$")
def m_strappend(eng, st, c):
    parts = []
    if eng.taint is not None:
        parts = [sget(eng, st, c.args[0])] + fmt_parts(eng, st, c.args[1:], params(c.dn)[1:])
    sput(eng, st, c.args[0], Opq("str", "fmt", fresh_id(), *parts))
    return [(st, None)]


@model(r"^(printf|fprintf|puts|fputs|fwrite|perror|syslog|vprintf|putchar|fputc|write)$|^std::operator<<$|^std::basic_ostream::(write|put|operator<<)$")
def m_output(eng, st, c):
    stream = c.dn.startswith("std::")
    done = [(st, c.args[0])] if "<<" in c.short or stream else [(st, eng.fresh_val(c.ret, c.short) if c.ret != "v" else None)]
    if stream and not isinstance(c.args[0], (Ptr, Opq)):
        return NotImplemented
    if eng.taint is None:
        return done
    vals = []
    for i, x in enumerate(c.args):
        if isinstance(x, (Ptr, Chunk)) and not (isinstance(x, Ptr) and x.r.kind == "global"):
            nx = c.args[i + 1] if i + 1 < len(c.args) and isinstance(c.args[i + 1], Lin) else None
            par = params(c.dn)
            vals.append(sget(eng, st, x) if i < len(par) and par[i].startswith("std::basic_string<") else cstr_val(eng, st, x, nx))
        elif isinstance(x, Lin):
            vals.append(x)
    eng.emit(st, "output", vals=vals)
    return done


@model(r"^absl::str_format_internal::.*$|^absl::FormatSpec.*")
def m_alnum(eng, st, c):
    if c.ret == "v":
        return [(st, None)]
    return [(st, eng.fresh_val(c.ret, "fmt"))]


@model(r"^strnlen$")
def m_strnlen(eng, st, c):
    out = []
    for s, x in m_strlen(eng, st, c):
        for s2, short in eng.split(s, ("ge", st.facts.norm(c.args[1]) - x)) if isinstance(c.args[1], Lin) else []:
            out.append((s2, x if short else c.args[1]))
    return out or [(st, eng.fresh_val(c.ret, "strnlen"))]


@model(r"^absl::string_view::StrlenInternal$|^absl::StrlenInternal$|^strlen$|^std::char_traits::length$")
def m_strlen(eng, st, c):
    p = c.args[0]
    b = lit_at(eng, p)
    if b is not None:
        return [(st, Lin(len(b.split(b"\0")[0])))]
    if isinstance(p, Ptr) and p.r.kind == "strdata" and st.facts.norm(p.off) == ZERO:
        v = p.r.info["val"]
        x = app("cstrlen", (v,), 0, SIZE_HI)
        st.facts.note_app(x.t[0][0])
        st.facts.add_ge(ssize(eng, st, v) - x)
        return [(st, x)]
    if isinstance(p, Ptr):
        x = cstrlen_at(st, p)
        st.facts.note_app(x.t[0][0])
        return [(st, x)]
    return [(st, atom("strlen", 0, SIZE_HI))]


@model(r"^std::allocator::|^std::__new_allocator::|^std::allocator_traits::|^absl::NullSafeStringView")
def m_noop_alloc(eng, st, c):
    if c.short.endswith("::allocator") or c.short.endswith("::~allocator") or "__new_allocator::" in c.short and c.ret == "v":
        return [(st, None)]
    return NotImplemented


# ---- absl::Status ---------------------------------------------------------------
# A status is represented by its inlined representation: 4*code + STATUS_BASE,
# where STATUS_BASE is read off absl's own CodeToInlinedRep.
def status_base(eng):
    b = getattr(eng, "_status_base", None)
    if b is None:
        b = 0
        for f in eng.p.find("absl::Status::CodeToInlinedRep"):
            r = eng.run(f, [ZERO], State())
            if len(r) == 1 and isinstance(r[0][1], Lin) and r[0][1].is_const():
                b = r[0][1].c
        eng._status_base = b
    return b


def status_ok(eng, rep):
    return ("eq", rep - status_base(eng))


@model(r"^absl::Status::Status$")
def m_status_ctor(eng, st, c):
    par = params(c.dn)
    if len(par) == 2 and par[0] == "absl::StatusCode":
        code = c.args[1]
        if not isinstance(code, Lin):
            code = atom("code?", 0, 16)
        eng.emit(st, "status", code=code, msg=c.args[2:4], this=c.args[0])
        eng.store(st, c.args[0], st.facts.norm(code * 4 + status_base(eng)), ["i", 64])
        return [(st, None)]
    return NotImplemented


CODES = dict(Cancelled=1, Unknown=2, InvalidArgument=3, DeadlineExceeded=4, NotFound=5, AlreadyExists=6,
             PermissionDenied=7, ResourceExhausted=8, FailedPrecondition=9, Aborted=10, OutOfRange=11,
             Unimplemented=12, Internal=13, Unavailable=14, DataLoss=15, Unauthenticated=16)


@model(r"^absl::(Cancelled|Unknown|InvalidArgument|DeadlineExceeded|NotFound|AlreadyExists|PermissionDenied|ResourceExhausted|FailedPrecondition|Aborted|OutOfRange|Unimplemented|Internal|Unavailable|DataLoss|Unauthenticated)Error$")
def m_status_err(eng, st, c):
    m = re.match(r"absl::(\w+)Error$", c.short)
    eng.emit(st, "status", code=L(CODES[m.group(1)]), msg=c.args[1:3], this=c.args[0])
    eng.store(st, c.args[0], L(CODES[m.group(1)] * 4 + status_base(eng)), ["i", 64])
    return [(st, None)]


@model(r"^absl::OkStatus$")
def m_status_ok(eng, st, c):
    eng.store(st, c.args[0], L(status_base(eng)), ["i", 64])
    return [(st, None)]


@model(r"^absl::Status::(code|raw_code)$")
def m_status_code(eng, st, c):
    rep = eng.load(st, c.args[0], ["i", 64])
    if not isinstance(rep, Lin):
        return [(st, atom("code?", 0, 16))]
    q = (st.facts.norm(rep) - status_base(eng)).div_exact(4)
    if q is None:
        q = app("statuscode", (st.facts.norm(rep),), 0, 16)
        st.facts.note_app(q.t[0][0])
    return [(st, q)]


@model(r"^absl::Status::(UnrefNonInlined|Unref|Ref|~Status)$")
def m_status_noop(eng, st, c):
    return [(st, None)]


@model(r"^absl::Status::(message|ToString|ToStringSlow|EmptyString|MovedFromString)$|^absl::operator<<$")
def m_status_msg(eng, st, c):
    if c.short.endswith("message"):
        rep = eng.load(st, c.args[0], ["i", 64])
        r = Region("strdata", "status message")
        r.info = dict(val=Opq("str", "statusmsg", rep))
        n = ssize(eng, st, r.info["val"])
        return [(st, Agg([Ptr(r), n]))]
    if c.ret == "v":
        sput(eng, st, c.args[0], Opq("str", "statusmsg", fresh_id()))
        return [(st, None)]
    return [(st, eng.fresh_val(c.ret, c.short))]


# ---- C runtime / intrinsics ---------------------------------------------------------
@model(r"^llvm\.memcpy|^llvm\.memmove|^memcpy$|^memmove$|^__memcpy_chk$|^OPENSSL_memcpy$")
def m_memcpy(eng, st, c):
    n = c.args[2]
    if not isinstance(n, Lin):
        n = atom("n?", 0, SIZE_HI)
    eng.copy_mem(st, c.args[0], c.args[1], n)
    return [(st, c.args[0])]


@model(r"^llvm\.memset|^memset$|^__memset_chk$|^explicit_memset$")
def m_memset(eng, st, c):
    v = c.args[1]
    if isinstance(v, tuple):
        v = eng.cond_lin(st, v)
    eng.set_mem(st, c.args[0], v, c.args[2])
    return [(st, c.args[0])]


@model(r"^(OPENSSL_cleanse|explicit_bzero|bzero)$")
def m_bzero(eng, st, c):
    eng.set_mem(st, c.args[0], ZERO, c.args[1])
    return [(st, None)]


@model(r"^llvm\.(dbg|lifetime|assume|experimental|prefetch|donothing|invariant|va_)")
def m_nop(eng, st, c):
    return [(st, None if c.ret == "v" else eng.fresh_val(c.ret, "intr"))]


@model(r"^llvm\.(type\.test|public\.type\.test)")
def m_typetest(eng, st, c):
    return [(st, TRUE)]


@model(r"^llvm\.expect")
def m_expect(eng, st, c):
    return [(st, c.args[0])]


@model(r"^llvm\.(umin|umax|smin|smax)\.")
def m_minmax(eng, st, c):
    a, b = c.args[:2]
    w = c.ret[1]
    op = c.short.split(".")[1]
    conv = eng.as_unsigned if op[0] == "u" else eng.as_signed
    out = []
    for s, x in conv(st, a, w):
        for s2, y in conv(s, b, w):
            for s3, g in eng.split(s2, ("ge", x - y)):
                out.append((s3, (x if g else y) if op.endswith("max") else (y if g else x)))
    return out


@model(r"^llvm\.bswap")
def m_bswap(eng, st, c):
    v = c.args[0]
    w = c.ret[1] // 8
    out = []
    for s, x in eng.as_unsigned(st, v, w * 8):
        tot = ZERO
        rest = x
        for i in range(w):
            rest, b = eng.divmod(s, rest, 256)
            tot = tot + b * (1 << (8 * (w - 1 - i)))
        out.append((s, tot))
    return out


@model(r"^llvm\.trap|^abort$|^__assert_fail$|^std::__throw_|^std::__glibcxx_assert_fail|^absl::base_internal::Throw|^absl::raw_logging_internal::|^absl::variant_internal::ThrowBad|^std::terminate")
def m_abort(eng, st, c):
    eng.emit(st, "abort", fn=c.short)
    return []


@model(r"^operator new(\[\])?$|^malloc$|^calloc$|^OPENSSL_malloc$|^CRYPTO_malloc$")
def m_new(eng, st, c):
    n = c.args[0]
    if c.short == "calloc":
        n = c.args[0] * c.args[1].c if isinstance(c.args[1], Lin) and c.args[1].is_const() else atom("n?")
    r = Region("heap", "heap@%s" % eng.where(st), size=n if isinstance(n, Lin) else None)
    if c.short == "calloc":
        r.info = dict(zero=True)
    eng.emit(st, "alloc", r=r, fn=c.short)
    return [(st, Ptr(r))]


@model(r"^operator delete(\[\])?$|^free$|^OPENSSL_free$|^CRYPTO_free$")
def m_delete(eng, st, c):
    p = c.args[0]
    eng.emit(st, "free", p=p, fn=c.short)
    if isinstance(p, Ptr) and p.r.kind == "heap":
        st.freed = st.freed | {p.r.id}
    return [(st, None)]


@model(r"^memcmp$|^CRYPTO_memcmp$|^bcmp$")
def m_memcmp(eng, st, c):
    for p in c.args[:2]:
        eng.emit(st, "mem", p=p, n=c.args[2], w=False, bulk=True)
    a, b, n = c.args[:3]
    if isinstance(a, Ptr) and isinstance(b, Ptr) and {a.r.kind, b.r.kind} & {"strdata", "strmut"}:
        return cmp_result(eng, streq(eng, st, cstr_val(eng, st, a, n), cstr_val(eng, st, b, n)), c.ret)
    return [(st, atom("memcmp", -(1 << 31), (1 << 31) - 1))]


@model(r"^strcmp$")
def m_strcmp(eng, st, c):
    return cmp_result(eng, streq(eng, st, cstr_val(eng, st, c.args[0]), cstr_val(eng, st, c.args[1])), c.ret)


@model(r"^(strcasecmp|strncasecmp|strncmp)$")
def m_strcase(eng, st, c):
    out = []
    for s, e in streq(eng, st, cstr_val(eng, st, c.args[0]), cstr_val(eng, st, c.args[1])):
        out.append((s, ZERO if e else eng.fresh_val(c.ret, c.short)))
    return out


# ---- mutexes ------------------------------------------------------------------------
@model(r"^absl::Mutex::(Lock|Unlock|WriterLock|WriterUnlock|ReaderLock|ReaderUnlock|TryLock|AssertHeld|AssertReaderHeld|Mutex|~Mutex|Dtor)$")
def m_mutex(eng, st, c):
    op = c.short.split("::")[-1]
    eng.emit(st, "mutex", op=op, p=c.args[0])
    if op == "TryLock":
        return [(st, eng.fresh_val(c.ret, "trylock"))]
    return [(st, None)]


@model(r"^std::function::(function|~function|operator=|swap)$|^std::_Function_base::")
def m_function(eng, st, c):
    op = c.short.split("::")[-1]
    if op == "function":
        par = params(c.dn)
        if not par:
            fput(eng, st, c.args[0], Opq("fnobj", "empty"))
        elif par[0].startswith("std::function<"):
            fput(eng, st, c.args[0], fget(eng, st, c.args[1]))
        elif par[0].startswith("decltype(nullptr)") or par[0].startswith("std::nullptr_t"):
            fput(eng, st, c.args[0], Opq("fnobj", "empty"))
        else:
            fput(eng, st, c.args[0], ftarget(eng, st, c.args[1]))
    elif op == "operator=":
        par = params(c.dn)
        if par and not par[0].startswith("std::function<"):
            null = par[0].startswith("decltype(nullptr)") or par[0].startswith("std::nullptr_t")
            fput(eng, st, c.args[0], Opq("fnobj", "empty") if null else ftarget(eng, st, c.args[1]))
        else:
            fput(eng, st, c.args[0], fget(eng, st, c.args[1]))
        return [(st, c.args[0])]
    return [(st, None if c.ret == "v" else c.args[0])]


def ftarget(eng, st, a):
    """The value of a std::function built from a function or something callable."""
    if isinstance(a, Ptr):
        v = eng.load_at(st, a.r, st.facts.norm(a.off), 8, True)
        a = v if isinstance(v, Fn) else a
    if isinstance(a, Fn):
        return Opq("fnobj", "from", fresh_id(), a.name)
    return Opq("fnobj", "from", fresh_id())


def fget(eng, st, p):
    if not isinstance(p, Ptr):
        return Opq("fnobj", "?")
    off = st.facts.norm(p.off)
    m = eng.rm(st, p.r)
    c = m.cells.get(off)
    if c is not None and isinstance(c[1], Opq):
        return c[1]
    if off.is_const() and p.r.kind in ("obj", "opaque", "param"):
        f = eng.field_at(p.r, off.c)
        nm = p.r.name + ("." + f[3] if f is not None and f[3] else "+%d" % off.c if off.c else "")
        return Opq("fnobj", nm)
    return Opq("fnobj", p.r.name, off)


def fput(eng, st, p, v):
    if isinstance(p, Ptr):
        eng.emit(st, "mem", p=p, n=L(32), w=True)
        eng.store_at(st, p.r, st.facts.norm(p.off), 32, v)


@model(r"^std::function::operator bool$")
def m_function_bool(eng, st, c):
    v = fget(eng, st, c.args[0])
    if v.t[1] == "empty":
        return [(st, FALSE)]
    if v.t[1] == "from":
        return [(st, TRUE)]
    x = app("fnset", (v,), 0, 1)
    st.facts.note_app(x.t[0][0])
    return [(st, ("ne", x))]


@model(r"^std::function::operator\(\)$")
def m_function_call(eng, st, c):
    sret = c.ret == "v" and c.f is not None and bool(getattr(c.f, "dtypes", None)) and c.f.dtypes[0] != "void"
    v = fget(eng, st, c.args[1 if sret else 0])
    for h in eng.hooks.get("fncall", ()):
        r = h(eng, st, v, c)
        if r is not None:
            return r
    if v.t[1] == "from" and len(v.t) > 3:
        return eng.call(st, v.t[3], c.args[:1] + c.args[2:] if sret else c.args[1:], c.inst)
    eng.imprecise(st, "std::function call")
    return [(st, None if c.ret == "v" else eng.fresh_val(c.ret, "fncall"))]


@model(r"^(llvm\.)?(floor|ceil|trunc|round|rint|nearbyint)(f|l)?(\.f64|\.f32)?$|^std::(floor|ceil|trunc|round)$")
def m_floor(eng, st, c):
    if isinstance(c.args[0], Lin):
        return [(st, c.args[0])]
    eng.imprecise(st, "floating point")
    return [(st, eng.fresh_val(c.ret, "floor"))]


@model(r"^absl::Now$|^absl::Time|^absl::Duration|^std::chrono::")
def m_time(eng, st, c):
    return [(st, None if c.ret == "v" else eng.fresh_val(c.ret, "time"))]


# ---- absl::flat_hash_set ----------------------------------------------------------
# A set is an opaque value naming its element objects (regions) in insertion
# order; elements are created with the element type's own copy constructor and
# compared with its own operator==.
def setget(eng, st, p):
    if not isinstance(p, Ptr):
        return Opq("set", "?", fresh_id())
    off = st.facts.norm(p.off)
    c = eng.rm(st, p.r).cells.get(off)
    if c is not None and isinstance(c[1], Opq) and c[1].t[0] == "set":
        return c[1]
    v = Opq("set", "init", p.r.id, off)
    eng.store_at(st, p.r, off, 40, v)
    return v


def setput(eng, st, p, v):
    if isinstance(p, Ptr):
        eng.emit(st, "mem", p=p, n=L(40), w=True)
        eng.store_at(st, p.r, st.facts.norm(p.off), 40, v)


def set_items(v):
    return v.t[2] if v.t[1] == "items" else None


def set_type(dn):
    m = re.search(r"(?:flat_hash_set|FlatHashSetPolicy|flat_hash_map|FlatHashMapPolicy)<(.*)", dn)
    if not m:
        return None
    d = 0
    for i, ch in enumerate(m.group(1)):
        if ch == "<":
            d += 1
        elif ch in ">," and d == 0:
            return m.group(1)[:i].strip()
        elif ch == ">":
            d -= 1
    return m.group(1)


def construct_copy(eng, st, dst, src, t):
    """Copy-constructs *dst of class t from *src; returns the states."""
    t = re.sub(r"^const ", "", t or "")
    name = t + "::" + t.split("::")[-1]
    for f in eng.p.find(name):
        par = params(f.dn)
        if len(par) == 1 and par[0].startswith(t) and par[0].endswith("&"):
            return [s for s, _ in eng.run(f, [dst, src], st)]
    c = eng.p.classes.get(t)
    if c is None or not isinstance(src, Ptr):
        eng.imprecise(st, "copy of " + t)
        return [st]
    for o, sz, ty, _ in eng.leaves(t):
        if ty.startswith("std::basic_string<"):
            sput(eng, st, dst.add(L(o)), sget(eng, st, src.add(L(o))))
        else:
            eng.store_at(st, dst.r, st.facts.norm(dst.off + o), sz, eng.load_at(st, src.r, st.facts.norm(src.off + o), sz, ty.endswith("*")))
    return [st]


def equal_objs(eng, st, a, b, t):
    """[(state, bool)] of a == b with the class's own operator."""
    t = re.sub(r"^const ", "", t or "")
    for nm in (t + "::operator==", "::".join(t.split("::")[:-1]) + "::operator=="):
        for f in eng.p.find(nm):
            if nm.startswith(t) or all(t in x for x in params(f.dn)):
                out = []
                for s, v in eng.run(f, [a, b], st):
                    out += eng.split(s, eng.as_cond(s, v))
                return out
    eng.imprecise(st, "equality of " + t)
    return [(st, False)]


def set_insert(eng, st, p, src, t):
    """[(state, element region id, inserted)]"""
    v = setget(eng, st, p)
    items = set_items(v)
    if items is None:
        eng.imprecise(st, "insertion into unknown set")
        return [(st, None, True)]
    cur = [st]
    out = []
    for i in items:
        nxt = []
        for s in cur:
            for s2, e in equal_objs(eng, s, Ptr(REGS[i]), src, t):
                if e:
                    out.append((s2, i, False))
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        r = Region("heap", "element", size=L(eng.sizeof_name(t) or 40))
        for s2 in construct_copy(eng, s, Ptr(r), src, t):
            setput(eng, s2, p, Opq("set", "items", items + (r.id,)))
            out.append((s2, r.id, True))
    return out


def set_assign(eng, st, p, v, t):
    """Copies the set value v into *p, element by element."""
    items = set_items(v)
    if items is None:
        setput(eng, st, p, v)
        return [st]
    cur = [(st, ())]
    for i in items:
        nxt = []
        for s, acc in cur:
            r = Region("heap", "element", size=L(eng.sizeof_name(t) or 40))
            nxt += [(s2, acc + (r.id,)) for s2 in construct_copy(eng, s, Ptr(r), Ptr(REGS[i]), t)]
        cur = nxt
    out = []
    for s, acc in cur:
        setput(eng, s, p, Opq("set", "items", acc))
        out.append(s)
    return out


def set_arr(eng, v):
    k = ("setarr", v)
    r = eng.elemreg.get(k)
    if r is None:
        r = Region("setarr", "set")
        r.info = dict(items=set_items(v) or ())
        eng.elemreg[k] = r
    return r


def set_iter(eng, st, v, k):
    r = set_arr(eng, v)
    return Agg([Ptr(r, L(k)), Ptr(r, L(k))])


def map_types(dn):
    """(key type, mapped type) of the flat_hash_map in the signature, or None."""
    m = re.search(r"(?:flat_hash_map|FlatHashMapPolicy)<(.*)", dn)
    if not m:
        return None
    out, d, start, t = [], 0, 0, m.group(1)
    for i, ch in enumerate(t):
        if ch == "<":
            d += 1
        elif ch in ">," and d == 0:
            out.append(t[start:i].strip())
            start = i + 1
            if ch == ">" or len(out) == 2:
                break
        elif ch == ">":
            d -= 1
    return tuple(out) if len(out) == 2 else None


def map_find(eng, st, p, key, kt):
    """[(state, element id or None)]"""
    items = set_items(setget(eng, st, p))
    out, cur = [], [st]
    for i in items or ():
        nxt = []
        for s in cur:
            for s2, e in equal_objs(eng, s, Ptr(REGS[i]), key, kt):
                (out if e else nxt).append((s2, i) if e else s2)
        cur = nxt
    return out + [(s, None) for s in cur]


def map_voff(eng, kt):
    return ((eng.sizeof_name(kt) or 40) + 7) // 8 * 8


def map_new(eng, st, p, key, kt, vt):
    """[(state, element id)] with a default-constructed mapped value."""
    vo = map_voff(eng, kt)
    r = Region("heap", "element", size=L(vo + (eng.sizeof_name(vt) or 32)))
    out = []
    for s in construct_copy(eng, st, Ptr(r), key, kt):
        if vt.startswith("std::basic_string<"):
            sput(eng, s, Ptr(r, L(vo)), Opq("str", "lit", ""))
        else:
            n = eng.sizeof_name(vt) or 8
            if n <= 8:
                eng.store_at(s, r, L(vo), n, ZERO)
            else:
                eng.imprecise(s, "mapped type " + vt)
        setput(eng, s, p, Opq("set", "items", (set_items(setget(eng, s, p)) or ()) + (r.id,)))
        out.append((s, r.id))
    return out


def map_store(eng, st, i, kt, vt, src):
    vo = map_voff(eng, kt)
    if vt.startswith("std::basic_string<") and isinstance(src, Ptr):
        sput(eng, st, Ptr(REGS[i], L(vo)), sget(eng, st, src))
    elif isinstance(src, Ptr) and is_trivial(vt):
        n = eng.sizeof_name(vt) or 8
        eng.store_at(st, REGS[i], L(vo), n, eng.load_at(st, src.r, st.facts.norm(src.off), n, vt.endswith("*")))
    else:
        eng.imprecise(st, "mapped value of type " + vt)


@model(r"^absl::(container_internal::raw_hash_map|flat_hash_map)::(raw_hash_map|flat_hash_map)$")
def m_map_ctor(eng, st, c):
    par = params(c.dn)
    if par and re.match(r"absl::(flat_hash_map|container_internal::raw_hash_map)<", par[0]):
        v = setget(eng, st, c.args[1])
        if par[0].endswith("&&"):
            setput(eng, st, c.args[1], Opq("set", "items", ()))
        else:
            eng.imprecise(st, "copy of a map")
        setput(eng, st, c.args[0], v)
        return [(st, None)]
    if par and not par[0].startswith("unsigned long"):
        eng.imprecise(st, "map constructor")
    setput(eng, st, c.args[0], Opq("set", "items", ()))
    return [(st, None)]


@model(r"^absl::(container_internal::raw_hash_map|flat_hash_map)::~(raw_hash_map|flat_hash_map)$")
def m_map_dtor(eng, st, c):
    return [(st, None)]


@model(r"^absl::container_internal::raw_hash_map::(operator\[\]|at|try_emplace|insert_or_assign)$")
def m_map_op(eng, st, c):
    meth = c.short.split("::")[-1]
    ty = map_types(c.dn)
    a = list(c.args)
    sret = a.pop(0) if c.f is not None and c.f.args and "sret" in c.f.args[0] else None
    if ty is None or set_items(setget(eng, st, a[0])) is None or not isinstance(a[1], Ptr) or a[1].r.kind == "setarr":
        eng.imprecise(st, "map " + meth)
        return [(st, None if c.ret == "v" else eng.fresh_val(c.ret, meth))]
    kt, vt = ty
    out = []
    for s, i in map_find(eng, st, a[0], a[1], kt):
        new = i is None
        if new and meth == "at":
            eng.emit(s, "abort", fn="flat_hash_map::at")
            continue
        for s2, j in (map_new(eng, s, a[0], a[1], kt, vt) if new else [(s, i)]):
            if meth in ("try_emplace", "insert_or_assign"):
                if len(a) == 3 and (new or meth == "insert_or_assign"):
                    map_store(eng, s2, j, kt, vt, a[2])
                elif len(a) > 3:
                    eng.imprecise(s2, "map " + meth)
                v = setget(eng, s2, a[0])
                it = set_iter(eng, s2, v, (set_items(v) or (j,)).index(j))
                if sret is not None:
                    eng.store(s2, sret, it.v[0], "p")
                    eng.store(s2, sret.add(L(8)), it.v[1], "p")
                    eng.store_at(s2, sret.r, s2.facts.norm(sret.off + 16), 1, L(int(new)))
                out.append((s2, None if sret is not None else it))
            else:
                out.append((s2, Ptr(REGS[j], L(map_voff(eng, kt)))))
    return out


@model(r"^absl::(container_internal::raw_hash_set|flat_hash_set)::(raw_hash_set|flat_hash_set)$")
def m_set_ctor(eng, st, c):
    par = params(c.dn)
    t = set_type(c.dn)
    if par and (par[0].startswith("absl::flat_hash_set<") or par[0].startswith("absl::container_internal::raw_hash_set<")):
        v = setget(eng, st, c.args[1])
        if par[0].endswith("&&"):
            setput(eng, st, c.args[0], v)
            setput(eng, st, c.args[1], Opq("set", "items", ()))
            return [(st, None)]
        return [(s, None) for s in set_assign(eng, st, c.args[0], v, t)]
    if len(c.args) >= 5 and isinstance(c.args[1], Ptr) and c.args[1].r.kind == "setarr":
        return m_set_range(eng, st, c, c.args[0], c.args[1], c.args[3], t, True)
    if par and not par[0].startswith("unsigned long") and not par[0].startswith("absl::"):
        eng.imprecise(st, "set constructor")
    setput(eng, st, c.args[0], Opq("set", "items", ()))
    return [(st, None)]


def m_set_range(eng, st, c, p, first, last, t, fresh):
    if fresh:
        setput(eng, st, p, Opq("set", "items", ()))
    if not (isinstance(first, Ptr) and isinstance(last, Ptr) and first.r is last.r and first.r.kind == "setarr"):
        eng.imprecise(st, "range insertion")
        return [(st, None)]
    cur = [st]
    for i in first.r.info["items"][first.off.c:last.off.c]:
        cur = [s2 for s in cur for s2, _, _ in set_insert(eng, s, p, Ptr(REGS[i]), t)]
    return [(s, None) for s in cur]


@model(r"^absl::(container_internal::raw_hash_set|flat_hash_set)::operator=$")
def m_set_opassign(eng, st, c):
    v = setget(eng, st, c.args[1])
    if c.args[0] == c.args[1]:
        return [(st, c.args[0])]
    if params(c.dn)[0].endswith("&&"):
        setput(eng, st, c.args[0], v)
        setput(eng, st, c.args[1], Opq("set", "items", ()))
        return [(st, c.args[0])]
    return [(s, c.args[0]) for s in set_assign(eng, st, c.args[0], v, set_type(c.dn))]


@model(r"^absl::(container_internal::raw_hash_set|flat_hash_set)::~(raw_hash_set|flat_hash_set)$|^absl::(container_internal::raw_hash_set|flat_hash_set)::(reserve|rehash)$")
def m_set_dtor(eng, st, c):
    return [(st, None)]


@model(r"^absl::container_internal::raw_hash_set::(insert|emplace|begin|end|cbegin|cend|size|empty|clear|find|contains|count|swap|erase)$")
def m_set_op(eng, st, c):
    meth = c.short.split("::")[-1]
    t = set_type(c.dn)
    a = list(c.args)
    sret = a.pop(0) if c.f is not None and c.f.args and "sret" in c.f.args[0] else None
    p = a[0]
    v = setget(eng, st, p)
    items = set_items(v)
    mt = map_types(c.dn)
    if mt and meth in ("insert", "emplace") and items is not None:
        kt, vt = mt
        vo = map_voff(eng, kt)
        if len(a) == 2 and isinstance(a[1], Ptr) and a[1].r.kind != "setarr":
            key, val = a[1], a[1].add(L(vo))
        elif len(a) == 3 and isinstance(a[1], Ptr) and isinstance(a[2], Ptr) and a[1].r.kind != "setarr":
            key, val = a[1], a[2]
        else:
            eng.imprecise(st, "map " + meth)
            return [(st, None if sret is not None or c.ret == "v" else eng.fresh_val(c.ret, meth))]
        out = []
        for s, i in map_find(eng, st, p, key, kt):
            for s2, j in (map_new(eng, s, p, key, kt, vt) if i is None else [(s, i)]):
                if i is None:
                    map_store(eng, s2, j, kt, vt, val)
                nv = setget(eng, s2, p)
                it = set_iter(eng, s2, nv, (set_items(nv) or (j,)).index(j))
                if sret is not None:
                    eng.store(s2, sret, it.v[0], "p")
                    eng.store(s2, sret.add(L(8)), it.v[1], "p")
                    eng.store_at(s2, sret.r, s2.facts.norm(sret.off + 16), 1, L(int(i is None)))
                out.append((s2, None if sret is not None else it))
        return out
    if mt and meth == "erase" and items is not None and len(a) == 2 and isinstance(a[1], Ptr) and a[1].r.kind != "setarr":
        out = []
        for s, i in map_find(eng, st, p, a[1], mt[0]):
            if i is not None:
                setput(eng, s, p, Opq("set", "items", tuple(x for x in items if x != i)))
            out.append((s, None if c.ret == "v" else L(int(i is not None))))
        return out
    if meth in ("insert", "emplace"):
        if len(a) >= 5 and isinstance(a[1], Ptr) and a[1].r.kind == "setarr":
            return m_set_range(eng, st, c, p, a[1], a[3], t, False)
        if len(a) == 2:
            out = []
            for s, i, new in set_insert(eng, st, p, a[1], t):
                nv = setget(eng, s, p)
                its = set_items(nv) or ()
                k = its.index(i) if i in its else 0
                if sret is not None:
                    it = set_iter(eng, s, nv, k)
                    eng.store(s, sret, it.v[0], "p")
                    eng.store(s, sret.add(L(8)), it.v[1], "p")
                    eng.store_at(s, sret.r, s.facts.norm(sret.off + 16), 1, L(int(new)))
                out.append((s, None))
            return out
        eng.imprecise(st, "set " + meth)
        return [(st, None if sret is not None or c.ret == "v" else eng.fresh_val(c.ret, meth))]
    if items is None and meth not in ("clear",):
        eng.imprecise(st, "unknown set")
        return [(st, None if c.ret == "v" else eng.fresh_val(c.ret, meth))]
    if meth in ("begin", "cbegin"):
        return [(st, set_iter(eng, st, v, 0))]
    if meth in ("end", "cend"):
        return [(st, set_iter(eng, st, v, len(items)))]
    if meth == "size":
        return [(st, L(len(items)))]
    if meth == "empty":
        return [(st, ("c", not items))]
    if meth == "clear":
        setput(eng, st, p, Opq("set", "items", ()))
        return [(st, None)]
    if meth == "swap":
        w = setget(eng, st, a[1])
        setput(eng, st, p, w)
        setput(eng, st, a[1], v)
        return [(st, None)]
    if meth in ("find", "contains", "count"):
        out = []
        cur = [st]
        for k, i in enumerate(items):
            nxt = []
            for s in cur:
                for s2, e in equal_objs(eng, s, Ptr(REGS[i]), a[1], t):
                    if e:
                        out.append((s2, set_iter(eng, s2, v, k) if meth == "find" else ("c", True) if meth == "contains" else L(1)))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            out.append((s, set_iter(eng, s, v, len(items)) if meth == "find" else ("c", False) if meth == "contains" else L(0)))
        return out
    eng.imprecise(st, "set " + meth)
    setput(eng, st, p, Opq("set", "?", fresh_id()))
    return [(st, None if c.ret == "v" else eng.fresh_val(c.ret, meth))]


@model(r"^absl::container_internal::raw_hash_set::const_iterator::const_iterator$")
def m_set_constiter(eng, st, c):
    if len(c.args) >= 3 and isinstance(c.args[0], Ptr):
        eng.store(st, c.args[0], c.args[1], "p")
        eng.store(st, c.args[0].add(L(8)), c.args[2], "p")
        return [(st, None)]
    return NotImplemented


@model(r"^absl::container_internal::raw_hash_set::(const_)?iterator::operator(\*|->|\+\+)$")
def m_set_iter(eng, st, c):
    p = eng.load(st, c.args[0], "p")
    if not (isinstance(p, Ptr) and p.r.kind == "setarr" and p.off.is_const()):
        eng.imprecise(st, "set iterator")
        return [(st, eng.fresh_val(c.ret, "it") if c.ret != "v" else None)]
    if c.short.endswith("++"):
        if len(c.args) > 1:
            eng.imprecise(st, "iterator post-increment")
        n = p.add(ONE)
        eng.store(st, c.args[0], n, "p")
        eng.store(st, c.args[0].add(L(8)), n, "p")
        return [(st, c.args[0] if c.ret == "p" else Agg([p, p]))]
    i = p.off.c
    its = p.r.info["items"]
    if not 0 <= i < len(its):
        eng.imprecise(st, "set iterator out of range")
        return [(st, NULL)]
    return [(st, Ptr(REGS[its[i]]))]


@model(r"^absl::container_internal::operator(==|!=)$")
def m_set_itereq(eng, st, c):
    v = [eng.load(st, x, "p") if isinstance(x, Ptr) and x.r.kind != "setarr" else x for x in c.args]
    if len(v) == 4:
        v = [v[0], v[2]]
    if len(v) == 2 and all(isinstance(x, Ptr) and x.r.kind == "setarr" and x.off.is_const() for x in v):
        return [(st, ("c", (v[0] == v[1]) == c.short.endswith("==")))]
    return NotImplemented
