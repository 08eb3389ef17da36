"""Path-partitioned abstract interpreter over LLVM IR.

Abstract state: for each memory region a map from offsets to abstract values
(linear terms, pointers = region + linear offset), a conjunction of linear
facts, ghost counters and finite monitor states.  Loops are summarised by a
fixpoint over affine relations (Karr) and inductive inequalities, partitioned
by monitor state and pointer shape.  Nothing of /repo is executed.
"""
import re, sys, time
from .lin import *
from .lin import A, Lin, Facts, ZERO, ONE, L
from . import lin as linmod
from . import ir

sys.setrecursionlimit(20000)


REGS = {}   # all regions by id
DEADLINE = [None]   # wall-clock limit of this analysis
WANT = [None]       # property whose confirmed violation ends the analysis
LAST = [None]       # the engine in use (for partial results)


class Region:
    __slots__ = ("id", "kind", "name", "size", "nul", "elem", "stream", "ty", "init", "info", "cls")
    N = 0

    def __init__(self, kind, name, size=None, nul=None, elem=None, ty=None):
        Region.N += 1
        self.id = Region.N
        self.kind = kind
        self.name = name
        self.size = size
        self.nul = nul
        self.elem = elem
        self.stream = None
        self.ty = ty
        self.init = {}
        self.info = None
        self.cls = None
        REGS[self.id] = self

    def __repr__(self):
        return "%s#%d" % (self.name, self.id)


class Ptr:
    __slots__ = ("r", "off")

    def __init__(self, r, off=ZERO):
        self.r = r
        self.off = off

    def add(self, d):
        return Ptr(self.r, self.off + d)

    def __eq__(self, o):
        return type(o) is Ptr and self.r is o.r and self.off == o.off

    def __hash__(self):
        return hash((self.r.id, self.off))

    def __repr__(self):
        return "&%r[%r]" % (self.r, self.off)


class Chunk:
    """Pointer into the byte stream formed by concatenating the buffers of an
    Iovec vector: position `pos`, inside the chunk [start,end)."""
    __slots__ = ("s", "pos", "start", "end", "nul")

    def __init__(self, s, pos, start, end, nul):
        self.s, self.pos, self.start, self.end, self.nul = s, pos, start, end, nul

    def add(self, d):
        return Chunk(self.s, self.pos + d, self.start, self.end, self.nul)

    def __eq__(self, o):
        return (type(o) is Chunk and self.s is o.s and self.pos == o.pos and
                self.start == o.start and self.end == o.end and self.nul == o.nul)

    def __hash__(self):
        return hash((self.s.id, self.pos, self.start))

    def __repr__(self):
        return "chunk(%s@%r in [%r,%r))" % (self.s.name, self.pos, self.start, self.end)


class _Null:
    def add(self, d):
        return self if d == ZERO else Ptr(WILD, d)

    def __repr__(self):
        return "null"


NULL = _Null()
WILD = Region("wild", "wild")


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return type(o) is Fn and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "fn:" + self.name


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return type(o) is Agg and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return "agg" + repr(self.v)


class Opq:
    """Opaque (uninterpreted) value, e.g. the contents of a std::string."""
    __slots__ = ("t",)

    def __init__(self, *t):
        self.t = t

    def __eq__(self, o):
        return type(o) is Opq and o.t == self.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "<%s>" % (" ".join(map(repr, self.t)))


class Stream:
    N = 0

    def __init__(self, name, n, buf):
        Stream.N += 1
        self.id = Stream.N
        self.name = name
        self.n = n          # number of chunks
        self.buf = buf

    def __repr__(self):
        return "stream:" + self.name


# -- conditions -----------------------------------------------------------
TRUE = ("c", True)
FALSE = ("c", False)


def neg(c):
    k = c[0]
    if k == "c":
        return ("c", not c[1])
    if k == "ge":
        return ("ge", -c[1] - 1)
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "and":
        return ("or", neg(c[1]), neg(c[2]))
    if k == "or":
        return ("and", neg(c[1]), neg(c[2]))
    raise Exception(c)


class Stop(Exception):
    pass


class RMem:
    __slots__ = ("cells", "clob", "segs")

    def __init__(self, cells=None, clob=(), segs=()):
        self.cells = cells if cells is not None else {}
        self.clob = clob
        self.segs = segs

    def copy(self):
        return RMem(dict(self.cells), self.clob, self.segs)


class Seg:
    """Bytes [lo,hi) of the region equal source bytes at offset x+delta."""
    __slots__ = ("lo", "hi", "src", "delta")

    def __init__(self, lo, hi, src, delta):
        self.lo, self.hi, self.src, self.delta = lo, hi, src, delta

    def __eq__(self, o):
        return (type(o) is Seg and self.lo == o.lo and self.hi == o.hi and
                self.src == o.src and self.delta == o.delta)

    def __hash__(self):
        return hash((self.lo, self.hi, self.src))

    def __repr__(self):
        return "[%r,%r)<-%r%+r" % (self.lo, self.hi, self.src, self.delta)


class State:
    __slots__ = ("frames", "mem", "facts", "ghost", "mon", "vsize", "trace", "imp", "depth", "extra", "freed")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.facts = Facts()
        self.ghost = {}
        self.mon = {}
        self.vsize = {}
        self.trace = None
        self.imp = ()
        self.extra = {}
        self.freed = frozenset()

    def fork(self):
        s = State.__new__(State)
        s.frames = list(self.frames)
        if s.frames:
            s.frames[-1] = s.frames[-1].copy()
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.ghost = dict(self.ghost)
        s.mon = dict(self.mon)
        s.vsize = dict(self.vsize)
        s.trace = self.trace
        s.imp = self.imp
        s.extra = dict(self.extra)
        s.freed = self.freed
        return s

    def note(self, *e):
        self.trace = (self.trace, e)

    def path(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Frame:
    __slots__ = ("f", "env", "allocas", "uid", "call")
    N = 0

    def __init__(self, f, env, call=None):
        Frame.N += 1
        self.uid = Frame.N
        self.f = f
        self.env = env
        self.allocas = ()
        self.call = call

    def copy(self):
        g = Frame.__new__(Frame)
        g.f, g.env, g.allocas, g.uid, g.call = self.f, dict(self.env), self.allocas, self.uid, self.call
        return g


M64 = 1 << 64
SIZE_HI = 1 << 40   # documented assumption: object sizes are below 2^40


class Call:
    __slots__ = ("f", "name", "short", "dn", "args", "inst", "ret", "line", "file", "caller")


class Engine:
    def __init__(self, prog, models=(), unroll=None, props=None):
        LAST[0] = self
        self.p = prog
        self.models = models          # list of (regex, handler) tried in order
        self.mcache = {}
        self.unroll = unroll          # None: summarise loops; k: unroll k times
        self.hooks = {}               # event name -> [handler]
        self.obl = {}                 # (prop, kind, where) -> [ok, bad, first bad (msg, path, definite)]
        self.visited = set()          # functions interpreted
        self.calls_seen = {}
        self.unknown = {}
        self.maxpaths = 60000
        self.npaths = 0
        self.steps = 0
        self.max_steps = 3000000
        self.globreg = {}
        self.elemreg = {}
        self.loops_done = 0
        self.quiet = 0                # >0: obligations not recorded (fixpoint iterations)
        self.inline_filter = None
        self.layout_cache = {}
        self.check_mem = False        # memory-safety obligations wanted
        self.cur = None
        self.streams = {}
        self.access_hook = None
        self.branch_conds = None
        self.loop_limit_hits = 0
        self.want = WANT[0]
        self.taint = None
        self.found = False
        self.spin_cap = 400           # consecutive iterations without a possible exit
        self.typed_sizes = {}

    # ---- reporting ------------------------------------------------------
    def where(self, st=None, inst=None):
        """Innermost location inside /repo."""
        if st is not None:
            for fr in reversed(st.frames):
                i = fr.env.get("@")
                if i is not None and i[5].startswith(ir.REPO + "/") and i[4]:
                    return "%s:%d" % (i[5][len(ir.REPO) + 1:], i[4])
            t = st.trace
            while t is not None:
                if t[1][0] == "br":
                    return "exit after %s:%s" % (t[1][1], t[1][2])
                t = t[0]
        return "?"

    def oblige(self, st, prop, kind, ok, msg, where=None, definite=True):
        if self.quiet:
            return
        w = where or self.where(st)
        rec = self.obl.setdefault((prop, kind, w), [0, 0, None])
        if ok:
            rec[0] += 1
        else:
            rec[1] += 1
            if rec[2] is None or (rec[2]["imprecise"] and not st.imp):
                rec[2] = dict(msg=msg if isinstance(msg, str) else msg(), path=st.path(), imprecise=list(st.imp),
                              fn=st.frames[-1].f.short if st.frames else "")
                if prop == self.want and not st.imp and self.unroll is not None and DEADLINE[0]:
                    # a confirmed violation: look a little further, then stop
                    DEADLINE[0] = min(DEADLINE[0], time.time() + 15)
                    self.found = True

    def emit(self, st, ev, **kw):
        for h in self.hooks.get(ev, ()):
            h(self, st, **kw)

    def imprecise(self, st, why):
        if why not in st.imp:
            st.imp = st.imp + (why,)

    # ---- facts / conditions ----------------------------------------------
    def decide(self, st, c):
        k = c[0]
        if k == "c":
            return c[1]
        f = st.facts
        if k == "ge":
            if f.entails_ge(c[1]):
                return True
            if f.entails_ge(-c[1] - 1):
                return False
            return None
        if k == "eq":
            if f.entails_ne(c[1]):
                return False
            if f.entails_eq(c[1]):
                return True
            return None
        if k == "ne":
            r = self.decide(st, ("eq", c[1]))
            return None if r is None else not r
        a = self.decide(st, c[1])
        b = self.decide(st, c[2])
        if k == "and":
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == "or":
            if a or b:
                return True
            return False if a is False and b is False else None

    def assume(self, st, c):
        """Returns the list of (forked or same) states in which c holds."""
        k = c[0]
        if k == "c":
            return [st] if c[1] else []
        if k == "ge":
            st.facts.add_ge(c[1])
        elif k == "eq":
            st.facts.add_eq(c[1])
        elif k == "ne":
            st.facts.add_ne(c[1])
        elif k == "and":
            out = []
            for s in self.assume(st, c[1]):
                out += self.assume(s, c[2])
            return out
        elif k == "or":
            s2 = st.fork()
            out = self.assume(st, c[1])
            for s in self.assume(s2, neg(c[1])):
                out += self.assume(s, c[2])
            return out
        return [] if st.facts.dead else [st]

    def split(self, st, c):
        """[(state, bool)] for the feasible outcomes of c."""
        d = self.decide(st, c)
        if d is not None:
            return [(st, d)]
        s2 = st.fork()
        out = [(s, True) for s in self.assume(st, c)]
        out += [(s, False) for s in self.assume(s2, neg(c))]
        return out

    def as_unsigned(self, st, l, w):
        """[(state, l')] with l' the unsigned value in [0,2^w)."""
        m = 1 << w
        if not l.t:
            return [(st, Lin(l.c % m))]
        l = st.facts.norm(l)
        if not l.t:
            return [(st, Lin(l.c % m))]
        lo, hi = st.facts.rng(l)
        if not (lo is not None and lo >= 0):
            out = []
            for s, b in self.split(st, ("ge", l)):
                if b:
                    out += self._upper(s, l, w, hi)
                else:
                    out.append((s, l + m))
            return out
        return self._upper(st, l, w, hi)

    def _upper(self, st, l, w, hi):
        m = 1 << w
        if hi is not None and hi < m:
            return [(st, l)]
        if w >= 64 and hi is None:
            return [(st, l)]      # sizes do not wrap (documented assumption)
        out = []
        for s, b in self.split(st, ("ge", L(m - 1) - l)):
            if b:
                out.append((s, l))
            else:
                if w >= 64:
                    out.append((s, l - m))
                else:
                    q, r = self.divmod(s, l, m)
                    out.append((s, r))
        return out

    def as_signed(self, st, l, w):
        h = 1 << (w - 1)
        m = 1 << w
        if not l.t:
            v = l.c % m
            return [(st, Lin(v - m if v >= h else v))]
        l = st.facts.norm(l)
        lo, hi = st.facts.rng(l)
        if hi is not None and hi < h and lo is not None and lo >= -h:
            return [(st, l)]
        if w >= 64 and (hi is None or hi < M64 * 4) and not (hi is not None and hi >= h):
            return [(st, l)]
        out = []
        for s, b in self.split(st, ("ge", L(h - 1) - l)):
            if b:
                out.append((s, l))
            else:
                out.append((s, l - m))
        return out

    def u_nosplit(self, st, l, w):
        """Unsigned value of l if it is known without case distinction."""
        m = 1 << w
        if not l.t:
            return Lin(l.c % m)
        l = st.facts.norm(l)
        if not l.t:
            return Lin(l.c % m)
        lo, hi = st.facts.rng(l)
        if (lo is not None and lo >= 0) or st.facts.entails_ge(l):
            if (hi is not None and hi < m) or (hi is None and w >= 64) or st.facts.entails_ge(L(m - 1) - l):
                return l
        elif st.facts.entails_ge(-l - 1) and st.facts.entails_ge(l + m):
            return l + m
        return None

    def divmod(self, st, l, n):
        """l >= 0 assumed; returns (l div n, l mod n) with the linking fact."""
        l = st.facts.norm(l)
        if not l.t:
            return Lin(l.c // n), Lin(l.c % n)
        q0 = l.div_exact(n)
        if q0 is not None:
            return q0, ZERO
        # split off the multiple-of-n part
        mult = Lin(l.c // n * n, tuple((a, k) for a, k in l.t if k % n == 0))
        rest = l - mult
        if mult.t or mult.c:
            if st.facts.entails_ge(rest) and st.facts.entails_ge(L(n - 1) - rest):
                return mult.div_exact(n), rest
        if st.facts.entails_ge(l) and st.facts.entails_ge(L(n - 1) - l):
            return ZERO, l
        lo, hi = st.facts.rng(l)
        q = app("div%d" % n, (l,), 0, None if hi is None else hi // n)
        r = app("mod%d" % n, (l,), 0, n - 1)
        for x in (q, r):
            st.facts.note_app(x.t[0][0])
        st.facts.add_eq(l - q * n - r, deep=False)
        if n >= 1024:
            # constant bounds of the quotient, which rational reasoning loses
            k = max(lo or 0, 0) // n
            while k < 8 and st.facts.entails_ge(l - n * (k + 1)):
                k += 1
            if k:
                st.facts.keep_ge(q - k)
        return q, r

    # ---- types ------------------------------------------------------------
    def tsize(self, t):
        if t == "p":
            return 8
        k = t[0]
        if k == "i":
            return max(1, (t[1] + 7) // 8)
        if k == "f":
            return t[1] // 8
        if k == "s":
            return t[1]
        if k == "a":
            return t[1] * t[3]
        return 8

    def sizeof_name(self, ty):
        ty = ty.strip()
        ty = re.sub(r"^const ", "", ty)
        if ty.endswith("*") or ty.endswith("&"):
            return 8
        b = {"unsigned char": 1, "char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4,
             "unsigned int": 4, "long": 8, "unsigned long": 8, "signed char": 1, "uint8_t": 1}
        if ty in b:
            return b[ty]
        if ty.startswith("std::vector<"):
            return 24
        if ty.startswith("std::unique_ptr<"):
            return 8 if "void (*)" not in ty else 16
        if ty.startswith("std::basic_string<") or ty.startswith("std::function<"):
            return 32
        c = self.p.classes.get(ty)
        if c:
            return c["size"]
        if ty in self.p.enums:
            return 4
        return None

    def leaves(self, ty):
        """[(off, size, typename, path)] of a class type."""
        r = self.layout_cache.get(ty)
        if r is not None:
            return r
        out = []
        c = self.p.classes.get(ty)
        if c is not None:
            for bn, off in c["bases"]:
                for o, s, t, pth in self.leaves(bn):
                    out.append((off + o, s, t, pth))
            for n, off, sz, t in c["members"]:
                t = re.sub(r"^const ", "", t)
                if n.startswith("_vptr"):
                    continue
                if t in self.p.classes and not t.startswith("std::") and not t.startswith("absl::"):
                    for o, s, tt, pth in self.leaves(t):
                        out.append((off + o, s, tt, n + "." + pth))
                else:
                    out.append((off, sz, t, n))
        self.layout_cache[ty] = out
        return out

    def field_at(self, r, off):
        if r.ty is None:
            return None
        if r.ty.startswith("std::") :
            return (0, self.sizeof_name(r.ty) or 0, r.ty, "")
        for o, s, t, pth in self.leaves(r.ty):
            if o <= off < o + max(s, 1):
                return (o, s, t, pth)
        return None

    # ---- lazily initialised contents ---------------------------------------
    def new_region(self, kind, name, **kw):
        return Region(kind, name, **kw)

    def mk_typed_ptr(self, name, ty, nullable=True):
        """Pointer to a fresh object of static type ty (name for reports)."""
        ty = re.sub(r"^const ", "", ty.strip())
        r = Region("obj", name, ty=ty)
        if nullable:
            r.nul = atom("isnull(%s)" % name, 0, 1)
        sz = self.sizeof_name(ty)
        if sz is not None:
            r.size = L(sz)
        return Ptr(r)

    def pointee(self, ty):
        ty = re.sub(r"^const ", "", ty.strip())
        if ty.endswith("*") or ty.endswith("&"):
            return ty.rstrip("*& ").strip()
        m = re.match(r"std::unique_ptr<(.*)>$", ty)
        if m:
            return _first_targ(m.group(1))
        return None

    def init_vector(self, r, base, name, elemty):
        es = self.sizeof_name(elemty) or 1
        buf = Region("vecbuf", name + ".buf", elem=es, ty=None)
        n = atom("size(%s)" % name, 0, SIZE_HI)
        buf.info = dict(elemty=elemty, n=n)
        buf.size = n * es
        if elemty.endswith("Iovec"):
            s = Stream(name, n, buf)
            buf.stream = s
            self.streams[name] = s
        r.init[base] = (8, Ptr(buf))
        r.init[base + 8] = (8, Ptr(buf, n * es))
        cap = atom("cap(%s)" % name, 0, SIZE_HI)
        r.init[base + 16] = (8, Ptr(buf, cap * es))
        return buf

    def init_field(self, r, off, size, isptr):
        """Initial content of region r at constant offset off."""
        c = r.init.get(off)
        if c is not None and c[0] == size:
            return c[1]
        v = None
        f = self.field_at(r, off)
        nm = r.name
        if f is not None:
            o, s, t, pth = f
            nm = (r.name + "." + pth) if pth else r.name
            m = re.match(r"std::vector<(.*)>$", t)
            if m:
                self.init_vector(r, o, nm, _first_targ(m.group(1)))
                c = r.init.get(off)
                if c is not None and c[0] == size:
                    return c[1]
            if t.startswith("std::basic_string<"):
                v = Opq("str", nm)
                r.init[o] = (32, v)
            if isptr:
                pt = self.pointee(t)
                if pt is not None and off == o:
                    v = self.mk_typed_ptr(nm, pt)
                elif t.startswith("std::unique_ptr<") and off == o + 8:
                    v = Fn("deleter:" + nm)
            else:
                lo, hi = 0, (1 << (8 * size)) - 1
                if t == "bool":
                    hi = 1
                if t in self.p.enums:
                    lo, hi = 0, (1 << 31) - 1
                if t in ("int", "long"):
                    lo, hi = -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1
                if size == 8 and t == "unsigned long" and r.info and r.info.get("size64"):
                    hi = SIZE_HI
                v = atom(nm if off == o else "%s+%d" % (nm, off - o), lo, hi)
        if v is None:
            if isptr:
                rr = Region("opaque", "*(%s+%d)" % (nm, off))
                rr.nul = atom("isnull(%s)" % rr.name, 0, 1)
                v = Ptr(rr)
            else:
                v = atom("%s[%d:%d]" % (nm, off, size), 0, (1 << (8 * size)) - 1)
        r.init[off] = (size, v)
        return v

    def stream_elem(self, st, r, k, fld):
        """Field of element k (Lin) of the Iovec vector buffer r."""
        s = r.stream
        ps0 = self.PS(st, s, k)
        ln = app("Len:" + s.name, (s.id, k), 0, (1 << 31) - 1)
        st.facts.note_app(ln.t[0][0])
        ps1 = self.PS(st, s, k + 1)
        st.facts.add_eq(ps1 - ps0 - ln, deep=False)
        idx = st.extra.get("psidx", ())
        if (s, k) not in idx:
            st.extra["psidx"] = idx + ((s, k),)
        if fld == 8:
            return ln
        nul = app("Nul:" + s.name, (s.id, k), 0, 1)
        st.facts.note_app(nul.t[0][0])
        return Chunk(s, ps0, ps0, ps0 + ln, nul)

    def PS(self, st, s, k):
        k = st.facts.norm(k)
        if k == ZERO:
            return ZERO
        x = app("PS:" + s.name, (s.id, k), 0, SIZE_HI)
        if x.t[0][0] not in st.facts.apps:
            st.facts.note_app(x.t[0][0])
            if st.facts.entails_ge(s.n - k):
                n = st.facts.norm(s.n)
                if n != k:
                    t = app("PS:" + s.name, (s.id, n), 0, SIZE_HI) if n != ZERO else ZERO
                    if t.t and t.t[0][0] not in st.facts.apps:
                        st.facts.note_app(t.t[0][0])
                    st.facts.add_ge(t - x)
        return x

    def total(self, st, s):
        return self.PS(st, s, s.n)

    # ---- memory -------------------------------------------------------------
    def rm(self, st, r):
        m = st.mem.get(r.id)
        if m is None:
            m = RMem()
        return m

    def wm(self, st, r):
        m = st.mem.get(r.id)
        m = m.copy() if m is not None else RMem()
        st.mem[r.id] = m
        return m

    def disjoint(self, st, a, n, b, m):
        """[a,a+n) and [b,b+m) provably disjoint (n, m: Lin)."""
        d = a - b
        if d.is_const() and n.is_const() and m.is_const():
            return d.c >= m.c or -d.c >= n.c
        return st.facts.entails_ge(d - m) or st.facts.entails_ge(-d - n)

    def load(self, st, p, ty, inst=None):
        isptr = ty == "p" or ty == ["p"]
        if isinstance(ty, list) and ty[0] in ("s", "a"):
            if ty[0] == "s":
                return Agg([self.load(st, p.add(L(o)), t, inst) for o, t in ty[2]])
            return Agg([self.load(st, p.add(L(i * ty[3])), ty[2], inst) for i in range(ty[1])])
        size = self.tsize(ty)
        if p is NULL or isinstance(p, (Lin, _Undef, Fn, Opq)):
            self.emit(st, "mem", p=p, n=L(size), w=False)
            return self.fresh_val(ty, "load?")
        if isinstance(p, Chunk):
            self.emit(st, "mem", p=p, n=L(size), w=False)
            if isptr:
                return self.fresh_val(ty, "chunkload")
            x = app("byte:" + p.s.name, (p.s.id, st.facts.norm(p.pos), size), 0, (1 << (8 * size)) - 1)
            st.facts.note_app(x.t[0][0])
            return x
        r = p.r
        off = st.facts.norm(p.off)
        self.emit(st, "mem", p=p, n=L(size), w=False)
        return self.load_at(st, r, off, size, isptr, ty)

    def load_at(self, st, r, off, size, isptr, ty=None):
        m = self.rm(st, r)
        c = m.cells.get(off)
        if c is not None:
            if c[0] == size:
                return self.conv(c[1], isptr)
            if c[0] > size and not isptr and isinstance(c[1], Lin):
                u = self.u_nosplit(st, c[1], 8 * c[0])
                if u is not None:
                    return self.divmod(st, u, 1 << (8 * size))[1]
        if off.is_const():
            # composite / partial loads
            o = off.c
            parts = []
            ok = True
            pos = o
            while pos < o + size:
                hit = None
                for k, (sz, v) in m.cells.items():
                    if k.is_const() and k.c <= pos < k.c + sz:
                        hit = (k.c, sz, v)
                        break
                if hit is None:
                    parts.append((pos, None))
                    pos += 1
                    continue
                kc, sz, v = hit
                n = min(kc + sz, o + size) - pos
                parts.append((pos, n, kc, sz, v))
                pos += n
            if any(len(x) == 5 for x in parts):
                if all(len(x) == 5 for x in parts) and not isptr:
                    tot = ZERO
                    for pos, n, kc, sz, v in parts:
                        if not isinstance(v, Lin):
                            ok = False
                            break
                        u = self.u_nosplit(st, v, 8 * sz)
                        if u is None:
                            ok = False
                            break
                        if pos != kc:
                            u = self.divmod(st, u, 1 << (8 * (pos - kc)))[0]
                        if pos + n != kc + sz:
                            u = self.divmod(st, u, 1 << (8 * n))[1]
                        tot = tot + u * (1 << (8 * (pos - o)))
                    if ok:
                        return tot
                v = self.fresh_val("p" if isptr else ["i", 8 * size], "mix:%s+%d" % (r.name, o))
                return v
        # symbolic offset, or no cell: possible aliasing with existing cells?
        sz = L(size)
        if not off.is_const():
            for k, (cs, v) in m.cells.items():
                if not self.disjoint(st, off, sz, k, L(cs)):
                    if cs == size and st.facts.entails_eq(off - k):
                        return self.conv(v, isptr)
                    v = self.fresh_val("p" if isptr else ["i", 8 * size], "alias:%s[%r]" % (r.name, off))
                    return v
        if size == 1 and not isptr and m.segs:
            v = self.seg_load(st, m, off)
            if v is not None:
                return v
        for (co, cn, tag) in reversed(m.clob):
            if cn is None or not self.disjoint(st, off, sz, co, cn):
                v = self.clob_val(st, r, off, size, isptr, co, cn, tag)
                m2 = self.wm(st, r)
                m2.cells[off] = (size, v)
                return v
        # initial contents
        if r.kind in ("alloca", "heap"):
            if r.info and r.info.get("zero"):
                return NULL if isptr else ZERO
            v = UNDEF
            v = self.fresh_val("p" if isptr else ["i", 8 * size], "uninit:%s+%r" % (r.name, off))
            m2 = self.wm(st, r)
            m2.cells[off] = (size, v)
            return v
        if r.kind == "global":
            v = self.global_load(st, r, off, size, isptr)
            if v is not None:
                return v
        if r.kind in ("strdata", "strmut") and r.info and off.is_const() and not isptr:
            v = r.info["val"] if r.kind == "strdata" else r.info["orig"].info["val"]
            if len(v.t) == 3 and v.t[1] == "lit" and 0 <= off.c and off.c + size <= len(v.t[2]) + 1:
                return Lin(int.from_bytes((v.t[2].encode("latin1") + b"\0")[off.c:off.c + size], "little"))
        if r.stream is not None:
            k = (off - (8 if not isptr else 0)).div_exact(16)
            if k is not None and size == 8:
                return self.stream_elem(st, r, k, 0 if isptr else 8)
        if r.kind == "vecbuf" and r.info and r.info.get("elemty") and isptr:
            return self.elem_ptr(st, r, off)
        if off.is_const() and r.kind in ("obj", "opaque", "param"):
            return self.init_field(r, off.c, size, isptr)
        if isptr:
            return self.elem_ptr(st, r, off)
        x = app("ld:%s" % r.name, (r.id, off, size), 0, (1 << (8 * size)) - 1)
        st.facts.note_app(x.t[0][0])
        return x

    def seg_load(self, st, m, off):
        """One byte of a copied segment: the byte of its source."""
        for s in reversed(m.segs):
            if st.facts.entails_ge(off - s.lo) and st.facts.entails_ge(s.hi - off - 1):
                src, o = s.src, st.facts.norm(off + s.delta)
                if src[0] == "init":
                    r = REGS.get(src[1])
                    if r is None or (r.kind not in ("vecbuf", "strdata") and (self.taint is None or r.kind != "param")):
                        return None
                    x = app("ld:%s" % r.name, (r.id, o, 1), 0, 255)
                    st.facts.note_app(x.t[0][0])
                    return x
                if src[0] == "stream":
                    x = app("byte:" + src[2], (src[1], o, 1), 0, 255)
                    st.facts.note_app(x.t[0][0])
                    return x
                if src[0] == "const" and isinstance(src[1], Lin):
                    return src[1]
                if src[0] == "gen":
                    # bytes generated by a modelled function: named by their origin
                    x = app("byte", (src, o), 0, 255)
                    st.facts.note_app(x.t[0][0])
                    return x
                return None
        return None

    def clob_val(self, st, r, off, size, isptr, co, cn, tag):
        return self.fresh_val("p" if isptr else ["i", 8 * size], "%s[%r]" % (tag, off))

    def elem_ptr(self, st, r, off):
        key = (r.id, off)
        q = self.elemreg.get(key)
        if q is None:
            et = (r.info or {}).get("elemty", "") if r.info else ""
            pt = self.pointee(et) if et else None
            q = self.mk_typed_ptr("%s[%r]" % (r.name, off), pt or "?", nullable=True)
            self.elemreg[key] = q
        return q

    def conv(self, v, isptr):
        if isptr:
            if isinstance(v, Lin):
                return NULL if v == ZERO else v
            return v
        if v is NULL:
            return ZERO
        return v

    def global_region(self, name):
        r = self.globreg.get(name)
        if r is None:
            g = self.p.globals.get(name, {})
            r = Region("global", name, size=L(g["size"]) if g.get("size") else None)
            r.info = g
            self.globreg[name] = r
        return r

    def global_load(self, st, r, off, size, isptr):
        g = r.info
        if not g or "init" not in g or not off.is_const():
            return None
        return self.const_at(g["init"], g["t"], off.c, size, isptr)

    def const_at(self, c, t, off, size, isptr):
        k = c[0]
        if k == "z":
            return NULL if isptr else ZERO
        if k == "ca":
            es = max(1, c[1][1] // 8)
            v = 0
            for i in range(size):
                e = (off + i) // es
                if e >= len(c[2]):
                    return None
                b = (c[2][e] >> (8 * ((off + i) % es))) & 0xff
                v |= b << (8 * i)
            return Lin(v)
        if k == "cs":
            ty = c[1]
            if ty[0] == "s":
                for (o, et), e in zip(ty[2], c[2]):
                    n = self.tsize(et)
                    if o <= off < o + n:
                        return self.const_at(e, et, off - o, size, isptr)
            elif ty[0] == "a":
                i = off // ty[3]
                if i < len(c[2]):
                    return self.const_at(c[2][i], ty[2], off % ty[3], size, isptr)
            return None
        if off == 0:
            return self.const_val(c)
        return None

    def const_val(self, c):
        k = c[0]
        if k == "c":
            return Lin(int(c[1]))
        if k == "n":
            return NULL
        if k == "fn":
            return Fn(c[1])
        if k == "g":
            return Ptr(self.global_region(c[1]))
        if k == "ge":
            b = self.const_val(c[1])
            return b.add(L(c[2])) if hasattr(b, "add") else b
        if k == "z":
            return self.zero_of(c[1])
        if k == "cs":
            return Agg([self.const_val(x) for x in c[2]])
        if k == "ca":
            return Agg([Lin(x) for x in c[2]])
        return UNDEF

    def zero_of(self, t):
        if t == "p":
            return NULL
        if t[0] == "i":
            return ZERO
        if t[0] == "s":
            return Agg([self.zero_of(x) for _, x in t[2]])
        if t[0] == "a":
            return Agg([self.zero_of(t[2])] * t[1])
        return UNDEF

    def fresh_val(self, ty, name):
        if ty == "p" or ty == ["p"]:
            r = Region("opaque", name)
            r.nul = atom("isnull(%s)" % name, 0, 1)
            return Ptr(r)
        if ty == "v":
            return None
        if ty[0] == "i":
            if ty[1] == 1:
                return ("ne", atom(name, 0, 1))
            return atom(name, 0, (1 << ty[1]) - 1)
        if ty[0] == "s":
            return Agg([self.fresh_val(t, name + ".%d" % i) for i, (_, t) in enumerate(ty[2])])
        return UNDEF

    def store(self, st, p, v, ty):
        if isinstance(ty, list) and ty[0] in ("s", "a"):
            if not isinstance(v, Agg):
                return
            if ty[0] == "s":
                for (o, t), x in zip(ty[2], v.v):
                    self.store(st, p.add(L(o)), x, t)
            else:
                for i, x in enumerate(v.v):
                    self.store(st, p.add(L(i * ty[3])), x, ty[2])
            return
        size = self.tsize(ty)
        self.emit(st, "mem", p=p, n=L(size), w=True, val=v)
        if not isinstance(p, Ptr):
            if isinstance(p, Chunk):
                self.emit(st, "chunkwrite", p=p, n=L(size))
            return
        if p.r.kind == "strmut" and isinstance(v, Lin):
            old = self.load_at(st, p.r, st.facts.norm(p.off), size, False)
            if isinstance(old, Lin) and st.facts.entails_eq(old - v):
                return
        off = st.facts.norm(p.off)
        self.store_at(st, p.r, off, size, v)
        if size == 1 and isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            o = self.byte_origin(v.t[0][0])
            if o is not None:
                # a copied byte: remember where it comes from
                self.add_seg(st, p.r, off, off + 1, o[0], st.facts.norm(o[1] - off))

    def unnamed(self, v):
        """v contains a value whose origin was lost."""
        return isinstance(v, Lin) and any(A.fn[a] is None for a, _ in v.t)

    def byte_origin(self, a):
        """(source, offset) if atom a is one byte of a source of bytes."""
        fn = A.fn[a]
        if fn is None:
            return None
        nm, args = fn
        if nm.startswith("byte:") and args[2] == 1:
            return ("stream", args[0], nm[5:]), args[1]
        if nm == "byte" and isinstance(args[0], tuple) and args[0] and args[0][0] == "gen":
            return args[0], args[1]
        if nm.startswith("ld:") and len(args) == 3 and args[2] == 1 and args[0] in REGS and REGS[args[0]].kind in ("vecbuf", "strdata"):
            return ("init", args[0], REGS[args[0]].name), args[1]
        return None

    def store_at(self, st, r, off, size, v):
        m = self.wm(st, r)
        self.inval(st, r, m, off, L(size), keep=off)
        m.cells[off] = (size, v)
        if not off.is_const():
            m.clob = m.clob + ((off, L(size), "st:%s" % r.name),)

    def inval(self, st, r, m, off, n, keep=None, clob=None):
        """Forget cells / segments possibly overlapping [off,off+n)."""
        if r.kind == "strmut" and n != ZERO:
            st.mon[("dirty", r.id)] = st.mon.get(("dirty", r.id), 0) + 1
        for k in list(m.cells):
            sz, v = m.cells[k]
            if k == keep and n.is_const() and sz == n.c:
                continue
            if n == ZERO:
                continue
            if not self.disjoint(st, off, n, k, L(sz)):
                del m.cells[k]
                if off.is_const() and n.is_const() and k.is_const() and isinstance(v, Lin):
                    # keep the untouched part of an integer cell
                    a, b = off.c, off.c + n.c
                    u = self.u_nosplit(st, v, 8 * sz)
                    if u is not None:
                        if k.c < a:
                            m.cells[k] = (a - k.c, self.divmod(st, u, 1 << (8 * (a - k.c)))[1])
                        if k.c + sz > b:
                            m.cells[L(b)] = (k.c + sz - b, self.divmod(st, u, 1 << (8 * (b - k.c)))[0])
        if m.segs:
            segs = []
            for s in m.segs:
                if self.disjoint(st, off, n, s.lo, s.hi - s.lo):
                    segs.append(s)
                else:
                    # keep the provably untouched prefix / suffix
                    f = st.facts
                    if f.entails_ge(off - s.lo - 1) and f.entails_ge(s.hi - off):
                        segs.append(Seg(s.lo, off, s.src, s.delta))
                    if f.entails_ge(s.hi - off - n - 1) and f.entails_ge(off + n - s.lo):
                        segs.append(Seg(off + n, s.hi, s.src, s.delta))
            m.segs = tuple(segs)
        if clob is not None:
            m.clob = m.clob + ((off, n, clob),)

    def add_seg(self, st, r, lo, hi, src, delta):
        m = self.wm(st, r)
        segs = list(m.segs)
        for i, s in enumerate(segs):
            if s.src == src and st.facts.entails_eq(s.delta - delta):
                if st.facts.entails_eq(s.hi - lo):
                    segs[i] = Seg(s.lo, hi, src, s.delta)
                    m.segs = tuple(segs)
                    return
                if st.facts.entails_eq(hi - s.lo):
                    segs[i] = Seg(lo, s.hi, src, s.delta)
                    m.segs = tuple(segs)
                    return
        if len(segs) > 160:
            segs = segs[-160:]
        segs.append(Seg(lo, hi, src, delta))
        m.segs = tuple(segs)

    def source_of(self, st, p, n):
        """Resolve the n bytes at p to a source (src, offset), or None."""
        if isinstance(p, Chunk):
            return (("stream", p.s.id, p.s.name), p.pos)
        if isinstance(p, Ptr):
            r = p.r
            m = self.rm(st, r)
            off = st.facts.norm(p.off)
            for s in reversed(m.segs):
                if st.facts.entails_ge(off - s.lo) and st.facts.entails_ge(s.hi - off - n):
                    return (s.src, off + s.delta)
            if any(cn is None or not self.disjoint(st, off, n, co, cn) for co, cn, _ in m.clob):
                return None
            if any(not self.disjoint(st, off, n, k, L(sz)) for k, (sz, v) in m.cells.items()
                   if not (r.init.get(k.c if k.is_const() else None, (None, None))[1] is v) and not self._initcell(r, k, v)):
                return None
            if r.kind in ("alloca", "heap") :
                return None
            return (("init", r.id, r.name), off)
        return None

    def blurred(self, st, p, n):
        """Whether some of the n bytes at p were overwritten at an offset or
        with contents the analysis lost track of."""
        if not isinstance(p, Ptr):
            return True
        m = self.rm(st, p.r)
        off = st.facts.norm(p.off)
        f = st.facts
        return any(cn is None or not self.disjoint(st, off, n, co, cn)
                   and not any(f.entails_ge(co - s.lo) and f.entails_ge(s.hi - co - cn) for s in m.segs)
                   for co, cn, _ in m.clob)

    def pieces(self, st, p, n):
        """The n bytes at p as consecutive [(source, offset, length)]; single
        bytes of known value have source ("value", v); unknown: None."""
        f = st.facts
        n = f.norm(n)
        src = self.source_of(st, p, n)
        if src is not None:
            return [(src[0], src[1], n)]
        if not isinstance(p, Ptr):
            return [(None, ZERO, n)]
        r = p.r
        m = self.rm(st, r)
        pos, end = f.norm(p.off), f.norm(p.off + n)
        out = []
        for _ in range(400):
            if f.entails_ge(pos - end):
                return out
            hit = None
            for s in reversed(m.segs):
                if f.entails_ge(pos - s.lo) and f.entails_ge(s.hi - pos - 1):
                    hit = s
                    break
            if hit is not None:
                e = end if f.entails_ge(hit.hi - end) else hit.hi if f.entails_ge(end - hit.hi) else None
                if e is not None:
                    out.append((hit.src, f.norm(pos + hit.delta), f.norm(e - pos)))
                    pos = f.norm(e)
                    continue
            c = m.cells.get(pos)
            if c is not None and isinstance(c[1], Lin) and (c[0] == 1 or f.entails_ge(end - pos - c[0])):
                if c[0] == 1:
                    out.append((("value", c[1]), ZERO, ONE))
                    pos = pos + 1
                    continue
            if pos.is_const():
                v = None
                for k, (sz, x) in m.cells.items():
                    if k.is_const() and k.c <= pos.c < k.c + sz and isinstance(x, Lin):
                        v = self.load_at(st, r, pos, 1, False)
                if isinstance(v, Lin):
                    out.append((("value", v), ZERO, ONE))
                    pos = pos + 1
                    continue
            sub = self.source_of(st, Ptr(r, pos), f.norm(end - pos))
            if sub is not None:
                out.append((sub[0], sub[1], f.norm(end - pos)))
                return out
            out.append((None, ZERO, f.norm(end - pos)))
            return out
        out.append((None, ZERO, f.norm(end - pos)))
        return out

    def _initcell(self, r, k, v):
        return isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and A.fn[v.t[0][0]] is not None and A.fn[v.t[0][0]][0] == "ld:%s" % r.name

    def copy_mem(self, st, d, s, n):
        """memcpy(d, s, n)."""
        self.emit(st, "mem", p=s, n=n, w=False, bulk=True)
        self.emit(st, "mem", p=d, n=n, w=True, bulk=True)
        self.emit(st, "memcpy", d=d, s=s, n=n)
        n = st.facts.norm(n)
        if n == ZERO or not isinstance(d, Ptr):
            return
        src = self.source_of(st, s, n)
        vals = []
        known = n.is_const() and isinstance(s, Ptr) and n.c <= (65536 if s.r.kind in ("alloca", "heap", "vecbuf") and s.r.stream is None else 512)
        if not known and isinstance(s, Ptr) and any(isinstance(v, Ptr) for _, v in self.rm(st, s.r).cells.values()):
            self.imprecise(st, "copy of many objects")
        if known:
            r = s.r
            m = self.rm(st, r)
            so = st.facts.norm(s.off)
            got = set()
            for k, (sz, v) in list(m.cells.items()):
                dd = k - so
                if dd.is_const() and 0 <= dd.c and dd.c + sz <= n.c:
                    vals.append((dd.c, sz, v))
                    got.update(range(dd.c, dd.c + sz))
            if n.c % 8 == 0 and n.c <= 512 and r.kind not in ("alloca", "heap", "global"):
                for w in range(0, n.c, 8):
                    if not any(b in got for b in range(w, w + 8)):
                        isptr = None
                        if r.stream is not None:
                            x = (so + w)
                            isptr = x.div_exact(16) is not None
                        else:
                            if so.is_const():
                                c = r.init.get(so.c + w)
                                if c is not None:
                                    isptr = not isinstance(c[1], Lin)
                                else:
                                    f = self.field_at(r, so.c + w)
                                    if f is not None:
                                        t = f[2]
                                        isptr = t.endswith("*") or t.startswith("std::unique_ptr") or t.startswith("std::vector")
                        if isptr is not None:
                            vals.append((w, 8, self.load_at(st, r, so + w, 8, isptr)))
            elif r.kind == "global" and so.is_const():
                g = r.info
                if g and g.get("const", False) and "init" in g:
                    w = 8
                    x = 0
                    while x < n.c:
                        w = 8 if x + 8 <= n.c and (so.c + x) % 8 == 0 else 1
                        v = self.const_at(g["init"], g["t"], so.c + x, w, False)
                        if v is None or not isinstance(v, Lin):
                            v2 = self.const_at(g["init"], g["t"], so.c + x, 8, True)
                            if v2 is not None:
                                vals.append((x, 8, v2))
                            x += 8
                            continue
                        vals.append((x, w, v))
                        x += w
        do = st.facts.norm(d.off)
        m = self.wm(st, d.r)
        # a bulk copy from a source of unknown contents clobbers the target
        self.inval(st, d.r, m, do, n, clob=("cp:%s" % d.r.name))
        for o, sz, v in vals:
            m.cells[do + o] = (sz, v)
        if src is not None:
            self.add_seg(st, d.r, do, do + n, src[0], st.facts.norm(src[1] - do))

    def set_mem(self, st, d, v, n):
        self.emit(st, "mem", p=d, n=n, w=True, bulk=True)
        self.emit(st, "memset", d=d, v=v, n=n)
        if not isinstance(d, Ptr):
            return
        n = st.facts.norm(n)
        if n == ZERO:
            return
        do = st.facts.norm(d.off)
        m = self.wm(st, d.r)
        self.inval(st, d.r, m, do, n, clob="set:%s" % d.r.name)
        if n.is_const() and n.c <= 4096 and v == ZERO:
            m.clob = m.clob[:-1]
            x = 0
            while x < n.c:
                w = 8 if n.c - x >= 8 else 1
                m.cells[do + x] = (w, ZERO)
                x += w
        self.add_seg(st, d.r, do, do + n, ("const", v if isinstance(v, Lin) else None), ZERO)

    def havoc(self, st, p, n, tag, src=None):
        """n bytes at p overwritten with unknown contents."""
        if not isinstance(p, Ptr):
            return
        do = st.facts.norm(p.off)
        m = self.wm(st, p.r)
        if n is None:
            m.cells.clear()
            m.segs = ()
            m.clob = ((ZERO, None, tag),)
            return
        self.inval(st, p.r, m, do, n, clob=tag)
        if src is not None:
            self.add_seg(st, p.r, do, do + n, src, ZERO - do)

    def is_null(self, p):
        """Condition that p is null."""
        if p is NULL:
            return TRUE
        if isinstance(p, Lin):
            return ("eq", p)
        if isinstance(p, Chunk):
            return ("eq", p.nul - 1)
        if isinstance(p, Ptr):
            if p.r.nul is None:
                return FALSE
            return ("eq", p.r.nul - 1)
        if isinstance(p, Fn):
            if p.name.startswith("?"):
                return ("ne", atom("isnullfn", 0, 1))
            return FALSE
        return ("ne", atom("isnull?", 0, 1))

    def addr(self, p):
        """Integer view of a pointer."""
        if p is NULL:
            return ZERO
        if isinstance(p, Lin):
            return p
        if isinstance(p, Chunk):
            return app("addrS", (p.s.id,)) + p.pos
        if isinstance(p, Ptr):
            return app("addr", (p.r.id,), 4096, None) + p.off
        return atom("addr?", 0, None)

    # ---- execution -----------------------------------------------------------
    def val(self, st, v):
        k = v[0]
        if k == "r":
            return st.frames[-1].env.get(v[1], UNDEF)
        if k == "c":
            if v[2] == 1:
                return TRUE if v[1] else FALSE
            return Lin(int(v[1]))
        return self.const_val(v)

    def run(self, f, args, st):
        """Interpret function f; returns [(state, return value)]."""
        if f.loops is None:
            ir.cfg(f)
        self.visited.add(f.name)
        fr = Frame(f, {})
        for i, a in enumerate(args):
            fr.env[i] = a
        if len(st.frames) > 90:
            self.imprecise(st, "call depth")
            return [(st, self.fresh_val(f.ret, "deep"))]
        st.frames = st.frames + [fr]
        outs = self.region(st, f, 0, -1, None)
        res = []
        for o in outs:
            assert o[0] == "ret"
            s = o[1]
            dead = s.frames[-1].allocas
            s.frames = s.frames[:-1]
            if s.frames:
                s.frames[-1] = s.frames[-1].copy()
            for rid in dead:
                s.mem.pop(rid, None)
            res.append((s, o[2]))
        return res

    def region(self, st, f, blk, prev, loop):
        """Explore from block `blk` (already entered from prev).  `loop` is the
        header of the enclosing loop being explored (None: function body).
        Returns outcomes ('ret', st, v) and ('edge', st, from, to) for edges
        back to the header or out of the loop."""
        body = f.loops[loop] if loop is not None else None
        out = []
        work = [(st, blk, prev, True)]
        while work:
            s, b, pv, first = work.pop()
            if b in f.loops and not (first and b == loop):
                for o in self.run_loop(s, f, b, pv):
                    if o[0] == "ret":
                        out.append(o)
                    else:
                        _, s2, fb, tb = o
                        self.place(s2, tb, fb, work, out, loop, body)
                continue
            for o in self.block(s, f, b, pv):
                if o[0] == "ret":
                    out.append(o)
                else:
                    _, s2, fb, tb = o
                    self.place(s2, tb, fb, work, out, loop, body)
            if len(out) + len(work) > self.maxpaths:
                raise Stop("path limit in %s" % f.short)
        return out

    def place(self, s2, tb, fb, work, out, loop, body):
        if loop is not None and (tb == loop or tb not in body):
            out.append(("edge", s2, fb, tb))
        else:
            work.append((s2, tb, fb, False))

    def phis(self, st, f, b, prev):
        if prev is None:
            return
        env = st.frames[-1].env
        new = []
        for inst in f.blocks[b]:
            if inst[0] != "phi":
                break
            for fb, v in inst[3]:
                if fb == prev:
                    new.append((inst[1], self.val(st, v)))
                    break
        for k, v in new:
            env[k] = v

    def block(self, st, f, b, prev, skip_phi=False):
        """Execute block b; returns outcomes."""
        if not skip_phi:
            self.phis(st, f, b, prev)
        out = []
        insts = f.blocks[b]
        work = [(st, 0)]
        n = len(insts)
        while work:
            s, i = work.pop()
            while True:
                inst = insts[i]
                op = inst[0]
                if op == "phi":
                    i += 1
                    continue
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Stop("step limit")
                if self.steps & 255 == 0 and DEADLINE[0] and time.time() > DEADLINE[0]:
                    raise Stop("time limit")
                if inst[4]:
                    s.frames[-1].env["@"] = inst
                h = self.OPS.get(op)
                if op == "br":
                    o = inst[3]
                    if len(o) == 1:
                        out.append(("edge", s, b, o[0]))
                    else:
                        c = self.as_cond(s, self.val(s, o[0]))
                        if self.branch_conds is not None and c[0] in ("ge", "eq", "ne"):
                            self.branch_conds.append((c, f, b, o[1], o[2], len(s.frames)))
                        for s2, t in self.split(s, c):
                            self.npaths += 1
                            if inst[4] and inst[5].startswith(ir.REPO):
                                s2.note("br", inst[5][len(ir.REPO) + 1:], inst[4], t)
                            out.append(("edge", s2, b, o[1] if t else o[2]))
                    break
                if op == "switch":
                    self.do_switch(s, f, b, inst, out)
                    break
                if op == "ret":
                    v = self.val(s, inst[3][0]) if inst[3] else None
                    out.append(("ret", s, v))
                    break
                if op == "unreachable":
                    break
                if h is None:
                    self.unknown[op] = self.unknown.get(op, 0) + 1
                    if inst[1] >= 0:
                        s.frames[-1].env[inst[1]] = self.fresh_val(inst[2], op)
                    i += 1
                    continue
                r = h(self, s, inst)
                if r is None:
                    i += 1
                    continue
                # list of states continuing after this instruction
                i += 1
                if not r:
                    break
                for x in r[1:]:
                    work.append((x, i))
                s = r[0]
        return out

    def do_switch(self, s, f, b, inst, out):
        o = inst[3]
        v = self.val(s, o[0])
        w = o[3]
        if isinstance(v, tuple):
            v = self.cond_lin(s, v)
        if not isinstance(v, Lin):
            v = atom("sw?", 0, None)
        for s1, u in self.as_unsigned(s, v, w):
            cur = s1
            for cv, tb in o[2]:
                cv = int(cv) % (1 << w)
                c = ("eq", u - cv)
                d = self.decide(cur, c)
                if d is False:
                    continue
                if d is True:
                    cur.note("sw", inst[5], inst[4], cv)
                    out.append(("edge", cur, b, tb))
                    cur = None
                    break
                s2 = cur.fork()
                for s3 in self.assume(s2, c):
                    s3.note("sw", inst[5], inst[4], cv)
                    out.append(("edge", s3, b, tb))
                r = self.assume(cur, neg(c))
                if not r:
                    cur = None
                    break
                cur = r[0]
            if cur is not None:
                cur.note("sw", inst[5], inst[4], "default")
                out.append(("edge", cur, b, o[1]))

    def as_cond(self, st, v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, Lin):
            return ("ne", v)
        if v is UNDEF:
            return ("ne", atom("undefbool", 0, 1))
        return ("ne", atom("bool?", 0, 1))

    def cond_lin(self, st, c):
        """0/1 value of a condition without splitting."""
        if c[0] == "c":
            return ONE if c[1] else ZERO
        d = self.decide(st, c)
        if d is not None:
            return ONE if d else ZERO
        if c[0] == "ne" and len(c[1].t) == 1 and c[1].c == 0 and abs(c[1].t[0][1]) == 1:
            a = c[1].t[0][0]
            if A.lo[a] == 0 and A.hi[a] == 1:
                return Lin(0, ((a, 1),))
        return None

    # instruction handlers -------------------------------------------------
    def set(self, st, inst, v):
        st.frames[-1].env[inst[1]] = v

    def op_alloca(self, st, inst):
        n, cnt, nm = inst[3]
        r = Region("alloca", nm or "tmp%d" % inst[1], size=L(n))
        fr = st.frames[-1]
        fr.allocas = fr.allocas + (r.id,)
        c = self.val(st, cnt)
        if isinstance(c, Lin) and c != ONE:
            r.size = c * n
        st.frames[-1].env[inst[1]] = Ptr(r)

    def op_load(self, st, inst):
        p = self.val(st, inst[3][0])
        t = inst[2]
        v = self.load(st, p, t, inst)
        if isinstance(t, list) and t[0] == "i" and t[1] == 1 and isinstance(v, Lin):
            v = ("ne", v)
        self.set(st, inst, v)

    def op_store(self, st, inst):
        v = self.val(st, inst[3][0])
        p = self.val(st, inst[3][1])
        t = inst[3][2]
        if isinstance(v, tuple):
            return self.materialise(st, v, lambda s, x: self.store(s, p, x, t))
        self.store(st, p, v, t)

    def materialise(self, st, c, k):
        l = self.cond_lin(st, c)
        if l is not None:
            k(st, l)
            return None
        out = []
        for s, b in self.split(st, c):
            k(s, ONE if b else ZERO)
            out.append(s)
        return out

    def op_gep(self, st, inst):
        b, c, vs, ok = inst[3]
        p = self.val(st, b)
        off = L(c)
        states = [(st, off)]
        for v, sc, w in vs:
            x = self.val(st, v)
            if not isinstance(x, Lin):
                x = self.cond_lin(st, x) if isinstance(x, tuple) else None
            if x is None:
                x = atom("idx?")
            nxt = []
            for s, o in states:
                # indices are sign-extended; sizes are far below 2^63
                xs = [(s, x)] if w == 64 else self.as_signed(s, x, w)
                for s2, y in xs:
                    nxt.append((s2, o + y * sc))
            states = nxt
        for s, o in states:
            if p is NULL:
                q = NULL if o == ZERO else Ptr(WILD, o)
            elif isinstance(p, (Ptr, Chunk)):
                q = p.add(o)
            elif isinstance(p, Lin):
                q = p + o
            else:
                q = p
            s.frames[-1].env[inst[1]] = q
        return None if len(states) == 1 and states[0][0] is st else [s for s, _ in states]

    def intlike(self, st, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, tuple):
            return self.cond_lin(st, v)
        if v is NULL:
            return ZERO
        return None

    def op_bin(self, st, inst):
        op = inst[0]
        a, b = self.val(st, inst[3][0]), self.val(st, inst[3][1])
        w = inst[2][1] if isinstance(inst[2], list) and inst[2][0] == "i" else 64
        if w == 1:
            ca, cb = self.as_cond(st, a), self.as_cond(st, b)
            if op == "and":
                r = ("and", ca, cb)
            elif op == "or":
                r = ("or", ca, cb)
            elif op == "xor":
                if cb[0] == "c":
                    r = neg(ca) if cb[1] else ca
                elif ca[0] == "c":
                    r = neg(cb) if ca[1] else cb
                else:
                    r = ("or", ("and", ca, neg(cb)), ("and", neg(ca), cb))
            else:
                r = ("ne", atom("i1op", 0, 1))
            self.set(st, inst, r)
            return
        a, b = self.intlike(st, a), self.intlike(st, b)
        if a is None or b is None:
            self.set(st, inst, self.fresh_val(inst[2], op + "?"))
            return
        if op == "add":
            self.set(st, inst, a + b)
            return
        if op == "sub":
            self.set(st, inst, a - b)
            return
        na, nb = st.facts.norm(a), st.facts.norm(b)
        if op == "mul":
            if nb.is_const():
                self.set(st, inst, na * nb.c)
            elif na.is_const():
                self.set(st, inst, nb * na.c)
            else:
                if (nb.t, nb.c) < (na.t, na.c):
                    na, nb = nb, na
                x = app("mul", (na, nb), 0, None)
                st.facts.note_app(x.t[0][0])
                self.set(st, inst, x)
            return
        if op == "shl" and nb.is_const():
            self.set(st, inst, na * (1 << nb.c) if 0 <= nb.c < w else self.bad_shift(st, inst, nb))
            return
        if op in ("sdiv", "ashr", "srem"):
            if op == "ashr" and nb.is_const():
                if nb.c < 0 or nb.c >= w:
                    self.set(st, inst, self.bad_shift(st, inst, nb))
                    return
                n = 1 << nb.c
            elif nb.is_const() and nb.c > 0:
                n = nb.c
            else:
                n = None
            if n is not None:
                q = na.div_exact(n)
                if q is not None:
                    self.set(st, inst, q if op != "srem" else ZERO)
                    return
                out = []
                for s, x in self.as_signed(st, na, w):
                    if s.facts.entails_ge(x):
                        q, r = self.divmod(s, x, n)
                        s.frames[-1].env[inst[1]] = r if op == "srem" else q
                    else:
                        s.frames[-1].env[inst[1]] = atom(op)
                    out.append(s)
                return out
            self.set(st, inst, atom(op + "?"))
            return
        if op in ("udiv", "lshr", "urem", "and", "or", "xor", "shl"):
            out = []
            for s, x in self.as_unsigned(st, na, w):
                for s2, y in self.as_unsigned(s, nb, w):
                    s2.frames[-1].env[inst[1]] = self.ubin(s2, op, x, y, w, inst)
                    out.append(s2)
            return out
        self.set(st, inst, self.fresh_val(inst[2], op))

    def bad_shift(self, st, inst, nb):
        self.emit(st, "badshift", amount=nb)
        return atom("badshift", 0, None)

    def ubin(self, st, op, x, y, w, inst):
        if op in ("udiv", "lshr", "urem"):
            if y.is_const():
                if op == "lshr":
                    if y.c >= w:
                        return self.bad_shift(st, inst, y)
                    n = 1 << y.c
                else:
                    n = y.c
                if n > 0:
                    q, r = self.divmod(st, x, n)
                    return r if op == "urem" else q
            if op == "lshr" or op == "urem" or op == "udiv":
                v = app(op, (x, y), 0, (1 << w) - 1)
                st.facts.note_app(v.t[0][0])
                return v
        if op == "and":
            if x.is_const() and not y.is_const():
                x, y = y, x
            if y.is_const():
                if x.is_const():
                    return Lin(x.c & y.c)
                m = y.c
                if m == (1 << w) - 1:
                    return x
                if m & (m + 1) == 0:
                    return self.divmod(st, x, m + 1)[1]
                low = m & -m
                if (m | (low - 1)) == (1 << w) - 1:
                    # clears the low bits
                    q, r = self.divmod(st, x, low)
                    return q * low
            v = app("and", (x, y), 0, (1 << w) - 1)
            st.facts.note_app(v.t[0][0])
            return v
        if op in ("or", "xor"):
            if x.is_const() and y.is_const():
                return Lin(x.c | y.c) if op == "or" else Lin(x.c ^ y.c)
            if x == ZERO:
                return y
            if y == ZERO:
                return x
            for a, b in ((x, y), (y, x)):
                # a multiple of 2^k, b < 2^k
                g = 0
                for _, k in a.t:
                    g = linmod.gcd(g, k)
                g = linmod.gcd(g, a.c) if a.c else g
                p2 = g & -g
                if p2 > 1 and st.facts.entails_ge(L(p2 - 1) - b) and st.facts.entails_ge(b):
                    return a + b
            if (y.t, y.c) < (x.t, x.c):
                x, y = y, x
            v = app(op, (x, y), 0, (1 << w) - 1)
            st.facts.note_app(v.t[0][0])
            return v
        if op == "shl":
            v = app("shl", (x, y), 0, (1 << w) - 1)
            st.facts.note_app(v.t[0][0])
            if st.facts.entails_ge(y - w) or st.facts.entails_ge(-y - 1):
                self.emit(st, "badshift", amount=y)
            elif not st.facts.entails_ge(L(w - 1) - y):
                self.emit(st, "badshift", amount=y)
            return v

    def op_cast(self, st, inst):
        op = inst[0]
        v = self.val(st, inst[3][0])
        ft = inst[3][1]
        if op == "ptrtoint":
            self.set(st, inst, self.addr(v))
            return
        if op == "inttoptr":
            if isinstance(v, Lin) and v == ZERO:
                self.set(st, inst, NULL)
            else:
                if isinstance(v, Lin):
                    nv = st.facts.norm(v)
                    for a, k in nv.t:
                        if k == 1 and A.fn[a] and A.fn[a][0] == "addr":
                            rid = A.fn[a][1][0]
                            self.set(st, inst, v)
                            return
                self.set(st, inst, v if isinstance(v, (Ptr, Chunk)) else self.fresh_val("p", "inttoptr"))
            return
        if op in ("uitofp", "sitofp", "fptoui", "fptosi"):
            # whole numbers below 2^53 are exact
            if isinstance(v, Lin):
                lo, hi = st.facts.rng(st.facts.norm(v))
                if lo is not None and hi is not None and -(1 << 53) <= lo and hi <= 1 << 53 and (op[0] != "u" or lo >= 0) and (op != "fptoui" or lo >= 0):
                    self.set(st, inst, v)
                    return
            self.imprecise(st, "floating point")
            self.set(st, inst, self.fresh_val(inst[2], op))
            return
        fw = ft[1] if isinstance(ft, list) and ft[0] == "i" else 64
        tw = inst[2][1] if isinstance(inst[2], list) and inst[2][0] == "i" else 64
        if op == "zext":
            if isinstance(v, tuple):
                return self.materialise(st, v, lambda s, x: s.frames[-1].env.__setitem__(inst[1], x))
            if not isinstance(v, Lin):
                self.set(st, inst, self.fresh_val(inst[2], "zext?"))
                return
            out = []
            for s, x in self.as_unsigned(st, v, fw):
                s.frames[-1].env[inst[1]] = x
                out.append(s)
            return out
        if op == "sext":
            if isinstance(v, tuple):
                return self.materialise(st, v, lambda s, x: s.frames[-1].env.__setitem__(inst[1], -x))
            if not isinstance(v, Lin):
                self.set(st, inst, self.fresh_val(inst[2], "sext?"))
                return
            out = []
            for s, x in self.as_signed(st, v, fw):
                s.frames[-1].env[inst[1]] = x
                out.append(s)
            return out
        if op == "trunc":
            if isinstance(v, tuple):
                self.set(st, inst, v)
                return
            if not isinstance(v, Lin):
                self.set(st, inst, self.fresh_val(inst[2], "trunc?"))
                return
            if tw == 1:
                nv = st.facts.norm(v)
                lo, hi = st.facts.rng(nv)
                if lo is not None and lo >= 0 and hi is not None and hi <= 1:
                    self.set(st, inst, ("ne", nv))
                    return
                u = self.as_unsigned(st, nv, fw)
                out = []
                for s, x in u:
                    if s.facts.entails_ge(L(1) - x):
                        s.frames[-1].env[inst[1]] = ("ne", x)
                    else:
                        s.frames[-1].env[inst[1]] = ("ne", self.divmod(s, x, 2)[1])
                    out.append(s)
                return out
            nv = st.facts.norm(v)
            m = 1 << tw
            if nv.is_const():
                self.set(st, inst, Lin(nv.c % m))
                return
            lo, hi = st.facts.rng(nv)
            if lo is not None and hi is not None and lo >= -(m // 2) and hi < m:
                self.set(st, inst, nv)
                return
            if st.facts.entails_ge(nv) and st.facts.entails_ge(L(m - 1) - nv):
                self.set(st, inst, nv)
                return
            out = []
            for s, x in self.as_unsigned(st, nv, fw):
                s.frames[-1].env[inst[1]] = self.divmod(s, x, m)[1]
                out.append(s)
            return out
        self.set(st, inst, v)

    def op_freeze(self, st, inst):
        self.set(st, inst, self.val(st, inst[3][0]))

    def op_icmp(self, st, inst):
        pred, a, b, ty = inst[3]
        a, b = self.val(st, a), self.val(st, b)
        if ty == "p":
            r = self.ptr_cmp(st, pred, a, b)
            self.set(st, inst, r)
            return
        w = ty[1]
        if w == 1:
            ca, cb = self.as_cond(st, a), self.as_cond(st, b)
            x = ("or", ("and", ca, neg(cb)), ("and", neg(ca), cb))
            self.set(st, inst, x if pred == "ne" else neg(x))
            return
        if isinstance(a, tuple):
            a = self.cond_lin(st, a)
        if isinstance(b, tuple):
            b = self.cond_lin(st, b)
        if isinstance(a, (Ptr, Chunk, _Null)):
            a = self.addr(a)
        if isinstance(b, (Ptr, Chunk, _Null)):
            b = self.addr(b)
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            self.set(st, inst, ("ne", atom("cmp?", 0, 1)))
            return
        conv = self.as_signed if pred[0] == "s" else self.as_unsigned
        if pred in ("eq", "ne"):
            d = st.facts.norm(a - b)
            if d.is_const():
                r = d.c % (1 << w) == 0
                self.set(st, inst, ("c", r if pred == "eq" else not r))
                return
        out = []
        for s, x in conv(st, a, w):
            for s2, y in conv(s, b, w):
                d = x - y
                if pred == "eq":
                    c = ("eq", d)
                elif pred == "ne":
                    c = ("ne", d)
                elif pred[1:] == "lt":
                    c = ("ge", -d - 1)
                elif pred[1:] == "le":
                    c = ("ge", -d)
                elif pred[1:] == "gt":
                    c = ("ge", d - 1)
                else:
                    c = ("ge", d)
                s2.frames[-1].env[inst[1]] = c
                out.append(s2)
        return out

    def ptr_cmp(self, st, pred, a, b):
        if isinstance(a, Lin) and a == ZERO:
            a = NULL
        if isinstance(b, Lin) and b == ZERO:
            b = NULL
        if a is NULL and b is NULL:
            return ("c", pred in ("eq", "ule", "uge"))
        if b is NULL or a is NULL:
            p = a if b is NULL else b
            c = self.is_null(p)
            if pred == "eq":
                return c
            if pred == "ne":
                return neg(c)
            return ("ne", atom("pcmp", 0, 1))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r is b.r:
                d = a.off - b.off
            else:
                if pred in ("eq", "ne"):
                    if a.r.kind in ("opaque", "wild", "obj") and b.r.kind in ("opaque", "wild", "obj"):
                        if a.r.nul is not None and b.r.nul is not None:
                            x = app("alias", (min(a.r.id, b.r.id), max(a.r.id, b.r.id), a.off - b.off), 0, 1)
                            return ("ne", x) if pred == "eq" else ("eq", x)
                    c = FALSE
                    if a.r.nul is not None and b.r.nul is not None:
                        c = ("and", ("eq", a.r.nul - 1), ("eq", b.r.nul - 1))
                    return c if pred == "eq" else neg(c)
                return ("ne", atom("pcmp", 0, 1))
        elif isinstance(a, Chunk) and isinstance(b, Chunk) and a.s is b.s:
            d = a.pos - b.pos
        elif isinstance(a, Fn) and isinstance(b, Fn):
            if a.name.startswith("?") or b.name.startswith("?"):
                return ("ne", atom("fncmp", 0, 1))
            return ("c", (a.name == b.name) == (pred == "eq"))
        else:
            return ("ne", atom("pcmp?", 0, 1))
        return {"eq": ("eq", d), "ne": ("ne", d), "ult": ("ge", -d - 1), "ule": ("ge", -d),
                "ugt": ("ge", d - 1), "uge": ("ge", d)}.get(pred) or ("ne", atom("pcmp", 0, 1))

    def op_select(self, st, inst):
        c, a, b = inst[3][:3]
        c = self.as_cond(st, self.val(st, c))
        va, vb = self.val(st, a), self.val(st, b)
        if va == vb and not isinstance(va, tuple):
            self.set(st, inst, va)
            return
        out = []
        for s, t in self.split(st, c):
            s.frames[-1].env[inst[1]] = va if t else vb
            out.append(s)
        return out

    def op_extractvalue(self, st, inst):
        v = self.val(st, inst[3][0])
        for i in inst[3][1]:
            v = v.v[i] if isinstance(v, Agg) else self.fresh_val(inst[2], "extract?")
        self.set(st, inst, v)

    def op_insertvalue(self, st, inst):
        a, v, ix = inst[3]
        a = self.val(st, a)
        v = self.val(st, v)
        if not isinstance(a, Agg):
            a = Agg([UNDEF] * len(inst[2][2]))
        if len(ix) == 1:
            l = list(a.v)
            l[ix[0]] = v
            a = Agg(l)
        self.set(st, inst, a)

    def op_atomic(self, st, inst):
        if inst[1] >= 0:
            self.set(st, inst, self.fresh_val(inst[2], inst[0]))

    def op_nop(self, st, inst):
        return None

    # calls -----------------------------------------------------------------
    def op_call(self, st, inst):
        callee = inst[3][0]
        args = []
        for a in inst[3][1]:
            v = self.val(st, a[0]) if a[0][0] != "md" else ("md", a[0][1])
            if len(a) > 2:   # byval
                r = Region("alloca", "byval", size=L(a[2]))
                fr = st.frames[-1]
                fr.allocas = fr.allocas + (r.id,)
                self.copy_mem(st, Ptr(r), v, L(a[2]))
                v = Ptr(r)
            args.append(v)
        if callee[0] == "fn":
            fn = callee[1]
        else:
            t = self.val(st, callee)
            fn = t.name if isinstance(t, Fn) else None
            if fn is None or fn.startswith("deleter:") or fn.startswith("?"):
                return self.indirect(st, inst, t, args, callee)
        outs = self.call(st, fn, args, inst)
        return self.ret_to(inst, outs)

    def ret_to(self, inst, outs):
        res = []
        for s, v in outs:
            if inst[1] >= 0:
                if isinstance(v, Lin) and isinstance(inst[2], list) and inst[2][0] == "i" and inst[2][1] == 1:
                    v = ("ne", v)
                s.frames[-1].env[inst[1]] = v
            res.append(s)
        return res

    def indirect(self, st, inst, target, args, callee):
        for h in self.hooks.get("indirect", ()):
            r = h(self, st, inst=inst, target=target, args=args)
            if r is not None:
                return self.ret_to(inst, r)
        self.unknown["indirect call"] = self.unknown.get("indirect call", 0) + 1
        self.imprecise(st, "indirect call at %s" % self.where(st))
        v = self.fresh_val(inst[2], "indirect") if inst[1] >= 0 else None
        return self.ret_to(inst, [(st, v)])

    def model_for(self, f, name):
        key = name
        if key in self.mcache:
            return self.mcache[key]
        dn = f.dn if f else name
        short = f.short if f else name
        hit = None
        for rx, h in self.models:
            m = rx.search(short) if isinstance(rx, re.Pattern) else (rx == short)
            if m:
                hit = h
                break
        self.mcache[key] = hit
        return hit

    def call(self, st, fname, args, inst):
        f = self.p.funcs.get(fname)
        c = Call()
        c.f = f
        c.name = fname
        c.short = f.short if f else fname
        c.dn = f.dn if f else fname
        c.args = args
        c.inst = inst
        c.ret = inst[2] if inst is not None else (f.ret if f else "v")
        h = self.model_for(f, fname)
        self.calls_seen[c.short] = self.calls_seen.get(c.short, 0) + 1
        if h is not None:
            r = h(self, st, c)
            if r is not NotImplemented:
                return r
        if f is not None and f.blocks is not None:
            if f.noret and not f.short.startswith("s2a"):
                return []
            return self.run(f, args, st)
        if f is not None and f.noret:
            return []
        return self.external(st, c)

    def external(self, st, c):
        """Unmodelled external function: unknown result, pointees clobbered."""
        self.unknown["ext:" + c.short] = self.unknown.get("ext:" + c.short, 0) + 1
        self.imprecise(st, "unmodelled call to %s" % c.short)
        for a in c.args:
            if isinstance(a, Ptr) and a.r.kind in ("alloca", "heap", "vecbuf"):
                self.havoc(st, a, None, "ext:" + c.short)
        self.emit(st, "external", call=c)
        if c.ret == "v":
            return [(st, None)]
        return [(st, self.fresh_val(c.ret, c.short))]

    # ---- loops -----------------------------------------------------------------
    def run_loop(self, st, f, h, prev):
        if self.unroll is not None:
            return self.run_loop_unrolled(st, f, h, prev)
        from . import loops
        return loops.summarise(self, st, f, h, prev)

    def run_loop_unrolled(self, st, f, h, prev):
        """Peels iterations; one that cannot leave the loop is free of charge."""
        out = []
        cur = [(st, prev, 0, 0)]
        while cur:
            nxt = []
            for s, pv, cost, free in cur:
                res = list(self.region(s, f, h, pv, h))
                back = [o for o in res if o[0] == "edge" and o[3] == h]
                if len(back) < len(res):
                    cost += 1
                    free = 0
                    out += [o for o in res if not (o[0] == "edge" and o[3] == h)]
                else:
                    free += 1
                if cost > self.unroll or free > self.spin_cap:
                    if back:
                        self.loop_limit_hits += 1
                        if free > self.spin_cap:
                            self.emit(back[0][1], "spin", fn=f, header=h)
                    continue
                nxt += [(o[1], o[2], cost, free) for o in back]
            cur = nxt
        return out


def _first_targ(s):
    d = 0
    for i, ch in enumerate(s):
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        elif ch == "," and d == 0:
            return s[:i].strip()
    return s.strip()


def _ps_hook(facts):
    for x in facts.apps:
        fn, args = A.fn[x]
        if fn.startswith("PS:") and facts.norm(args[1]) == ZERO:
            l = facts.norm(Lin(0, ((x, 1),)))
            if l != ZERO:
                facts.add_eq(l)
                return


linmod.CONGR_HOOKS.append(_ps_hook)

E = Engine
E.OPS = {"alloca": E.op_alloca, "load": E.op_load, "store": E.op_store, "getelementptr": E.op_gep,
         "icmp": E.op_icmp, "select": E.op_select, "call": E.op_call, "extractvalue": E.op_extractvalue,
         "insertvalue": E.op_insertvalue, "freeze": E.op_freeze, "fence": E.op_nop,
         "atomicrmw": E.op_atomic, "cmpxchg": E.op_atomic}
for _o in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
    E.OPS[_o] = E.op_bin
for _o in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "fpext", "fptrunc",
           "sitofp", "uitofp", "fptosi", "fptoui"):
    E.OPS[_o] = E.op_cast
