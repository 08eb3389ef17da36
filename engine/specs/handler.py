"""HandshakeMessageHandler: C10, C11, C12.

Histories of public calls are interpreted abstractly from the constructor on
inputs of arbitrary bytes and lengths, and every outcome is compared with the
reference parser below (TLS 1.3 handshake framing), which is evaluated on the
same abstract inputs.  `P` is ProcessHandshakeMessage with arbitrary input,
`T`/`K` with input constrained to one whole ticket / key update, `t` to the
first part of a ticket, `s`/`S`/`e` to one/two/no bytes, `f` the next
stream[0] bytes of a long sequence of tickets of stream[1] bytes each, `G` is GetStoredTickets."""
from .common import *

SRC = "src/record_protocol/handshake_message_handler.cc"
CLS = "s2a::handshake_message_handler::HandshakeMessageHandler"
TICKET, KU, MAXT = 4, 24, 5


class Ref:
    """State of the reference parser (immutable)."""
    __slots__ = ("hdr", "size", "have", "body", "tickets", "retrieved")

    def __init__(self, hdr=(), size=None, have=ZERO, body=(), tickets=(), retrieved=False):
        self.hdr, self.size, self.have, self.body, self.tickets, self.retrieved = hdr, size, have, body, tickets, retrieved

    def w(self, **kw):
        d = {k: getattr(self, k) for k in Ref.__slots__}
        d.update(kw)
        return Ref(**d)


class HandlerRun:
    def __init__(self, hist, peel, maxmsg=4, stream=None):
        self.prog = program([(SRC, "openssl")])
        self.eng = mk_engine(self.prog, [], peel)
        self.hist = hist
        self.bufs = {}
        self.maxmsg = maxmsg
        self.stream = stream
        self.eng.hooks["mem"] = [self.on_mem]
        self.eng.hooks["uaf"] = [self.on_uaf]
        self.eng.hooks["spin"] = [self.on_spin]
        self.eng.hooks["abort"] = [self.on_abort]
        self.eng.spin_cap = 100
        if stream:              # long concrete inputs: long loops are not endless
            self.eng.hooks["spin"] = []
            self.eng.spin_cap = 40000
        self.eng.max_steps = 30000000

    def ob(self, st, props, kind, ok, msg):
        for p in props:
            self.eng.oblige(st, p, kind, ok, msg)

    def on_abort(self, eng, st, fn):
        self.ob(st, ("C10", "C11", "C12"), "no assertion fails", False, "the process is aborted (%s)" % fn)

    def on_uaf(self, eng, st, **kw):
        self.ob(st, ("C10",), "no use after free", False, "freed memory is used")

    def on_spin(self, eng, st, fn, header):
        self.ob(st, ("C10",), "parsing terminates", False, "a loop of %s makes no progress" % fn.short)

    def on_mem(self, eng, st, p, n, w, val=None, bulk=False):
        f = st.facts
        if f.entails_ge(-n):
            return
        if p is NULL:
            self.ob(st, ("C10",), "no null access", False, "null pointer accessed")
            return
        if isinstance(p, Ptr):
            size = p.r.size
            if size is None:
                size = st.vsize.get(p.r.id)
            if size is None or p.r.kind in ("lib", "libconst", "opaque", "global"):
                return
            self.ob(st, ("C10",), "access inside the buffer", f.entails_ge(p.off) and f.entails_ge(size - p.off - n),
                    lambda: "access of %r bytes at offset %r of %s (%r bytes)" % (n, p.off, p.r.name, size))
            if w and p.r.id in self.bufs:
                self.ob(st, ("C10",), "input is not modified", False, "the input buffer is written")

    # ---- driving -----------------------------------------------------------
    def run(self):
        eng = self.eng
        st = State()
        st.mon["libfail"] = False
        self.size = self.prog.classes[CLS]["size"]
        self.obj = Region("alloca", "handler", size=L(self.size))
        ctor = one(self.prog, CLS + "::HandshakeMessageHandler")
        self.fP = one(self.prog, CLS + "::ProcessHandshakeMessage")
        self.fG = one(self.prog, CLS + "::GetStoredTickets")
        self.rm = {m[0]: (m[1], m[2]) for m in self.prog.classes[CLS + "::Result"]["members"]}
        cur = [(s, Ref()) for s, _ in eng.run(ctor, [Ptr(self.obj)], st)]
        for i, op in enumerate(self.hist):
            nxt = []
            for s, ref in cur:
                nxt += self.step(s, ref, op, i)
            cur = nxt
        self.ends = len(cur)
        return self

    def step(self, st, ref, op, i):
        return self.get(st, ref, i) if op == "G" else self.process(st, ref, op, i)

    def byte(self, st, r, off):
        return self.eng.load_at(st, r, st.facts.norm(off), 1, False)

    def process(self, st, ref, op, i):
        eng = self.eng
        buf = Region("vecbuf", "plaintext%d" % i)
        n = atom("len%d" % i, 0, SIZE_HI)
        buf.size = n
        buf.info = {}
        self.bufs[buf.id] = buf
        if op in "sSe":
            st.facts.add_eq(n - {"s": 1, "S": 2, "e": 0}[op])
        if op == "f":
            piece, body = self.stream
            at = self.hist[:i].count("f") * piece
            st.facts.add_eq(n - piece)
            for k in range(piece):
                h = (at + k) % (body + 4)
                if h < 4:
                    st.facts.add_eq(self.byte(st, buf, L(k)) - (TICKET, body >> 16, body >> 8 & 255, body & 255)[h])
        if op in "TKt":
            b = [self.byte(st, buf, L(k)) for k in range(4)]
            size = b[1] * 65536 + b[2] * 256 + b[3]
            st.facts.add_eq(b[0] - (KU if op == "K" else TICKET))
            if op == "t":
                st.facts.add_ge(n - 4)
                st.facts.add_ge(size + 3 - n)
            else:
                st.facts.add_eq(n - 4 - size)
                st.facts.add_ge(size - 1)
        ret = Region("alloca", "result%d" % i, size=L(self.fP.args[0].get("sret", 24)))
        out = []
        for s, _ in eng.run(self.fP, [Ptr(ret), Ptr(self.obj), Ptr(buf), n], st):
            for s2, ref2, exp in self.parse(s, ref, buf, n):
                r = self.compare(s2, ref2, exp, ret)
                if r and exp is not None:
                    out.append((s2, ref2))
        return out

    def parse(self, st, ref, buf, n):
        """Reference semantics; yields (state, new ref, expected) with expected
        None for an error or (expecting, key_update, type, ticket, stored)."""
        eng = self.eng
        work = [(st, ref, ZERO, False, False, 0)]
        out = []
        while work:
            s, r, pos, ku, tk, cnt = work.pop()
            if cnt > self.maxmsg:
                continue        # more messages than the implementation was seen to read
            for s1, more in eng.split(s, ("ge", n - pos - 1)):
                if not more:
                    out.append((s1, r, (bool(r.hdr), ku, None, tk, len(r.tickets))))
                    continue
                if len(r.hdr) < 4:
                    b = self.byte(s1, buf, pos)
                    r1 = r.w(hdr=r.hdr + (b,), body=r.body + ((buf.id, s1.facts.norm(pos), ONE),))
                    for s2, t in self.types(s1, r1.hdr[0]):
                        if t is None:
                            out.append((s2, r1, None))
                            continue
                        r2 = r1
                        ku2, tk2 = ku or t == KU, tk or t == TICKET
                        if len(r2.hdr) == 4:
                            h = r2.hdr
                            r2 = r2.w(size=s2.facts.norm(h[1] * 65536 + h[2] * 256 + h[3]), have=ZERO)
                            for s3, empty in eng.split(s2, ("eq", r2.size)):
                                if empty:
                                    self.complete(s3, r2, t, s3.facts.norm(pos + 1), ku2, tk2, n, work, out, cnt)
                                else:
                                    work.append((s3, r2, s3.facts.norm(pos + 1), ku2, tk2, cnt))
                        else:
                            work.append((s2, r2, s2.facts.norm(pos + 1), ku2, tk2, cnt))
                    continue
                left = s1.facts.norm(r.size - r.have)
                t = [t for _, t in self.types(s1, r.hdr[0])]
                t = t[0]
                ku2, tk2 = ku or t == KU, tk or t == TICKET
                for s2, whole in eng.split(s1, ("ge", n - pos - left)):
                    take = left if whole else s2.facts.norm(n - pos)
                    r2 = r.w(body=r.body + ((buf.id, pos, take),), have=s2.facts.norm(r.have + take))
                    if whole:
                        self.complete(s2, r2, t, s2.facts.norm(pos + take), ku2, tk2, n, work, out, cnt)
                    else:
                        out.append((s2, r2, (True, ku2, None, tk2, len(r2.tickets))))
        return out

    def complete(self, s, r, t, pos, ku, tk, n, work, out, cnt):
        if t == TICKET:
            ts = r.tickets
            if not r.retrieved and len(ts) < MAXT:
                ts = ts + (r.body,)
            work.append((s, r.w(hdr=(), size=None, have=ZERO, body=(), tickets=ts), pos, ku, tk, cnt + 1))
            return
        # key update: must be last; its request byte is the first body byte
        for s1, more in self.eng.split(s, ("ge", n - pos - 1)):
            if more:
                out.append((s1, r, None))
                continue
            r2 = r.w(hdr=(), size=None, have=ZERO, body=())
            ty = None
            for bid, off, ln in r.body[4:]:
                if not s1.facts.entails_ge(-ln):
                    ty = self.byte(s1, REGS[bid], off)
                    break
            out.append((s1, r2, (False, ku, ty, tk, len(r2.tickets))))

    def types(self, st, b):
        out = []
        cur = st
        for v in (TICKET, KU):
            nx = None
            for s, y in self.eng.split(cur, ("eq", b - v)):
                if y:
                    out.append((s, v))
                else:
                    nx = s
            if nx is None:
                return out
            cur = nx
        out.append((cur, None))
        return out

    # ---- comparing ------------------------------------------------------------
    def field(self, st, ret, name):
        o, sz = self.rm[name]
        return self.eng.load_at(st, ret, L(o), sz, False)

    def compare(self, st, ref, exp, ret):
        eng, f = self.eng, st.facts
        idx = eng.load_at(st, ret, L(ret.size.c - 8), 8, False)
        idx = f.norm(idx) if isinstance(idx, Lin) else None
        if idx is None or not idx.is_const():
            eng.imprecise(st, "variant index")
            return False
        if idx.c == 0:
            self.ob(st, ("C10", "C12") + (("C11",) if ref.retrieved or len(ref.tickets) >= MAXT else ()),
                    "well-formed input accepted", exp is None, lambda: "input with outcome %s is rejected" % (exp,))
            return exp is None
        self.ob(st, ("C10", "C12"), "malformed input rejected", exp is not None,
                "a message of unknown type, or bytes after a key update, are accepted")
        if exp is None:
            return False
        more, ku, ty, tk, nt = exp
        ok = True
        for props, name, want in ((("C10", "C20"), "expecting_to_read_more_bytes", L(int(more))), (("C12", "C20"), "contains_key_update", L(int(ku))),
                                  (("C12", "C21"), "contains_ticket", L(int(tk))), (("C11", "C21"), "num_full_tickets_stored", L(0 if ref.retrieved else nt)),
                                  (("C12",), "key_update_type", ty)):
            if want is None:
                continue
            v = self.field(st, ret, name)
            if isinstance(v, Lin):
                u = eng.u_nosplit(st, v, 8 * self.rm[name][1])
                v = u if u is not None else v
            good = isinstance(v, Lin) and f.entails_eq(v - want)
            if not good:
                self.vague(st, v)
            ok = ok and good
            self.ob(st, props, name, good, lambda: "%s is %r, the bytes received say %r" % (name, v if not isinstance(v, Lin) else f.norm(v), f.norm(want)))
        return ok

    def vague(self, st, v):
        if not isinstance(v, Lin):
            self.eng.imprecise(st, "unknown value")
            return
        for x, _ in v.t:
            nm = repr(Lin(0, ((x, 1),)))
            if re.match(r"(alias|mix|cp|load\?|uninit|vcopy|st|chunkload):?", nm) and not nm.startswith("uninit"):
                self.eng.imprecise(st, "value " + nm)

    def get(self, st, ref, i):
        eng = self.eng
        ret = Region("alloca", "tickets%d" % i, size=L(self.fG.args[0].get("sret", 16)))
        out = []
        for s0, _ in eng.run(self.fG, [Ptr(ret), Ptr(self.obj)], st):
            cases = [(s0, ref.retrieved)]
            if ref.hdr and not ref.retrieved:
                cases = [(s, t == TICKET) for s, t in self.types(s0, ref.hdr[0])]
            for s, err in cases:
                f = s.facts
                idx = eng.load_at(s, ret, L(ret.size.c - 8), 8, False)
                idx = f.norm(idx) if isinstance(idx, Lin) else None
                if idx is None or not idx.is_const():
                    eng.imprecise(s, "variant index")
                    continue
                self.ob(s, ("C11", "C21"), "tickets handed out once and only when complete", idx.c == 1 or err or not ref.tickets,
                        "complete stored tickets are refused although none is pending and none was handed out")
                self.ob(s, ("C11", "C21"), "no second hand-out", idx.c == 0 or not err,
                        "tickets are handed out again or while a ticket is incomplete")
                if (idx.c == 0) != err:
                    continue
                if err:
                    out.append((s, ref))
                    continue
                self.contents(s, ref, ret)
                out.append((s, ref.w(tickets=(), retrieved=True)))
        return out

    def vec(self, st, p, es):
        a, b = models.vget(self.eng, st, p)
        if a is NULL or isinstance(a, Lin) and a == ZERO:
            return []
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r):
            return None
        n = st.facts.norm(b.off - a.off)
        if not n.is_const():
            return None
        return [a.add(L(k)) for k in range(0, n.c, es)]

    def deref(self, st, p):
        v = self.eng.load_at(st, p.r, st.facts.norm(p.off), 8, True)
        return v if isinstance(v, Ptr) else None

    def contents(self, st, ref, ret):
        eng, f = self.eng, st.facts
        tv = self.deref(st, Ptr(ret))
        if tv is None:
            self.ob(st, ("C11",), "a ticket list is returned", False, "a null ticket list is returned")
            return
        ts = self.vec(st, tv, 8)
        if ts is None:
            eng.imprecise(st, "ticket vector")
            self.ob(st, ("C11",), "ticket list", False, "ticket list of unknown length")
            return
        self.ob(st, ("C11", "C21"), "handed-out tickets are the stored ones", len(ts) == len(ref.tickets),
                "%d tickets are returned, %d complete tickets were received" % (len(ts), len(ref.tickets)))
        if len(ts) != len(ref.tickets):
            return
        for t, want in zip(ts, ref.tickets):
            m = self.deref(st, t)
            frs = self.vec(st, m, 8) if m is not None else None
            if frs is None:
                eng.imprecise(st, "ticket fragments")
                self.ob(st, ("C10", "C11"), "ticket contents", False, "ticket of unknown contents")
                continue
            got = []
            for fr in frs:
                v = self.deref(st, fr)
                a, b = models.vget(eng, st, v) if v is not None else (None, None)
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    got += [x for x in eng.pieces(st, a, b.off - a.off) if not f.entails_ge(-x[2])]
                elif a is not NULL:
                    got.append((None, ZERO, ONE))
            self.ob(st, ("C10", "C11", "C21"), "ticket is the exact concatenation of its bytes", self.same(st, got, want),
                    lambda: "the ticket holds %r instead of %r" % (self.show(f, got), [(REGS[b].name, f.norm(o), f.norm(l)) for b, o, l in want]))

    def show(self, f, got):
        return [(g[0] and g[0][:3], f.norm(g[1]), f.norm(g[2])) for g in got]

    def same(self, st, got, want):
        """Consecutive byte ranges equal the expected input ranges."""
        f = st.facts
        w = [list(x) for x in want if not f.entails_ge(-x[2])]
        g = [list(x) for x in got]
        while g and w:
            src, off, ln = g[0]
            bid, wo, wl = w[0]
            if src is None or f.norm(ln).is_const() and f.norm(ln).c == 0:
                if src is None:
                    self.eng.imprecise(st, "ticket bytes of unknown origin")
                    return False
            if src[0] == "value":
                if not f.entails_eq(src[1] - self.byte(st, REGS[bid], wo)):
                    return False
                ln = ONE
            elif src[0] == "init":
                if src[1] != bid or not f.entails_eq(off - wo):
                    return False
            else:
                return False
            if f.entails_ge(wl - ln):
                k = ln
            elif f.entails_ge(ln - wl):
                k = wl
            else:
                return False
            g[0] = [src, f.norm(off + k), f.norm(ln - k)]
            w[0] = [bid, f.norm(wo + k), f.norm(wl - k)]
            if f.entails_ge(-g[0][2]):
                g.pop(0)
            if f.entails_ge(-w[0][2]):
                w.pop(0)
        g = [x for x in g if not f.entails_ge(-x[2])]
        w = [x for x in w if not f.entails_ge(-x[2])]
        return not g and not w


def job(hist="PG", peel=3, stream=None):
    return HandlerRun(hist, peel, max(4, stream[0]) if stream else 4, stream).run()


def tus(**kw):
    return [(SRC, "openssl")]
