"""Abstract semantics of the upb-generated accessors s2a_proto_<Message>_<op>.

The schema is read from /repo/src/proto/*.proto.  A message is a region whose
fields live in the state; a message decoded from the wire has arbitrary field
values, chosen when first looked at (presence forks the path)."""
import os
import re
from .lin import *
from .lin import Lin, ZERO, ONE, L
from .engine import *
from .engine import SIZE_HI
from . import ir
from .models import cstr_val

SCALAR = {"bool": 1, "int32": 32, "uint32": 32, "int64": 64, "uint64": 64}


class Schema:
    """message -> {field: (type, repeated, oneof or None, number)}; enum -> {name: number}"""

    def __init__(self):
        self.msgs, self.enums = {}, {}
        d = os.path.join(ir.REPO, "src", "proto")
        for fn in sorted(os.listdir(d)):
            if fn.endswith(".proto"):
                self.parse(open(os.path.join(d, fn)).read())

    def parse(self, text):
        text = re.sub(r"//[^\n]*|/\*.*?\*/", "", text, flags=re.S)
        stack = []
        for m in re.finditer(r"(message|enum|oneof|service)\s+(\w+)\s*\{|\{|\}|map<[^>]*>\s*(\w+)\s*=\s*(\d+)\s*;|(repeated\s+|optional\s+)?([\w.]+)\s+(\w+)\s*=\s*(\d+)\s*;|(\w+)\s*=\s*(-?\d+)\s*;", text):
            if m.group(1):
                stack.append((m.group(1), m.group(2)))
                if m.group(1) == "message":
                    self.msgs.setdefault(m.group(2), {})
                elif m.group(1) == "enum":
                    self.enums.setdefault(m.group(2), {})
            elif m.group(0) == "{":
                stack.append(("", ""))
            elif m.group(0) == "}":
                if stack:
                    stack.pop()
            elif m.group(6):
                msg = [b for a, b in stack if a == "message"]
                one = [b for a, b in stack if a == "oneof"]
                if msg:
                    self.msgs[msg[-1]][m.group(7)] = (m.group(6).split(".")[-1], (m.group(5) or "").startswith("rep"), one[-1] if one else None, int(m.group(8)))
            elif m.group(9):
                if stack and stack[-1][0] == "enum":
                    self.enums[stack[-1][1]][m.group(9)] = int(m.group(10))


class Upb:
    def __init__(self, on_parse=None, on_serialize=None):
        self.s = Schema()
        self.names = sorted(self.s.msgs, key=len, reverse=True)
        self.on_parse, self.on_serialize = on_parse, on_serialize
        # Restrictions of what the wire holds: 'response.result.state' -> True
        # (present), False (absent), or a number.  What is not listed is arbitrary.
        self.fixed = {}

    def models(self):
        return [(r"^s2a_proto_", self.call), (r"^upb_arena_new$", self.arena), (r"^upb_arena_free$", self.free), (r"^upb_arena_malloc$", self.malloc)]

    # ---- arenas ---------------------------------------------------------------
    def arena(self, eng, st, c):
        return [(st, Ptr(Region("lib", "arena")))]

    def free(self, eng, st, c):
        p = c.args[0]
        if isinstance(p, Ptr):
            st.mon["arenas_freed"] = st.mon.get("arenas_freed", ()) + (p.r.id,)
        return [(st, None)]

    def malloc(self, eng, st, c):
        r = Region("heap", "arena buffer")
        r.size = c.args[1] if isinstance(c.args[1], Lin) else None
        return [(st, Ptr(r))]

    # ---- fields ---------------------------------------------------------------
    def fields(self, st, r):
        return st.mon.get(("pb", r.id), {})

    def put(self, st, r, f, v):
        d = dict(self.fields(st, r))
        msg = r.info["msg"]
        one = self.s.msgs[msg][f][2]
        if one is not None:
            for g, (_, _, o, _) in self.s.msgs[msg].items():
                if o == one and g != f:
                    d[g] = None
        d[f] = v
        st.mon[("pb", r.id)] = d

    def new(self, msg, wire=False, name=None):
        r = Region("pb", name or msg, size=L(256))
        r.info = dict(msg=msg, wire=wire)
        return r

    def has(self, eng, st, r, f):
        """[(state, present)]: oneof members and submessages."""
        d = self.fields(st, r)
        if f in d:
            return [(st, d[f] is not None)]
        if not r.info["wire"]:
            return [(st, False)]
        t = self.s.msgs[r.info["msg"]][f][0]
        fix = self.fixed.get(r.name + "." + f)
        if fix is False:
            st.mon[("pb", r.id)] = dict(d, **{f: None})
            return [(st, False)]
        s2 = st.fork()
        if t in self.s.msgs:
            self.put(st, r, f, self.new(t, True, r.name + "." + f))
        else:
            self.put(st, r, f, self.fresh(st, r, f, t))
        s2.mon[("pb", r.id)] = dict(d, **{f: None})
        st.note("wire", "%s has %s" % (r.name, f))
        if fix is True:
            return [(st, True)]
        s2.note("wire", "%s has no %s" % (r.name, f))
        return [(st, True), (s2, False)]

    def fresh(self, st, r, f, t):
        if t in ("string", "bytes"):
            b = Region("param", "%s.%s" % (r.name, f))
            n = atom("%s.%s" % (r.name, f), 0, SIZE_HI)
            b.size = n
            return (Ptr(b), n)
        fix = self.fixed.get(r.name + "." + f)
        if isinstance(fix, int):
            return L(fix)
        bits = SCALAR.get(t, 32)
        return atom("%s.%s" % (r.name, f), 0, (1 << bits) - 1)

    def get(self, eng, st, r, f):
        """[(state, value)] of a singular field."""
        t, rep, one, _ = self.s.msgs[r.info["msg"]][f]
        if t in self.s.msgs or one is not None:
            out = []
            for s, h in self.has(eng, st, r, f):
                v = self.fields(s, r).get(f) if h else None
                out.append((s, v if h else None if t in self.s.msgs else (NULL, ZERO) if t in ("string", "bytes") else ZERO))
            return out
        d = self.fields(st, r)
        if f not in d:
            if r.info["wire"]:
                self.put(st, r, f, self.fresh(st, r, f, t))
            else:
                return [(st, (NULL, ZERO) if t in ("string", "bytes") else ZERO)]
        return [(st, self.fields(st, r)[f])]

    def ret(self, v):
        if v is None:
            return NULL
        if isinstance(v, Region):
            return Ptr(v)
        if isinstance(v, tuple):
            return Agg(list(v))
        return v

    # ---- calls ------------------------------------------------------------------
    def call(self, eng, st, c):
        name = c.short[len("s2a_proto_"):]
        msg = next((m for m in self.names if name.startswith(m + "_")), None)
        if msg is None:
            return NotImplemented
        op = name[len(msg) + 1:]
        fl = self.s.msgs[msg]
        a = c.args
        if op == "new":
            return [(st, Ptr(self.new(msg)))]
        if op in ("parse", "parse_ex"):
            r = self.new(msg, True, "response" if msg == "SessionResp" else msg)
            s2 = st.fork()
            s2.note("wire", "decoding fails")
            if self.on_parse:
                self.on_parse(st, msg, r, a)
                self.on_parse(s2, msg, None, a)
            return [(st, Ptr(r)), (s2, NULL)]
        r = a[0].r if isinstance(a[0], Ptr) and a[0].r.kind == "pb" else None
        if r is None or r.info["msg"] != msg:
            eng.imprecise(st, "message pointer")
            return [(st, None if c.ret == "v" else eng.fresh_val(c.ret, name))]
        if op in ("serialize", "serialize_ex"):
            n = atom("serialized", 0, SIZE_HI)
            b = Region("param", "serialized " + msg)
            b.size = n
            st.mon[("ser", b.id)] = (r, self.tree(eng, st, r))
            eng.store(st, a[2 if op == "serialize" else 3], n, ["i", 64])
            s2 = st.fork()
            s2.note("fault", "serialization fails")
            s2.mon["serfail"] = True
            eng.store(s2, a[2 if op == "serialize" else 3], ZERO, ["i", 64])
            return [(st, Ptr(b)), (s2, NULL)]
        if op in fl:
            if fl[op][1] and not r.info.get("wire") and fl[op][0] in self.s.msgs:
                # a list under construction
                vs = self.fields(st, r).get(op) or ()
                if isinstance(a[1], Ptr):
                    eng.store(st, a[1], L(len(vs)), ["i", 64])
                if not vs:
                    return [(st, NULL)]
                b = Region("heap", "array " + op)
                b.size = L(8 * len(vs))
                for i, v in enumerate(vs):
                    eng.store_at(st, b, L(8 * i), 8, Ptr(v))
                return [(st, Ptr(b))]
            if fl[op][1]:
                eng.imprecise(st, "repeated field read")
                return [(st, eng.fresh_val(c.ret, name))]
            return [(s, self.ret(v)) for s, v in self.get(eng, st, r, op)]
        pre, _, f = op.partition("_")
        if f in fl:
            t, rep, one, _ = fl[f]
            if pre == "has":
                return [(s, ("c", h)) for s, h in self.has(eng, st, r, f)]
            if pre == "set":
                if t in ("string", "bytes"):
                    v = (a[1], a[2])
                elif t in self.s.msgs:
                    v = a[1].r if isinstance(a[1], Ptr) else None
                    if v is None and not (a[1] is NULL):
                        eng.imprecise(st, "submessage pointer")
                else:
                    v = a[1]
                self.put(st, r, f, v)
                return [(st, None)]
            if pre == "mutable" and t in self.s.msgs and not rep:
                out = []
                for s, h in self.has(eng, st, r, f):
                    if not h:
                        self.put(s, r, f, self.new(t))
                    out.append((s, Ptr(self.fields(s, r)[f])))
                return out
            if pre == "add" and rep:
                old = self.fields(st, r).get(f) or ()
                if t in self.s.msgs:
                    v = self.new(t)
                    self.put(st, r, f, old + (v,))
                    return [(st, Ptr(v))]
                v = (a[1], a[2]) if t in ("string", "bytes") else a[1]
                self.put(st, r, f, old + (v,))
                return [(st, ("c", True))]
            if pre == "resize" and rep and t not in self.s.msgs and t not in ("string", "bytes") and isinstance(a[1], Lin):
                n = st.facts.norm(a[1])
                b = Region("heap", "array " + f)
                b.size = n * 4
                self.put(st, r, f, (("arr", b, n),))
                return [(st, Ptr(b))]
        if op.endswith("_case"):
            return self.case(eng, st, r, op[:-5])
        eng.imprecise(st, "accessor " + name)
        return [(st, None if c.ret == "v" else eng.fresh_val(c.ret, name))]

    def case(self, eng, st, r, one):
        out, cur = [], [st]
        for f, (_, _, o, num) in self.s.msgs[r.info["msg"]].items():
            if o != one:
                continue
            nxt = []
            for s in cur:
                for s2, h in self.has(eng, s, r, f):
                    (out if h else nxt).append((s2, L(num)) if h else s2)
            cur = nxt
        return out + [(s, ZERO) for s in cur]

    # ---- snapshot ------------------------------------------------------------------
    def tree(self, eng, st, r):
        """Nested dict of the message's fields as they are now."""
        d = {}
        for f, v in self.fields(st, r).items():
            t, rep, _, _ = self.s.msgs[r.info["msg"]][f]
            if v is None:
                continue
            d[f] = tuple(y for x in v for y in self.item(eng, st, x, t)) if rep else self.item(eng, st, v, t)[0]
        return d

    def item(self, eng, st, v, t):
        if isinstance(v, Region):
            return [self.tree(eng, st, v)]
        if t in ("string", "bytes"):
            return [self.sval(eng, st, v)]
        if isinstance(v, tuple) and v and v[0] == "arr":
            if not v[2].is_const():
                return [("?", v[2])]
            return [eng.load_at(st, v[1], L(4 * i), 4, False) for i in range(v[2].c)]
        return [v]

    def sval(self, eng, st, v):
        """A string field as (pointer, length, string value)."""
        p, n = v
        if p is NULL:
            return (p, n, Opq("str", "lit", ""))
        return (p, n, cstr_val(eng, st, p, n) if isinstance(n, Lin) else Opq("str", "?"))
