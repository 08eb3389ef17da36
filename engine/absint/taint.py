"""Where secrets may not flow: messages of statuses, logged strings, output.

Active only for C34.  A string value knows what it was built from (literals,
concatenation, formatting, bytes at an address), and bytes at an address are
traced to their source, so each message is judged by its actual parts."""
import re
from .lin import *
from .lin import Lin, A
from . import engine as E
from .engine import Opq, Ptr, REGS

# Sources, by the name the specifications give their regions and streams.
SECRET = [(re.compile(a), b) for a, b in (
    (r"^key\b", "key"), (r"^(prk|secret|in_secret|out_secret)\b", "traffic secret"), (r"^out\.data|^out\.buf", "derived key"),
    (r"^nonce\b", "nonce"), (r"^plaintext", "plaintext"), (r"\.(in|out)_key\b", "traffic secret"),
    (r"^ticket", "ticket"), (r"^token\d", "access token"), (r"^getenv\(", "access token"))]
DERIVED = {"hkdf": "derived key", "hkdf-stream": "derived key", "partial": "derived key", "dec": "plaintext"}
PARTS = ("cat", "fmt", "?", "substr", "cstrof", "dec", "append", "operator+=", "push_back", "insert", "replace", "erase", "resize", "pop_back", "edited")


def named(n):
    for r, w in SECRET:
        if isinstance(n, str) and r.search(n):
            return w
    return None


class Taint:
    def __init__(self, eng):
        self.eng = eng
        eng.taint = self
        eng.hooks.setdefault("status", []).append(self.on_status)
        eng.hooks.setdefault("output", []).append(self.on_output)

    def source(self, src):
        if not isinstance(src, tuple) or not src:
            return None
        if src[0] in ("init", "stream") and len(src) > 2:
            return named(src[2])
        if src[0] == "gen" and len(src) > 1:
            return DERIVED.get(src[1])
        return DERIVED.get(src[0])

    def number(self, x, top=True):
        """Secret that the value of x is computed from.  One byte of plaintext
        is the record type, which is not a secret."""
        if not isinstance(x, Lin):
            return None
        for a, _ in x.t:
            f = A.fn[a]
            if f is None:
                continue
            fn, args = f
            w = None
            if isinstance(fn, str) and (fn.startswith("ld:") or fn.startswith("byte:")):
                w = named(fn.split(":", 1)[1])
            elif fn == "byte" and args and isinstance(args[0], tuple):
                w = self.source(args[0])
            if w and w != "plaintext":
                return w
            for y in args:
                w = self.number(y, False)
                if w:
                    return w
        return None

    def bytes(self, st, p, n):
        if not isinstance(p, Ptr):
            return self.source(self.eng.source_of(st, p, n)[0]) if n is not None and self.eng.source_of(st, p, n) else None
        if p.r.kind not in ("heap", "alloca") and named(p.r.name) and self.eng.source_of(st, p, n if isinstance(n, Lin) else Lin(1)) is not None:
            return named(p.r.name)
        if p.r.kind in ("env",):
            return named(p.r.name)
        if not isinstance(n, Lin):
            n = Lin(1)
        for src, off, ln in self.eng.pieces(st, p, n) or ():
            if src is not None and src[0] == "value":
                w = self.number(src[1])
            else:
                w = self.source(src)
            if w:
                return w
        return None

    def value(self, v, depth=0):
        if isinstance(v, Lin):
            return self.number(v)
        if not isinstance(v, Opq) or depth > 40:
            return None
        if v.t[0] == "secret":
            return v.t[1]
        if len(v.t) > 1 and v.t[0] == "str":
            if v.t[1] in PARTS:
                for x in v.t[2:]:
                    w = self.value(x, depth + 1)
                    if w:
                        return w
                return None
            if v.t[1] == "at":
                for x in v.t[2:]:
                    if isinstance(x, Opq) and x.t[0] == "secret":
                        return x.t[1]
                return None
            return named(v.t[1]) if v.t[1] not in ("lit", "fill") else None
        return None

    def judge(self, st, v, sink):
        w = self.value(v)
        self.eng.oblige(st, "C34", "no secret in " + sink, w is None, lambda: "%s contains the %s" % (sink, w))

    def on_status(self, eng, st, msg=(), **kw):
        from .models import cstr_val
        if len(msg) == 2 and isinstance(msg[1], Lin):
            self.judge(st, cstr_val(eng, st, msg[0], msg[1]), "the message of a status")

    def on_output(self, eng, st, vals=(), **kw):
        for v in vals:
            self.judge(st, v, "a logged message")
