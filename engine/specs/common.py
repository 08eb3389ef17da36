"""Shared driver code for the property specifications."""
import re
from absint import ir, engine, models, cryptolib, taint
from absint.engine import *
from absint.engine import SIZE_HI
from absint.lin import *
from absint.lin import L, ZERO, ONE, Lin


def program(tus):
    p = ir.Program()
    for t in tus:
        if isinstance(t, tuple):
            p.add_tu(*t)
        else:
            p.add_tu(t)
    p.finish()
    return p


def crypter_status_model(eng, st, c):
    """The record protocol's own status class (C34)."""
    if eng.taint is not None and len(c.args) > 2 and isinstance(c.args[2], Ptr) and "basic_string" in c.dn:
        eng.taint.judge(st, models.sget(eng, st, c.args[2]), "the message of a status")
    return NotImplemented


def mk_engine(prog, extra=(), unroll=None):
    pre = [(re.compile(a) if isinstance(a, str) else a, b) for a, b in extra]
    if engine.WANT[0] == "C34":
        pre.insert(0, (re.compile(r"S2ACrypterStatus::S2ACrypterStatus$"), crypter_status_model))
    e = Engine(prog, models=pre + models.LIB + cryptolib.LIB, unroll=unroll)
    if e.want == "C34":
        taint.Taint(e)
    return e


def vec_param(eng, name, ty):
    r = Region("param", name, ty="std::vector<%s>" % ty)
    r.size = L(24)
    for o in (0, 8, 16):
        eng.init_field(r, o, 8, True)
    return Ptr(r)


def vec_buf(eng, p):
    return p.r.init[0][1].r


def ssl_errors_model(eng, st, c):
    models.sput(eng, st, c.args[0], Opq("str", "sslerrors"))
    return [(st, None)]


class Anchor(Exception):
    """A public entry point named by the property is missing."""


def one(prog, short, pred=None):
    r = prog.find(short, pred)
    if not r:
        raise Anchor(short)
    return r[0]


def vmethod(eng, st, obj, base, name):
    """Function implementing virtual method `name` of class `base` on obj."""
    cls = eng.p.classes.get(base)
    if cls is None:
        raise Anchor(base)
    slot = None
    for v in cls["virt"]:
        if v[0] == name or v[0].split("(")[0].endswith(name):
            slot = v
            break
    return slot


def find_obj(eng, st, r):
    """Heap objects with a vtable pointer referenced from region r."""
    out = []
    for off, (sz, v) in eng.rm(st, r).cells.items():
        if isinstance(v, Ptr) and v.r.kind == "heap":
            c = eng.rm(st, v.r).cells.get(ZERO)
            if c is not None and isinstance(c[1], Ptr) and c[1].r.kind == "global" and c[1].r.name.startswith("_ZTV"):
                out.append(v)
    return out


def vcall(eng, st, obj, slot, args, inst=None):
    """Virtual call through the object's vtable."""
    vp = eng.rm(st, obj.r).cells[st.facts.norm(obj.off)][1]
    t = eng.load_at(st, vp.r, st.facts.norm(vp.off + 8 * slot), 8, True)
    if not isinstance(t, Fn):
        return None
    f = eng.p.funcs.get(t.name)
    if f is None or f.blocks is None:
        return None
    return eng.run(f, args, st)
