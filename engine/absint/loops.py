"""Loop summarisation: fixpoint over partitioned head states with affine
relations and inductive inequalities."""
import os
from .lin import *
from .lin import A, Lin, ZERO, ONE, L, nullspace
from .engine import *
from .engine import _Null, _Undef

DEBUG = bool(os.environ.get("ABSINT_DEBUG"))


class Cfg:
    def __init__(self):
        self.locs = set()
        self.demoted = set()
        self.enum = {}
        self.nostride = set()
        self.derived = []       # (stream, ((loc,fieldno),coef).., outer)
        self.conds = []         # Lin templates with (loc,field) placeholders
        self.exits = []         # (kind, template): exit conditions heads are partitioned by


class Restart(Exception):
    pass


class Head:
    pass


def outer(a, wm):
    if a < wm:
        return True
    f = A.fn[a]
    if f is None:
        return False
    return all(outer_lin(x, wm) for x in f[1] if isinstance(x, Lin))


def outer_lin(l, wm):
    return all(outer(a, wm) for a in l.atoms())


def get_loc(eng, st, loc):
    k = loc[0]
    if k == "phi":
        return st.frames[-1].env.get(loc[1], UNDEF)
    if k == "cell":
        _, r, off, size, isptr = loc
        m = eng.rm(st, r)
        c = m.cells.get(off)
        if c is not None:
            if c[0] == size:
                return c[1]
            return None
        return eng.load_at(st, r, off, size, isptr)
    if k == "ghost":
        return st.ghost.get(loc[1], ZERO)
    if k == "vs":
        return st.vsize.get(loc[1].id, ZERO)
    if k == "seg":
        return eng.rm(st, loc[1]).segs
    raise Exception(loc)


def set_loc(eng, st, loc, v):
    k = loc[0]
    if k == "phi":
        st.frames[-1].env[loc[1]] = v
    elif k == "cell":
        _, r, off, size, isptr = loc
        m = eng.wm(st, r)
        eng.inval(st, r, m, off, L(size), keep=off)
        if v is None:
            m.cells.pop(off, None)
            m.clob = m.clob + ((off, L(size), "loop:%s" % r.name),)
        else:
            m.cells[off] = (size, v)
    elif k == "ghost":
        st.ghost[loc[1]] = v
    elif k == "vs":
        st.vsize[loc[1].id] = v
    elif k == "seg":
        eng.wm(st, loc[1]).segs = v
    elif k == "clob":
        m = eng.wm(st, loc[1])
        m.clob = m.clob + ((ZERO, None, "loop:%s" % loc[1].name),)


def width(loc):
    if loc[0] == "cell":
        return loc[3]
    if loc[0] == "phi":
        t = loc[2]
        if isinstance(t, list) and t[0] == "i":
            return (t[1] + 7) // 8
    return 8


def decompose(eng, st, cfg, loc, v, rmark):
    """(shape, [numeric fields])"""
    if v is None:
        return ("none",), []
    if loc[0] == "seg":
        shape = tuple(("s", s.src if _src_old(s.src, rmark) else ("?",)) for s in v)
        num = []
        for s in v:
            num += [s.lo, s.hi, s.delta]
        return ("segs",) + shape, num
    if isinstance(v, tuple):
        d = eng.decide(st, v)
        if d is not None:
            return ("b", d), []
        l = eng.cond_lin(st, v)
        if l is None:
            l = atom("loopbool", 0, 1)
        return ("bool",), [l]
    if isinstance(v, Lin):
        n = st.facts.norm(v)
        if loc[0] != "ghost" and width(loc) <= 4 and (loc not in cfg.demoted):
            if n.is_const():
                return ("k", n.c), []
            cfg.demoted.add(loc)
            raise Restart()
        return ("num",), [n]
    if v is NULL:
        return ("null",), []
    if isinstance(v, Ptr):
        if v.r.id > rmark and v.r.kind not in ("global",):
            if v.r.nul is None:
                return ("other", "nn"), []
            d = eng.decide(st, ("eq", v.r.nul))
            return ("other", "nn" if d else "null" if d is False else "?"), []
        es = v.r.elem or 1
        off = st.facts.norm(v.off)
        if es > 1 and (loc, v.r) not in cfg.nostride:
            q = off.div_exact(es)
            if q is None:
                cfg.nostride.add((loc, v.r))
                raise Restart()
            return ("ptr", v.r, es), [q]
        return ("ptr", v.r, 1), [off]
    if isinstance(v, Chunk):
        d = eng.decide(st, ("eq", v.nul))
        return ("chunk", v.s, d), [v.pos, v.start, v.end] + ([v.nul] if d is None else [])
    if isinstance(v, Agg):
        sh, num = [], []
        for x in v.v:
            a, b = decompose(eng, st, cfg, ("x",), x, rmark)
            sh.append((a, len(b)))
            num += b
        return ("agg", tuple(sh)), num
    return ("lit", v), []


def _src_old(src, rmark):
    if src[0] == "init" and src[1] > rmark:
        return False
    return True


def rebuild(eng, shape, num, name):
    k = shape[0]
    if k == "none":
        return None
    if k == "segs":
        out = []
        for i, s in enumerate(shape[1:]):
            lo, hi, d = num[3 * i:3 * i + 3]
            out.append(Seg(lo, hi, s[1], d))
        return tuple(out)
    if k == "b":
        return ("c", shape[1])
    if k == "bool":
        return ("ne", num[0])
    if k == "k":
        return Lin(shape[1])
    if k == "num":
        return num[0]
    if k == "null":
        return NULL
    if k == "ptr":
        return Ptr(shape[1], num[0] * shape[2])
    if k == "chunk":
        return Chunk(shape[1], *(num if shape[2] is None else list(num) + [ZERO if shape[2] else ONE]))
    if k == "other":
        if shape[1] == "null":
            return NULL
        r = Region("opaque", "loop:" + name)
        if shape[1] == "?":
            r.nul = atom("isnull(%s)" % name, 0, 1)
        return Ptr(r)
    if k == "agg":
        out = []
        for sh, n in shape[1]:
            out.append(rebuild(eng, sh, num[:n], name))
            num = num[n:]
        return Agg(out)
    return shape[1]


def loc_key(loc):
    if loc[0] == "cell":
        return (1, loc[1].id, repr(loc[2]), loc[3])
    if loc[0] == "phi":
        return (0, loc[1])
    if loc[0] in ("vs", "seg", "clob"):
        return (2, loc[0], loc[1].id)
    return (3,) + tuple(str(x) for x in loc)


def lname(loc):
    if loc[0] == "cell":
        return "%s[%r]" % (loc[1].name, loc[2])
    if loc[0] == "phi":
        return "phi%d" % loc[1]
    if loc[0] in ("vs", "seg", "clob"):
        return "%s(%s)" % (loc[0], loc[1].name)
    return str(loc[1])


def summarise(eng, st0, f, h, prev):
    eng.phis(st0, f, h, prev)
    cfg = Cfg()
    for inst in f.blocks[h]:
        if inst[0] != "phi":
            break
        cfg.locs.add(("phi", inst[1], tuple(inst[2]) if isinstance(inst[2], list) else inst[2]))
    wm = len(A.name)
    rmark = Region.N
    regs = {}

    def attempt(final):
        heads = {}
        locs = sorted(cfg.locs, key=loc_key)
        vals = [l for l in locs if l[0] != "clob"]
        clobs = [l for l in locs if l[0] == "clob"]

        def describe(a):
            shapes, nums = [], []
            for l in vals:
                v = get_loc(eng, a, l)
                s, n = decompose(eng, a, cfg, l, v, rmark)
                shapes.append(s)
                nums.append([a.facts.norm(x) for x in n])
            key = (tuple(shapes), tuple(sorted((k, v) for k, v in a.mon.items())),
                   frozenset(x for x in a.freed if x <= rmark))
            todo = [(a, ())]
            for kind, tmpl in cfg.exits:
                l = tmpl[1]
                ok = True
                for (lc, fi), c in tmpl[0]:
                    if lc not in vals or fi >= len(nums[vals.index(lc)]):
                        ok = False
                        break
                    l = l + nums[vals.index(lc)][fi] * c
                if not ok:
                    todo = [(s, k + (None,)) for s, k in todo]
                    continue
                todo = [(s2, k + (b,)) for s, k in todo for s2, b in eng.split(s, (kind, l))]
            return [(s, key + (k,), [[s.facts.norm(x) for x in n] for n in nums]) for s, k in todo]

        def dvals(a, H, nums):
            """arrival values of the derived prefix sums"""
            out = []
            for (s, terms, o) in H.derived:
                k = o
                for (li, fi), c in terms:
                    k = k + nums[li][fi] * c
                out.append(a.facts.norm(eng.PS(a, s, k)))
            return out

        def new_head(key, a, nums):
            H = Head()
            H.key = key
            H.vars = []
            hn = []
            for l, n in zip(vals, nums):
                x = []
                for i, v in enumerate(n):
                    lo = hi = None
                    if l[0] == "phi" and isinstance(l[2], tuple) and l[2][0] == "i" and l[2][1] <= 32:
                        lo, hi = -(1 << (l[2][1] - 1)), (1 << l[2][1]) - 1
                    x.append(atom("%s@%d%s" % (lname(l), h, "" if i == 0 else "." + str(i)), lo, hi))
                hn.append(x)
                H.vars += x
            H.hn = hn
            H.nbase = len(H.vars)
            H.derived = []
            for (s, terms, o) in cfg.derived:
                tt = []
                ok = True
                for (l, fi), c in terms:
                    if l not in vals:
                        ok = False
                        break
                    li = vals.index(l)
                    if fi >= len(hn[li]):
                        ok = False
                        break
                    tt.append(((li, fi), c))
                if ok:
                    H.derived.append((s, tt, o))
            flat = [v for n in nums for v in n] + dvals(a, H, nums)
            # affine relations from the first arrival
            rows = []
            loc_atoms = []
            seen = set()
            for v in flat:
                for x in v.atoms():
                    if x not in seen:
                        seen.add(x)
                        if not outer(x, wm):
                            loc_atoms.append(x)
            for x in loc_atoms:
                rows.append([v.coef(x) for v in flat])
            basis = nullspace(rows, len(flat)) if flat else []
            H.rels = []
            for c in basis:
                o = ZERO
                for ci, v in zip(c, flat):
                    if ci:
                        o = o - v * ci
                H.rels.append((tuple(c), o))
            H.ineqs = None
            H.first = (a, flat)
            H.arrivals = [(a, flat)]
            H.cands = gen_cands(H, a, nums, flat)
            H.dirty = True
            H.tried = set()
            return H

        def gen_cands(H, a, nums, flat):
            cands = {}

            def add(l):
                l = tighten(l)
                if l.t and l not in cands:
                    cands[l] = True
            for x, v in zip(H.vars, flat[:H.nbase]):
                add(x)
                if outer_lin(v, wm):
                    add(x - v)
                    add(v - x)
                    if len(v.t) == 1 and v.t[0][1] == 1:
                        o = v.t[0][0]
                        for t, c in list(st0.facts.ge.items()):
                            if any(b == o for b, _ in t) and len(t) <= 4:
                                add(Lin(c, t).subst({o: x - v.c}))
            for tmpl in cfg.conds:
                l = tmpl[1]
                ok = True
                for (lc, fi), c in tmpl[0]:
                    if lc not in vals:
                        ok = False
                        break
                    li = vals.index(lc)
                    if fi >= len(H.hn[li]):
                        ok = False
                        break
                    l = l + H.hn[li][fi] * c
                if ok:
                    add(l)
                    add(-l)
                    add(l + 1)
                    add(-l + 1)
            n = min(H.nbase, 12)
            for i in range(n):
                for j in range(n):
                    if i != j:
                        add(H.vars[i] - H.vars[j])
            out = []
            m = dict((x.t[0][0], v) for x, v in zip(H.vars, flat[:H.nbase]))
            for l in cands:
                if a.facts.entails_ge(l.subst(m)):
                    out.append(l)
            return out

        def weaken(H, a, nums):
            flat = [v for n in nums for v in n] + dvals(a, H, nums)
            H.arrivals.append((a, flat))
            ch = False
            ev = []
            for c, o in H.rels:
                l = o
                for ci, v in zip(c, flat):
                    if ci:
                        l = l + v * ci
                l = a.facts.norm(l)
                if l != ZERO and a.facts.entails_eq(l):
                    l = ZERO
                ev.append(l)
            if any(l != ZERO for l in ev):
                ats = sorted({x for l in ev for x in l.atoms()})
                rows = [[l.coef(x) for l in ev] for x in ats] + [[l.c for l in ev]]
                basis = nullspace(rows, len(ev))
                nr = []
                for lam in basis:
                    c = [0] * len(flat)
                    o = ZERO
                    for k, (rc, ro) in zip(lam, H.rels):
                        if k:
                            c = [x + k * y for x, y in zip(c, rc)]
                            o = o + ro * k
                    nr.append((tuple(c), o))
                H.rels = nr
                ch = True
            m = dict((x.t[0][0], v) for x, v in zip(H.vars, flat[:H.nbase]))
            keep = [l for l in H.cands if a.facts.entails_ge(l.subst(m))]
            if len(keep) != len(H.cands):
                H.cands = keep
                ch = True
            if ch:
                # bounds of the new arrival that the earlier ones satisfy too
                for i, x in enumerate(H.vars[:H.nbase]):
                    v = flat[i]
                    if not outer_lin(v, wm):
                        continue
                    for l in (tighten(x - v), tighten(v - x)):
                        if not l.t or l in H.tried:
                            continue
                        H.tried.add(l)
                        if l in H.cands:
                            continue
                        d = (x - v) if l == tighten(x - v) else (v - x)
                        if all(b.facts.entails_ge((fl[i] - v) if d == x - v else (v - fl[i])) for b, fl in H.arrivals):
                            H.cands.append(l)
            if ch:
                H.dirty = True

        def head_state(H):
            s = st0.fork()
            for l in clobs:
                set_loc(eng, s, l, None)
            for l, sh, x in zip(vals, H.key[0], H.hn):
                set_loc(eng, s, l, rebuild(eng, sh, list(x), lname(l)))
            s.mon = dict(H.key[1])
            s.freed = H.key[2] | frozenset(x for x in s.freed)
            dv = []
            for l in H.cands:
                s.facts.add_ge(l)
                if s.facts.dead:
                    return None
            for (sm, tt, o) in H.derived:
                k = o
                for (li, fi), c in tt:
                    k = k + H.hn[li][fi] * c
                dv.append(eng.PS(s, sm, k))
            allv = H.vars + dv
            for c, o in H.rels:
                l = o
                for ci, v in zip(c, allv):
                    if ci:
                        l = l + v * ci
                s.facts.add_eq(l)
                if s.facts.dead:
                    return None
            for a, _ in H.arrivals:
                for w in a.imp:
                    if w not in s.imp:
                        s.imp = s.imp + (w,)
            s.extra = dict(s.extra)
            s.extra["psidx"] = ()
            s.note("loop", f.short, f.blocks[h][0][4])
            return s

        for a, key, nums in describe(st0.fork()):
            heads[key] = new_head(key, a, nums)
        exits = {}
        rounds = 0
        while True:
            H = None
            for x in heads.values():
                if x.dirty:
                    H = x
                    break
            if H is None:
                break
            rounds += 1
            if rounds > 60 or len(heads) > 40:
                raise Stop("loop analysis did not converge in %s" % f.short)
            H.dirty = False
            s = head_state(H)
            if s is None:
                exits[H.key] = []
                continue
            base = s.fork()
            sv, eng.branch_conds = eng.branch_conds, []
            try:
                outs = eng.region(s, f, h, None, h)
            finally:
                conds, eng.branch_conds = eng.branch_conds, sv
            hidx = {}
            for li, x in enumerate(H.hn):
                for fi, v in enumerate(x):
                    hidx[v.t[0][0]] = (vals[li], fi)

            def template(l):
                """Express l over head placeholders and outer atoms."""
                terms, o = [], L(l.c)
                for a, c in l.t:
                    if a in hidx:
                        terms.append((hidx[a], c))
                    elif outer(a, wm):
                        o = o + Lin(0, ((a, c),))
                    else:
                        return None
                return (tuple(terms), o)
            changed = False
            # conditions over eliminated head atoms: re-express
            for c, cf, cb, t1, t2, depth in conds:
                t = template(c[1])
                if t is None or not t[0]:
                    continue
                if t not in cfg.conds and len(cfg.conds) < 40:
                    cfg.conds.append(t)
                    changed = True
                if cf is f and depth == len(st0.frames) and (t1 not in f.loops[h] or t2 not in f.loops[h]):
                    e = (c[0], t)
                    if e not in cfg.exits and len(cfg.exits) < 3:
                        cfg.exits.append(e)
                        changed = True
            ex = []
            for o in outs:
                if not (o[0] == "edge" and o[3] == h):
                    ex.append(o)
                    continue
                a = o[1]
                a.frames[-1] = a.frames[-1].copy()
                for (sm, k) in a.extra.get("psidx", ()):
                    t = template(k)
                    if t is not None and t[0]:
                        d = (sm, t[0], t[1])
                        if d not in cfg.derived:
                            cfg.derived.append(d)
                            changed = True
                checked_prefix(eng, a)
                eng.phis(a, f, h, o[2])
                if find_mods(eng, base, a, cfg, rmark):
                    changed = True
                if changed:
                    continue
                for a, key, nums in describe(a):
                    if key in heads:
                        weaken(heads[key], a, nums)
                    else:
                        heads[key] = new_head(key, a, nums)
            if changed:
                raise Restart()
            exits[H.key] = ex
        return heads, exits, head_state

    n = 0
    eng.quiet += 1
    try:
        while True:
            n += 1
            if n > 60:
                raise Stop("too many loop restarts in %s" % f.short)
            try:
                heads, exits, head_state = attempt(False)
                break
            except Restart:
                continue
    finally:
        eng.quiet -= 1
    eng.loops_done += 1
    if DEBUG:
        for H in heads.values():
            print("LOOP %s@%d key=%s" % (f.short, h, H.key))
            s = head_state(H)
            if s:
                for c, o in H.rels:
                    print("   rel", " ".join("%+d*%s" % (ci, v) for ci, v in zip(c, H.vars + ["PS%d" % i for i in range(9)]) if ci), "+", o)
                for l in H.cands:
                    print("   inv", l, ">=0")
    out = []
    for H in heads.values():
        if eng.quiet:
            out += exits.get(H.key, [])
        else:
            s = head_state(H)
            if s is None:
                continue
            for o in eng.region(s, f, h, None, h):
                if not (o[0] == "edge" and o[3] == h):
                    out.append(o)
    for o in out:
        # indices seen inside belong to an enclosing loop too
        if st0.extra.get("psidx"):
            o[1].extra["psidx"] = tuple(st0.extra["psidx"]) + tuple(x for x in o[1].extra.get("psidx", ()) if x not in st0.extra["psidx"])
    return out


def checked_prefix(eng, a):
    """Ghost "nchk": every component below it is empty or not null."""
    for sm, k in a.extra.get("psidx", ()):
        g = a.ghost.get("nchk%d" % sm.id, ZERO)
        if a.facts.entails_eq(g - k):
            ln = app("Len:" + sm.name, (sm.id, k), 0, (1 << 31) - 1)
            nul = app("Nul:" + sm.name, (sm.id, k), 0, 1)
            if a.facts.entails_ge(-ln) or a.facts.entails_ge(-nul):
                a.ghost["nchk%d" % sm.id] = g + 1


def find_mods(eng, base, a, cfg, rmark):
    """Adds to cfg.locs every location that differs between the head state
    and an arrival.  Returns True if something new was found."""
    new = False

    def add(l):
        nonlocal new
        if l not in cfg.locs:
            cfg.locs.add(l)
            new = True
    for g in set(base.ghost) | set(a.ghost):
        if a.facts.norm(base.ghost.get(g, ZERO)) != a.facts.norm(a.ghost.get(g, ZERO)):
            add(("ghost", g))
    for rid, m in a.mem.items():
        if rid > rmark:
            continue
        b = base.mem.get(rid)
        if b is m:
            continue
        r = eng_region(eng, a, rid)
        if b is None:
            b = RMem()
        if a.vsize.get(rid) != base.vsize.get(rid) and a.vsize.get(rid) is not None:
            if a.facts.norm(a.vsize[rid]) != a.facts.norm(base.vsize.get(rid, ZERO)):
                add(("vs", r))
        if m.clob != b.clob and len(m.clob) > len(b.clob):
            extra = m.clob[len(b.clob):] if m.clob[:len(b.clob)] == b.clob else m.clob
            if not any(cn is None for _, cn, _ in b.clob):
                add(("clob", r))
        if m.segs != b.segs:
            na = [(a.facts.norm(s.lo), a.facts.norm(s.hi), s.src, a.facts.norm(s.delta)) for s in m.segs]
            nb = [(a.facts.norm(s.lo), a.facts.norm(s.hi), s.src, a.facts.norm(s.delta)) for s in b.segs]
            if na != nb:
                add(("seg", r))
        for off in set(m.cells) | set(b.cells):
            ca, cb = m.cells.get(off), b.cells.get(off)
            if ca is cb:
                continue
            if not off.is_const() and not all(True for _ in off.t):
                continue
            if cb is None:
                if not off.is_const():
                    # freshly written element at a position depending on the iteration
                    continue
                tmp = base.fork()
                v0 = eng.load_at(tmp, r, off, ca[0], not isinstance(ca[1], Lin) and not isinstance(ca[1], tuple))
                if same(a, v0, ca[1]):
                    continue
                add(("cell", r, off, ca[0], not isinstance(ca[1], Lin)))
            elif ca is None:
                if ("clob", r) in cfg.locs and not off.is_const():
                    continue
                add(("cell", r, off, cb[0], not isinstance(cb[1], Lin)))
            else:
                if ca[0] == cb[0] and same(a, ca[1], cb[1]):
                    continue
                add(("cell", r, off, cb[0], not isinstance(cb[1], Lin)))
    return new


def eng_region(eng, st, rid):
    return REGS[rid]


def same(a, x, y):
    if isinstance(x, Lin) and isinstance(y, Lin):
        return a.facts.norm(x) == a.facts.norm(y)
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return x.r is y.r and a.facts.norm(x.off) == a.facts.norm(y.off)
    if isinstance(x, Chunk) and isinstance(y, Chunk):
        return x == y
    if isinstance(x, tuple) or isinstance(y, tuple):
        return x == y
    return x is y or x == y
