"""Builds LLVM IR for the sources under /repo and loads it (via irdump)."""
import hashlib, json, os, re, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get("S2A_REPO", "/repo")
BUILD = os.environ.get("S2A_BUILD", os.path.join(VERIF, "build"))
CLANG = "clang++"
LLVM = "/usr/lib/llvm-18"

COMMON = ["-std=c++14", "-O0", "-Xclang", "-disable-O0-optnone", "-g",
          "-fstandalone-debug", "-fno-exceptions", "-flto",
          "-fwhole-program-vtables", "-fvisibility=hidden", "-w", "-Wno-enum-constexpr-conversion",
          "-Wno-narrowing"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stderr.decode()[:4000]))
    return p.stdout


def ensure_irdump():
    src = os.path.join(VERIF, "engine", "irdump.cpp")
    exe = os.path.join(BUILD, "irdump")
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "irdump.stamp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    flags = run([LLVM + "/bin/llvm-config", "--cxxflags"]).decode().split()
    flags = [f for f in flags if not f.startswith("-std=")]
    tmp = exe + ".%d" % os.getpid()
    run([CLANG, "-O1", "-std=c++17", "-fno-rtti", "-w"] + flags +
        [src, "-o", tmp, "-L" + LLVM + "/lib", "-lLLVM-18"])
    os.replace(tmp, exe)
    open(stamp, "w").write(h)
    return exe


def includes(variant):
    inc = ["-I" + REPO, "-I" + os.path.join(VERIF, "stubs"),
           "-I" + os.path.join(REPO, "src/proto/upb-generated")]
    if variant == "boringssl":
        inc.append("-I/usr/include/android")
    return inc


def compile_tu(src, variant="openssl"):
    """Returns the parsed irdump JSON of one translation unit, cached by the
    hash of its preprocessed text."""
    exe = ensure_irdump()
    path = os.path.join(REPO, src)
    args = COMMON + includes(variant)
    pre = run([CLANG] + args + ["-E", path])
    key = hashlib.sha256(pre + repr((src, variant, args)).encode() +
                         open(os.path.join(BUILD, "irdump.stamp"), "rb").read()).hexdigest()[:32]
    cdir = os.path.join(BUILD, "ir")
    os.makedirs(cdir, exist_ok=True)
    out = os.path.join(cdir, key + ".json")
    if not os.path.exists(out):
        base = os.path.join(cdir, key + ".%d" % os.getpid())
        run([CLANG] + args + ["-S", "-emit-llvm", path, "-o", base + ".ll"])
        run([LLVM + "/bin/opt", "-passes=mem2reg", base + ".ll", "-S", "-o", base + ".2.ll"])
        js = run([exe, base + ".2.ll"])
        open(base + ".json", "wb").write(js)
        os.replace(base + ".json", out)
        for e in (".ll", ".2.ll"):
            os.unlink(base + e)
    return json.load(open(out))


def clean_name(dn):
    dn = dn.replace("debian3::", "").replace("__cxx11::", "").replace("[abi:cxx11]", "")
    dn = dn.replace("absl::lts_20220623::", "absl::")
    return dn


class Func:
    __slots__ = ("name", "dn", "short", "args", "ret", "blocks", "tu", "file", "line", "dtypes",
                 "noret", "loops", "headers", "inner", "sname", "va", "preds")

    def __repr__(self):
        return "<fn %s>" % self.short


def short_name(dn):
    """Qualified name without template arguments and parameter list."""
    s = dn
    out = []
    depth = 0
    i = 0
    # drop template args and parameters
    n = len(s)
    while i < n:
        ch = s[i]
        if s.startswith("operator", i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
            m = re.match(r"operator(\(\)|\[\]|<<=?|>>=?|<=|>=|<|>|->\*?|[-+*/%^&|~!=,]+|\s*(new|delete)(\[\])?|\s\w+)?", s[i:])
            if depth == 0:
                out.append(m.group(0))
            i += len(m.group(0))
            continue
        if ch == "<" or ch == "(":
            if ch == "(" and s.startswith("(anonymous namespace)", i):
                if depth == 0:
                    out.append("(anonymous namespace)")
                i += len("(anonymous namespace)")
                continue
            depth += 1
        elif ch == ">" or ch == ")":
            depth -= 1
        elif depth == 0:
            out.append(ch)
        i += 1
    r = "".join(out).replace(" const", "").strip()
    # drop a leading return type
    parts = []
    k = len(r)
    m = re.search(r"(operator.*)$", r)
    tail = ""
    if m:
        tail = m.group(1)
        r = r[:m.start()]
    if " " in r and "(anonymous namespace)" not in r:
        r = r.split(" ")[-1]
    elif "(anonymous namespace)" in r:
        t = r.replace("(anonymous namespace)", "\x01")
        if " " in t:
            t = t.split(" ")[-1]
        r = t.replace("\x01", "(anonymous namespace)")
    return r + tail


class Program:
    def __init__(self):
        self.funcs = {}
        self.globals = {}
        self.classes = {}
        self.class_by_id = {}
        self.enums = {}
        self.tus = []
        self.by_short = {}
        self.aliases = {}

    def add_tu(self, src, variant="openssl"):
        d = compile_tu(src, variant)
        tu = len(self.tus)
        self.tus.append((src, variant))
        files = d["files"]
        loc = {}
        for n, f in d["functions"].items():
            if f["link"]:
                loc[n] = n + "@%d" % tu
        gl = {}
        for n, g in d["globals"].items():
            gn = n
            if n.startswith(".str") or n.startswith(".L") or n.startswith("__const") or n.startswith("switch") or n.startswith("constinit"):
                gn = n + "@%d" % tu
            elif n in self.globals and self.globals[n].get("init") and "init" in g and self.globals[n]["init"] != g["init"]:
                gn = n + "@%d" % tu
            gl[n] = gn
            g["tu"] = tu
            if gn not in self.globals or ("init" in g and "init" not in self.globals[gn]):
                self.globals[gn] = g

        def fix(v):
            if isinstance(v, list):
                if len(v) >= 2 and v[0] == "fn" and isinstance(v[1], str):
                    if v[1] in loc:
                        v[1] = loc[v[1]]
                    return
                if len(v) >= 2 and v[0] == "g" and isinstance(v[1], str):
                    v[1] = gl.get(v[1], v[1])
                    return
                for x in v:
                    if isinstance(x, list):
                        fix(x)

        for g in d["globals"].values():
            if "init" in g:
                fix(g["init"])
        for n, f in d["functions"].items():
            nm = loc.get(n, n)
            if nm in self.funcs and (self.funcs[nm].blocks is not None or "blocks" not in f):
                continue
            F = Func()
            F.name = nm
            F.dn = clean_name(f["dn"])
            F.short = short_name(F.dn)
            F.args = f["args"]
            F.ret = f["ret"]
            F.va = f["va"]
            F.tu = tu
            F.noret = f["noret"]
            F.file = files[f["file"]] if "file" in f else ""
            F.line = f.get("line", 0)
            F.dtypes = [clean_name(x) for x in f.get("dtypes", [])]
            F.sname = f.get("sname", "")
            F.blocks = None
            F.loops = None
            if "blocks" in f:
                for b in f["blocks"]:
                    for i in b:
                        fix(i[3])
                        i[5] = files[i[5]] if i[5] >= 0 else ""
                F.blocks = f["blocks"]
            self.funcs[nm] = F
        for a, t in d.get("aliases", {}).items():
            self.aliases[a] = loc.get(t, t)
        for t in d["types"]:
            if t["k"] == "enum":
                self.enums[clean_name(t["name"])] = {k: v for k, v in t["elems"]}
            else:
                nm = clean_name(t["name"])
                if nm not in self.classes or len(t["methods"]) > len(self.classes[nm]["methods"]):
                    t["name"] = nm
                    for m in t["members"]:
                        m[3] = clean_name(m[3])
                    t["bases"] = [[clean_name(b[0]), b[1]] for b in t["bases"]]
                    self.classes[nm] = t
                    if t["id"]:
                        self.class_by_id[t["id"]] = t
        return d

    def finish(self):
        for a, t in self.aliases.items():
            g = self.funcs.get(t)
            if g is not None and g.blocks is not None:
                f = self.funcs.get(a)
                if f is None or f.blocks is None:
                    self.funcs[a] = g
        self.by_short = {}
        for f in self.funcs.values():
            self.by_short.setdefault(f.short, []).append(f)

    def find(self, short, pred=None):
        """Functions with a body whose qualified name (anonymous namespaces
        ignored) is `short`."""
        r = []
        for f in list({id(g): g for g in self.funcs.values()}.values()):
            if f.blocks is None:
                continue
            s = f.short.replace("(anonymous namespace)::", "")
            if s == short and (pred is None or pred(f)):
                r.append(f)
        return r


def cfg(F):
    """Natural loops of F: F.headers maps header block -> loop (set of blocks)."""
    if F.loops is not None:
        return
    n = len(F.blocks)
    succ = [[] for _ in range(n)]
    for b, insts in enumerate(F.blocks):
        t = insts[-1]
        if t[0] == "br":
            succ[b] = [t[3][0]] if len(t[3]) == 1 else [t[3][1], t[3][2]]
        elif t[0] == "switch":
            succ[b] = [t[3][1]] + [c[1] for c in t[3][2]]
    order = []
    seen = set()
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    preds = [[] for _ in range(n)]
    for b in order:
        for s in succ[b]:
            preds[s].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    loops = {}
    for b in order:
        for s in succ[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    F.loops = loops
    F.headers = loops
    F.preds = preds
