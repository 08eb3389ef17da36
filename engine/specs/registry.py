"""Which analyses decide which property.

A job is (module, function, kwargs); the function returns an analysis run with
`eng` (obligations, statistics).  `peel=None` asks for the fixpoint over all
loop iterations, `peel=k` for the abstract paths with at most k iterations of
every loop (used to confirm a report before it is raised)."""
import importlib

AEAD_IMPLS = ("aes-openssl", "aes-boringssl", "chacha-openssl", "chacha-boringssl")


def aead(ops, peel, fix=True):
    out = []
    for impl in AEAD_IMPLS:
        if fix:
            for obj in ((0, 1) if impl.startswith("aes") else (0,)):
                for op in ops:
                    out.append(("aead", dict(impl=impl, peel=None, obj=obj, op=op)))
        out.append(("aead", dict(impl=impl, peel=peel, obj=None, op=None if len(ops) > 1 else ops[0])))
        for m in ((3, 140, 1), (140, 40, 1000), (33, 20, 100)) + (((600, 3, 20), (5, 600, 3)) if peel > 2 else ()):
            out.append(("aead", dict(impl=impl, peel=700, obj=None, op=None if len(ops) > 1 else ops[0], many=m)))
    return out


def hkdf(peel):
    return [("hkdf", dict(variant=v, alias=a, peel=k)) for v in ("openssl", "boringssl") for a in (False, True) for k in (None, peel)] + [
        ("hkdf", dict(variant="openssl", over=o, peel=peel)) for o in ("max", "beyond")]


def sslerr(peel):
    return [("sslerr", dict(variant=v, peel=k)) for v in ("openssl", "boringssl") for k in (None, peel)]


def handler(peel):
    """Histories of calls; the number of messages per input grows with peel."""
    hs = [("PP", peel + 1), ("PPG", peel), ("PGP", peel), ("PPP", peel - 1), ("PPGP", peel - 1), ("sssssP", peel), ("SSSPG", peel),
          ("TTTTTTGPT", peel), ("TTTTtPG", peel), ("TTTTTtPG", peel), ("TGTG", peel), ("TGtPG", peel), ("KPG", peel), ("TGKGP", peel),
          ("PeG", peel), ("TTTTTKsG", peel), ("GGT", peel), ("eGTG", peel), ("TtGPG", peel), ("KGTGT", peel)]
    # long histories; all but "ff" and the last end at the end of a ticket
    long = [("f" * 72 + "G", 1, 20), ("f" * 32 + "G", 3, 20), ("fGfGf", 200, 16), ("f" * 16 + "G", 76, 300), ("ffffG", 17501, 70000), ("f" * 36 + "G", 7, 248),
            ("ff", 16384, 20000), ("f" * 65 + "G", 1, 1), ("f" * 260 + "G", 1, 256), ("f" * 50 + "G", 1, 20)]
    return ([("handler", dict(hist=h, peel=k)) for h, k in hs] + [("handler", dict(hist=h, stream=(a, b), peel=70)) for h, a, b in long] +
            [("handler", dict(hist=h, peel=3)) for h in ("T" * 30 + "G" + "T" * 9 + "G", "e" * 40 + "TeG", "TG" * 20, "TTG" * 8 + "KG")])


def options(peel):
    return ([("options", dict(kind="pairs", op=x, peel=peel)) for x in ("m", "M", "a", "c", "ls", "lh", "lu", "ts", "th", "tu")] +
            [("options", dict(kind="id", peel=peel)), ("options", dict(kind="long", peel=peel))])


def token(peel):
    return [("token", dict(which=w, hist=h, peel=peel)) for w in ("single", "fake") for h in ("DGDGNGD", "GDGNDDGG", "GDN" * 40, "G" * 70)]


def half(peel):
    hs = [("EDEE", None, 0), ("DDUDE", None, 0), ("EUEDUE", -1, 0), ("DEDUD", -2, 0), ("EEEUE", -3, 0), ("EUDUE", None, 1), ("UEUED", 0, 1),
          ("UUE", 0, 2), ("UUUDE", None, 0), ("TETUTDT", None, 1)]
    if peel > 2:
        hs += [("EDEDUEDUEDE", -3, 0), ("UEUEUE", None, 2), ("UUUUUUE", 0, 1), ("EEEEEEDDDD", -5, 0)]
    return ([("half", dict(hist=h, seq=q, fail=f, cs=c, peel=peel)) for h, q, f in hs for c in ((0, 1, 2) if h in ("EUDUE", "UEUED", "UUE") else (None,))] +
            [("half", dict(hist="E", cs="any", fail=1, peel=peel)), ("half", dict(kind="hash", peel=peel))] +
            [("half", dict(hist=h, seq=q, cs=c, fail=-1, peel=peel)) for h, q, c in
             (("E" * 270, 0, 0), ("EDUED" * 26, 0, 1), ("U" * 130 + "ED", 0, 2), ("D" * 150, -140, 0), ("DE" * 60, 200, 1), ("E" * 20, 65530, 2), ("D" * 20, (1 << 32) - 10, 0), ("E" * 20, (1 << 56) - 10, 1))])


def crypter(peel):
    hs = [("p", 0), ("p", 1), ("p", 3), ("pOp", 1), ("U", 0), ("U", 1), ("U", 3), ("aU", 2), ("cU", 1), ("chU", 1), ("xU", 1), ("hU", 1),
          ("haU", 1), ("haD", 1), ("hahD", 1), ("hhD", 1), ("hD", 1), ("hacD", 1), ("hcD", 1), ("ORpR", 1), ("OU", 1), ("Up", 1),
          ("hha", 1), ("hhh", 1)]
    if peel > 2:
        hs += [("hhU", 1), ("hahU", 1), ("hhaU", 1), ("UU", 1), ("hahaD", 1), ("hhha", 1), ("hahh", 1), ("hhaha", 1)]
    return ([("crypter", dict(hist=h, niov=n, pad=1 if h in ("hhha", "hahh", "hhaha") else 3 if len(h) > 1 else peel + 1, peel=peel)) for h, n in hs] +
            [("crypter", dict(hist=h, niov=3, null=k, peel=peel)) for h in "pU" for k in (0, 1)] +
            [("crypter", dict(hist=h, niov=n, peel=200)) for h, n in (("p", 40), ("U", 40), ("a" * 40 + "U", 1), ("a" * 20 + "haD", 1))] +
            [("crypter", dict(hist="z", peel=peel))] +
            [("crypter", dict(hist="haD", frag=True, peel=peel))] +
            [("crypter", dict(hist="p", small=n, extra=x, peel=peel)) for n, x in ((0, 0), (3, 0), (0, 2), (3, 1))] +
            [("crypter", dict(hist="U", small=3, pad=24, peel=peel)), ("crypter", dict(hist="p", fail=1, peel=peel))])


def frame(peel):
    js = [dict(hist="")] + [dict(hist="n", niov=n) for n in (1, 3)]
    for op in "pq":
        js += [dict(hist=op, niov=n, recs=r, peel=max(peel, r + 1, n + 1)) for n, r in ((0, 0), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 3), (1, 5))]
        js += [dict(hist=op, niov=2), dict(hist=op, niov=3, null=1, recs=2, peel=4), dict(hist=op, niov=2, recs=0)]
    js += [dict(hist="p", recs=1, alloc=0), dict(hist="p", niov=2, recs=2, alloc=0)]
    for op in "uv":
        js += [dict(hist=op, niov=n, peel=peel + 1) for n in (0, 1, 2)] + [dict(hist=op, niov=3, null=k) for k in (0, 1, 2)]
    js += [dict(hist="v", niov=3, peel=4), dict(hist="u", niov=3, peel=2), dict(hist="u", niov=1, peel=5)] + [dict(hist="u", niov=1, alloc=k) for k in (0, 1)]
    js += [dict(hist=h, niov=1, recs=1) for h in ("pu", "up", "vq", "pp")]
    long = [("u", (17,) * 60, (22 * 60,)), ("u", (30,) * 12, (35,) * 12), ("u", (30,) * 12, (10,) * 42), ("u", (17, 300, 40), (4,) * 93), ("v", (200,), (5,) * 41),
            ("u", (16401,) * 20, (1000,) * 328 + (120,)), ("u", (17,) * 9 + (30,), (1,) * 233), ("v", (16401,), (64,) * 256 + (22,))]
    for op in "pq":
        long += [(op, None, (16384 * 33 + 5,)), (op, None, (700,) * 60), (op, None, (10000,) * 40), (op, None, (16500,) * 30), (op, None, (16384,) * 20), (op, None, (1,) * 200), (op, None, (16383, 2) * 12)]
    js += [dict(hist=h, sizes=z, lens=l, niov=len(l), peel=max(70, len(l) + 20)) for h, z, l in long]
    if peel > 2:
        js += [dict(hist="u", niov=3, peel=3), dict(hist="p", niov=4, recs=4, peel=5)]
    return [("frame", dict(dict(peel=peel + 1), **j)) for j in js]


OKRESP = {"response.status": True, "response.status.code": 0}
IDS = {"response.local_identity": False, "response.result.peer_identity": True, "response.result.peer_identity.spiffe_id": False,
       "response.result.peer_identity.hostname": True, "response.result.local_identity.spiffe_id": True}
RES = dict(OKRESP, **{"response.local_identity": False, "response.result": True, "response.result.state": True,
                      "response.result.state.tls_version": 1, "response.result.state.tls_ciphersuite": 1})
NORES = dict(OKRESP, **{"response.result": False})
PICK = dict(NORES, **{"response.local_identity": True, "response.local_identity.spiffe_id": True})


def responses(peel):
    """Histories of responses; what is not fixed on the wire is arbitrary."""
    js = [dict(hist="fcd"), dict(hist="efcd"), dict(hist="pdfcpdfc", fixed=IDS), dict(hist="pfc", fixed=RES), dict(hist="pdpd", fixed=IDS),
          dict(hist="p"), dict(hist="spdfc", fixed=IDS, sym=False, ncs=0), dict(hist="bpfd", client=False, fixed=IDS, sym=False, ncs=0),
          dict(hist="ppf", fixed=RES)]
    if peel > 2:
        js += [dict(hist="pdfcpdfcpdf", fixed=dict(IDS, **{"response.result.state.tls_version": 1})), dict(hist="pepfc", fixed=IDS)]
    return [("proxy", dict(part="proxy", peel=peel, **j)) for j in js]


def requests(peel):
    js = [dict(hist="szbsb", local="s", target="shu", ncs=1), dict(hist="zb", local="u", target="h", ncs=3, sym=False), dict(hist="bs", ncs=0, target="us"),
          dict(hist="s", local="su", ncs=0), dict(hist="ss", local="h", ncs=4, target="shush", sym=False), dict(hist="s", ncs=2, tokens=True),
          dict(hist="spb", local="s", tokens=True, sym=False, fixed=NORES), dict(hist="szb", client=False, ncs=1),
          dict(hist="bb", client=False, local="shu", ncs=3, tokens=True, sym=False), dict(hist="b", client=False, local="hs", ncs=2),
          dict(hist="bpb", client=False, local="su", tokens=True, sym=False, fixed=NORES), dict(hist="bpb", client=False, ncs=0, tokens=True, sym=False, fixed=NORES),
          dict(hist="bpbpb", client=False, local="su", tokens=True, sym=False, faults=False, fixed=PICK)]
    js += [dict(hist="s", target="shu" * 10, ncs=20, local="s", sym=False, faults=False, distinct=True, peel=200),
           dict(hist="b", client=False, local="shu" * 10, ncs=20, sym=False, faults=False, distinct=True, peel=200),
           dict(hist="bpb", client=False, local="shu" * 6, ncs=2, sym=False, faults=False, tokens=True, distinct=True, fixed=PICK, peel=200)]
    if peel > 2:
        js += [dict(hist="bpbpb", client=False, local="su", tokens=True, sym=False, fixed=PICK), dict(hist="szbsb", local="s", target="shu", ncs=2, tokens=True)]
    return [("proxy", dict(dict(part="proxy", peel=peel), **j)) for j in js]


def context(peel):
    return [("proxy", dict(part="ctx", mode="parse", peel=peel))] + [("proxy", dict(part="ctx", mode="make", kinds=k, peel=peel)) for k in ((1, 2), (2, 3), (3, 1), (0, 1), (1, 0))]


def tickets(peel):
    return [("proxy", dict(part="ticket", kind=k, n=n, peel=max(peel, n + 1))) for k, n in ((1, 2), (2, 1), (3, 3), (0, 1), (1, 5), (2, 0))]


def secrets(peel):
    """Runs that reach every logged message and every status, with the secrets
    marked (absint/taint.py)."""
    js = [("aead", dict(impl=i, peel=peel, obj=None, op=None)) for i in AEAD_IMPLS]
    js += [("hkdf", dict(variant=v, alias=a, peel=peel)) for v in ("openssl", "boringssl") for a in (False, True)] + token(peel)
    js += [("half", dict(hist=h, seq=q, fail=f, cs=c, peel=peel)) for h, q, f, c in (("EDEE", None, 0, None), ("EUDUE", None, 1, 0), ("EEEUE", -3, 0, None), ("DEDUD", -2, 0, None))]
    js += [("half", dict(hist="E", cs="any", fail=1, peel=peel)), ("handler", dict(hist="PPG", peel=peel)), ("handler", dict(hist="TTGP", peel=peel))]
    js += [("crypter", dict(hist=h, niov=n, pad=3, peel=peel)) for h, n in (("p", 1), ("p", 3), ("hU", 1), ("aU", 2), ("cU", 1), ("haD", 1), ("hcD", 1))]
    js += [("crypter", dict(hist="z", peel=peel)), ("crypter", dict(hist="p", fail=1, peel=peel))]
    js += [("frame", dict(hist=h, niov=n, recs=r, peel=peel + 1)) for h, n, r in (("", 1, 1), ("p", 2, 2), ("q", 2, 1))]
    js += [("frame", dict(hist=h, niov=n, peel=peel + 1)) for h, n in (("u", 1), ("u", 2), ("v", 1), ("v", 2), ("n", 1))]
    return js + [j for j in responses(peel) + requests(peel) if j[1]["hist"] not in ("pdfcpdfc", "pdpd")] + tickets(peel)[:3] + [("proxy", dict(part="util", peel=peel))]


def trips(peel):
    """Round trips through two ends of a connection."""
    js = [dict(hist="ab", cs=0, niov=n, cuts=c) for n, c in ((1, 0), (2, 0), (1, 1), (1, 2), (2, 1))]
    js += [dict(hist="aab", cs=c, seq=None) for c in (1, 2)] + [dict(hist="aaba", cs=0, seq=q) for q in (255, 65534, -5)]
    js += [dict(hist="a", recs=r, niov=n, cuts=c, peel=max(peel, r + 1)) for r, n, c in ((0, 0, 0), (0, 1, 0), (2, 1, 0), (2, 2, 0), (2, 1, 1), (3, 1, 0), (3, 2, 1))]
    js += [dict(hist="aBA", niov=n) for n in (1, 2)] + [dict(hist="Ab", cuts=2), dict(hist="a", niov=3, null=1), dict(hist="abA", recs=1, lo=16384)]
    js = [dict(level="frame", **j) for j in js]
    js += [dict(level="crypter", hist=h, cs=c, niov=n, cuts=k) for h, c, n, k in
           (("ab", 0, 1, 0), ("abba", 1, 2, 1), ("akakba", 0, 1, 0), ("akaKbab", 1, 1, 0), ("kKakKba", 2, 1, 0), ("kkkaKb", 0, 1, 1), ("a", 2, 3, 2))]
    js += [dict(level="crypter", hist="aakab", cs=0, seq=q) for q in (-4, 255)]
    js += [dict(level="frame", hist=h, lens=l, step=z, cs=c, seq=q) for h, l, z, c, q in
           (("a", (16384 * 33 + 5,), 4000, 0, 0), ("a", (7,) * 100, 1, 0, 0), ("A", (3,) * 70, 50, 1, 0), ("ab" * 40, (9,), None, 1, 230), ("aab" * 20, (0, 1), 3, 2, 65530))]
    js += [dict(level="crypter", hist=h, lens=(9,), cs=c) for h, c in (("ak" * 40, 0), ("aaKb" * 20, 1), ("bk" * 20 + "K" * 20 + "ab", 2))]
    if peel > 2:
        js += [dict(level="frame", hist="aba", niov=2, cuts=1), dict(level="frame", hist="a", recs=4, niov=2, cuts=1, peel=6), dict(level="frame", hist="a", recs=2, niov=3, cuts=2, peel=5),
               dict(level="crypter", hist="kakakbKbKbab", cs=1, niov=1, cuts=0), dict(level="crypter", hist="a" * 12, cs=0), dict(level="frame", hist="a", niov=4, cuts=3)]
    js = [dict(j, peel=1000) if "lens" in j else j for j in js]
    return [("roundtrip", dict(dict(peel=peel), **j)) for j in js] + aead(ED, peel)


ED = ("Encrypt", "Decrypt")

# property -> function(peel depth, fixpoint?) -> jobs
PROPS = {
    "C01": lambda k: aead(("Decrypt",), k),
    "C02": lambda k: aead(("Decrypt",), k),
    "C03": lambda k: aead(ED, k),
    "C04": lambda k: aead(ED, k),
    "C05": lambda k: aead(ED, k),
    "C06": lambda k: aead(ED, k),
    "C07": lambda k: aead(ED, k) + hkdf(k),
    "C08": lambda k: aead(ED, k) + hkdf(k) + sslerr(k),
    "C09": hkdf,
    "C10": handler,
    "C11": handler,
    "C12": handler,
    "C13": lambda k: half(k) + [("crypter", dict(hist="p", niov=1, pad=2, peel=k))],
    "C14": half,
    "C15": lambda k: half(k) + [("crypter", dict(hist="p", niov=1, pad=2, peel=k))],
    "C16": lambda k: half(k) + crypter(k) + frame(k),
    "C17": crypter,
    "C18": crypter,
    "C19": crypter,
    "C20": lambda k: crypter(k) + handler(k) + [j for j in trips(k) if "k" in (j[1].get("hist") or "").lower()],
    "C21": lambda k: crypter(k) + handler(k) + tickets(k),
    "C22": frame,
    "C23": frame,
    "C24": frame,
    "C25": responses,
    "C26": responses,
    "C27": requests,
    "C28": lambda k: [("frame", dict(hist="", peel=k)), ("crypter", dict(hist="p", niov=1, pad=2, peel=k))] + responses(k),
    "C29": lambda k: [("proxy", dict(part="util", peel=k))],
    "C30": lambda k: context(k) + responses(k),
    "C31": options,
    "C32": lambda k: [("options", dict(kind="id", peel=k))],
    "C33": token,
    "C34": secrets,
    "C35": trips,
    "C36": lambda k: aead(ED, k),
}

MIN_OBLIGATIONS = {}


def run_job(job):
    mod, kw = job
    m = importlib.import_module("specs." + mod)
    return m.job(**kw)


ASSUME = {}
RULE = {
    "C01": "At an OK return of Decrypt the library has been given all associated data, all input but the last 16 bytes, exactly those as the tag, under the caller's nonce, and has verified it.",
    "C02": "At a non-OK return of Decrypt the reported count is 0 and the output is unwritten or zeroed as a whole.",
    "C03": "Every access (of the code or of the library on its behalf) lies inside the region it points into.",
    "C04": "Output is written contiguously from the front, the tag directly after it, and the reported count is the number of bytes.",
    "C05": "A component is read only when its base is known not to be null; nothing aborts.",
    "C06": "Creation configures the cipher, key, nonce and tag length that belong to the key size, succeeds for supported sizes and fails otherwise; wrong nonces are refused before any output.",
    "C07": "After a failed library call the public operation does not return OK.",
    "C08": "Library objects are released exactly once and not used afterwards.",
    "C09": "Output and HMAC calls are those of RFC 5869 expand.",
    "C10": "Status, position and state after each input are those of a reference parser.",
    "C11": "Tickets are the segments of the input a reference parser delivers, bounded in number, handed out once.",
    "C12": "Key updates and rejected messages are recognised exactly as by a reference parser.",
    "C13": "The nonce of every operation is the iv xor the sequence number, which is counted per direction and never reused under a key.",
    "C14": "Key, iv and secret are those of the TLS 1.3 derivation tree, and unchanged where an update fails.",
    "C15": "Hash, lengths and crypter follow the ciphersuite.",
    "C16": "Every location written after creation has a common mutex on both sides; locks are balanced, ordered and not taken twice.",
    "C17": "A record is accepted only with a well-formed header and a payload inside the length window; errors have the documented status.",
    "C18": "Content is dispatched by its inner type; close notify and alerts are latched.",
    "C19": "A protected record is header, encryption of plaintext and type byte under that header, and nothing else.",
    "C20": "Key-update messages update the inbound key exactly once each.",
    "C21": "Tickets are sent exactly when due, with the bytes received and the connection's identity.",
    "C22": "Buffers are obtained, handed over and released exactly once.",
    "C23": "Unprotect consumes the input exactly, at the record boundaries of a reference splitter, and delivers the records in order.",
    "C24": "Protect makes records of the plaintext in order, each as large as allowed.",
    "C25": "The proxy follows a reference state machine over all responses.",
    "C26": "Errors of the service and malformed responses end the handshake with the documented status.",
    "C27": "Every request field has the configured value.",
    "C28": "Secrets, sequence numbers, ciphersuite and identities reach the record layer unchanged.",
    "C29": "Enumerations are mapped one to one, unknown values refused.",
    "C30": "The context reports what the session result says.",
    "C31": "Every getter reports what was set last, copies are deep and equal.",
    "C32": "Identity kinds and values are told apart by equality and hash.",
    "C33": "Tokens are those captured at creation, never mixed up between identities.",
    "C34": "No message is built from secret bytes.",
    "C35": "What one end protects the other end, in lockstep, decrypts with the same key, nonce, additional data and ciphertext and delivers unchanged.",
    "C36": "Every rejection has one of the allowed reasons on its path.",
}


def sources(job):
    m = importlib.import_module("specs." + job[0])
    return m.tus(**job[1])


def _comp(t):
    from absint import ir
    try:
        ir.compile_tu(*t)
    except ir.BuildError:
        pass


def precompile(jobs):
    import multiprocessing as mp
    ts = sorted({t for j in jobs for t in sources(j)})
    with mp.Pool(min(8, len(ts))) as pool:
        pool.map(_comp, ts)


FIX = tuple("C%02d" % i for i in range(1, 10)) + ("C36",)


def explain(prop, title):
    how = ("loops by fixpoint (all iteration counts) and, for confirming reports, with a bounded number of iterations" if prop in FIX else
           "over the call histories listed under jobs, with arbitrary data, sizes and callee outcomes; loops up to the peel bound")
    return ("Abstract interpretation of the LLVM IR of /repo's current source, from the public entry points, with linear "
            "relations over sizes/offsets, memory regions and library typestate; " + how + ". Property: " + title + ". " + RULE.get(prop, ""))


NOT_APPLICABLE = [
]
TECHNIQUE = {}
_TAIL = (" A report is raised only for a violation on a path with few loop iterations and without any imprecisely modelled step. Trusts "
         "clang's IR, the library models and the size assumptions listed in the evidence.")
FIX_NOTE = ("Every obligation is decided on the abstract semantics of the current source for all inputs; loops are closed by an "
            "inductive fixpoint, so 'discharged' means for every iteration count." + _TAIL)
HIST_NOTE = ("Every obligation is decided on the abstract semantics of the current source for all data, sizes and callee outcomes, within "
             "the call histories and loop-iteration bounds of the jobs (listed in the evidence); nothing is claimed beyond those bounds." + _TAIL)
NOTE = {p: FIX_NOTE if p in FIX else HIST_NOTE for p in PROPS}
