"""GetSSLErrors: the BIO it opens is released exactly once (C08)."""
from .common import *

SRC = "src/crypto/s2a_aead_crypter_util.cc"


class Run:
    def __init__(self, variant, peel):
        self.prog = program([(SRC, variant)])
        self.eng = mk_engine(self.prog, [], peel)

    def run(self):
        eng = self.eng
        f = one(self.prog, "s2a::aead_crypter::GetSSLErrors")
        st = State()
        st.mon["libfail"] = False
        ret = Region("alloca", "message", size=L(32))
        n = 0
        for s, _ in eng.run(f, [Ptr(ret)], st):
            n += 1
            live = [k for k, v in s.mon.items() if k.endswith(".res") and v == "live"]
            eng.oblige(s, "C08", "BIO released", not live, "the error BIO is leaked")
        return self


def job(variant="openssl", peel=None):
    return Run(variant, peel).run()


def tus(variant="openssl", **kw):
    return [(SRC, variant)]
