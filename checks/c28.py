"""C28: encrypting, signing and padding arbitrary data end with a result, never with an abort."""
from .common import *
from . import c20

ENTRY = {("Cipher", "encrypt"), ("Signature", "sign"), ("EncryptStream", "write"), ("EncryptStream", "finish"), ("Padding", "padding")}


def check(progs, rep):
    rep.rule("abort", "no path through encryption, signing or padding, whatever the data and their length, reaches a panic: "
                      "an index or slice outside its range, an arithmetic trap, an unwrapped absence or error, an explicit panic")
    seen = 0
    for cfg, prog in progs.items():
        for f in local_fns(prog):
            if (f.get("tname"), f["name"]) not in ENTRY or f.get("intrait") or self_adt(prog, f) is None:
                continue
            a = self_adt(prog, f)
            if cfg != "A" and "aes" not in a["d"]:
                continue
            seen += 1
            c20.entry(rep, prog, f, a, left)
    rep.check(seen >= 30, "abort:some", "%d encrypting and signing operations analysed" % seen, text="only %d encrypting and signing operations found" % seen)


def left(ps):
    """the condition compares the length of something the object keeps between calls"""
    return any(isinstance(x, T) and x.op == "len" and c20.own(x.args[0]) for _, g in ps for x, _ in g.t) or c20.along(ps)
