"""Evaluation of string values: guards and holes are substituted, the text is written out."""
import struct
from fractions import Fraction
from vals import *
import terms as tm


class Stuck(Exception):
    pass


def f32_round(k):
    try:
        return Fraction(struct.unpack("f", struct.pack("f", float(k)))[0])
    except (OverflowError, ValueError):
        return k


def plain_float(x):
    """without an exponent"""
    t = repr(x)
    try:
        if struct.unpack("f", struct.pack("f", x))[0] == x:
            return f32_text(x)
    except OverflowError:
        pass
    if "e" in t:
        from decimal import Decimal
        t = format(Decimal(t), "f")
    return t


def hole(x):
    c = const(x)
    if x.op == "lit":
        return x.args[0]
    if x.op == "str":
        return text(x)
    if x.op == "num" and c is not None:
        return chr(int(c))
    if x.op == "disp":
        k = const(x.args[0])
        if k is None:
            raise Stuck(x)
        return str(int(k)) if k == int(k) else plain_float(float(k))
    if x.op == "fmtd":
        kind, opts, v = x.args
        k = const(v)
        if k is None:
            raise Stuck(x)
        o = dict(opts)
        fl = o.get("flags", 0x20)
        s = {"upper_hex": "%X", "lower_hex": "%x", "display": "%d", "octal": "%o"}.get(kind)
        if s is None:
            raise Stuck(x)
        s = s % int(k)
        if (fl >> 23) & 1 or (fl >> 21) & 1:
            raise Stuck(x)
        w = o.get("width", 0) or 0
        if (fl >> 24) & 1:
            return s.rjust(w, "0")
        return s.rjust(w, chr(fl & 0x1FFFFF))
    raise Stuck(x)


def text(t):
    """the text of a string value without free variables"""
    if t.op == "lit":
        return t.args[0]
    if t.op == "num":
        return hole(t)
    if t.op != "str":
        raise Stuck(t)
    out = []
    for s in t.args[0]:
        if s.op != "one":
            raise Stuck(s)
        g, v = s.args
        if g is FALSE:
            continue
        if g is not TRUE:
            raise Stuck(g)
        out.append(hole(v))
    return "".join(out)


def strip_prefix(segs, prefix):
    return segs
