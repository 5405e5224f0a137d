"""More of std: arithmetic of all number types."""
from fractions import Fraction
from vals import *
import terms as tm
import models
from models import TABLE, NUM_TYPES, absval, model
from interp import INT_RANGE, wrapped, bitop

INTS = [t for t in NUM_TYPES if t in INT_RANGE]
FLOATS = ("f32", "f64")


def bounds(ty):
    return INT_RANGE[ty]


def exact(op, ty, x, y):
    """the result over the integers"""
    if op == "add":
        return add(x, y)
    if op == "sub":
        return sub(x, y)
    if op == "mul":
        return mul(x, y)
    if op == "neg":
        return neg(x)
    if op == "abs":
        return absval(x)
    if op == "pow":
        k = const(y)
        if k is None or not 0 <= k <= 200:
            return None
        if const(x) is None and k > 8:
            return None
        r = num(1)
        for _ in range(int(k)):
            r = mul(r, x)
        return r
    if op in ("div", "rem"):
        return idiv(x, y) if op == "div" else rem(x, y)
    if op == "div_euclid":
        return euclid(x, y)[0]
    if op == "rem_euclid":
        return euclid(x, y)[1]


def euclid(x, y):
    a, b = const(x), const(y)
    if a is not None and b:
        r = int(a) % abs(int(b))
        return num((int(a) - r) // int(b)), num(r)
    return idiv(x, y), rem(x, y)


def fits(op, ty, x, y, r):
    """when the type has the result; large sums of unknown numbers aren't considered"""
    lo, hi = bounds(ty)
    c = const(r) if r.op == "num" else None
    if c is not None:
        return B(lo <= c <= hi)
    if lo == 0 and op in ("sub", "neg"):
        return ge(r, ZERO)
    return TRUE


def arith(ty, kind, op):
    lo, hi = bounds(ty)

    def f(m, x, y=None):
        x = m.val(x)
        y = m.val(y) if y is not None else None
        if op in ("div", "rem", "div_euclid", "rem_euclid"):
            z = const(y)
            if z is None:
                return None
            if z == 0:
                if kind == "checked":
                    return m.st, NONE
                return models.diverge(m.I, m.st, m.body, "division by zero")
        r = exact(op, ty, x, y)
        if r is None:
            return None
        if kind == "plain":
            if fits(op, ty, x, y, r) is FALSE:
                return models.diverge(m.I, m.st, m.body, "overflow")
            return m.st, r
        ok_ = fits(op, ty, x, y, r)
        if kind == "checked":
            return m.st, ite(ok_, some(r), NONE)
        if kind == "saturating":
            c = const(r) if r.op == "num" else None
            if c is not None:
                return m.st, num(max(lo, min(hi, c)))
            return m.st, maxv(r, ZERO) if lo == 0 and op in ("sub", "neg") else r
        w = amap(("wrap", ty), lambda t: num(wrapped(const(t), ty)) if const(t) is not None else t, r)
        if ok_ is not TRUE and ok_ is not FALSE:
            w = ite(ok_, r, add(r, num(hi - lo + 1)))
        if kind == "wrapping":
            return m.st, w
        if kind == "overflowing":
            return m.st, tup(w, b_not(ok_))
    return f


for _t in INTS:
    for _op in ("add", "sub", "mul", "pow", "neg", "abs", "div", "rem", "div_euclid", "rem_euclid"):
        for _k in ("wrapping", "saturating", "checked", "overflowing"):
            TABLE[(_t, _k + "_" + _op)] = arith(_t, _k, _op)
    for _op in ("pow", "div_euclid", "rem_euclid", "abs"):
        TABLE[(_t, _op)] = arith(_t, "plain", _op)


def intfn(name, known, unknown=None):
    def make(ty):
        def f(m, *xs):
            xs = [m.val(x) for x in xs]
            cs = [const(x) if x.op == "num" else None for x in xs]
            if all(c is not None for c in cs):
                r = known(ty, *[int(c) for c in cs])
                return None if r is None else (m.st, r if isinstance(r, T) else num(r))
            if unknown is None:
                return None
            r = unknown(*xs)
            return None if r is None else (m.st, r)
        return f
    for t in INTS:
        TABLE[(t, name)] = make(t)


def width(ty):
    lo, hi = bounds(ty)
    return (hi - lo + 1).bit_length() - 1


def low(ty, c):
    return c % (1 << width(ty))


def signum(x):
    return ite(lt(x, ZERO), num(-1), ite(eqn(x, ZERO), ZERO, num(1)))


def _div_ceil(ty, a, b):
    return None if b == 0 else -(-a // b)


def ispow(x):
    return x > 0 and x & (x - 1) == 0


intfn("signum", lambda ty, a: (a > 0) - (a < 0), signum)
intfn("is_positive", lambda ty, a: B(a > 0), lambda x: gt(x, ZERO))
intfn("is_negative", lambda ty, a: B(a < 0), lambda x: lt(x, ZERO))
intfn("abs_diff", lambda ty, a, b: abs(a - b), lambda x, y: absval(sub(x, y)))
intfn("unsigned_abs", lambda ty, a: abs(a), absval)
intfn("div_ceil", _div_ceil, lambda x, y: idiv(sub(add(x, y), num(1)), y))
intfn("next_multiple_of", lambda ty, a, b: None if b == 0 else -(-a // b) * b, lambda x, y: mul(idiv(sub(add(x, y), num(1)), y), y))
intfn("is_multiple_of", lambda ty, a, b: B(a == 0 if b == 0 else a % b == 0), lambda x, y: eqn(rem(x, y), ZERO))
intfn("count_ones", lambda ty, a: bin(low(ty, a)).count("1"))
intfn("count_zeros", lambda ty, a: width(ty) - bin(low(ty, a)).count("1"))
intfn("leading_zeros", lambda ty, a: width(ty) - low(ty, a).bit_length())
intfn("trailing_zeros", lambda ty, a: width(ty) if low(ty, a) == 0 else (low(ty, a) & -low(ty, a)).bit_length() - 1)
intfn("is_power_of_two", lambda ty, a: B(ispow(a)))
intfn("next_power_of_two", lambda ty, a: 1 if a <= 1 else 1 << (a - 1).bit_length())
intfn("ilog2", lambda ty, a: a.bit_length() - 1 if a > 0 else None)
intfn("ilog10", lambda ty, a: len(str(a)) - 1 if a > 0 else None)
intfn("isqrt", lambda ty, a: __import__("math").isqrt(a) if a >= 0 else None)
intfn("rotate_left", lambda ty, a, n: rot(ty, a, n))
intfn("rotate_right", lambda ty, a, n: rot(ty, a, -n))
intfn("swap_bytes", lambda ty, a: wrapped(int.from_bytes(low(ty, a).to_bytes(width(ty) // 8, "little"), "big"), ty))
intfn("reverse_bits", lambda ty, a: wrapped(int(bin(low(ty, a))[2:].zfill(width(ty))[::-1], 2), ty))


def rot(ty, a, n):
    w = width(ty)
    n %= w
    a = low(ty, a)
    return wrapped((a << n | a >> (w - n)) & ((1 << w) - 1), ty)


def _shift(ty, name):
    def f(m, x, n):
        k = const(m.val(n))
        if k is None:
            return None
        w = width(ty)
        o = "Shl" if name.endswith("shl") else "Shr"
        if name.startswith("checked") and not 0 <= k < w:
            return m.st, NONE
        r = amap2(None, lambda a, b: bitop(o, a, b, ty), m.val(x), num(int(k) % w))
        return m.st, some(r) if name.startswith("checked") else r
    return f


for _t in INTS:
    for _n in ("wrapping_shl", "wrapping_shr", "checked_shl", "checked_shr"):
        TABLE[(_t, _n)] = _shift(_t, _n)


# ------------------------------------------------------------------ floats

def floorv(x):
    c = const(x)
    if c is not None:
        return num(c.numerator // c.denominator)
    if x.op in ("floor", "trunc", "ix", "len", "rix", "rank", "count", "idiv"):
        return x
    # whole parts come out
    whole, rest = {}, {}
    for mono, k in poly(x).items():
        (whole if k == int(k) and all(a.op in ("floor", "trunc", "ix", "len", "rix", "rank", "count") for a, _ in mono) else rest)[mono] = k
    if whole:
        r = unpoly(rest)
        return add(unpoly(whole), floorv(r))
    return mk("floor", x)


CONS["floor"] = lambda x: amap("floor", floorv, x)


def roundv(x):
    c = const(x)
    if c is not None:
        h = Fraction(1, 2)
        return floorv(add(x, num(h))) if c >= 0 else neg(floorv(add(neg(x), num(h))))
    return None


def truncv(x):
    c = const(x)
    if c is not None:
        return num(int(c))
    return floorv(x) if tm.nonneg_poly(x) else None


def floatfn(name, f):
    def g(m, *xs):
        vs = [m.val(x) for x in xs]
        stuck = []

        def one_(*ys):
            if any(y is tm.NAN or tm._inf(y) for y in ys):
                stuck.append(1)
                return UNDEF
            r = f(*ys)
            if r is None:
                stuck.append(1)
                return UNDEF
            return r
        r = amap(None, one_, *vs)
        return None if stuck else (m.st, r)
    for t in FLOATS:
        TABLE[(t, name)] = g


def half_away(x):
    return ite(lt(x, ZERO), neg(floorv(add(neg(x), num(Fraction(1, 2))))), floorv(add(x, num(Fraction(1, 2)))))


def toward_zero(x):
    r = truncv(x)
    return r if r is not None else ite(lt(x, ZERO), neg(floorv(neg(x))), floorv(x))


floatfn("floor", floorv)
floatfn("ceil", lambda x: neg(floorv(neg(x))))
floatfn("round", lambda x: roundv(x) if const(x) is not None else half_away(x))
floatfn("trunc", toward_zero)
floatfn("fract", lambda x: sub(x, toward_zero(x)))
floatfn("signum", lambda x: ite(lt(x, ZERO), num(-1), num(1)))
floatfn("copysign", lambda x, s: ite(lt(s, ZERO), neg(absval(x)), absval(x)))
floatfn("rem_euclid", lambda x, y: feuclid(x, y)[1])
floatfn("div_euclid", lambda x, y: feuclid(x, y)[0])
floatfn("recip", lambda x: tm.div(num(1), x))
floatfn("exp2", lambda x: num(Fraction(2) ** int(const(x))) if const(x) is not None and const(x) == int(const(x)) and abs(const(x)) < 100 else None)


def feuclid(x, y):
    b = const(y)
    if not b:
        return None, None
    q = floorv(tm.div(x, num(abs(b))))
    return (q if b > 0 else neg(q)), sub(x, mul(q, num(abs(b))))


def floattest(name, f):
    def g(m, x):
        return m.st, amap(None, f, m.val(x))
    for t in FLOATS:
        TABLE[(t, name)] = g


def is_float(x):
    return x is not tm.NAN and not tm._inf(x)


# an unknown number is taken to be one
floattest("is_nan", lambda x: B(x is tm.NAN))
floattest("is_infinite", lambda x: B(tm._inf(x) != 0))
floattest("is_finite", lambda x: B(is_float(x)))
floattest("is_sign_negative", lambda x: B(tm._inf(x) < 0) if not is_float(x) else lt(x, ZERO))
floattest("is_sign_positive", lambda x: B(tm._inf(x) > 0) if not is_float(x) else ge(x, ZERO))
floattest("is_normal", lambda x: FALSE if not is_float(x) else b_not(eqn(x, ZERO)))
for _t in FLOATS:
    TABLE[(_t, "midpoint")] = lambda m, a, b: (m.st, mul(num(Fraction(1, 2)), add(m.val(a), m.val(b))))
    TABLE[(_t, "maximum")] = lambda m, a, b: (m.st, maxv(m.val(a), m.val(b)))
    TABLE[(_t, "minimum")] = lambda m, a, b: (m.st, minv(m.val(a), m.val(b)))
for _t in INTS:
    if INT_RANGE[_t][0] == 0:
        TABLE[(_t, "midpoint")] = lambda m, a, b: (m.st, idiv(add(m.val(a), m.val(b)), num(2)))


# ------------------------------------------------------------------ operators as functions

def _optrait(names, op):
    def f(m, a, b):
        x, y = m.val(a), m.val(b)
        ty = m.ty(0)
        if ty is None or ty.get("s") not in NUM_TYPES and ty.get("s") != "bool":
            return None
        return m.st, amap2(None, lambda p, q: bitop(op, p, q, ty.get("s")), x, y) if ty.get("s") != "bool" else (
            b_and(truth(x), truth(y)) if op == "BitAnd" else b_or(truth(x), truth(y)) if op == "BitOr" else b_not(eq(x, y)))
    for n in names:
        TABLE.setdefault(tuple(n.split(".")), f)


_optrait(["BitAnd.bitand"], "BitAnd")
_optrait(["BitOr.bitor"], "BitOr")
_optrait(["BitXor.bitxor"], "BitXor")
_optrait(["Shl.shl"], "Shl")
_optrait(["Shr.shr"], "Shr")


def from_number(to):
    """From and TryFrom between number types"""
    def conv(m, x, fallible):
        ty = m.ty(-1)
        v = m.val(x)
        src = ty.get("s") if ty is not None else None
        if src == "bool":
            v = ite(truth(v), num(1), ZERO)
        return v
    return conv
