"""Number domains for the executor: IEEE doubles, exact reals, arbitrary floats."""
import math
import struct
from fractions import Fraction
from . import poly as P, cond as C, smt
from .exec import Unsupported, Fork
from .ir import UNDEF

R = P.R


from .poly import Special, NAN, PINF, NINF  # noqa: E402
SPECIALS = {"nan": NAN, "inf": PINF, "-inf": NINF}


def f2bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def fpclass_concrete(x, mask):
    if x != x:
        b = 1 if not (f2bits(x) >> 51) & 1 else 2
    elif x == math.inf:
        b = 0x200
    elif x == -math.inf:
        b = 0x4
    elif x == 0:
        b = 0x20 if f2bits(x) >> 63 else 0x40
    elif abs(x) < 2.2250738585072014e-308:
        b = 0x80 if x > 0 else 0x10
    else:
        b = 0x100 if x > 0 else 0x8
    return bool(b & mask)


class SymInt:
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r


class Base:
    SymIntT = SymInt
    ex = None
    lazy_abs = False

    def filter_samples(self, samples, lit):
        return []

    def feasible(self, path, lit):
        return "unknown"

    def fpconv(self, op, v):
        raise Unsupported("f32")

    def minimum(self, a, b):
        return self.minnum(a, b)

    def maximum(self, a, b):
        return self.maxnum(a, b)

    def bits_op(self, op, v, b):
        return None

    def bits_cmp_const(self, pred, v, b):
        raise Unsupported("bits compare with %#x" % b)

    def bits_order(self, pred, a, b):
        """The order of two bit patterns, where the domain has its own answer."""
        return None

    def merge(self, c, a, b):
        """One value for `a if c else b`, where the domain has one."""
        return None

    def __getattr__(self, n):
        def h(*a):
            raise Unsupported("float operation " + n)
        if n.startswith("__"):
            raise AttributeError(n)
        return h


class Concrete(Base):
    """IEEE binary64, one value at a time."""

    def const(self, f):
        return f

    def add(self, a, b):
        return a + b

    def sub(self, a, b):
        return a - b

    def mul(self, a, b):
        return a * b

    def div(self, a, b):
        try:
            return a / b
        except ZeroDivisionError:
            if a != a or a == 0:
                return math.nan
            return math.copysign(math.inf, a) * math.copysign(1.0, b)

    def rem(self, a, b):
        try:
            return math.fmod(a, b)
        except ValueError:
            return math.nan

    def neg(self, a):
        return -a

    def fcmp(self, p, a, b):
        if p in ("true", "false"):
            return p == "true"
        un = a != a or b != b
        if p == "ord":
            return not un
        if p == "uno":
            return un
        if un:
            return p[0] == "u"
        q = p[1:]
        return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[q]

    def fabs(self, a):
        return abs(a)

    def sqrt(self, a):
        return math.sqrt(a) if a >= 0 else (a if a != a else math.nan)

    def minnum(self, a, b):
        return b if a != a else a if b != b else min(a, b)

    def maxnum(self, a, b):
        return b if a != a else a if b != b else max(a, b)

    def copysign(self, a, b):
        return math.copysign(a, b)

    def fma(self, a, b, c):
        if any(not math.isfinite(x) for x in (a, b, c)):
            return a * b + c
        r = Fraction(a) * Fraction(b) + Fraction(c)
        return float(r) if r else a * b + c

    def _m(fn):
        def h(self, *a):
            try:
                return getattr(math, fn)(*a)
            except (ValueError, OverflowError):
                return math.nan
        return h
    sin, cos, tan, asin, acos, atan, atan2, exp, log, pow, hypot, cbrt = map(_m, (
        "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "pow", "hypot", "cbrt"))
    sinh, cosh, tanh = map(_m, ("sinh", "cosh", "tanh"))

    def floor(self, a):
        return float(math.floor(a)) if math.isfinite(a) else a

    def ceil(self, a):
        return float(math.ceil(a)) if math.isfinite(a) else a

    def ftrunc(self, a):
        return float(math.trunc(a)) if math.isfinite(a) else a

    def frint(self, a):
        return float(round(a)) if math.isfinite(a) else a

    def fround(self, a):
        return math.copysign(float(math.floor(abs(a) + 0.5)), a) if math.isfinite(a) else a

    def bits_int(self, v):
        return f2bits(v)

    def signbit(self, v):
        return bool(f2bits(v) >> 63)

    def fpclass(self, v, mask):
        return fpclass_concrete(v, mask)

    def same(self, a, b):
        return False

    def to_int(self, op, v, n):
        return int(v) & ((1 << n) - 1)

    def to_int_sat(self, s, v, n):
        if v != v:
            return 0
        lo, hi = (0, (1 << n) - 1) if s == "u" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
        v = lo if v <= lo else hi if v >= hi else int(v)
        return v & ((1 << n) - 1)


def snap(f):
    """The rational a float literal stands for (exact for every dyadic literal in the code)."""
    q = Fraction(f)
    if q.denominator <= 1 << 20:
        return q
    s = q.limit_denominator(1000)
    if s.numerator and s.numerator / s.denominator == f:
        return s
    return Fraction(repr(f))


class Sample:
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = dict(vals)

    def atom(self, i):
        v = self.vals.get(i, self)
        if v is self:
            a = P.CTX.atoms[i]
            v = None
            try:
                if a.kind == "sqrt":
                    t = self.poly(a.rel)
                    v = None if t is None else math.sqrt(max(t[0], 0.0))
                elif a.kind in ("sin", "cos"):
                    t = self.rat(a.info)
                    v = None if t is None else getattr(math, a.kind)(t)
                elif a.kind == "root":
                    t = self.poly(a.rel)
                    v = None if t is None else a.info * math.sqrt(max(t[0], 0.0))
                elif callable(a.info):
                    v = a.info(self)
            except (ValueError, ZeroDivisionError, OverflowError):
                v = None
            self.vals[i] = v
        return v

    def poly(self, p):
        """(value, magnitude) or None"""
        tot = mag = 0.0
        for m, c in p.items():
            t = float(c)
            i = 0
            while m:
                e = m & P.FIELD
                if e:
                    v = self.atom(i)
                    if v is None:
                        return None
                    t *= v ** e
                m >>= P.W
                i += 1
            tot += t
            mag += abs(t)
        return tot, mag

    def rat(self, r):
        t = self.poly(r.num)
        if t is None:
            return None
        v = t[0]
        for f, e in r.den:
            d = self.poly(P.CTX.factors[f])
            if d is None or d[0] == 0:
                return None
            v /= d[0] ** e
        return v

    def cond(self, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k == "r":
            s = 1
            for f in c[2]:
                t = self.poly(P.CTX.factors[f])
                if t is None or abs(t[0]) <= 1e-8 * t[1]:
                    return None
                s = s if t[0] > 0 else -s
            return s in C.SAT[c[1]]
        if k == "b":
            return None
        if k == "not":
            v = self.cond(c[1])
            return None if v is None else not v
        vs = [self.cond(x) for x in c[1]]
        if k == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False


class Real(Base):
    def __init__(self, feas_timeout=0.5, feas_solver="z3"):
        self.feas_timeout, self.feas_solver = feas_timeout, feas_solver
        self.cache = {}
        self.trig = []
        self.inv = {}
        self.div0 = "fork"
        self.zsign = False     # explore both signs of a zero (otherwise zeros are positive)
        self.assumed = []
        self.feas_max_terms = 4000
        self.lazy_abs = True
        self.nn = {}           # values that are squares and sums of squares, by identity

    def const(self, f):
        k = f2bits(f)
        v = self.cache.get(k)
        if v is None:
            if f != f:
                v = NAN
            elif math.isinf(f):
                v = PINF if f > 0 else NINF
            else:
                v = R.const(snap(f))
            self.cache[k] = v
        return v

    # ---- conditions
    def filter_samples(self, samples, lit):
        b = lit[1] if lit[0] == "not" else lit
        if b[0] == "b" and b[1].startswith("cx_"):
            # a choice made by a contract: the inputs stay as they are
            return samples
        return [s for s in samples if s.cond(lit) is True]

    def feasible(self, path, lit):
        lits = path.lits
        size = 0
        for l in lits:
            size += lit_size(l)
        if size > self.feas_max_terms:
            # a long query: the new literal with the small ones only (fewer assumptions, so unsat is sound)
            lits = [l for l in lits if lit_size(l) <= 300 or l is lits[-1]]
            if lit_size(lits[-1]) > self.feas_max_terms:
                return "unknown"
        decls, asserts, _ = C.query(lits)
        v, _ = smt.run(decls, asserts, self.feas_timeout, self.feas_solver)
        return v

    def D(self, c):
        return self.ex.decide(c)

    def fcmp(self, p, a, b):
        if p in ("true", "false"):
            return p == "true"
        if a is NAN or b is NAN:
            return p[0] == "u"
        if p == "ord":
            return True
        if p == "uno":
            return False
        q = p[1:]
        if type(a) is Special or type(b) is Special:
            def rk(x):
                return 1 if x is PINF else -1 if x is NINF else 0
            x, y = rk(a), rk(b)
            return {"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[q]
        return C.cmp({"eq": "=", "ne": "!=", "gt": ">", "ge": ">=", "lt": "<", "le": "<="}[q], a, b)

    def same(self, a, b):
        if type(a) is R and type(b) is R:
            return a.den == b.den and a.num == b.num
        return a is b

    def sign3(self, a):
        """-1, 0 or 1, forking as needed."""
        if self.D(C.rel(">", a)):
            return 1
        return -1 if self.D(C.rel("<", a)) else 0

    # ---- arithmetic
    def add(self, a, b):
        if type(a) is R and type(b) is R:
            c = a + b
            if id(a) in self.nn and id(b) in self.nn or not a.num and id(b) in self.nn or not b.num and id(a) in self.nn:
                self.nn[id(c)] = c
            return c
        if a is NAN or b is NAN:
            return NAN
        if type(a) is Special and type(b) is Special:
            return a if a is b else NAN
        return a if type(a) is Special else b

    def sub(self, a, b):
        if type(a) is R and type(b) is R:
            return a - b
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        if type(a) is R and type(b) is R:
            c = a * b
            if a is b or a.num == b.num and a.den == b.den:
                self.nn[id(c)] = c
            return c
        if a is NAN or b is NAN:
            return NAN
        if type(a) is Special and type(b) is Special:
            return PINF if a is b else NINF
        if type(b) is Special:
            a, b = b, a
        s = self.sign3(b)
        if s == 0:
            return NAN
        return a if s > 0 else self.neg(a)

    def div(self, a, b):
        if type(a) is R and type(b) is R:
            if b.is_const():
                if b.num:
                    return a / b
                z = True
            else:
                c = C.rel("=", b)
                if self.div0 == "assume":
                    k = self.ex.st.path.known(c)
                    if k is None:
                        self.ex.st.path.add(C.Not(c))
                        self.ex.st.notes.append(("nonzero divisor", c))
                        k = False
                    z = k
                else:
                    z = self.D(c)
                if not z:
                    return a / b
            s = self.sign3(a)
            if s == 0:
                return NAN
            zs = self.D(self.ex.fresh_bool("zs")) if self.zsign else False
            return PINF if (s > 0) != zs else NINF
        if a is NAN or b is NAN:
            return NAN
        if type(a) is Special and type(b) is Special:
            return NAN
        if type(b) is Special:
            return P.ZERO
        s = self.sign3(b)
        if s == 0:
            zs = self.D(self.ex.fresh_bool("zs")) if self.zsign else False
            s = -1 if zs else 1
        return a if s > 0 else self.neg(a)

    def rem(self, a, b):
        raise Unsupported("frem")

    def neg(self, a):
        if type(a) is R:
            return -a
        return NINF if a is PINF else PINF if a is NINF else a

    def fma(self, a, b, c):
        return self.add(self.mul(a, b), c)

    def fabs(self, a):
        if type(a) is not R:
            return PINF if a is NINF else a
        return -a if self.D(C.rel("<", a)) else a

    def abs_inf(self, a):
        return PINF if a is NINF else a

    def minnum(self, a, b):
        if a is NAN:
            return b
        if b is NAN or self.same(a, b):
            return a
        return a if self.D(self.fcmp("ole", a, b)) else b

    def maxnum(self, a, b):
        if a is NAN:
            return b
        if b is NAN or self.same(a, b):
            return a
        return a if self.D(self.fcmp("oge", a, b)) else b

    def signbit(self, v):
        if v is NINF:
            return True
        if v is PINF:
            return False
        if v is NAN:
            return self.ex.fresh_bool("ns")
        if v.is_const() and v.num:
            return v.const_value() < 0
        if not self.zsign:
            return C.rel("<", v)
        return C.Or(C.rel("<", v), C.And(C.rel("=", v), self.ex.fresh_bool("sz")))

    def copysign(self, a, b):
        if not self.zsign and type(a) is R and not a.num:
            return a
        m = self.fabs(a)
        return self.neg(m) if self.D(self.signbit(b)) else m

    def bits_int(self, v):
        return None

    def bits_eq(self, pred, a, b):
        return self.fcmp("oeq" if pred == "eq" else "une", a, b)

    def bits_eq_const(self, pred, a, b):
        f = struct.unpack("<d", struct.pack("<Q", b))[0]
        if f != f:
            if a is NAN:
                raise Unsupported("NaN bit pattern")
            return pred == "ne"
        return self.fcmp("oeq" if pred == "eq" else "une", a, self.const(f))

    def bits_cmp_const(self, pred, v, b):
        f = struct.unpack("<d", struct.pack("<Q", b))[0]
        if f == f and not f2bits(f) >> 63 and pred[0] == "u":
            # bits of a non-negative value against a non-negative pattern
            if self.D(self.signbit(v)):
                return pred in ("ugt", "uge")
            return self.fcmp("o" + pred[1:], v, self.const(f))
        if f != f and not b >> 63 and pred[0] == "u":
            if self.D(self.signbit(v)):
                return pred in ("ugt", "uge")
            if v is NAN:
                raise Unsupported("NaN payload")
            return pred in ("ult", "ule")
        raise Unsupported("bits compare with %#x" % b)

    def bits_op(self, op, v, b):
        if op == "and" and b == 0x7FF0000000000000:
            # exponent field: only ever compared with the all-ones pattern
            return None
        return None

    def fpclass(self, v, mask):
        if v is NAN:
            if (mask & 3) == 3:
                return True
            if (mask & 3) == 0:
                return False
            return bool(mask & 2)
        if v is PINF:
            return bool(mask & 0x200)
        if v is NINF:
            return bool(mask & 0x4)
        parts = []
        neg, pos = mask & 0x8, mask & 0x100
        nz, pz = mask & 0x20, mask & 0x40
        if pos:
            parts.append(C.rel(">", v))
        if neg:
            parts.append(C.rel("<", v))
        if nz and pz:
            parts.append(C.rel("=", v))
        elif nz or pz:
            b = self.ex.fresh_bool("sz") if self.zsign else False
            parts.append(C.And(C.rel("=", v), b if nz else C.Not(b)))
        return C.Or(*parts)

    # ---- roots and trigonometry
    def sqrt(self, a):
        if type(a) is not R:
            return NAN if a is NINF else a
        if a.is_const():
            v = a.const_value()
            if v < 0:
                return NAN
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return R.const(Fraction(n, d))
        elif id(a) in self.nn:
            # a sum of squares
            if self.ex.st.path.known(C.rel(">=", a)) is None:
                self.ex.st.path.learn(C.rel(">=", a))
        elif self.D(C.rel("<", a)):
            return NAN
        N = a.num
        D = {0: 1}
        res = P.ONE
        for f, e in a.den:
            if e & 1:
                q = P.CTX.by_key.get(("sqrt", P.p_key(P.CTX.factors[f])))
                if q is not None:
                    D = P.p_mul(D, P.p_var(q))
                    e -= 1
                else:
                    N = P.p_mul(N, P.CTX.factors[f])
            for _ in range((e + 1) // 2):
                D = P.p_mul(D, P.CTX.factors[f])
        if D != {0: 1}:
            res = self.fabs(R(D).recip())
        c, rest = P.p_content(N)
        if c < 0:
            rest = P.p_neg(rest)
            c = -c
        c = Fraction(c)
        k = Fraction(1)
        # numerator*denominator square part
        n = c.numerator * c.denominator
        k = Fraction(1, c.denominator)
        s = 1
        p = 2
        while p * p <= n and p < 2000:
            while n % (p * p) == 0:
                n //= p * p
                s *= p
            p += 1 + (p & 1)
        q = math.isqrt(n)
        if q * q == n:
            s, n = s * q, 1
        res = res * R.const(k * s)
        rest = P.p_scale(rest, n)
        mono = P.p_monofactor(rest)
        if mono:
            sub = 0
            for i, e in mono.items():
                h = e // 2
                if h:
                    sub += (2 * h) << (P.W * i)
                    v = self.fabs(R.var(P.CTX.atoms[i]))
                    for _ in range(h):
                        res = res * v
            if sub:
                rest = {m - sub: x for m, x in rest.items()}
        return res * self.root(rest)

    def sqrt_nofork(self, a):
        """Root of a non-negative expression for use in claims; no case split."""
        k = self.ex.st.path.known(C.rel(">=", a))
        st = self.ex.st
        if k is None:
            st = self.ex.st = self.ex.st.copy()
            st.path.learn(C.rel(">=", a))
        try:
            return self.sqrt(a)
        except Fork:
            raise Unsupported("case split in a claim")

    def root(self, rest):
        q = P.p_sqrt(rest)
        if q is not None:
            return self.fabs(R(q))
        for h in P.CTX.squares:
            d = P.try_div(rest, h[0])
            k = Fraction(d[0]) / h[2] if d is not None and len(d) == 1 and 0 in d else 0
            if k > 0:
                n, dd = math.isqrt(k.numerator), math.isqrt(k.denominator)
                if n * n == k.numerator and dd * dd == k.denominator:
                    return self.fabs(R.const(Fraction(n, dd)) * h[1])
        for b in P.CTX.atoms:
            # a square modulo the relation of an input atom
            if b.rel is not None and b.kind in ("root", "cos") and len(b.rel) == len(rest):
                k = None
                for m, c in b.rel.items():
                    d = rest.get(m)
                    if d is None or (k is not None and d != k * c):
                        k = None
                        break
                    k = Fraction(d) / c
                if k is not None and k > 0:
                    n, dd = math.isqrt(k.numerator), math.isqrt(k.denominator)
                    if n * n == k.numerator and dd * dd == k.denominator:
                        return self.fabs(R.const(Fraction(n, dd)) * R.var(b))
        key = ("sqrt", P.p_key(rest))
        a = P.CTX.by_key.get(key)
        if a is None:
            for b in P.CTX.atoms:
                if b.kind == "sqrt" and len(b.rel) > 1:
                    d = P.try_div(rest, b.rel)
                    if d is not None:
                        q = P.p_sqrt(d)
                        if q is not None:
                            return self.fabs(R(q)) * R.var(b)
            a = P.CTX.atom("q%d" % len(P.CTX.atoms), "sqrt", None, key)
            a.nonneg = True
            P.CTX.set_rel(a, rest)
        return R.var(a)

    def hypot(self, a, b):
        return self.sqrt(self.add(self.mul(a, a), self.mul(b, b)))

    def trig_pair(self, a):
        """(sin, cos) of a real argument."""
        if a.is_const() and not a.num:
            return P.ZERO, P.ONE
        if not a.den and len(a.num) == 1:
            (m, k), = a.num.items()
            if m in self.inv and abs(k) in (1, 2):
                s, c = self.inv_pair(self.inv[m])
                if abs(k) == 2:
                    s, c = 2 * s * c, c * c - s * s
                return (s, c) if k > 0 else (-s, c)
        for arg, s, c in self.trig:
            if self.same(arg, a):
                return s, c
            if self.same(arg, -a):
                return -s, c
        c0, _ = P.p_content(a.num)
        if c0 < 0:
            s, c = self.trig_pair(-a)
            return -s, c
        if c0 == 2:
            s, c = self.trig_pair(a * R.const(Fraction(1, 2)))
            return 2 * s * c, c * c - s * s
        key = a.key()
        s = P.CTX.atom("sin%d" % len(P.CTX.atoms), "sin", a, ("sin", key))
        c = P.CTX.atom("cos%d" % len(P.CTX.atoms), "cos", a, ("cos", key))
        if c.rel is None:
            P.CTX.set_rel(c, P.p_sub({0: 1}, P.p_mul(P.p_var(s), P.p_var(s))))
            s.defs += [C.rel("<=", R.var(s) - 1), C.rel(">=", R.var(s) + 1),
                       C.Or(C.rel("<=", a), C.rel(">=", a - R.const(self.PI_LO)), C.rel(">", R.var(s)))]
            h = R.const(self.PI_LO / 2)
            c.defs += [C.Or(C.rel("!=", a), C.rel("=", R.var(c) - 1)),
                       C.Or(C.rel(">=", a - h), C.rel("<=", a + h), C.rel(">", R.var(c)))]
        t = (a, R.var(s), R.var(c))
        self.trig.append(t)
        return t[1], t[2]

    def inv_pair(self, d):
        if d[0] == "acos":
            return self.sqrt(P.ONE - d[1] * d[1]), d[1]
        h = self.hypot(d[2], d[1])
        return d[1] / h, d[2] / h

    def sin(self, a):
        return NAN if type(a) is not R else self.trig_pair(a)[0]

    def cos(self, a):
        return NAN if type(a) is not R else self.trig_pair(a)[1]

    def tan(self, a):
        if type(a) is not R:
            return NAN
        s, c = self.trig_pair(a)
        return self.div(s, c)

    PI_LO = Fraction(3141592653589793, 10 ** 15)

    def acos(self, a):
        if type(a) is not R:
            return NAN
        if a.is_const() and a.const_value() == 1:
            return P.ZERO
        if self.D(C.rel(">", a - 1)) or self.D(C.rel("<", a + 1)):
            return NAN
        for arg, s, c in self.trig:
            if self.same(c, a):
                if self.D(C.rel(">=", arg)) and self.D(C.rel("<=", arg - R.const(self.PI_LO))):
                    return arg
        at = P.CTX.atom("acos%d" % len(P.CTX.atoms), "fn", lambda sm: math.acos(sm.rat(a)), ("acos", a.key()))
        if not at.nonneg:
            at.nonneg = True
            at.defs.append(C.rel("<=", R.var(at) - R.const(self.PI_LO + Fraction(1, 10 ** 15))))
        self.inv[1 << (P.W * at.idx)] = ("acos", a)
        return R.var(at)

    def asin(self, a):
        if type(a) is not R:
            return NAN
        raise Unsupported("asin")

    def atan2(self, y, x):
        if type(y) is not R or type(x) is not R:
            return NAN
        for arg, s, c in self.trig:
            if (y * c - x * s).is_zero():
                k = x * c + y * s
                if self.D(C.rel(">", k)):
                    if self.D(C.rel(">", arg + R.const(self.PI_LO))) and self.D(C.rel("<=", arg - R.const(self.PI_LO))):
                        return arg
        if self.D(C.rel("=", y)):
            if self.D(C.rel(">=", x)):
                return P.ZERO
            raise Unsupported("atan2 on the negative axis")
        key = ("atan2", y.key(), x.key())
        at = P.CTX.atom("atan%d" % len(P.CTX.atoms), "fn", lambda sm: math.atan2(sm.rat(y), sm.rat(x)), key)
        v = R.var(at)
        if not at.defs:
            b = R.const(self.PI_LO + Fraction(1, 10 ** 15))
            at.defs += [C.rel("<=", v - b), C.rel(">=", v + b)]
            if self.ex.st.path.known(C.rel(">=", y)) is True:
                # angles of the upper half plane are in [0, pi], and no smaller than their sine
                at.defs.append(C.rel(">=", v))
                at.nonneg = True
                h = self.hypot(y, x)
                at.defs.append(C.cmp(">=", v * h, y))
                at.defs.append(C.Or(C.rel("<", x), C.rel("<=", v - R.const(self.PI_LO / 2 + Fraction(1, 10 ** 15)))))
        self.inv[1 << (P.W * at.idx)] = ("atan2", y, x)
        return v

    # ---- integers that come from floats
    def to_int_sat(self, s, v, n):
        if v is NAN:
            return 0
        if type(v) is R and v.is_const():
            q = int(v.const_value())
            return max(0, q) if s == "u" else q & ((1 << n) - 1)
        if type(v) is R:
            return SymInt(v)
        raise Unsupported("infinite to int")

    def to_int(self, op, v, n):
        return self.to_int_sat("u" if op == "fptoui" else "s", v, n)

    def from_int(self, v):
        return v.r

    def sym_icmp(self, pred, n, a, b):
        a = a.r if isinstance(a, SymInt) else R.const(self.ex.force(a))
        b = b.r if isinstance(b, SymInt) else R.const(self.ex.force(b))
        q = pred if pred in ("eq", "ne") else pred[1:]
        return C.cmp({"eq": "=", "ne": "!=", "gt": ">", "ge": ">=", "lt": "<", "le": "<="}[q], a, b)

    def sym_bin(self, op, n, a, b):
        a = a.r if isinstance(a, SymInt) else R.const(self.ex.force(a))
        b = b.r if isinstance(b, SymInt) else R.const(self.ex.force(b))
        if op == "add":
            return SymInt(a + b)
        if op == "sub":
            return SymInt(a - b)
        if op == "mul":
            return SymInt(a * b)
        if op == "lshr" and b.is_const():
            raise Unsupported("shift of symbolic integer")
        raise Unsupported("symbolic integer " + op)


def lit_size(c):
    if c is True or c is False:
        return 0
    if c[0] == "r":
        return sum(len(P.CTX.factors[f]) for f in c[2])
    if c[0] == "b":
        return 1
    if c[0] == "not":
        return 1
    return sum(lit_size(x) for x in c[1])
