"""A job: one harness, its symbolic inputs, assumptions, and the claims decided on every path."""
import math
import mpmath
import os
import random
import time
import traceback
from fractions import Fraction
from . import poly as P, cond as C, smt, exec as E, dom as D, ir, build
from .contracts import ContractMiss
from .dom import NAN, PINF, NINF, Special, Sample
from .ir import UNDEF

R = P.R


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    else:
        yield x


def fmap(fn, x):
    if isinstance(x, list):
        return [fmap(fn, y) for y in x]
    if isinstance(x, tuple):
        return tuple(fmap(fn, y) for y in x)
    if isinstance(x, dict):
        return {k: fmap(fn, y) for k, y in x.items()}
    return fn(x)


class Inputs:
    """Symbolic inputs; every input slot is a real expression over free atoms."""

    def __init__(self, dom, rng):
        self.dom, self.rng = dom, rng
        self.slots = []
        self.assume = []
        self.gens = []
        self.derived = []        # closures: vals dict -> fills Fractions
        self.free_ids = []
        self.inv = []         # (fn(float input slots) -> vals) not used

    def put(self, *xs):
        for x in flat(list(xs)):
            self.slots.append(x if isinstance(x, Special) else P.lift(x))

    def free(self, name, lo=None, hi=None, grid=16, span=4):
        a = P.CTX.atom(name)
        v = R.var(a)
        if lo is not None:
            if lo > 0:
                self.assume.append(C.rel(">", v))
            self.assume.append(C.rel(">=", v - R.const(lo)))
        if hi is not None:
            self.assume.append(C.rel("<=", v - R.const(hi)))
        if lo is not None and lo >= 0:
            a.nonneg = True
        l = Fraction(lo) if lo is not None else Fraction(-span)
        h = Fraction(hi) if hi is not None else max(l + 2 * span, Fraction(span))
        self.free_ids.append(a.idx)

        def gen(vals, rng):
            n = 4096
            k = rng.randint(0, n)
            vals[a.idx] = l + (h - l) * Fraction(k, n)
        self.gens.append(gen)
        return v

    def pos(self, name, lo=Fraction(1, 1 << 40), hi=1 << 40):
        """A positive length or depth; samples are of moderate size, the solver sees the whole range."""
        v = self.free(name, lo, hi)
        i = self.free_ids[-1]
        self.gens[-1] = lambda vals, rng: vals.__setitem__(i, Fraction(rng.randint(1, 64), 8))
        return v

    def vec(self, n, name, lo=None, hi=None, span=4):
        return [self.free("%s%d" % (name, k), lo, hi, span=span) for k in range(n)]

    def integer(self, name, lo, hi):
        v = self.free(name, lo, hi)
        i = self.free_ids[-1]
        self.gens[-1] = lambda vals, rng: vals.__setitem__(i, Fraction(rng.randint(lo, hi)))
        return v

    def unit(self, name, bound=None):
        """Unit vector: x, y free, z*z = 1 - x*x - y*y."""
        x, y = P.CTX.atom(name + "x"), P.CTX.atom(name + "y")
        z = P.CTX.atom(name + "z", "root", 1.0)
        X, Y = R.var(x), R.var(y)
        P.CTX.set_rel(z, (R.const(1) - X * X - Y * Y).num)
        self.free_ids += [x.idx, y.idx]
        for v in (X, Y, R.var(z)):
            self.assume += []

        def gen(vals, rng):
            a, b = Fraction(rng.randint(-40, 40), 24), Fraction(rng.randint(-40, 40), 24)
            n = a * a + b * b
            v = [2 * a / (1 + n), 2 * b / (1 + n), (1 - n) / (1 + n)]
            rng.shuffle(v)
            vals[x.idx], vals[y.idx], vals[z.idx] = v
        self.gens.append(gen)
        return [X, Y, R.var(z)]

    def quat(self, name):
        q = [P.CTX.atom(name + str(k)) for k in (1, 2, 3)]
        q0 = P.CTX.atom(name + "0", "root", 1.0)
        Q = [R.var(a) for a in q]
        P.CTX.set_rel(q0, (R.const(1) - Q[0] * Q[0] - Q[1] * Q[1] - Q[2] * Q[2]).num)
        q0.nonneg = True
        self.free_ids += [a.idx for a in q]

        def gen(vals, rng):
            a = [Fraction(rng.randint(-30, 30), 24) for _ in range(3)]
            n = sum(t * t for t in a)
            v = [(1 - n) / (1 + n)] + [2 * t / (1 + n) for t in a]
            if v[0] < 0:
                v = [-t for t in v]
            vals[q0.idx] = v[0]
            for k in range(3):
                vals[q[k].idx] = v[k + 1]
        self.gens.append(gen)
        return [R.var(q0)] + Q

    def rot(self, name):
        """Any rotation matrix, as a unit quaternion (q0 >= 0 without loss of generality)."""
        return quat_matrix(self.quat(name))

    def rot1(self, name, axis):
        """Rotation about a coordinate axis by any angle."""
        s = P.CTX.atom(name + "s")
        c = P.CTX.atom(name + "c", "root", 1.0)
        S, Cc = R.var(s), R.var(c)
        P.CTX.set_rel(c, (R.const(1) - S * S).num)
        self.free_ids.append(s.idx)

        def gen(vals, rng):
            a = Fraction(rng.randint(-40, 40), 24)
            vals[s.idx], vals[c.idx] = 2 * a / (1 + a * a), (1 - a * a) / (1 + a * a)
        self.gens.append(gen)
        Z, O = P.ZERO, P.ONE
        if axis == 0:
            return [[O, Z, Z], [Z, Cc, -S], [Z, S, Cc]]
        if axis == 1:
            return [[Cc, Z, S], [Z, O, Z], [-S, Z, Cc]]
        return [[Cc, -S, Z], [S, Cc, Z], [Z, Z, O]]

    def root(self, name, sq):
        """Either root of an expression that has to be a square to exist (negative values are left out)."""
        a = P.CTX.atom(name, "root", 1.0)
        P.CTX.set_rel(a, sq.num)
        self.assume.append(C.rel(">=", sq))

        def gen(vals, rng):
            # the relation fixes the size again wherever the value is used; the sign is kept
            t = Sample({k: float(v) for k, v in vals.items()}).poly(a.rel)
            if t is not None and t[0] >= 0:
                vals[a.idx] = Fraction(rng.choice((1, -1)) * math.sqrt(t[0]))
        self.gens.append(gen)
        return R.var(a)

    def normaliser(self, name, sq):
        """A scale of either sign, any number but zero; inputs that are run have the one that makes sq a unit length."""
        a = P.CTX.atom(name)
        self.free_ids.append(a.idx)
        x = R.var(a)
        self.assume.append(C.rel("!=", x))
        size = P.lift(sq)

        def gen(vals, rng):
            sm = Sample({k: float(v) for k, v in vals.items()})
            for b in P.CTX.atoms:
                if b.kind == "root" and b.idx not in sm.vals:
                    return
            t = sm.rat(size)
            s = rng.choice((1, -1)) if rng else -1 if vals.get(a.idx, 1) < 0 else 1
            if t is not None and t > 0:
                vals[a.idx] = Fraction(s / math.sqrt(t))
        self.gens.append(gen)
        self.derived.append(gen)
        return x

    def square(self, x):
        """Tells the engine whose square x * x is in normal form."""
        c, prim = P.p_content((x * x).num)
        P.CTX.squares.append((prim, x, c))

    def norm(self, v):
        return self.dom_sqrt(dot(v, v))

    def dom_sqrt(self, r):
        """Non-negative square root of a sum of squares as an input expression."""
        c, rest = P.p_content(r.num)
        q = P.p_sqrt(r.num)
        assert not r.den
        key = ("sqrt", P.p_key(r.num))
        a = P.CTX.by_key.get(key)
        if a is None:
            a = P.CTX.atom("n%d" % len(P.CTX.atoms), "sqrt", None, key)
            a.nonneg = True
            P.CTX.set_rel(a, r.num)
        return R.var(a)

    def sample(self, rng):
        vals = {}
        for g in self.gens:
            g(vals, rng)
        return vals


def quat_matrix(q):
    a, b, c, d = q
    two = 2
    return [[1 - two * (c * c + d * d), two * (b * c - a * d), two * (b * d + a * c)],
            [two * (b * c + a * d), 1 - two * (b * b + d * d), two * (c * d - a * b)],
            [two * (b * d - a * c), two * (c * d + a * b), 1 - two * (b * b + c * c)]]


# ---- small linear algebra, generic over R and float ---------------------------------------
def dot(a, b):
    s = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        s = s + x * y
    return s


def mv(m, v):
    return [dot(r, v) for r in m]


def tr(m):
    return [list(c) for c in zip(*m)]


def mm(a, b):
    bt = tr(b)
    return [[dot(r, c) for c in bt] for r in a]


def vadd(a, b):
    return [x + y for x, y in zip(a, b)]


def vsub(a, b):
    return [x - y for x, y in zip(a, b)]


def scale(k, a):
    return [k * x for x in a]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def hat(v):
    return [[v[0] * 0, -v[2], v[1]], [v[2], v[0] * 0, -v[0]], [-v[1], v[0], v[0] * 0]]


def det3(m):
    return dot(m[0], cross(m[1], m[2]))


def eye(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


def homog(m, t):
    return [list(m[k]) + [t[k]] for k in range(3)] + [[0, 0, 0, 1]]


def mat(outs, r, c):
    return [list(outs[i * c:(i + 1) * c]) for i in range(r)]


class RealOps:
    """Claims become conditions; a margin weakens every atomic claim (for robust counterexamples)."""
    real = True

    dom = None

    def __init__(self, margin=0):
        self.m = Fraction(margin)
        self.raw = []

    def sqrt(self, a):
        """Non-negative root of a sum of squares."""
        a = P.lift(a)
        if a.is_const():
            return self.dom.sqrt(a)
        n = P.p_sqrt(a.num) if not a.den else None
        if n is not None:
            return R.const(0) + self.dom_abs(R(n))
        return self.dom.sqrt_nofork(a)

    def dom_abs(self, r):
        k = self.dom.ex.st.path.known(C.rel(">=", r)) if self.dom.ex.st else None
        if k is None:
            raise E.Unsupported("sign of a root in a claim")
        return r if k else -r

    def cos(self, a):
        return self.dom.trig_pair(P.lift(a))[1]

    def sin(self, a):
        return self.dom.trig_pair(P.lift(a))[0]

    def _bad(self, *xs):
        return any(isinstance(x, Special) or x is UNDEF for x in xs)

    def eq(self, a, b, scale=None):
        if self._bad(a, b):
            return False
        a, b = P.lift(a), P.lift(b)
        if self.m:
            return C.And(C.rel("<=", a - b - R.const(self.m)), C.rel(">=", a - b + R.const(self.m)))
        c = C.cmp("=", a, b)
        if c is True:
            self.raw.append((a, b))
        return c

    def lt(self, a, b):
        if self._bad(a, b):
            return self._sp("<", a, b)
        return C.cmp("<", P.lift(a), P.lift(b) + R.const(self.m))

    def le(self, a, b):
        if self._bad(a, b):
            return self._sp("<=", a, b)
        return C.cmp("<=", P.lift(a), P.lift(b) + R.const(self.m))

    def _sp(self, op, a, b):
        if a is NAN or b is NAN or a is UNDEF or b is UNDEF:
            return False
        def rk(x):
            return 1 if x is PINF else -1 if x is NINF else 0
        x, y = rk(a), rk(b)
        return x < y if op == "<" else x <= y

    def gt(self, a, b):
        return self.lt(b, a)

    def ge(self, a, b):
        return self.le(b, a)

    def ne(self, a, b):
        if self._bad(a, b):
            return True
        return C.cmp("!=", P.lift(a), P.lift(b))

    def nan(self, a):
        return a is NAN

    def finite(self, *xs):
        return not self._bad(*xs)

    And = staticmethod(lambda *x: C.And(*x))
    Or = staticmethod(lambda *x: C.Or(*x))
    Not = staticmethod(lambda x: C.Not(x))

    def implies(self, h, c):
        return C.Or(C.Not(h), c)

    def veq(self, a, b, scale=None):
        return C.And(*[self.eq(x, y) for x, y in zip(list(flat(a)), list(flat(b)))])


class FloatOps:
    """Robustness of a claim on floats: negative means violated by that margin."""
    real = False

    def __init__(self, tol=1e-6):
        self.tol = tol

    sqrt = staticmethod(lambda a: math.sqrt(a) if a >= 0 else math.nan)
    cos = staticmethod(math.cos)
    sin = staticmethod(math.sin)

    def eq(self, a, b, scale=None):
        if a != a or b != b:
            return -math.inf
        if a == b:
            return 1.0
        d = abs(a - b)
        s = (1 + abs(a) + abs(b)) if scale is None else scale
        return self.tol - d / s if math.isfinite(d) else -math.inf

    def lt(self, a, b):
        if a != a or b != b:
            return -math.inf
        if math.isinf(a) or math.isinf(b):
            return 1.0 if a < b else -math.inf
        return (b - a) / (1 + abs(a) + abs(b)) + self.tol

    le = lt

    def gt(self, a, b):
        return self.lt(b, a)

    ge = gt

    def ne(self, a, b):
        if a != a or b != b:
            return 1.0
        return abs(a - b) / (1 + abs(a) + abs(b)) - self.tol

    def nan(self, a):
        return 1.0 if a != a else -math.inf

    def finite(self, *xs):
        return 1.0 if all(math.isfinite(x) for x in xs) else -math.inf

    def And(self, *x):
        return min([self._n(t) for t in x], default=1.0)

    def Or(self, *x):
        return max([self._n(t) for t in x], default=-1.0)

    def Not(self, x):
        # comparisons are lenient by the tolerance, and so are their negations
        return 2 * self.tol - self._n(x)

    @staticmethod
    def _n(t):
        return (1.0 if t else -math.inf) if isinstance(t, bool) else t

    def implies(self, h, c):
        return max(self.Not(h), self._n(c))

    def veq(self, a, b, scale=None):
        return self.And(*[self.eq(x, y, scale) for x, y in zip(list(flat(a)), list(flat(b)))])


class AssumeOps(FloatOps):
    """Preconditions of a native run: strict comparisons are strict."""

    def lt(self, a, b):
        return FloatOps.lt(self, a, b) if a < b else -math.inf

    def gt(self, a, b):
        return self.lt(b, a)

    def ne(self, a, b):
        return 1.0 if abs(a - b) > self.tol * (abs(a) + abs(b)) else -math.inf


class LeafOps:
    """Truth of a claim at one exact input: +1 holds, -1 violated alike in exact arithmetic and by the native run, 0 unclear.

    The first pass (ref=None) records each atomic comparison in exact arithmetic; in the second the native outputs must
    reproduce every violated comparison's difference, so that it is not an effect of rounding whatever its scale."""
    real = False

    def __init__(self, ref=None):
        self.ref, self.rec = ref, []

    def sqrt(self, a):
        return mpmath.sqrt(a)

    def cos(self, a):
        return mpmath.cos(a)

    def sin(self, a):
        return mpmath.sin(a)

    def leaf(self, kind, a, b):
        try:
            d, s = mpmath.mpf(a) - b, abs(mpmath.mpf(a)) + abs(mpmath.mpf(b))
            ok = bool(mpmath.isfinite(d))
        except TypeError:
            d, s, ok = None, None, False
        k = len(self.rec)
        self.rec.append((d, s, ok))
        if self.ref is None:
            return 0
        if k >= len(self.ref):
            raise IndexError("claims depend on the values")
        e, es, eok = self.ref[k]
        if not ok or not eok:
            return 0
        tiny = abs(e) <= mpmath.mpf(10) ** -20 * es
        true = tiny if kind == "=" else (not tiny if kind == "!=" else e < 0 and not tiny)
        if kind in ("<", "<=") and tiny:
            return 0
        if not tiny and abs(d - e) > abs(e) / 20:
            return 0
        return 1 if true else -1

    def eq(self, a, b, scale=None):
        return self.leaf("=", a, b)

    def ne(self, a, b):
        return self.leaf("!=", a, b)

    def lt(self, a, b):
        return self.leaf("<", a, b)

    le = lt

    def gt(self, a, b):
        return self.leaf("<", b, a)

    ge = gt

    def nan(self, a):
        return 0

    def finite(self, *xs):
        return 1 if all(isinstance(x, mpmath.mpf) and mpmath.isfinite(x) for x in xs) else 0

    @staticmethod
    def _n(t):
        return (1 if t else -1) if isinstance(t, bool) else t

    def And(self, *x):
        return min([self._n(t) for t in x], default=1)

    def Or(self, *x):
        return max([self._n(t) for t in x], default=-1)

    def Not(self, x):
        return -self._n(x)

    def implies(self, h, c):
        return max(-self._n(h), self._n(c))

    def veq(self, a, b, scale=None):
        return self.And(*[self.eq(x, y) for x, y in zip(list(flat(a)), list(flat(b)))])


class MpSample(Sample):
    """The same evaluation with many digits."""

    def atom(self, i):
        v = self.vals.get(i, self)
        if v is self:
            a = P.CTX.atoms[i]
            v = None
            if a.kind in ("sqrt", "root"):
                t = self.poly(a.rel)
                if t is not None:
                    v = mpmath.sqrt(max(t[0], mpmath.mpf(0)))
                    if a.kind == "root":
                        v = v * a.info
            elif a.kind in ("sin", "cos"):
                t = self.rat(a.info)
                v = None if t is None else getattr(mpmath, a.kind)(t)
            self.vals[i] = v
        return v

    def poly(self, p):
        tot = mag = mpmath.mpf(0)
        for m, c in p.items():
            c = Fraction(c)
            t = mpmath.mpf(c.numerator) / c.denominator
            i = 0
            while m:
                e = m & P.FIELD
                if e:
                    v = self.atom(i)
                    if v is None:
                        return None
                    t *= v ** e
                m >>= P.W
                i += 1
            tot += t
            mag += abs(t)
        return tot, mag


class Job:
    def __init__(self, name, harness, build, claims, assume=None, redirects=None, panic_ok=False, bounds="",
                 opts=None, witness=(1,), setup=None, tier="quick", tol=1e-6, validate=True, check_outs=True):
        self.name, self.harness, self.build, self.claims = name, harness, build, claims
        self.assume = assume or (lambda env, o: [])
        self.redirects = redirects or {}
        self.panic_ok, self.bounds, self.opts = panic_ok, bounds, opts or {}
        self.witness, self.setup, self.tier, self.tol = witness, setup, tier, tol
        self.validate, self.check_outs = validate, check_outs


def fault(claims, native=None):
    """Claims about a decomposition that fails or returns something particular: native runs, where it does not, get others."""
    def c(env, st, outs, o):
        if o.real:
            yield from claims(env, st, outs, o)
        elif native:
            yield from native(env, st, outs, o)
    return c


class Result:
    def __init__(self, job):
        self.job = job
        self.paths = {}
        self.claims = 0
        self.discharged = 0
        self.undecided = []
        self.violations = []
        self.errors = []
        self.validated = 0
        self.mismatch = []
        self.functions = {}
        self.samples = []
        self.ins = 0
        self.forks = 0
        self.unknown_feas = 0
        self.solver = {}
        self.wall = 0
        self.notes = []
        self.slices = 0
        self.witnessed = False


class Runner:
    def __init__(self, job, module, demangle, redirect, native, seed, budget, tier):
        self.job, self.module, self.demangle, self.redirect = job, module, demangle, redirect
        self.native, self.tier = native, tier
        self.rng = random.Random("%s/%s" % (seed, job.name))
        self.budget = budget
        self.res = Result(job.name)

    def numeric_vals(self, vals):
        """Complete float values for all free and root atoms from (possibly inexact) values."""
        out = {}
        for a in P.CTX.atoms:
            if a.kind == "root":
                continue
            if a.idx in vals:
                out[a.idx] = float(vals[a.idx])
        sm = Sample(out)
        for a in P.CTX.atoms:
            if a.kind == "root":
                t = sm.poly(a.rel)
                if t is None:
                    continue
                if t[0] < -1e-9 * (1 + t[1]):
                    return None
                v = math.sqrt(max(t[0], 0.0))
                if vals.get(a.idx, 1) < 0 and not a.nonneg:
                    v = -v
                sm.vals[a.idx] = v
        return sm

    def input_atoms_default(self, vals):
        d = self.inp.sample(self.rng)
        for k, v in d.items():
            vals.setdefault(k, v)
        return vals

    def scale_free(self, vals, name, sym, native):
        """Is the claim violated in exact arithmetic by a difference that the native run reproduces, however small or large?"""
        status, outs = sym
        if status is None or outs is None or native[1] != status:
            return False
        with mpmath.workdps(60):
            def mp(v):
                v = Fraction(v)
                return mpmath.mpf(v.numerator) / v.denominator
            sm = MpSample({a.idx: mp(vals[a.idx]) for a in P.CTX.atoms if a.kind != "root" and a.idx in vals})
            for a in P.CTX.atoms:
                if a.kind == "root":
                    t = sm.poly(a.rel)
                    if t is None:
                        continue
                    v = mpmath.sqrt(max(t[0], mpmath.mpf(0)))
                    sm.vals[a.idx] = -v if vals.get(a.idx, 1) < 0 and not a.nonneg else v

            def num(x):
                return sm.rat(x) if isinstance(x, R) else x
            try:
                env = fmap(num, self.env)
                ref = LeafOps()
                fx = list(self.job.claims(env, status, [num(x) for x in outs], ref))
                ops = LeafOps(ref.rec)
                nat = [mpmath.mpf(x) if math.isfinite(x) else NAN for x in native[2]]
                for nm, c in self.job.claims(env, status, nat, ops):
                    if nm == name and LeafOps._n(c) < 0:
                        return True
            except (TypeError, ValueError, IndexError, ZeroDivisionError, AttributeError, OverflowError):
                return False
        return False

    def replay(self, vals, claim_name, sym=None):
        """Run the real code on a candidate; returns a violation record or None."""
        vals = self.input_atoms_default(dict(vals))
        for g in self.inp.derived:
            g(vals, None)
        sm = self.numeric_vals(vals)
        if sm is None:
            return None
        xs = [num_slot(sm, s) for s in self.inp.slots]
        if any(x is None for x in xs):
            return None
        fo = FloatOps(self.job.tol)
        envf = fmap(lambda r: num_slot(sm, r) if isinstance(r, (R, Special)) else r, self.env)
        if any(sm.cond(c) is False for c in self.inp.assume):
            return None
        try:
            if any(FloatOps._n(c) < -1e-11 for c in self.job.assume(envf, AssumeOps(1e-12))):
                return None
        except ZeroDivisionError:
            return None
        r = self.native.call(self.job.harness, xs)
        rec = {"job": self.job.name, "harness": self.job.harness, "inputs": [build.fhex(x) for x in xs],
               "inputs_dec": xs}
        if r[0] == "panic":
            if self.job.panic_ok:
                return None
            rec.update(claim="no panic", observed=r[1])
            return rec
        status, outs = r[1], r[2]
        bad = []
        try:
            for nm, c in self.job.claims(envf, status, outs, fo):
                v = FloatOps._n(c)
                if v < -self.job.tol * 0.5:
                    bad.append((nm, v))
        except (IndexError, ValueError, TypeError):
            if outs and status:
                raise
            bad.append(("an answer is returned", -math.inf))
        except ZeroDivisionError:
            return None
        if not bad and sym is not None and self.scale_free(vals, claim_name, sym, r):
            bad.append((claim_name, 0.0))
            rec["scale"] = "the violation's size is below the float tolerance; exact arithmetic and the native run agree on it"
        if not bad:
            return None
        names = [n for n, _ in bad]
        rec.update(claim=claim_name if claim_name in names else names[0], all_failed=names, status=status,
                   outputs=outs[:80])
        return rec

    def run(self):
        t0 = time.time()
        job, res = self.job, self.res
        smt.STATS.__init__()
        P.reset()
        C.reset()
        dom = D.Real(feas_timeout=job.opts.get("feas_timeout", 0.5), feas_solver=job.opts.get("feas_solver", "z3"))
        dom.div0 = job.opts.get("div0", "fork")
        dom.zsign = job.opts.get("zsign", False)
        self.dom = dom
        RealOps.dom = dom
        intr = {}
        ex = E.Exec(self.module, dom, self.demangle, self.redirect, intr, deadline=t0 + self.budget,
                    max_paths=job.opts.get("max_paths", 4000), max_visits=job.opts.get("max_visits", 400))
        self.ex = ex
        self.inp = inp = Inputs(dom, self.rng)
        self.env = job.build(inp)
        st = ex.new_state()
        ex.st = st
        exact = RealOps()
        conds = inp.assume + list(job.assume(self.env, exact))
        for c in conds:
            if not st.path.add(c):
                res.errors.append("contradictory assumptions")
        n = job.opts.get("samples", 24)
        tries = 0
        while len(st.samples) < n and tries < 4000:
            tries += 1
            vals = inp.sample(self.rng)
            sm = Sample({k: float(v) for k, v in vals.items()})
            if all(sm.cond(c) is True for c in conds):
                s = SampleX(sm.vals, vals)
                st.samples.append(s)
        self.samples0 = list(st.samples)
        # is the assumption set satisfiable at all?
        if not st.samples:
            d, a, ats = C.query(conds)
            v, _ = smt.run(d, a, 10, "z3")
            if v == "unsat":
                res.errors.append("vacuous assumptions")
        pin = ex.alloc(8 * len(inp.slots))
        pout = ex.alloc(1 << 16)
        self.pin, self.pout = pin, pout
        for k, x in enumerate(inp.slots):
            st.mem[(pin >> 3) + k] = x
        if job.setup:
            for nm, h in job.setup(self).items():
                intr[nm] = h
        try:
            for o in ex.run("@" + job.harness, [pin, pout], st):
                self.outcome(o)
                if len(res.violations) >= 1:
                    break
        except ContractMiss as e:
            # the mathematics the contract rests on does not hold for this code: ask for an input that shows it
            for nm, make in e.claims:
                if not res.violations:
                    self.claim(ex.st.path, ex.st, nm, make)
            if not res.violations:
                res.errors.append("contract not met: %s" % e)
                self.fallback("contract")
        except E.Unsupported as e:
            res.errors.append("unsupported: %s" % e)
            self.fallback(traceback.format_exc())
        except E.Budget as e:
            res.errors.append("budget: %s" % e)
            self.fallback("budget")
        except P.Explosion as e:
            res.errors.append("expression size: %s" % e)
            self.fallback("size")
        for fnm, k in ex.called.items():
            res.functions[self.demangle(fnm[1:].strip('"'))] = k
        res.ins, res.forks, res.unknown_feas = ex.nins, ex.nforks, ex.unknown_feas
        s = smt.STATS
        res.solver = {"queries": s.queries, "time_s": round(s.time, 2), "results": dict(s.results), "by": dict(s.by)}
        res.wall = time.time() - t0
        if getattr(dom, "assumed", None):
            res.notes += dom.assumed
        smt.shutdown()
        return res

    def fallback(self, why):
        """The symbolic run did not finish: replay the sample inputs so that a gross change is still seen."""
        for s in self.samples0[:12]:
            rec = self.replay(s.exact, "any")
            if rec:
                rec["how"] = "concrete replay after: " + why[:80]
                self.res.violations.append(rec)
                return

    def read_outs(self, st):
        outs = []
        g = self.pout >> 3
        while True:
            v = st.mem.get(g + len(outs))
            if v is None:
                return outs
            if isinstance(v, int):
                import struct
                v = self.dom.const(struct.unpack("<d", struct.pack("<Q", v))[0])
            elif isinstance(v, E.Bits):
                v = v.v
            elif type(v) is E.Odd:
                v = UNDEF
            outs.append(v)

    def outcome(self, o):
        job, res = self.job, self.res
        st = o.state
        status = None
        if o.kind == "ret":
            status = self.ex_force(o, st)
            status = E.sgn(status, 32)
        key = o.kind if status is None else "ret %d" % status
        res.paths[key] = res.paths.get(key, 0) + 1
        path = st.path
        self.ex.st = st
        if o.kind == "bound":
            res.undecided.append({"path": key, "claim": "loop bound", "why": o.why})
            return
        if o.kind in ("panic", "unreachable"):
            if not job.panic_ok:
                self.claim(path, st, "no panic: " + o.why, lambda ops: False)
            return
        outs = self.read_outs(st)
        if status in job.witness and st.samples:
            res.witnessed = True
        if job.validate and st.samples and res.validated < 12:
            self.validate_path(st, status, outs)
        exact = RealOps()
        try:
            cl = list(job.claims(self.env, status, outs, exact))
        except (IndexError, ValueError, TypeError):
            if outs and status:
                raise
            # fewer outputs than every claim needs: the call was refused
            self.claim(path, st, "an answer is returned", lambda ops: False)
            return
        for k, (nm, c) in enumerate(cl):
            if res.violations:
                return

            def make(ops, k=k):
                return list(job.claims(self.env, status, outs, ops))[k][1]
            self.claim(path, st, nm, make, status, outs)
        if len(res.samples) < 3:
            res.samples.append({"path": key, "literals": len(path.lits),
                                "first_literals": [lit_str(l) for l in path.lits[:4]],
                                "claims": [n for n, _ in cl]})

    def ex_force(self, o, st):
        v = o.value
        while isinstance(v, E.Ite):
            k = st.path.known(v.c)
            if k is None:
                raise E.Unsupported("undecided status")
            v = v.a if k else v.b
        if isinstance(v, tuple):
            k = st.path.known(v)
            if k is None:
                raise E.Unsupported("undecided status")
            return int(k)
        return v

    def validate_path(self, st, status, outs):
        """Compare the symbolic outputs of this path with the native run at one sample."""
        s = st.samples[0]
        sm = self.numeric_vals(s.exact)
        xs = [num_slot(sm, x) for x in self.inp.slots]
        if any(x is None for x in xs):
            return
        r = self.native.call(self.job.harness, xs)
        # a path through a decomposition contract need not be the one the real decomposition takes
        soft = any(b.startswith("cx_") for b in st.path.bools)
        note = self.res.notes.append if soft else self.res.mismatch.append
        if r[0] != "ret" or r[1] != status:
            note("status %s vs native %s" % (status, r[:2]))
            self.recheck(s)
            return
        ok = True
        cmpd = 0
        for k, v in enumerate(outs):
            if isinstance(v, R) and k < len(r[2]):
                e = sm.rat(v)
                if e is None:
                    continue
                cmpd += 1
                d = abs(e - r[2][k])
                if not d <= 1e-5 * (1 + abs(e)):
                    ok = False
                    note("output %d: %g vs native %g" % (k, e, r[2][k]))
                    break
            elif v is NAN and k < len(r[2]) and r[2][k] == r[2][k]:
                ok = False
                note("output %d: NaN vs native %g" % (k, r[2][k]))
                break
        if not ok:
            self.recheck(s)
        if ok and cmpd:
            self.res.validated += 1

    def recheck(self, s):
        rec = self.replay(s.exact, "any")
        if rec:
            rec["how"] = "native run at an input where it differs from the decomposition's contract"
            self.res.violations.append(rec)

    def pin_conds(self, vals, subset=None):
        out = []
        for i, v in vals.items():
            if subset is not None and i not in subset:
                continue
            out.append(C.rel("=", R.var(P.CTX.atoms[i]) - R.const(Fraction(v))))
        return out

    def roots(self):
        """The relations between the input atoms (they may be absent from a query)."""
        return [C.rel(">=", R(a.rel)) for a in P.CTX.atoms if a.kind == "root"]

    def solve(self, conds, timeout, solvers=("z3", "z3nl", "cvc5"), model=True):
        v, vals = self.solve1(conds, timeout, solvers)
        if v == "sat" and model:
            extra = [c for c in self.roots() if c is not True]
            w, vals2 = self.solve1(list(conds) + extra, min(timeout, 5), solvers)
            if w == "unsat":
                return w, None
            if w == "sat":
                return w, vals2
        return v, vals

    def solve1(self, conds, timeout, solvers):
        d, a, ats = C.query(conds)
        names = [C.atom_name(i) for i in ats]
        big = sum(D.lit_size(c) for c in conds)
        best = "unknown"
        for s in solvers:
            v, model = smt.run(d, a, timeout, s, want=names)
            if v == "unsat":
                return "unsat", None
            if v == "sat":
                vals = {i: model[C.atom_name(i)] for i in ats if C.atom_name(i) in model}
                return "sat", vals
        return best, None

    def claim(self, path, st, name, make, status=None, outs=None):
        job, res = self.job, self.res
        res.claims += 1
        T = job.opts.get("timeout", 10 if self.tier == "quick" else 60)
        ops = RealOps()
        c = make(ops)
        if c is True:
            # the two sides have equal normal forms; the solver confirms it on the written-out terms
            if ops.raw:
                lits = []
                for a, b in ops.raw:
                    if len(a.num) + len(b.num) > 6000:
                        continue
                    pa, pb = a.num, b.num
                    for f, e in b.den:
                        for _ in range(e):
                            pa = P.p_mul(pa, P.CTX.factors[f])
                    for f, e in a.den:
                        for _ in range(e):
                            pb = P.p_mul(pb, P.CTX.factors[f])
                    if len(pa) + len(pb) > 20000:
                        continue
                    lits.append((pa, pb))
                if lits:
                    ats = sorted({i for pa, pb in lits for i in P.p_atoms(pa) + P.p_atoms(pb)})
                    q = ["(not (= %s %s))" % (C.poly_txt(pa), C.poly_txt(pb)) for pa, pb in lits]
                    txt = q[0] if len(q) == 1 else "(or %s)" % " ".join(q)
                    v, _ = smt.run([(C.atom_name(i), "Real") for i in ats], [txt], T, "z3")
                    if v != "unsat":
                        v, _ = smt.run([(C.atom_name(i), "Real") for i in ats], [txt], T, "cvc5")
                    if v != "unsat":
                        res.undecided.append({"claim": name, "why": "normal form equality not confirmed: " + v})
                        return
            res.discharged += 1
            return
        k = path.known(c)
        neg = C.Not(c)
        q = path.lits + [neg]
        # pinned slices of the query first: the cheapest way to a counterexample
        cands = [s for s in st.samples if s.cond(c) is False]
        for s in cands[:3]:
            v, vals = self.solve(path.lits + [neg] + self.pin_conds(s.exact), 3, ("z3",))
            if v != "unsat":
                rec = self.replay(s.exact, name)
                if rec:
                    rec["how"] = "solver model, inputs pinned" if v == "sat" else "pinned slice"
                    res.violations.append(rec)
                    return
        if k is True:
            # by lookup of the path's literals and the facts shown to follow from them; the solver confirms it
            v, vals = self.solve([neg] + path.lits + list(path.facts), T, ("z3", "cvc5"), model=False)
            if v != "unsat":
                res.notes.append("claim known by lookup, solver: %s" % v)
                if v == "unknown":
                    v = "unsat"
        else:
            v, vals = self.solve(q, T, job.opts.get("solvers", ("z3", "z3nl", "cvc5")))
        if v == "unsat":
            res.discharged += 1
            return
        if v == "sat":
            rec = self.replay(vals, name, (status, outs))
            if rec:
                rec["how"] = "solver model"
                res.violations.append(rec)
                return
            # the model may rest on a decomposition result that the real routine does not give for this input
            for _ in range(job.opts.get("concretize", 0)):
                rec = self.replay(self.inp.sample(self.rng), name)
                if rec and name in rec.get("all_failed", [rec["claim"]]):
                    rec["how"] = "input realising the solver's counterexample"
                    res.violations.append(rec)
                    return
        # look for a robust counterexample
        for m in (Fraction(1, 100), Fraction(1, 10000)):
            cm = make(RealOps(m))
            if cm is True:
                continue
            nm = C.Not(cm)
            box = []
            for i in self.inp.free_ids:
                x = R.var(P.CTX.atoms[i])
                box += [C.rel("<=", x - 10), C.rel(">=", x + 10)]
            lits = path.lits + box + [nm]
            v2, vals2 = self.solve(lits, min(T, 5), ("z3", "z3nl"))
            if v2 == "sat":
                rec = self.replay(vals2, name, (status, outs))
                if rec:
                    rec["how"] = "solver model with margin %s" % m
                    res.violations.append(rec)
                    return
            if v2 == "unsat" and v == "sat":
                pass
        # slices: some inputs pinned to rationals, the rest left to the solver
        ids = list(self.inp.free_ids)
        pool = [s.exact for s in st.samples] + [s.exact for s in self.samples0]
        rooted = {a.idx for a in P.CTX.atoms if a.kind == "root"}
        nun = 0
        for t in range(job.opts.get("slices", 6)):
            if not pool:
                break
            base = pool[t % len(pool)]
            keepfree = set(self.rng.sample(ids, min(len(ids), 1 + t % 3)))
            for a in P.CTX.atoms:
                if a.kind == "root" and keepfree & set(P.p_atoms(a.rel)):
                    keepfree.add(a.idx)
            sub = {i for i in base if i not in keepfree}
            v3, vals3 = self.solve(q + self.pin_conds(base, sub), 3, ("z3", "z3nl"))
            res.slices += 1
            if v3 == "sat":
                vv = dict(base)
                vv.update(vals3)
                rec = self.replay(vv, name, (status, outs))
                if rec:
                    rec["how"] = "solver model, some inputs pinned"
                    res.violations.append(rec)
                    return
            elif v3 == "unsat":
                nun += 1
        res.undecided.append({"claim": name, "why": "full query: %s; %d pinned slices refuted" % (v, nun),
                              "path": [lit_str(l) for l in path.lits[-4:]], "lits": len(path.lits)})


def num_slot(sm, x):
    if isinstance(x, Special):
        return math.nan if x is NAN else math.inf if x is PINF else -math.inf
    v = sm.rat(x)
    return v if v is not None and math.isfinite(v) else None


class SampleX(Sample):
    __slots__ = ("exact",)

    def __init__(self, vals, exact):
        self.vals = dict(vals)
        self.exact = exact


def lit_str(l):
    if l is True or l is False:
        return str(l)
    if l[0] == "r":
        return " * ".join("(%s)" % P.pstr(P.CTX.factors[f], 4) for f in l[2]) + " %s 0" % l[1]
    if l[0] == "b":
        return l[1]
    if l[0] == "not":
        return "!" + lit_str(l[1])
    return "(%s)" % (" %s " % l[0]).join(lit_str(x) for x in l[1][:3])
