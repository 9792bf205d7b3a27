"""Exact rational functions over named real atoms.

A value is num / prod(f_k ^ e_k): `num` an expanded polynomial, the f_k interned polynomials that
are known to be non-zero on the current path.  An atom may carry a rewriting relation
`atom^2 = P(earlier atoms)`; products are kept reduced modulo those relations.  Nothing in here
decides a property: this is the encoder's normal form, from which solver terms are made.
"""
from fractions import Fraction
from math import gcd

W = 12                      # bits per exponent
FIELD = (1 << W) - 1


class Atom:
    __slots__ = ("idx", "name", "rel", "nonneg", "kind", "info", "z3", "defs", "scale")

    def __init__(self, idx, name, kind, info):
        self.idx, self.name, self.kind, self.info = idx, name, kind, info
        self.rel = None          # Poly dict for atom^2, or None
        self.nonneg = False
        self.z3 = None
        self.defs = []


class Ctx:
    """Registry of atoms and interned factors (one per check process)."""

    def __init__(self):
        self.atoms = []
        self.relmask = 0
        self.by_key = {}
        self.squares = []
        self.factors = []         # list of poly dicts
        self.atom_fid = {}
        self.factor_ids = {}      # frozenset(items) -> id
        self.max_terms = 400000

    def atom(self, name, kind="input", info=None, key=None):
        if key is not None and key in self.by_key:
            return self.by_key[key]
        a = Atom(len(self.atoms), name, kind, info)
        self.atoms.append(a)
        if key is not None:
            self.by_key[key] = a
        return a

    def atom_factor(self, i):
        f = self.atom_fid.get(i)
        if f is None:
            f = self.atom_fid[i] = factor_id(R.var(self.atoms[i]).num)
        return f

    def set_rel(self, a, p):
        a.rel = p
        self.relmask |= ((FIELD & ~1) << (W * a.idx))


class Explosion(Exception):
    pass


CTX = Ctx()


def reset():
    global CTX
    CTX.__init__()
    return CTX


def norm_c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


# ---- polynomials: dict packed-monomial -> coefficient --------------------------------------

def p_const(c):
    c = norm_c(c)
    return {0: c} if c else {}


def p_var(a):
    return {1 << (W * a.idx): 1}


def p_add(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    get = r.get
    for m, c in q.items():
        v = get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v if type(v) is int else norm_c(v)
            else:
                del r[m]
    return r


def p_neg(p):
    return {m: -c for m, c in p.items()}


def p_sub(p, q):
    return p_add(p, p_neg(q))


def p_scale(p, k):
    if not k:
        return {}
    if k == 1:
        return p
    return {m: norm_c(c * k) for m, c in p.items()}


def p_mul_raw(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    get = r.get
    qi = list(q.items())
    if len(p) * len(qi) > 40 * CTX.max_terms:
        raise Explosion("product of %d x %d terms" % (len(p), len(qi)))
    for m1, c1 in p.items():
        for m2, c2 in qi:
            m = m1 + m2
            r[m] = get(m, 0) + c1 * c2
    if len(r) > CTX.max_terms:
        raise Explosion("polynomial of %d terms" % len(r))
    return {m: norm_c(c) for m, c in r.items() if c}


def p_reduce(p):
    """Rewrite by the relations until every related atom has degree <= 1."""
    mask = CTX.relmask
    if not mask:
        return p
    todo = None
    for m in p:
        if m & mask:
            todo = True
            break
    if todo is None:
        return p
    atoms = CTX.atoms
    # highest related atom first: its relation only mentions earlier atoms
    rel_atoms = [a for a in reversed(atoms) if a.rel is not None]
    for a in rel_atoms:
        sh = W * a.idx
        amask = (FIELD & ~1) << sh
        groups = {}
        keep = {}
        for m, c in p.items():
            if m & amask:
                e = (m >> sh) & FIELD
                base = m - ((e - (e & 1)) << sh)
                groups.setdefault(e >> 1, {})[base] = c
            else:
                keep[m] = c
        if not groups:
            continue
        powers = {0: {0: 1}}
        res = keep
        for k in sorted(groups):
            top = max(powers)
            while top < k:
                powers[top + 1] = p_mul(powers[top], a.rel)
                top += 1
            res = p_add(res, p_mul_raw(groups[k], powers[k]))
        p = res
    for m in p:
        if m & mask:
            return p_reduce(p)
    return p


def p_mul(p, q):
    if not p or not q:
        return {}
    if len(q) == 1 and 0 in q:
        return p_scale(p, q[0])
    if len(p) == 1 and 0 in p:
        return p_scale(q, p[0])
    return p_reduce(p_mul_raw(p, q))


def p_divexact(p, d):
    """p / d if exact in the polynomial ring, else None (multivariate, lex on packed monomials)."""
    if not p:
        return {}
    ld = max(d)
    lc = d[ld]
    fields = []
    q = {}
    r = dict(p)
    steps = 0
    ld_parts = []
    x = ld
    i = 0
    while x:
        e = x & FIELD
        if e:
            ld_parts.append((W * i, e))
        x >>= W
        i += 1
    limit = 4 * len(p) + 50
    while r:
        steps += 1
        if steps > limit:
            return None
        lm = max(r)
        for sh, e in ld_parts:
            if ((lm >> sh) & FIELD) < e:
                return None
        m = lm - ld
        c = Fraction(r[lm]) / lc
        c = norm_c(c)
        q[m] = c
        for m2, c2 in d.items():
            mm = m + m2
            v = r.get(mm, 0) - c * c2
            if v:
                r[mm] = norm_c(v)
            else:
                r.pop(mm, None)
    return q


def p_content(p):
    """(content, primitive part with positive leading coefficient)."""
    if not p:
        return 0, p
    l = 1
    for c in p.values():
        if type(c) is Fraction:
            l = l * c.denominator // gcd(l, c.denominator)
    g = 0
    for c in p.values():
        g = gcd(g, int(c * l))
        if g == 1:
            break
    cont = Fraction(g, l)
    if p[max(p)] < 0:
        cont = -cont
    if cont == 1:
        return 1, p
    inv = 1 / cont
    return norm_c(cont), {m: norm_c(c * inv) for m, c in p.items()}


def p_monofactor(p):
    """Common monomial factor of p: list of (atom index, exponent)."""
    it = iter(p)
    m = next(it)
    parts = {}
    i = 0
    x = m
    while x:
        e = x & FIELD
        if e:
            parts[i] = e
        x >>= W
        i += 1
    for m in it:
        if not parts:
            return {}
        for i in list(parts):
            e = (m >> (W * i)) & FIELD
            if e < parts[i]:
                if e:
                    parts[i] = e
                else:
                    del parts[i]
    return parts


def p_atoms(p):
    s = 0
    for m in p:
        s |= m
    r = []
    i = 0
    while s:
        if s & FIELD:
            r.append(i)
        s >>= W
        i += 1
    return r


def p_sqrt(p):
    """Polynomial q with q*q == p exactly (leading-term algorithm), or None."""
    if not p:
        return {}
    def isq(c):
        c = Fraction(c)
        if c < 0:
            return None
        from math import isqrt
        a, b = isqrt(c.numerator), isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return norm_c(Fraction(a, b))
        return None
    lm = max(p)
    c = isq(p[lm])
    if c is None:
        return None
    x = lm
    while x:
        if (x & FIELD) & 1:
            return None
        x >>= W
    q = {}
    x, i = lm, 0
    half = 0
    while x:
        half |= ((x & FIELD) >> 1) << (W * i)
        x >>= W
        i += 1
    q[half] = c
    r = p_sub(p, p_mul_raw(q, q))
    n = 0
    while r:
        n += 1
        if n > len(p) + 5:
            return None
        rm = max(r)
        x, y, i = rm, half, 0
        while x or y:
            if (x & FIELD) < (y & FIELD):
                return None
            x >>= W
            y >>= W
        t = rm - half
        if t in q or t >= half:
            return None
        tc = norm_c(Fraction(r[rm]) / (2 * c))
        term = {t: tc}
        r = p_sub(r, p_add(p_scale(p_mul_raw(q, term), 2), p_mul_raw(term, term)))
        q[t] = tc
    return q


def p_key(p):
    return frozenset(p.items())


def factor_id(p):
    k = p_key(p)
    i = CTX.factor_ids.get(k)
    if i is None:
        i = len(CTX.factors)
        CTX.factors.append(p)
        CTX.factor_ids[k] = i
    return i


# ---- rational functions -------------------------------------------------------------------

class R:
    __slots__ = ("num", "den")

    def __init__(self, num, den=()):
        self.num = num
        self.den = den        # tuple of (factor id, exponent > 0), sorted

    # construction
    @staticmethod
    def const(c):
        return R(p_const(Fraction(c)))

    @staticmethod
    def var(a):
        return R(p_var(a))

    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and 0 in self.num))

    def const_value(self):
        return Fraction(self.num.get(0, 0))

    def is_zero(self):
        return not self.num

    def key(self):
        return (p_key(self.num), self.den)

    def __repr__(self):
        return rstr(self)

    def __neg__(self):
        return R(p_neg(self.num), self.den)

    def __add__(self, o):
        if type(o) is Special:
            return NAN
        o = lift(o)
        if not self.num:
            return o
        if not o.num:
            return self
        if self.den == o.den:
            return cancel(p_add(self.num, o.num), self.den)
        d1, d2 = dict(self.den), dict(o.den)
        m1, m2 = {0: 1}, {0: 1}
        out = {}
        for f in set(d1) | set(d2):
            e1, e2 = d1.get(f, 0), d2.get(f, 0)
            e = max(e1, e2)
            out[f] = e
            for _ in range(e - e1):
                m1 = p_mul(m1, CTX.factors[f])
            for _ in range(e - e2):
                m2 = p_mul(m2, CTX.factors[f])
        num = p_add(p_mul(self.num, m1), p_mul(o.num, m2))
        return cancel(num, tuple(sorted(out.items())))

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is Special:
            return NAN
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        if type(o) is Special:
            return NAN
        o = lift(o)
        if not self.num or not o.num:
            return ZERO
        if not self.den and not o.den:
            return R(p_mul(self.num, o.num))
        n1, d1 = pre_cancel(self.num, o.den)
        n2, d2 = pre_cancel(o.num, self.den)
        out = dict(d2)
        for f, e in d1:
            out[f] = out.get(f, 0) + e
        return R(p_mul(n1, n2), tuple(sorted(out.items())))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) is Special:
            return NAN
        return self * lift(o).recip()

    def __rtruediv__(self, o):
        return lift(o) * self.recip()

    def __pow__(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def recip(self):
        """1/self; the caller has established self != 0 on this path."""
        if not self.num:
            raise ZeroDivisionError
        num = {0: 1}
        for f, e in self.den:
            for _ in range(e):
                num = p_mul(num, CTX.factors[f])
        c, prim = p_content(self.num)
        num = p_scale(num, Fraction(1) / c)
        den = {}
        # monomial factors one by one; related atoms are rationalised (1/y = y/y^2)
        mono = p_monofactor(prim)
        if mono:
            sub = 0
            for i, e in mono.items():
                sub += e << (W * i)
            prim = {m - sub: k for m, k in prim.items()}
            for i, e in mono.items():
                a = CTX.atoms[i]
                if a.rel is not None:
                    for _ in range(e):
                        num = p_mul(num, p_var(a))
                        r = R(num, tuple(sorted(den.items()))) * R(a.rel).recip()
                        num, den = r.num, dict(r.den)
                else:
                    f = factor_id(p_var(a))
                    den[f] = den.get(f, 0) + e
        if not (len(prim) == 1 and 0 in prim):
            f = factor_id(prim)
            n = p_divexact(num, prim) if 1 < len(num) <= 60 and len(prim) <= len(num) else None
            if n is not None:
                num = n
            else:
                den[f] = den.get(f, 0) + 1
        else:
            num = p_scale(num, Fraction(1) / prim[0])
        return cancel(num, tuple(sorted(den.items())))


class Special:
    """NaN and the infinities; arithmetic in claims gives NaN."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n

    def _nan(self, *o):
        return NAN
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __pow__ = _nan


NAN, PINF, NINF = Special("nan"), Special("inf"), Special("-inf")


def lift(x):
    if isinstance(x, R):
        return x
    if isinstance(x, float):
        x = Fraction(x)
    return R(p_const(x))


def pre_cancel(num, den):
    if not den or not num:
        return num, den
    out = []
    for f, e in den:
        fp = CTX.factors[f]
        while e:
            q = try_div(num, fp)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            out.append((f, e))
    return num, tuple(out)


def try_div(num, fp):
    if len(fp) > len(num):
        return None
    if len(fp) == 1:
        return p_divexact_mono(num, next(iter(fp)))
    if len(num) > 3000:
        return None
    # quick reject on degrees: leading monomials must divide
    lm, lf = max(num), max(fp)
    if lm < lf:
        return None
    tm, tf = min(num), min(fp)
    if tm < tf:
        return None
    return p_divexact(num, fp)


def p_divexact_mono(num, m):
    x, i = m, 0
    parts = []
    while x:
        e = x & FIELD
        if e:
            parts.append((W * i, e))
        x >>= W
        i += 1
    for k in num:
        for sh, e in parts:
            if ((k >> sh) & FIELD) < e:
                return None
    return {k - m: c for k, c in num.items()}


def cancel(num, den):
    if not num:
        return ZERO
    if den:
        num, den = pre_cancel(num, den)
    return R(num, den)


ZERO = R({})
ONE = R({0: 1})


def mstr(m):
    s = []
    i = 0
    while m:
        e = m & FIELD
        if e:
            n = CTX.atoms[i].name
            s.append(n if e == 1 else "%s^%d" % (n, e))
        m >>= W
        i += 1
    return "*".join(s) or "1"


def pstr(p, lim=12):
    if not p:
        return "0"
    t = ["%s*%s" % (c, mstr(m)) for m, c in sorted(p.items(), reverse=True)[:lim]]
    return " + ".join(t) + (" + ...(%d)" % len(p) if len(p) > lim else "")


def rstr(r, lim=12):
    d = "".join(" / (%s)^%d" % (pstr(CTX.factors[f], lim), e) for f, e in r.den)
    return "(" + pstr(r.num, lim) + ")" + d


def p_eval(p, vals):
    """Numeric value (floats or Fractions) with vals[idx]."""
    tot = 0
    for m, c in p.items():
        i = 0
        t = c
        while m:
            e = m & FIELD
            if e:
                t = t * vals[i] ** e
            m >>= W
            i += 1
        tot = tot + t
    return tot


def r_eval(r, vals):
    v = p_eval(r.num, vals)
    for f, e in r.den:
        v = v / p_eval(CTX.factors[f], vals) ** e
    return v
