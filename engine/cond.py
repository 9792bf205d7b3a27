"""Path conditions over rational functions: canonical atoms, three-valued lookup, SMT text."""
from fractions import Fraction
from . import poly as P

NEG = {"<": ">=", ">=": "<", "<=": ">", ">": "<=", "=": "!=", "!=": "="}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "=": "=", "!=": "!="}
SAT = {"<": {-1}, "<=": {-1, 0}, "=": {0}, "!=": {-1, 1}, ">": {1}, ">=": {0, 1}}


def rel(op, r):
    """Condition `r op 0` for a rational function r (its denominators are non-zero)."""
    r = P.lift(r)
    if not r.num:
        return 0 in SAT[op]
    c, prim = P.p_content(r.num)
    sgn = 1 if c > 0 else -1
    fids = []
    mono = P.p_monofactor(prim)
    if mono:
        sub = 0
        for i, e in mono.items():
            sub += e << (P.W * i)
            f = P.factor_id({1 << (P.W * i): 1})
            if op in ("=", "!="):
                fids.append(f)
            else:
                fids += [f] if e & 1 else [f, f]
        prim = {m - sub: k for m, k in prim.items()}
    if not (len(prim) == 1 and 0 in prim):
        for sq, roots, neg in squares():
            d = P.try_div(prim, sq)
            if d is not None:
                k, prim = P.p_content(d)
                if (k < 0) != neg:
                    sgn = -sgn
                fids += roots if op in ("=", "!=") else roots + roots
                if len(prim) == 1:
                    break
    if not (len(prim) == 1 and 0 in prim):
        fids.append(P.factor_id(prim))
    elif prim[0] < 0:
        sgn = -sgn
    if op not in ("=", "!="):
        for f, e in r.den:
            if e & 1:
                fids.append(f)
    if not fids:
        return sgn in SAT[op]
    if sgn < 0:
        op = FLIP[op]
    return ("r", op, tuple(sorted(fids)))


def squares():
    """Polynomials known to be squares up to sign (declared by job inputs), with the factors of their roots."""
    L = P.CTX.squares
    for i, e in enumerate(L):
        if len(e) == 3:
            L[i] = e + (rel0(e[1]),)
    return [(e[0], e[3], e[2] < 0) for e in L]


def rel0(r):
    c, prim = P.p_content(r.num)
    fids = []
    mono = P.p_monofactor(prim)
    sub = 0
    for i, e in (mono or {}).items():
        sub += e << (P.W * i)
        fids.append(P.factor_id({1 << (P.W * i): 1}))
    prim = {m - sub: k for m, k in prim.items()}
    if not (len(prim) == 1 and 0 in prim):
        fids.append(P.factor_id(prim))
    return fids


def cmp(op, a, b):
    return rel(op, P.lift(a) - P.lift(b))


def Not(c):
    if c is True or c is False:
        return not c
    k = c[0]
    if k == "r":
        return ("r", NEG[c[1]], c[2])
    if k == "b":
        return ("not", c)
    if k == "not":
        return c[1]
    if k == "and":
        return Or(*[Not(x) for x in c[1]])
    if k == "or":
        return And(*[Not(x) for x in c[1]])
    raise ValueError(c)


def And(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c[0] == "and":
            out += [x for x in c[1] if x not in out]
        elif c not in out:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def Or(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if c[0] == "or":
            out += [x for x in c[1] if x not in out]
        elif c not in out:
            out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def Implies(a, b):
    return Or(Not(a), b)


_static = {}


def static_signs(fid):
    s = _static.get(fid)
    if s is None:
        s = _static[fid] = _static_signs(P.CTX.factors[fid])
    return s


def _static_signs(p):
    pos = neg = False
    const = p.get(0, 0)
    for m, c in p.items():
        i, x = 0, m
        ok = True
        while x:
            e = x & P.FIELD
            if e & 1 and not P.CTX.atoms[i].nonneg:
                ok = False
                break
            x >>= P.W
            i += 1
        if not ok:
            return frozenset((-1, 0, 1))
        if c > 0:
            pos = True
        else:
            neg = True
        if pos and neg:
            return frozenset((-1, 0, 1))
    if pos:
        return frozenset((1,)) if const > 0 else frozenset((0, 1))
    return frozenset((-1,)) if const < 0 else frozenset((-1, 0))


POS, ZERO_ = frozenset((1,)), frozenset((0,))
_root = {}


def root_rel(fid):
    """For a bare square root: the condition that it is not zero, on its radicand."""
    if fid in _root:
        return _root[fid]
    r = None
    p = P.CTX.factors[fid]
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1:
            i, x = 0, m
            while x and not x & P.FIELD:
                x >>= P.W
                i += 1
            if x == 1:
                a = P.CTX.atoms[i]
                if a.nonneg and a.rel is not None and a.kind == "sqrt":
                    r = rel("!=", P.R(a.rel))
                    if r is True or r is False or r[0] != "r":
                        r = None
    _root[fid] = r
    return r


def prod_signs(sets):
    r = {1}
    for s in sets:
        r = {a * b for a in r for b in s}
    return r


class Path:
    """A conjunction of literals with sign facts for single factors."""
    __slots__ = ("lits", "sgn", "keys", "bools", "facts")

    def __init__(self):
        self.lits = []
        self.sgn = {}
        self.keys = set()
        self.bools = {}
        self.facts = ()     # implied by the literals

    def copy(self):
        q = Path.__new__(Path)
        q.lits = list(self.lits)
        q.sgn = dict(self.sgn)
        q.keys = set(self.keys)
        q.bools = dict(self.bools)
        q.facts = self.facts
        return q

    def signs(self, fid):
        s = self.sgn.get(fid)
        if s is None:
            s = static_signs(fid)
            r = root_rel(fid)
            if r is not None and len(s) > 1:
                k = self.known(r)
                if k is True:
                    return POS
                if k is False:
                    return ZERO_
            if len(s) > 1 and 1 < len(P.CTX.factors[fid]) <= 16:
                t = self.mono_signs(P.CTX.factors[fid])
                if t is not None and t < s:
                    return t
        return s

    def mono_signs(self, p):
        """The signs of a sum of monomials whose atoms' signs are known."""
        tot = ZERO_
        for m, c in p.items():
            s = frozenset((1 if c > 0 else -1,))
            i, x = 0, m
            while x:
                e = x & P.FIELD
                if e:
                    a = P.CTX.atom_factor(i)
                    t = frozenset(v ** (2 - e % 2) for v in self.signs(a))
                    s = frozenset(u * v for u in s for v in t)
                x >>= P.W
                i += 1
            if 1 in s and -1 in s:
                return None
            if tot == ZERO_:
                tot = s
            elif 1 in s:
                if -1 in tot:
                    return None
                tot = POS if tot == POS or s == POS else tot | s
            elif -1 in s:
                if 1 in tot:
                    return None
                tot = frozenset((-1,)) if 0 not in tot or 0 not in s else tot | s
        return tot

    def known(self, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k == "r":
            if c in self.keys:
                return True
            if Not(c) in self.keys:
                return False
            cnt = {}
            for f in c[2]:
                cnt[f] = cnt.get(f, 0) + 1
            sets = []
            for f, n in cnt.items():
                s = self.signs(f)
                sets.append({x ** n if n < 3 else x ** (2 - n % 2) for x in s})
            ps = prod_signs(sets)
            want = SAT[c[1]]
            if ps <= want:
                return True
            if not (ps & want):
                return False
            return None
        if k == "b":
            return self.bools.get(c[1])
        if k == "not":
            v = self.known(c[1])
            return None if v is None else not v
        if c in self.keys:
            return True
        if Not(c) in self.keys:
            return False
        vs = [self.known(x) for x in c[1]]
        if k == "and":
            if False in vs:
                return False
            return True if all(v is True for v in vs) else None
        if True in vs:
            return True
        return False if all(v is False for v in vs) else None

    def simplify(self, c):
        """Drop decided parts of a condition."""
        v = self.known(c)
        if v is not None:
            return v
        k = c[0]
        if k == "r":
            rest, s = [], 1
            for f in c[2]:
                fs = self.signs(f)
                if fs == {1}:
                    continue
                if fs == {-1}:
                    s = -s
                    continue
                rest.append(f)
            op = c[1] if s > 0 else FLIP[c[1]]
            if len(rest) == 2 and rest[0] == rest[1]:
                if op == ">":
                    return ("r", "!=", (rest[0],))
                if op == "<=":
                    return ("r", "=", (rest[0],))
            if op in ("=", "!="):
                rest = sorted(set(rest))
                rest = [f for f in rest if 0 in self.signs(f)]
            return ("r", op, tuple(rest))
        if k in ("b", "not"):
            return c
        parts = [self.simplify(x) for x in c[1]]
        return And(*parts) if k == "and" else Or(*parts)

    def add(self, c):
        """Assume c; returns False when that is contradictory by lookup."""
        if c is True:
            return True
        if c is False:
            return False
        orig = c
        c = self.simplify(c)
        if c is True:
            return True
        if c is False:
            return False
        self.keys.add(c)
        self.keys.add(orig)
        if c[0] == "and":
            for x in c[1]:
                if not self.add(x):
                    return False
            return True
        self.lits.append(c)
        if c[0] == "r":
            if len(c[2]) == 1:
                f = c[2][0]
                s = self.signs(f) & frozenset(SAT[c[1]])
                if not s:
                    return False
                self.sgn[f] = s
                r = root_rel(f)
                if r is not None and len(s) == 1:
                    n = len(self.lits)
                    self.add(r if s == POS else Not(r))
                    del self.lits[n:]
            elif c[1] == "!=":
                for f in set(c[2]):
                    s = self.signs(f) - {0}
                    if not s:
                        return False
                    self.sgn[f] = s
        elif c[0] == "b":
            self.bools[c[1]] = True
        elif c[0] == "not":
            self.bools[c[1][1]] = False
        return True

    def learn(self, c):
        """Record an implied literal as a fact without making it part of the condition."""
        n = len(self.lits)
        self.add(c)
        self.facts += tuple(self.lits[n:])
        del self.lits[n:]


# ---- SMT text ------------------------------------------------------------------------------

_ptxt = {}


def coef_txt(c):
    c = Fraction(c)
    s = "%d" % abs(c.numerator) if c.denominator == 1 else "(/ %d %d)" % (abs(c.numerator), c.denominator)
    return "(- %s)" % s if c < 0 else s


def atom_name(i):
    return "v%d" % i


def poly_txt(p):
    terms = []
    for m, c in p.items():
        fs = []
        i, x = 0, m
        while x:
            e = x & P.FIELD
            fs += [atom_name(i)] * e
            x >>= P.W
            i += 1
        if c == 1 and fs:
            t = fs[0] if len(fs) == 1 else "(* %s)" % " ".join(fs)
        elif not fs:
            t = coef_txt(c)
        else:
            t = "(* %s %s)" % (coef_txt(c), " ".join(fs))
        terms.append(t)
    if not terms:
        return "0"
    return terms[0] if len(terms) == 1 else "(+ %s)" % " ".join(terms)


def fid_txt(f):
    t = _ptxt.get(f)
    if t is None:
        t = _ptxt[f] = poly_txt(P.CTX.factors[f])
    return t


def txt(c, atoms, bools):
    """SMT text of a condition; records used atom indices and boolean names."""
    if c is True:
        return "true"
    if c is False:
        return "false"
    k = c[0]
    if k == "r":
        for f in c[2]:
            atoms.update(fid_atoms(f))
        if c[1] in ("=", "!="):
            parts = ["(= %s 0)" % fid_txt(f) for f in c[2]]
            t = parts[0] if len(parts) == 1 else "(or %s)" % " ".join(parts)
            return t if c[1] == "=" else "(not %s)" % t
        parts = [fid_txt(f) for f in c[2]]
        t = parts[0] if len(parts) == 1 else "(* %s)" % " ".join(parts)
        return "(%s %s 0)" % (c[1], t)
    if k == "b":
        bools.add(c[1])
        return c[1]
    if k == "not":
        return "(not %s)" % txt(c[1], atoms, bools)
    return "(%s %s)" % (k, " ".join(txt(x, atoms, bools) for x in c[1]))


_fat = {}


def fid_atoms(f):
    a = _fat.get(f)
    if a is None:
        a = _fat[f] = frozenset(P.p_atoms(P.CTX.factors[f]))
    return a


def query(conds):
    """(decls, assertion texts, atom indices): the conditions plus the definitions of their atoms."""
    atoms, bools = set(), set()
    asserts = [txt(c, atoms, bools) for c in conds if c is not True]
    done = set()
    while True:
        new = atoms - done
        if not new:
            break
        for i in sorted(new):
            done.add(i)
            a = P.CTX.atoms[i]
            if a.rel is not None:
                atoms.update(P.p_atoms(a.rel))
                asserts.append("(= (* %s %s) %s)" % (atom_name(i), atom_name(i), poly_txt(a.rel)))
            if a.nonneg:
                asserts.append("(>= %s 0)" % atom_name(i))
            for d in a.defs:
                asserts.append(txt(d, atoms, bools))
    decls = [(atom_name(i), "Real") for i in sorted(atoms)] + [(b, "Bool") for b in sorted(bools)]
    return decls, asserts, sorted(atoms)


def evaluate(c, vals, bools=None, tol=0.0):
    """Truth of a condition under numeric atom values."""
    if c is True or c is False:
        return c
    k = c[0]
    if k == "r":
        v = 1
        for f in c[2]:
            v = v * P.p_eval(P.CTX.factors[f], vals)
        return {"<": v < 0, "<=": v <= 0, "=": v == 0, "!=": v != 0, ">": v > 0, ">=": v >= 0}[c[1]]
    if k == "b":
        return (bools or {}).get(c[1], False)
    if k == "not":
        return not evaluate(c[1], vals, bools)
    if k == "and":
        return all(evaluate(x, vals, bools) for x in c[1])
    return any(evaluate(x, vals, bools) for x in c[1])


def reset():
    _static.clear()
    _ptxt.clear()
    _fat.clear()
