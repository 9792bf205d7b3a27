"""Panic-freedom over all doubles, NaN and infinities included.

Every float is a term.  Comparisons, sign tests, negation and absolute value have their IEEE meaning in every query;
the results of other operations are arbitrary doubles (equal for equal operands), so the explored behaviours include all
real ones.  Where a panic is reached on a satisfiable path, the query is repeated with the exact IEEE semantics of the
operations it depends on; a model is then replayed natively."""
import functools
import math
import random
import struct
import time
import traceback
from . import build, cond as C, dom as D, exec as E, job as J, poly as P, smt

M64 = (1 << 64) - 1
FPS = "(_ FloatingPoint 11 53)"
INF = "%d.0" % (1 << 1024)
PRED = {0x1: "fp.isNaN", 0x2: "fp.isNaN", 0x4: "(- fp.isInfinite)", 0x8: "(- fp.isNormal)", 0x10: "(- fp.isSubnormal)", 0x20: "(- fp.isZero)",
        0x40: "(+ fp.isZero)", 0x80: "(+ fp.isSubnormal)", 0x100: "(+ fp.isNormal)", 0x200: "(+ fp.isInfinite)"}
EXACT = {"add": "(fp.add RNE %s %s)", "sub": "(fp.sub RNE %s %s)", "mul": "(fp.mul RNE %s %s)", "div": "(fp.div RNE %s %s)",
         "sqrt": "(fp.sqrt RNE %s)", "fma": "(fp.fma RNE %s %s %s)", "floor": "(fp.roundToIntegral RTN %s)", "ceil": "(fp.roundToIntegral RTP %s)",
         "ftrunc": "(fp.roundToIntegral RTZ %s)", "frint": "(fp.roundToIntegral RNE %s)", "fround": "(fp.roundToIntegral RNA %s)"}


class T:
    __slots__ = ("i", "op", "args", "val")

    def __init__(self, i, op, args, val=None):
        self.i, self.op, self.args, self.val = i, op, args, val

    def __repr__(self):
        return "t%d" % self.i if self.op != "c" else repr(self.val)


class NeedInt(Exception):
    """The integer value of an input decides the control flow: it is fixed."""


class Floats(D.Base):
    def __init__(self, timeout=2.0):
        self.terms, self.memo = [], {}
        self.timeout = timeout
        self.conc = D.Concrete()
        self.sels = {}
        self.answers = {}

    def term(self, op, *args):
        k = (op,) + tuple(a.i if type(a) is T else a for a in args)
        t = self.memo.get(k)
        if t is None:
            t = self.memo[k] = T(len(self.terms), op, args)
            self.terms.append(t)
        return t

    def const(self, f):
        k = ("c", D.f2bits(f))
        t = self.memo.get(k)
        if t is None:
            t = self.memo[k] = T(len(self.terms), "c", (), f)
            self.terms.append(t)
        return t

    def lift(self, a):
        return self.const(a) if isinstance(a, float) else a

    def op(self, name, args):
        args = [self.lift(a) for a in args]
        if all(a.op == "c" for a in args):
            try:
                return self.const(float(getattr(self.conc, name)(*[a.val for a in args])))
            except (OverflowError, ValueError, E.Unsupported):
                pass
        return self.term(name, *args)

    def neg(self, a):
        a = self.lift(a)
        if a.op == "neg":
            return a.args[0]
        return self.op("neg", [a])

    def fabs(self, a):
        a = self.lift(a)
        while a.op in ("neg", "fabs"):
            a = a.args[0]
        return self.op("fabs", [a])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a: self.op(n, a)

    def _m(n):
        return lambda self, *a: self.op(n, a)
    minimum, maximum = _m("minnum"), _m("maxnum")

    def fpconv(self, op, v):
        raise E.Unsupported("f32")

    def atom(self, name, *ts):
        return ("b", "fp:%s:%s" % (name, ":".join(str(t.i) for t in ts)))

    def fcmp(self, p, a, b):
        if p in ("true", "false"):
            return p == "true"
        a, b = self.lift(a), self.lift(b)
        if a.op == "c" and b.op == "c":
            return self.conc.fcmp(p, a.val, b.val)
        if p in ("uno", "ord"):
            u = C.Or(*[False if t.op == "c" and t.val == t.val else self.atom("uno", t) for t in ((a, b) if a is not b else (a,))])
            if (a.op == "c" and a.val != a.val) or (b.op == "c" and b.val != b.val):
                u = True
            return u if p == "uno" else C.Not(u)
        if p[0] == "u":
            inv = {"eq": "one", "ne": "oeq", "gt": "ole", "ge": "olt", "lt": "oge", "le": "ogt"}[p[1:]]
            return C.Not(self.fcmp(inv, a, b))
        q = p[1:]
        if q in ("gt", "ge"):
            a, b, q = b, a, {"gt": "lt", "ge": "le"}[q]
        if (a.op == "c" and a.val != a.val) or (b.op == "c" and b.val != b.val):
            return False
        if a is b:
            return False if q in ("lt", "ne") else self.fcmp("ord", a, a)
        if q == "ne":
            return C.And(self.fcmp("ord", a, b), C.Not(self.fcmp("oeq", a, b)))
        if q == "eq" and a.i > b.i:
            a, b = b, a
        return self.atom("o" + q, a, b)

    def bits_int(self, v):
        return D.f2bits(v.val) if v.op == "c" else D.f2bits(v) if isinstance(v, float) else None

    def signbit(self, v):
        v = self.lift(v)
        if v.op == "c":
            return bool(D.f2bits(v.val) >> 63)
        if v.op == "neg":
            return C.Not(self.signbit(v.args[0]))
        if v.op == "fabs":
            return False
        return self.atom("sgn", v)

    def copysign(self, a, b):
        return self.op("copysign", [a, b])

    def fpclass(self, v, mask):
        v = self.lift(v)
        if v.op == "c":
            return D.fpclass_concrete(v.val, mask)
        return self.atom("cls%d" % mask, v)

    def bits_eq(self, pred, a, b):
        a, b = self.lift(a), self.lift(b)
        if a is b:
            r = True
        elif a.op == "c" and b.op == "c":
            r = False
        else:
            r = self.atom("beq", *sorted((a, b), key=lambda t: t.i))
        return r if pred == "eq" else C.Not(r)

    def bits_eq_const(self, pred, a, b):
        return self.bits_eq(pred, a, self.const(struct.unpack("<d", struct.pack("<Q", b))[0]))

    def bits_order(self, pred, a, b):
        if type(a.v) is T and type(b.v) is T and a.v.op == "c" and b.v.op == "c":
            return None
        if pred in ("eq", "ne") and type(a) is type(b):
            return None
        return self.atom("any_%s_%s_%s" % (pred, type(a).__name__, type(b).__name__), a.v, b.v)

    def bits_cmp_const(self, pred, a, b):
        return self.atom("anyc_%s_%x" % (pred, b), self.lift(a))

    def same(self, a, b):
        return a is b

    def merge(self, c, a, b):
        if type(a) in (T, float) and type(b) in (T, float):
            t = self.term("sel", str(c), self.lift(a), self.lift(b))
            self.sels[t.i] = c
            return t
        return None

    def to_int_sat(self, s, v, n):
        v = self.lift(v)
        if v.op == "c":
            return self.conc.to_int_sat(s, v.val, n)
        if v.op == "in":
            raise NeedInt(v.args[0])
        raise E.Unsupported("float to int")

    to_int = to_int_sat

    # ---- queries
    def lit(self, c, ts):
        """SMT text of a literal; collects the terms it mentions."""
        if c is True or c is False:
            return "true" if c else "false"
        k = c[0]
        if k == "not":
            return "(not %s)" % self.lit(c[1], ts)
        if k in ("and", "or"):
            return "(%s %s)" % (k, " ".join(self.lit(x, ts) for x in c[1]))
        if k != "b":
            raise E.Unsupported("literal %r" % (c,))
        if not c[1].startswith("fp:"):
            ts.setdefault("bools", set()).add(c[1])
            return "|%s|" % c[1]
        _, nm, *ids = c[1].split(":")
        xs = [self.txt(self.terms[int(i)], ts) for i in ids]
        if nm in ("olt", "ole", "oeq"):
            return "(%s %s %s)" % ({"olt": "fp.lt", "ole": "fp.leq", "oeq": "fp.eq"}[nm], *xs)
        if nm == "uno":
            return "(fp.isNaN %s)" % xs[0]
        free = "|%s|" % c[1]
        if nm == "sgn":
            ts.setdefault("bools", set()).add(c[1])
            return "(ite (fp.isNaN %s) %s (fp.isNegative %s))" % (xs[0], free, xs[0])
        if nm == "beq":
            ts.setdefault("bools", set()).add(c[1])
            return "(ite (and (fp.isNaN %s) (fp.isNaN %s)) %s (= %s %s))" % (xs[0], xs[1], free, xs[0], xs[1])
        if nm.startswith("cls"):
            m, out = int(nm[3:]), []
            for b, p in PRED.items():
                if m & b:
                    if p[0] != "(":
                        out.append("(%s %s)" % (p, xs[0]))
                    else:
                        out.append("(and (%s %s) (%s %s))" % (p[3:-1], xs[0], "fp.isNegative" if p[1] == "-" else "fp.isPositive", xs[0]))
            return "(or false %s)" % " ".join(out)
        ts.setdefault("bools", set()).add(c[1])
        return free

    def txt(self, t, ts):
        if t.op == "c":
            if t.val != t.val:
                return "(_ NaN 11 53)"
            b = D.f2bits(t.val)
            return "(fp #b%d #b%s #b%s)" % (b >> 63, format((b >> 52) & 2047, "011b"), format(b & ((1 << 52) - 1), "052b"))
        if t.op == "neg":
            return "(fp.neg %s)" % self.txt(t.args[0], ts)
        if t.op == "fabs":
            return "(fp.abs %s)" % self.txt(t.args[0], ts)
        ts[t.i] = t
        return "t%d" % t.i

    def query(self, lits, timeout, exact=0, want=False):
        """exact: how many operations get their IEEE definition, those nearest to the comparisons first."""
        ts = {}
        asserts = [self.lit(c, ts) for c in lits]
        order = [t for k, t in sorted((kt for kt in ts.items() if kt[0] != "bools"), key=lambda kt: -kt[0])]
        n = 0
        while order and n < exact:
            t = order.pop(0)
            new = {}
            if t.op == "sel":
                d = "(ite %s %s %s)" % (self.lit(self.sels[t.i], new), self.txt(t.args[1], new), self.txt(t.args[2], new))
            elif t.op in EXACT:
                d = EXACT[t.op] % tuple(self.txt(a, new) for a in t.args)
            elif t.op == "copysign":
                a, b = (self.txt(x, new) for x in t.args)
                d = "(ite (= (fp.isNegative %s) (fp.isNegative %s)) %s (fp.neg %s))" % (a, b, a, a)
            else:
                continue
            n += 1
            asserts.append("(= t%d %s)" % (t.i, d))
            ts.setdefault("bools", set()).update(new.pop("bools", ()))
            for i, x in new.items():
                if i not in ts:
                    ts[i] = x
                    order.append(x)
            order.sort(key=lambda x: -x.i)
        bools = ts.pop("bools", set())
        decls = [("t%d" % i, FPS) for i in ts] + [("|%s|" % b, "Bool") for b in bools]
        ins = [t for t in ts.values() if t.op == "in"]
        v, _ = smt.run(decls, asserts, timeout, "z3")
        model = {}
        if v == "sat" and want and ins:
            out = smt.proc("z3").ask("(get-value (%s))" % " ".join("t%d" % t.i for t in ins), 10.0) or ""
            for t in ins:
                x = value(out, "t%d" % t.i)
                if x is not None:
                    model[t.args[0]] = x
        return v, model

    def feasible(self, path, lit):
        if lit[0] == "b" and lit[1].startswith(("fp:any", "cx_", "z!")):
            return "sat"
        # the literals that share terms with the new one, transitively
        keys = [names(l) for l in path.lits]
        cur = set(names(lit))
        use = []
        left = list(range(len(path.lits)))
        while True:
            add = [k for k in left if keys[k] & cur]
            if not add:
                break
            left = [k for k in left if not keys[k] & cur]
            use += add
            for k in add:
                cur |= keys[k]
        key = frozenset([path.lits[k] for k in use] or [lit])
        v = self.answers.get(key)
        if v is None:
            v = self.answers[key] = self.order(sorted(key, key=str))
        return v

    # ---- feasibility: doubles as extended reals with a NaN flag and a sign (a relaxation: unsat is sound)
    def order(self, lits):
        ts = {}
        asserts = [self.olit(c, ts) for c in lits]
        out = ["(push)"]
        for i, k in ts.items():
            if k == "Bool":
                out.append("(declare-fun %s () Bool)" % i)
            else:
                out.append("(declare-fun r{0} () Real)(declare-fun n{0} () Bool)(declare-fun s{0} () Bool)"
                           "(assert (and (<= (- {1}) r{0}) (<= r{0} {1}) (or n{0} (= r{0} 0.0) (= s{0} (< r{0} 0.0)))))".format(i, INF))
        out += ["(assert %s)" % a for a in asserts] + ["(check-sat)(pop)"]
        p = smt.PROCS.get("z3order")
        if p is None:
            p = smt.PROCS["z3order"] = smt.Proc("z3order", [smt.Z3BIN, "-in", "-smt2"])
        t0 = time.time()
        o = p.ask("".join(out), self.timeout)
        v = o if o in ("sat", "unsat") else "unknown"
        st = smt.STATS
        st.queries += 1
        st.by["z3order"] = st.by.get("z3order", 0) + 1
        st.results[v] += 1
        st.time += time.time() - t0
        return v

    def otxt(self, t, ts):
        """(value, NaN, sign)"""
        if t.op == "c":
            v = t.val
            n = "true" if v != v else "false"
            if v != v:
                r = "0.0"
            elif math.isinf(v):
                r = INF if v > 0 else "(- %s)" % INF
            else:
                a, b = abs(v).as_integer_ratio()
                r = "(/ %d.0 %d.0)" % (a, b)
                r = "(- %s)" % r if v < 0 else r
            return r, n, "true" if D.f2bits(v) >> 63 else "false"
        if t.op == "neg":
            r, n, s = self.otxt(t.args[0], ts)
            return "(- %s)" % r, n, "(not %s)" % s
        if t.op == "fabs":
            r, n, s = self.otxt(t.args[0], ts)
            return "(ite (< {0} 0.0) (- {0}) {0})".format(r), n, "false"
        ts[t.i] = "Real"
        return "r%d" % t.i, "n%d" % t.i, "s%d" % t.i

    def olit(self, c, ts):
        if c is True or c is False:
            return "true" if c else "false"
        k = c[0]
        if k == "not":
            return "(not %s)" % self.olit(c[1], ts)
        if k in ("and", "or"):
            return "(%s %s)" % (k, " ".join(self.olit(x, ts) for x in c[1]))
        free = "|%s|" % c[1]
        if not c[1].startswith("fp:") or c[1].startswith("fp:any"):
            ts[free] = "Bool"
            return free
        _, nm, *ids = c[1].split(":")
        xs = [self.otxt(self.terms[int(i)], ts) for i in ids]
        (r, n, s), (r2, n2, s2) = xs[0], xs[-1]
        if nm in ("olt", "ole", "oeq"):
            return "(and (not %s) (not %s) (%s %s %s))" % (n, n2, {"olt": "<", "ole": "<=", "oeq": "="}[nm], r, r2)
        if nm == "uno":
            return n
        if nm == "sgn":
            return s
        if nm == "beq":
            ts[free] = "Bool"
            return "(ite (and {1} {4}) {6} (and (not {1}) (not {4}) (= {0} {3}) (= {2} {5})))".format(r, n, s, r2, n2, s2, free)
        if nm.startswith("cls"):
            m, out = int(nm[3:]), []
            tiny = "(/ 1.0 %d.0)" % (1 << 1022)
            for b, p in PRED.items():
                if m & b:
                    q = p.split(".")[1].rstrip(")")
                    if q == "isNaN":
                        out.append(n)
                        continue
                    a = "(ite (< {0} 0.0) (- {0}) {0})".format(r)
                    f = {"isInfinite": "(= %s %s)" % (a, INF), "isZero": "(= %s 0.0)" % r,
                         "isSubnormal": "(and (< 0.0 {0}) (< {0} {1}))".format(a, tiny),
                         "isNormal": "(and (<= {1} {0}) (< {0} {2}))".format(a, tiny, INF)}[q]
                    out.append("(and (not %s) %s %s)" % (n, s if p[1] == "-" else "(not %s)" % s, f))
            return "(or false %s)" % " ".join(out)
        ts[free] = "Bool"
        return free


@functools.lru_cache(None)
def names(c):
    if c is True or c is False:
        return frozenset()
    if c[0] == "b":
        if not c[1].startswith("fp:"):
            return frozenset([c[1]])
        return frozenset(c[1].split(":")[2:])
    if c[0] == "not":
        return names(c[1])
    s = set()
    for x in c[1]:
        s |= names(x)
    return frozenset(s)


def value(out, nm):
    """A double from z3's (get-value) answer."""
    import re
    m = re.search(r"\(%s \(fp #b([01]) #b([01]{11}) #(b[01]{52}|x[0-9a-f]{13})\)\)" % nm, out)
    if m:
        f = int(m.group(3)[1:], 2 if m.group(3)[0] == "b" else 16)
        return struct.unpack("<d", struct.pack("<Q", (int(m.group(1)) << 63) | (int(m.group(2), 2) << 52) | f))[0]
    m = re.search(r"\(%s \(_ (NaN|\+oo|-oo|\+zero|-zero) 11 53\)\)" % nm, out)
    if m:
        return {"NaN": math.nan, "+oo": math.inf, "-oo": -math.inf, "+zero": 0.0, "-zero": -0.0}[m.group(1)]
    return None


# ---- decompositions: any result, NaN and failure included ------------------------------------
def choice(ex, name):
    return bool(ex.decide(("b", "cx_" + name)))


def fresh(ex, what):
    ex.st.ops["fpn"] = n = ex.st.ops.get("fpn", 0) + 1
    return ex.dom.term("any", what, n)


def tag(ex, what):
    ex.st.ops["cx" + what] = n = ex.st.ops.get("cx" + what, 0) + 1
    return "%s%d" % (what, n)


def put(ex, p, n, what, val=None):
    vals = [fresh(ex, what) if val is None else ex.dom.const(float(val[k])) for k in range(n)]
    for k, v in enumerate(vals):
        ex.store(p + 8 * k, K8, v)
    return vals


K8 = ("double",)


def assume(ex, c):
    if c is not True and not ex.st.path.add(c):
        raise E.Dead()


def contracts(opts):
    def limit(ex, n):
        if ex.force(n) == 0:
            raise E.PanicOut("a decomposition iterates without limit")

    def symeig(ex, args, ins):
        n, mp, vp, ep = args
        n = ex.force(n)
        t = tag(ex, "symeig")
        if opts.get("eig") is None and choice(ex, t + "_fail"):
            return 0
        fix = opts.get("eig")
        if n > 4 and fix is None:
            # the order of many values only moves the vector that is read, and all vectors are alike
            fix = list(range(n))
            if choice(ex, t + "_nan"):
                fix = [math.nan] * n
            elif choice(ex, t + "_four"):
                fix = [1.0, 0.0, 2.0, 0.0, 3.0, 0.0, 4.0, 0.0, 5.0][:n]
        put(ex, vp, n, t, fix)
        put(ex, ep, n * n, t)
        return 1

    def svd(ex, args, ins):
        n, mp, flags, sp, up, vp = args
        n = ex.force(n)
        t = tag(ex, "svd")
        fix = opts.get("svd%d" % n)
        if fix is None and choice(ex, t + "_fail"):
            return 0
        if fix is None and n > 4:
            fix = [10 - k for k in range(n)]
            if choice(ex, t + "_null"):
                fix[n - 1] = 0.0
        vals = put(ex, sp, n, t, fix)
        if n == 3:
            # a 3x3 matrix with NaN does not converge (an assumption, see DESIGN.md)
            for v in vals:
                assume(ex, ex.dom.fcmp("ord", v, v))
        eye = [1.0 if k % (n + 1) == 0 else 0.0 for k in range(n * n)] if opts.get("eye") else None
        put(ex, up, n * n, t, eye)
        put(ex, vp, n * n, t, eye)
        return 1

    def lusolve(ex, args, ins):
        n, mp, bp, xp = args
        t = tag(ex, "lu")
        if not opts.get("solved") and choice(ex, t + "_fail"):
            return 0
        put(ex, xp, 100, t)
        return 1

    def eigenvalues(ex, args, ins):
        n, mp, op = args
        t = tag(ex, "ev")
        if not opts.get("solved") and choice(ex, t + "_fail"):
            return 0
        real = opts.get("real", 2)
        for k in range(10):
            put(ex, op + 16 * k, 1, t)
            if k < real and not opts.get("solved"):
                put(ex, op + 16 * k + 8, 1, t)
            else:
                put(ex, op + 16 * k + 8, 1, t, [0.0 if k < real else 1.0])
        return 1

    def rotation(ex, args, ins):
        put(ex, args[1], 9, tag(ex, "rot"))

    def cubic(ex, args, ins):
        return fresh(ex, tag(ex, "cubic"))
    def again(fn):
        """A fork executes the call again: it must number its choices as before."""
        def h(ex, args, ins):
            ops = ex.st.ops
            keep = dict(ops)
            try:
                return fn(ex, args, ins)
            except E.Fork:
                ops.clear()
                ops.update(keep)
                raise
        return h
    return {"vx_symeig": again(symeig), "vx_svd": again(svd), "vx_lusolve": again(lusolve), "vx_eigenvalues": again(eigenvalues),
            "vx_nearest_rotation": rotation, "vx_cubic": again(cubic),
            "vx_limit": lambda ex, args, ins: limit(ex, args[0])}


SPECIAL = (math.nan, math.inf, -math.inf, 0.0, -0.0, 1e300, 1e200, 1e160, 1e-300, 5e-324, 1.0, -1.0)


class FpExec(E.Exec):
    """Joins paths: once a control state - the places and integers, with every float left open - has been explored `merge`
    times with what is known about its floats, it is explored once more with all floats arbitrary, and never again."""
    merge = 4

    def split(self, st, c):
        mid = st.ops.get("forked") == st.steps - 1       # a further choice within one instruction
        st.ops["forked"] = st.steps
        if self.merge is not None and not mid:
            k = hash(self.shape(st))
            n = self.met[k] = self.met.get(k, 0) + 1
            if n > self.merge + 1:
                self.subsumed += 1
                return []
            if n == self.merge + 1:
                self.forget(st)
                self.joins += 1
                return [st]
        return E.Exec.split(self, st, c)

    def live(self, fn):
        """block -> the registers each of its instructions may still need, itself included"""
        L = self.lives.get(fn)
        if L is not None:
            return L
        uses, phis, succ = {}, {}, {}
        names = set(fn.blocks)
        regs = set()

        def strs(x, out):
            if type(x) is str:
                out.add(x)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    strs(y, out)
            elif isinstance(x, dict):
                for a, b in x.items():
                    strs(a, out)
                    strs(b, out)
        for b, code in fn.blocks.items():
            us = []
            for ins in code:
                u = set()
                strs(ins[2:], u)
                us.append((ins[0] == "phi", ins[1] if type(ins[1]) is str else None, u))
            uses[b] = us
            s = set()
            for ins in code:
                if ins[0] != "phi":
                    u = set()
                    strs(ins[2:], u)
                    s |= u & names
            succ[b] = s
        inn = {b: frozenset() for b in fn.blocks}
        change = True
        while change:
            change = False
            for b in fn.blocks:
                cur = set()
                for s in succ[b]:
                    cur |= inn[s]
                for phi, d, u in reversed(uses[b]):
                    cur.discard(d)
                    cur |= u
                if cur != inn[b]:
                    inn[b] = frozenset(cur)
                    change = True
        L = {}
        for b in fn.blocks:
            cur = set()
            for s in succ[b]:
                cur |= inn[s]
            rows = []
            for phi, d, u in reversed(uses[b]):
                cur.discard(d)
                cur |= u
                rows.append(frozenset(cur))
            L[b] = rows[::-1]
        self.lives[fn] = L
        return L

    def shape(self, st):
        """The control state, with local objects numbered as they are met."""
        ids, queue, top = {}, [], st.nobj

        def ab(v):
            t = type(v)
            if t is int:
                o = v >> 32
                if 0x10 < o <= top:
                    k = ids.get(o)
                    if k is None:
                        k = ids[o] = len(ids)
                        queue.append(o)
                    return ("p", k, v & 0xffffffff)
                return v
            if t is T or t is float:
                return "F"
            if t is E.Ite:
                return ("I", ab(v.a), ab(v.b))
            if isinstance(v, E.Bits):
                return t.__name__
            if t is E.Odd:
                return tuple(sorted((k, w[0], ab(w[1])) for k, w in v.items()))
            if t is tuple:
                return "C"
            if t is list:
                return tuple(ab(x) for x in v)
            return str(v)
        out = []
        for f in st.frames:
            L = self.live(f.fn)[f.blk]
            L = L[f.ip] if f.ip < len(L) else ()
            out.append((f.fn.name, f.blk, f.ip, tuple((r, ab(f.env[r])) for r in sorted(L) if r in f.env)))
        cells = {}
        for g, v in st.mem.items():
            o = g >> 29
            cells.setdefault(o if 0x10 < o <= top else 0, []).append((g, v))
        out.append(tuple((g, ab(v)) for g, v in sorted(cells.get(0, ()), key=lambda t: t[0])))
        k = 0
        while k < len(queue):
            o = queue[k]
            k += 1
            out.append(tuple((g & ((1 << 29) - 1), ab(v)) for g, v in sorted(cells.get(o, ()), key=lambda t: t[0])))
        return tuple(out)

    def forget(self, st):
        dom = self.dom

        def ha(v):
            t = type(v)
            if t is T or t is float:
                self.nforget += 1
                return dom.term("any", "joined", self.nforget)
            if t is E.Ite:
                self.nforget += 1
                return E.Ite(("b", "z!joined%d" % self.nforget), ha(v.a), ha(v.b))
            if isinstance(v, E.Bits):
                return t(ha(v.v))
            if t is E.Odd:
                return E.Odd({k: (w[0], ha(w[1])) for k, w in v.items()})
            if t is tuple:
                self.nforget += 1
                return ("b", "z!joined%d" % self.nforget)
            if t is list:
                return [ha(x) for x in v]
            return v
        for f in st.frames:
            f.env = {k: ha(v) for k, v in f.env.items()}
        st.mem = {k: ha(v) for k, v in st.mem.items()}
        st.path = C.Path()


class FpRunner(J.Runner):
    def base(self):
        """Ordinary inputs of the harness, from the job of another property that it belongs to."""
        like = self.job.like
        if callable(like):
            return [float(x) for x in like(self.rng)]
        P.reset()
        C.reset()
        dom = D.Real()
        J.RealOps.dom = dom

        class X:
            st = None
        dom.ex = X()
        inp = J.Inputs(dom, self.rng)
        like.build(inp)
        for _ in range(20):
            sm = self.numeric(inp)
            if sm is not None:
                return sm
        return [1.0] * len(inp.slots)

    def numeric(self, inp):
        try:
            sm = self.numeric_vals(inp.sample(self.rng))
            if sm is None:
                return None
            xs = [J.num_slot(sm, s) for s in inp.slots]
        except (TypeError, ValueError, ZeroDivisionError, OverflowError, KeyError):
            return None
        return None if any(x is None for x in xs) else [float(x) for x in xs]

    def run(self):
        t0 = time.time()
        res, job = self.res, self.job
        smt.STATS.__init__()
        self.bases = [self.base() for _ in range(8)]
        C.reset()
        fixed = dict(job.opts.get("fixed", {}))
        while True:
            try:
                self.explore(fixed, t0)
                break
            except NeedInt as e:
                k = e.args[0]
                if k in fixed:
                    raise
                fixed[k] = self.bases[0][k] if k < len(self.bases[0]) else 0.0
                res.notes.append("input %d is fixed to %r" % (k, fixed[k]))
            except E.Unsupported as e:
                res.errors.append("unsupported: %s" % e)
                self.hunt({}, "any", "concrete replay after: unsupported")
                break
            except E.Budget as e:
                res.errors.append("budget: %s" % e)
                self.hunt({}, "any", "concrete replay after: budget")
                break
        if not res.violations and not res.errors:
            self.hunt({}, "no panic", "native run", most=40)
        res.witnessed = True
        s = smt.STATS
        res.solver = {"queries": s.queries, "time_s": round(s.time, 2), "results": dict(s.results), "by": dict(s.by)}
        res.wall = time.time() - t0
        smt.shutdown()
        return res

    def explore(self, fixed, t0):
        job, res = self.job, self.res
        res.paths, res.claims, res.discharged, res.undecided, res.violations = {}, 0, 0, [], []
        dom = Floats()
        ex = FpExec(self.module, dom, self.demangle, self.redirect, contracts(job.opts), deadline=t0 + self.budget,
                    max_paths=job.opts.get("max_paths", 60000), max_visits=job.opts.get("max_visits", 400))
        ex.merge = job.opts.get("merge", FpExec.merge)
        ex.met, ex.lives, ex.subsumed, ex.joins, ex.nforget = {}, {}, 0, 0, 0
        st = ex.new_state()
        ex.st = st
        n = len(self.bases[0])
        pin, pout = ex.alloc(8 * n), ex.alloc(1 << 16)
        self.fixed = fixed
        for k in range(n):
            st.mem[(pin >> 3) + k] = dom.const(float(fixed[k])) if k in fixed else dom.term("in", k)
        try:
            for o in ex.run("@" + job.harness, [pin, pout], st):
                key = o.kind
                res.paths[key] = res.paths.get(key, 0) + 1
                res.claims += 1
                if o.kind == "ret":
                    res.discharged += 1
                    if len(res.samples) < 2:
                        res.samples.append({"path": key, "literals": len(o.state.path.lits),
                                            "first_literals": [str(l)[:80] for l in o.state.path.lits[:4]], "claims": ["answers or refuses"]})
                elif o.kind == "bound":
                    res.undecided.append({"path": key, "claim": "loop bound", "why": o.why})
                else:
                    self.panic(dom, o)
                if res.violations:
                    break
        finally:
            for fnm, k in ex.called.items():
                res.functions[self.demangle(fnm[1:].strip('"'))] = k
            if ex.joins:
                res.notes.append("%d control states joined, %d visits subsumed" % (ex.joins, ex.subsumed))
            res.ins, res.forks, res.unknown_feas = ex.nins, ex.nforks, ex.unknown_feas

    def panic(self, dom, o):
        res = self.res
        lits = o.state.path.lits
        best = "unknown"
        for exact, tmo in ((0, 5), (12, 5), (60, 10), (400, 20)):
            v, model = dom.query(lits, tmo, exact, want=True)
            if v == "unsat":
                res.discharged += 1
                return
            if v == "sat" and self.hunt(model, "no panic: " + o.why, "solver model" if exact else "solver model of the path, other operations free"):
                return
            best = v
        res.undecided.append({"claim": "no panic: " + o.why, "why": "%s, and no native run at the models panics" % best, "lits": len(lits)})

    def hunt(self, model, name, how, most=900):
        """Native runs at ordinary inputs with the model's values put in, and with special values around them."""
        seen = 0
        for t, b in enumerate(self.bases):
            xs = list(b)
            for k, v in self.fixed.items() if hasattr(self, "fixed") else ():
                xs[k] = v
            free = [k for k in range(len(xs)) if k not in getattr(self, "fixed", {})]
            ys = list(xs)
            for k, v in model.items():
                ys[k] = v
            cands = [xs, ys]
            if t == 0:
                for v in SPECIAL:
                    cands.append([v if k in free else x for k, x in enumerate(xs)])
            for k in free:
                for v in (SPECIAL if t == 0 and len(free) <= 30 else SPECIAL[:4]):
                    z = list(ys)
                    z[k] = v
                    cands.append(z)
                if t > 1:
                    break
            for _ in range(20):
                cands.append([self.rng.choice(SPECIAL) if k in free and self.rng.random() < .3 else x for k, x in enumerate(ys)])
            for z in cands:
                seen += 1
                if seen > most:
                    return False
                r = self.native.call(self.job.harness, z)
                self.res.validated += 1
                if r[0] == "panic":
                    self.res.violations.append({"job": self.job.name, "harness": self.job.harness, "inputs": [build.fhex(x) for x in z],
                                                "inputs_dec": z, "claim": name if name != "any" else "no panic", "observed": r[1], "how": how})
                    return True
        return False


class FpJob(J.Job):
    def __init__(self, name, harness, like, redirects, bounds="", opts=None, tier="quick"):
        J.Job.__init__(self, name, harness, None, None, redirects=redirects, bounds=bounds, opts=opts, tier=tier, witness=(), validate=False)
        self.like = like
    runner = FpRunner
