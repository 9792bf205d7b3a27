"""C20: the five-point estimator."""
from itertools import combinations
import numpy
from engine.job import Job, fault, mm, tr, mat, hat, scale, dot, mv
from engine import contracts as K, poly as P, cond as C, exec as X
from . import c11, c19

ASSUMPTIONS = ["eigen, singular value and LU decompositions return anything their mathematics allows, in any order and with any signs and scales "
               "(their iterations are not executed)",
               "the five matches are independent, and the essential matrices in their null space have a non-zero fourth coordinate and are isolated (general position)"]
MONOMIALS = ("xxx", "xxy", "xyy", "yyy", "xxz", "xyz", "yyz", "xzz", "yzz", "zzz", "xx", "xy", "yy", "xz", "yz", "zz", "x", "y", "z", "")


def noisy(inp):
    ms = []
    a = [inp.unit("a%d" % k) for k in range(5)]
    b = [inp.unit("b%d" % k) for k in range(5)]
    inp.put(a, b)
    return {"ms": list(zip(a, b)), "rows": [c19.row(x, y) for x, y in zip(a, b)]}


def noisy_matches(inp):
    a = [inp.unit("a%d" % k) for k in range(5)]
    b = [inp.unit("b%d" % k) for k in range(5)]
    inp.put([list(x) + list(y) for x, y in zip(a, b)])
    return {"ms": list(zip(a, b))}


def well(env, o):
    """Numerically, for the inputs that are run: the five equations are independent."""
    if o.real:
        return []
    v = numpy.linalg.svd(numpy.array([[float(x * y) for x in a for y in b] for a, b in env["ms"]]), compute_uv=False)
    return [float(v[4] / v[0]) - 3e-2]


# ---- null space ------------------------------------------------------------------------------------
def small(j):
    return P.R.const(3 * j - 5) / (1 << 70)


def large(j):
    return P.R.const((7 * j) % 11 + 1)


def basis_setup(sets):
    """The matrix is the sum of the squared equations: it has a kernel of dimension four, returned at any four positions."""
    def setup(runner):
        def h(ex, args, ins):
            n, mp, vp, ep = args
            n = ex.force(n)
            M = K.readm(ex, mp, n, n)
            rs = runner.env["rows"]
            K.need_zero([M[i][j] - sum((r[i] * r[j] for r in rs), P.ZERO) for i in range(n) for j in range(i + 1)], "the matrix is the sum of the squared equations")
            pos = sets[K.pick(ex, "set", len(sets))]
            # four solutions of the five equations
            for j in range(4):
                for r in rs:
                    ex.st.path.add(C.rel("=", dot(r, vector(j))))
            place(ex, n, vp, ep, pos)
            return 1
        return {"vx_symeig": h}
    return setup


def vector(j):
    return [K.fresh("n%d_%d" % (j, i), 0.3 * ((i * (j + 2)) % 5) - 0.4) for i in range(9)]


def place(ex, n, vp, ep, pos):
    vals, cols = [], []
    for j in range(n):
        if j in pos:
            k = pos.index(j)
            vals.append(small(k))
            cols += vector(k)
        else:
            vals.append(large(j))
            cols += [K.fresh("vec_%d_%d" % (j, i), 0.2 + 0.1 * i - 0.05 * j) for i in range(9)]
    K.write(ex, vp, vals)
    K.write(ex, ep, cols)


def nullity(k):
    """The decomposition finds k vectors in the kernel."""
    def setup(runner):
        def h(ex, args, ins):
            n, mp, vp, ep = args
            n = ex.force(n)
            K.write(ex, vp, [small(j) if (2 * j) % 9 < k else large(j) for j in range(n)])
            K.write(ex, ep, [K.fresh("vec_%d_%d" % (j, i), 0.2 + 0.1 * i - 0.05 * j) for j in range(n) for i in range(n)])
            return 1
        return {"vx_symeig": h}
    return setup


def basis(env, st, out, o):
    cols = [out[9 * c:9 * c + 9] for c in range(4)]
    for k, (a, b) in enumerate(env["ms"]):
        yield "the basis matrices satisfy match %d" % k, o.And(*[o.eq(dot(c19.row(a, b), c), 0) for c in cols])
    if o.real:
        # no solution is lost: every kernel vector is in the basis
        have = all(any(all((x - y).is_zero() for x, y in zip(vector(j), c)) for c in cols) for j in range(4))
        yield "the basis spans all solutions", o.eq(P.ZERO if have else P.ONE, 0)
    else:
        yield "the basis spans all solutions", o.And(*[o.eq(dot(c, d), float(i == j)) for i, c in enumerate(cols) for j, d in enumerate(cols)])


@fault
def refused(env, st, out, o):
    yield "degenerate matches and failed decompositions are refused", o.eq(st, 0)


# ---- the polynomial system ---------------------------------------------------------------------------
def view(inp):
    """A camera pair (any rotation, unit translation t with t_z != 0) that sees five points."""
    return c19.pose(inp, 5)


def coords():
    return [K.fresh("co" + c, 0.3) for c in "xyz"]


def monomials():
    x = dict(zip("xyz", coords()))
    out = []
    for m in MONOMIALS:
        t = P.ONE
        for c in m:
            t = t * x[c]
        out.append(t)
    return out


def combination():
    """x N0 + y N1 + z N2 + N3, as rows."""
    x, y, z = coords()
    v = [x * vector(0)[i] + y * vector(1)[i] + z * vector(2)[i] + vector(3)[i] for i in range(9)]
    return [[v[3 * j + i] for j in range(3)] for i in range(3)]


def equations():
    """What makes a matrix essential."""
    E = combination()
    EE = mm(E, tr(E))
    t = EE[0][0] + EE[1][1] + EE[2][2]
    G = mm(EE, E)
    return [K_det(E)] + [2 * G[i][j] - t * E[i][j] for i in range(3) for j in range(3)]


def K_det(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def values():
    return {a.idx: P.Fraction((a.idx * 7919) % 97 - 48, 31) for a in P.CTX.atoms if a.kind == "fn"}


def proportional(p, qs):
    """p = c q for one of the equations q, c != 0: proved by normal forms."""
    for q in qs:
        a, b = p.num, q.num
        if len(a) == len(b) and a.keys() == b.keys():
            m = next(iter(a))
            c = P.Fraction(a[m]) / b[m]
            if (p - q * c).is_zero():
                return q
    return None


def system(runner, ex, A, B):
    """Each row is an equation between the coordinates: together they say that the combination is an essential matrix."""
    ms, qs = monomials(), equations()
    left = list(qs)
    bad = []
    for i in range(10):
        p = sum((A[i][j] * ms[j] for j in range(10)), P.ZERO) + sum((B[i][j] * ms[10 + j] for j in range(10)), P.ZERO)
        q = proportional(p, left)
        if q is None:
            bad.append((i, p))
        else:
            left.remove(q)
    if bad:
        raise K.ContractMiss("the polynomial system states that the candidate is an essential matrix",
                             [("row %d of the polynomial system is one of the constraints" % i, lambda ops, p=p: ops.eq(p, 0)) for i, p in bad[:1]])


def solver(positions=(0, 4, 9), fail=False, diverge=False):
    """One essential matrix in the null space, with coordinates (x, y, z, 1): E = x N0 + y N1 + z N2 + N3, for any N0, N1, N2."""
    st = {}

    def setup(runner):
        def symeig(ex, args, ins):
            n, mp, vp, ep = args
            place(ex, ex.force(n), vp, ep, (7, 2, 5, 0))
            return 1

        def lusolve(ex, args, ins):
            n, mp, bp, xp = args
            A, B = K.readm(ex, mp, 10, 10), K.readm(ex, bp, 10, 10)
            if "system" not in st:
                system(runner, ex, A, B)
                st["system"] = True
            if fail:
                return 0
            ms = monomials()
            # any solution of A X = B: A m3 + B v = 0 and A is invertible, so X v = -m3
            X = [[K.fresh("sol%d_%d" % (i, j), 0.1 * i - 0.2 * j + 0.05 * i * j) for j in range(9)] for i in range(10)]
            for i in range(10):
                X[i].append(-ms[i] - sum((X[i][j] * ms[10 + j] for j in range(9)), P.ZERO))
            K.writem(ex, xp, X)
            return 1

        def eigen_ok(M, lam, what):
            v = monomials()[10:]
            K.need_zero([sum((M[i][j] * v[j] for j in range(10)), P.ZERO) - lam * v[i] for i in range(10)], what)

        def eigenvalues(ex, args, ins):
            n, mp, op = args
            if diverge:
                return 0
            lam = -coords()[0]
            eigen_ok(K.readm(ex, mp, 10, 10), lam, "the solution is an eigenvector of the action matrix")
            k = positions[K.pick(ex, "evpos", len(positions))]
            out = []
            for j in range(10):
                # the others are complex: pairs of opposite imaginary parts
                out += [lam, P.ZERO] if j == k else [K.fresh("re%d" % j, 0.5), (1 if j % 2 else -1) * K.positive(ex, "im%d" % j, 0.7)]
            K.write(ex, op, out)
            return 1

        def svd(ex, args, ins):
            n = ex.force(args[0])
            if n == 10:
                M = K.readm(ex, args[1], 10, 10)
                eigen_ok(M, P.ZERO, "the eigenvector is looked for at the eigenvalue")
                _, mp, flags, sp, up, vp = args
                v = monomials()[10:]
                k, s, sc = K.pick(ex, "svpos", 10), K.choice(ex, "sign"), K.positive(ex, "scale", 0.5)
                vals = [P.R.const(10 - j) for j in range(10)]
                order = [(3 * j + 1) % 10 for j in range(10)]
                vals = [vals[j] for j in order]
                vals[k] = P.ZERO
                K.write(ex, sp, vals)
                K.writem(ex, vp, [[(sc if s else -sc) * x for x in v] if j == k else [K.fresh("vv%d_%d" % (j, i), 0.3 + 0.1 * i - 0.05 * j) for i in range(10)] for j in range(10)])
                return 1
            _, mp, flags, sp, up, vp = args
            M = K.readm(ex, mp, 3, 3)
            E = combination()
            s, sc = K.choice(ex, "sign"), K.positive(ex, "scale", 0.5)
            K.need_zero([M[i][j] - (sc if s else -sc) * E[i][j] for i in range(3) for j in range(3)], "the candidate is the essential matrix with the coordinates of the eigenvector")
            U, sg, Vt = c11.fact(dict(runner.env, s=sc), lambda nm: False)
            if not s:
                U = [[-r[0], -r[1], r[2]] for r in U]
            K.write(ex, sp, sg)
            K.writem(ex, up, U)
            K.writem(ex, vp, Vt)
            return 1
        return {"vx_symeig": symeig, "vx_lusolve": lusolve, "vx_eigenvalues": eigenvalues, "vx_svd": svd}
    return setup


def candidates(env, st, out, o):
    for nm, c in c11.generating(4)(env, st, out[:48], o) if o.real else found(env, st, out, o):
        yield nm, c
    if not o.real:
        for nm, c in satisfied(env, st, out, o):
            yield nm, c


def found(env, st, out, o):
    ps = c11.isos(out, int(st))
    yield "the generating pose is a candidate", o.Or(*[o.And(o.veq(p, env["R"]), o.veq(t, env["n"])) for p, t in ps])


def satisfied(env, st, out, o):
    for k, (p, t) in enumerate(c11.isos(out, min(int(st), len(out) // 12))):
        E = mm(hat(t), p)
        yield "pose %d satisfies the epipolar equations" % k, o.And(*[o.eq(dot(b, mv(E, a)), 0) for a, b in env["ms"]])


def up(env, o):
    if o.real:
        return [o.gt(env["n"][2] * env["n"][2], 0)]
    # numerically, for the inputs that are run: general position
    ms = [(scale(1 / c19.size(a), a), scale(1 / c19.size(b), b)) for a, b in env["ms"]]
    return well({"ms": ms}, o) + [abs(x) - 0.03 for x in env["n"] + sum(env["R"], [])]


B = "all sets of five matches"
BP = "all rotations, all translation directions not parallel to the second image plane, all sets of five points (any depth ratio); all null-space bases, all solutions of the elimination"
ALL = dict(K.EIG9, **K.LU10, **K.EV10, **K.SVD10, **K.SVD3)
SETS = list(combinations(range(9), 4))
JOBS = [
    Job("basis-%d" % k, "h_five_basis", noisy, basis, assume=well, redirects=K.EIG9, setup=basis_setup(SETS[k::8]), bounds=B + "; the kernel at any four positions")
    for k in range(8)] + [
    Job("basis-refused", "h_five_basis", noisy, refused, redirects=K.EIG9, setup=K.symeig_any((1,)), validate=False, witness=(0,), bounds=B),
] + [Job("basis-nullity-%d" % k, "h_five_basis", noisy, refused, redirects=K.EIG9, setup=nullity(k), validate=False, witness=(0,), bounds=B) for k in (0, 3, 5, 9)] + [
    Job("nullity-%d" % k, "h_five_estimate", noisy_matches, refused, redirects=ALL, setup=nullity(k), validate=False, witness=(0,), bounds=B) for k in (3, 5)] + [
    Job("candidates", "h_five_estimate", view, candidates, assume=up, redirects=ALL, setup=solver(), witness=(4,), opts={"concretize": 32}, bounds=BP),
    Job("diverging", "h_five_estimate", view, refused, assume=up, redirects=ALL, setup=solver(diverge=True), validate=False, witness=(0,), bounds=BP),
    Job("singular", "h_five_estimate", view, refused, assume=up, redirects=ALL, setup=solver(fail=True), validate=False, witness=(0,), bounds=BP),
]
