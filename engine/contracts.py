"""Contracts for nalgebra's iterative decompositions: any result the mathematics allows is explored.

Each function returns a `setup` for a Job.  The exact contracts first check, for all inputs, that the
matrix handed to the decomposition has the stated factorisation; if it does not, the run stops with a
ContractMiss and that equation is put to the solver instead."""
from fractions import Fraction
from itertools import permutations
from . import poly as P, cond as C, exec as E
from .dom import NAN, PINF, Special

R = P.R
D8 = ("double",)

EIG = {r"SymmetricEigen<f64, nalgebra[^>]*Const<%d>>>::do_decompose$" % n: "stub_symeig%d" % n for n in (3, 4, 9)}
EIG4 = {k: v for k, v in EIG.items() if v.endswith("4")}
EIG9 = {k: v for k, v in EIG.items() if v.endswith("9")}
SVD3 = {r"svd::SVD<f64, nalgebra[^>]*Const<3>, nalgebra[^>]*Const<3>>>::try_new_unordered$": "stub_svd3"}
SVD4 = {r"svd::SVD<f64, nalgebra[^>]*Const<4>, nalgebra[^>]*Const<4>>>::try_new_unordered$": "stub_svd4"}
SVD10 = {r"svd::SVD<f64, nalgebra[^>]*Const<10>, nalgebra[^>]*Const<10>>>::try_new_unordered$": "stub_svd10"}
LU10 = {r"FullPivLU<f64, nalgebra[^>]*Const<10>, nalgebra[^>]*Const<10>>>::new$": "stub_lu10",
        r"FullPivLU<f64, nalgebra[^>]*Const<10>, nalgebra[^>]*Const<10>>>::solve_mut(::<.*>)?$": "stub_lu_solve10"}
ROT = {r"Rotation<f64, 3>>::from_matrix_eps$": "stub_nearest_rotation"}
EV10 = {r"Const<10>, nalgebra[^>]*Const<10>, .*>>::complex_eigenvalues$": "stub_eigenvalues10",
        r"Schur<f64, nalgebra[^>]*Const<10>>>::try_new$": "stub_schur10",
        r"Schur<f64, nalgebra[^>]*Const<10>>>::complex_eigenvalues$": "stub_schur_values10"}
CUBIC = {r"^lambda_twist(\[[0-9a-f]*\])?::cube_root$": "stub_cubic"}


class ContractMiss(Exception):
    def __init__(self, why, claims):
        Exception.__init__(self, why)
        self.claims = claims    # [(name, fn(ops))]


def read(ex, p, n):
    out = []
    for i in range(n):
        v = ex.load(D8, p + 8 * i)
        if isinstance(v, E.Bits):
            v = v.v
        if isinstance(v, float):
            v = ex.dom.const(v)
        out.append(v)
    return out


def readm(ex, p, r, c):
    """Column-major storage to a list of rows."""
    v = read(ex, p, r * c)
    return [[v[j * r + i] for j in range(c)] for i in range(r)]


def write(ex, p, vals):
    for i, v in enumerate(vals):
        ex.store(p + 8 * i, D8, v if isinstance(v, Special) else P.lift(v))


def writem(ex, p, m):
    r, c = len(m), len(m[0])
    write(ex, p, [m[i][j] for j in range(c) for i in range(r)])


def count(ex, tag):
    return ex.st.ops.get("cx" + tag, 0)


def bump(ex, tag):
    ex.st.ops["cx" + tag] = ex.st.ops.get("cx" + tag, 0) + 1


def choice(ex, name):
    return bool(ex.decide(("b", "cx_" + name)))


def pick(ex, name, n):
    """One of n alternatives, all explored."""
    for k in range(n - 1):
        if choice(ex, "%s_%d" % (name, k)):
            return k
    return n - 1


def fresh(name, val, pos=False):
    key = ("cx", name)
    a = P.CTX.by_key.get(key)
    if a is None:
        a = P.CTX.atom("x" + name, "fn", (lambda sm: val), key)
        if pos:
            a.nonneg = True
    return R.var(a)


def positive(ex, name, val):
    v = fresh(name, val, True)
    ex.st.path.add(C.rel(">", v))
    return v


def finite(m):
    return all(isinstance(x, R) for r in m for x in r)


def zeros(rows):
    """Which of the expressions are not identically zero."""
    return [(k, x) for k, x in enumerate(rows) if not x.is_zero()]


def need_zero(exprs, what):
    bad = zeros(exprs)
    if bad:
        raise ContractMiss(what, [("%s [%d]" % (what, k), (lambda ops, x=x: ops.eq(x, 0))) for k, x in bad])


def symeig_null(xs, positions=True, what="the matrix of the linear system annihilates the observed point", fail=False):
    """Noise-free: the symmetric positive semidefinite matrix has the null vector xs (unique up to scale)."""
    def setup(runner):
        def h(ex, args, ins):
            n, mp, vp, ep = args
            n = ex.force(n)
            X = xs(runner.env)
            t = count(ex, "symeig")
            M = readm(ex, mp, n, n)
            if not finite(M):
                raise E.Unsupported("special value in the matrix")
            need_zero([sum((M[max(i, j)][min(i, j)] * X[j] for j in range(n)), P.ZERO) for i in range(n)], what)
            if fail and choice(ex, "fail%d" % t):
                bump(ex, "symeig")
                return 0
            k = pick(ex, "pos%d" % t, n) if positions else 0
            s = choice(ex, "sign%d" % t)
            sc = positive(ex, "scale%d" % t, 0.5)
            vals, cols = [], []
            for j in range(n):
                if j == k:
                    vals.append(P.ZERO)
                    cols.append([(sc if s else -sc) * x for x in X])
                else:
                    vals.append(other(ex, t, j, k))
                    cols.append([fresh("vec%d_%d_%d" % (t, j, i), 0.3 + 0.1 * i - 0.05 * j) for i in range(n)])
            write(ex, vp, vals)
            write(ex, ep, [x for c in cols for x in c])
            bump(ex, "symeig")
            return 1
        return {"vx_symeig": h}
    return setup


def other(ex, t, j, k):
    """An eigenvalue other than the zero at position k: any positive number, in any order up to k = 4, then in a fixed mixed one."""
    return positive(ex, "ev%d_%d" % (t, j), 1.0 + j) if k <= 4 else R.const((5 * j + 3) % 11 + 1)


def symeig_form(rows, kernel, what="the matrix is the sum of the squared equations"):
    """The matrix is the sum of r r^T over rows(env): its kernel is the solution kernel(env, fresh) -> (entries, facts) of all
    equations, returned at any position with any sign and scale."""
    def setup(runner):
        def h(ex, args, ins):
            n, mp, vp, ep = args
            n = ex.force(n)
            t = count(ex, "symeig")
            M = readm(ex, mp, n, n)
            if not finite(M):
                raise E.Unsupported("special value in the matrix")
            rs = rows(runner.env)
            # only the lower triangle is read by the decomposition
            need_zero([M[i][j] - sum((r[i] * r[j] for r in rs), P.ZERO) for i in range(n) for j in range(i + 1)], what)
            X, facts = kernel(runner.env, lambda nm, v: fresh("%s%d" % (nm, t), v))
            for c in facts:
                ex.st.path.add(c)
            k = pick(ex, "pos%d" % t, n)
            s = choice(ex, "sign%d" % t)
            sc = positive(ex, "scale%d" % t, 0.5)
            vals = [P.ZERO if j == k else other(ex, t, j, k) for j in range(n)]
            cols = [[fresh("vec%d_%d_%d" % (t, j, i), 0.3 + 0.1 * i - 0.05 * j) for i in range(n)] for j in range(n)]
            cols[k] = [(sc if s else -sc) * x for x in X]
            write(ex, vp, vals)
            write(ex, ep, [x for c in cols for x in c])
            bump(ex, "symeig")
            return 1
        return {"vx_symeig": h}
    return setup


def symeig_any(kinds=(0, 1, 2), first=True):
    """Anything at all: 0 arbitrary finite eigenpairs, 1 failure, 2 NaN."""
    def setup(runner):
        def h(ex, args, ins):
            n, mp, vp, ep = args
            n = ex.force(n)
            t = count(ex, "symeig")
            k = kinds[pick(ex, "kind%d" % t, len(kinds))]
            if k == 1:
                bump(ex, "symeig")
                return 0
            if k == 2:
                write(ex, vp, [NAN] * n)
                write(ex, ep, [NAN] * (n * n))
            else:
                # a permutation of the pairs is another arbitrary choice: the first one is the smallest
                vals = [fresh("ev%d_%d" % (t, j), float(j)) for j in range(n)]
                if first:
                    vals = [P.ZERO] + [positive(ex, "ev%d_%d" % (t, j), 1.0 + j) for j in range(1, n)]
                write(ex, vp, vals)
                write(ex, ep, [fresh("vec%d_%d_%d" % (t, j, i), 0.4 + 0.1 * i - 0.07 * j) for j in range(n) for i in range(n)])
            bump(ex, "symeig")
            return 1
        return {"vx_symeig": h}
    return setup


def symeig_vec(vec):
    """The eigenvector of the smallest eigenvalue is vec(env, fresh) -> (entries, facts), for every value of the fresh reals."""
    def setup(runner):
        def h(ex, args, ins):
            n, mp, vp, ep = args
            n = ex.force(n)
            t = count(ex, "symeig")
            X, facts = vec(runner.env, lambda nm, v: fresh("%s%d" % (nm, t), v))
            for c in facts:
                ex.st.path.add(c)
            write(ex, vp, [P.ZERO] + [positive(ex, "ev%d_%d" % (t, j), 1.0 + j) for j in range(1, n)])
            write(ex, ep, list(X) + [fresh("vec%d_%d_%d" % (t, j, i), 0.4 + 0.1 * i - 0.07 * j) for j in range(1, n) for i in range(n)])
            bump(ex, "symeig")
            return 1
        return {"vx_symeig": h}
    return setup


def svd_null(xs, n, what="the design matrix annihilates the observed point"):
    """Noise-free: the n x n matrix has the right null vector xs (unique up to scale)."""
    def setup(runner):
        def h(ex, args, ins):
            _, mp, flags, sp, up, vp = args
            X = xs(runner.env)
            t = count(ex, "svd")
            M = readm(ex, mp, n, n)
            if not finite(M):
                raise E.Unsupported("special value in the matrix")
            need_zero([sum((M[i][j] * X[j] for j in range(n)), P.ZERO) for i in range(n)], what)
            k = pick(ex, "pos%d" % t, n)
            s = choice(ex, "sign%d" % t)
            sc = positive(ex, "scale%d" % t, 0.5)
            vals = [P.ZERO]
            for j in range(n - 1):
                vals.append(vals[-1] + positive(ex, "sv%d_%d" % (t, j), 1.0 + j))
            vals = vals[1:][::-1]
            vals.insert(k, P.ZERO)
            V = [[(sc if s else -sc) * x for x in X] if j == k else
                 [fresh("vec%d_%d_%d" % (t, j, i), 0.3 + 0.1 * i - 0.05 * j) for i in range(n)] for j in range(n)]
            U = [[fresh("uvec%d_%d_%d" % (t, j, i), 0.2 + 0.1 * i - 0.05 * j) for i in range(n)] for j in range(n)]
            write(ex, sp, vals)
            writem(ex, up, U)
            writem(ex, vp, V)
            bump(ex, "svd")
            return 1
        return {"vx_svd": h}
    return setup


def svd_any(n, kinds=(0, 1, 2)):
    """Anything at all: 0 arbitrary finite factors, 1 failure, 2 NaN."""
    def setup(runner):
        def h(ex, args, ins):
            _, mp, flags, sp, up, vp = args
            t = count(ex, "svd")
            k = kinds[pick(ex, "kind%d" % t, len(kinds))]
            if k == 1:
                bump(ex, "svd")
                return 0
            if k == 2:
                write(ex, sp, [NAN] * n)
                write(ex, up, [NAN] * (n * n))
                write(ex, vp, [NAN] * (n * n))
            else:
                vals = [P.ZERO]
                for j in range(n):
                    vals.append(vals[-1] + positive(ex, "sv%d_%d" % (t, j), 1.0 + j))
                write(ex, sp, vals[1:][::-1])
                write(ex, vp, [fresh("vec%d_%d_%d" % (t, j, i), 0.4 + 0.1 * i - 0.07 * j) for j in range(n) for i in range(n)])
                write(ex, up, [fresh("uvec%d_%d_%d" % (t, j, i), 0.4 + 0.1 * i - 0.07 * j) for j in range(n) for i in range(n)])
            bump(ex, "svd")
            return 1
        return {"vx_svd": h}
    return setup


def svd_vec(vec, n=4):
    """The right singular vector of the smallest singular value is vec(env, fresh) -> (entries, facts)."""
    def setup(runner):
        def h(ex, args, ins):
            _, mp, flags, sp, up, vp = args
            t = count(ex, "svd")
            X, facts = vec(runner.env, lambda nm, v: fresh("%s%d" % (nm, t), v))
            for c in facts:
                ex.st.path.add(c)
            write(ex, sp, [R.const(n - j) for j in range(n - 1)] + [P.ZERO])
            writem(ex, up, [[fresh("uvec%d_%d_%d" % (t, j, i), 0.4 + 0.1 * i - 0.07 * j) for i in range(n)] for j in range(n)])
            writem(ex, vp, [[fresh("vec%d_%d_%d" % (t, j, i), 0.4 + 0.1 * i - 0.07 * j) for i in range(n)] for j in range(n - 1)] + [list(X)])
            bump(ex, "svd")
            return 1
        return {"vx_svd": h}
    return setup


def svd_exact(fact, what="the matrix handed to the decomposition is the essential matrix", perms=None):
    """fact(env, flag) -> (U rows, s list, Vt rows) with M = U diag(s) Vt for all inputs; the sign choices come from
    flag(name), and the singular values are returned in every order of `perms` (default: all)."""
    def setup(runner):
        def h(ex, args, ins):
            n, mp, flags, sp, up, vp = args
            n = ex.force(n)
            t = count(ex, "svd")
            M = readm(ex, mp, n, n)
            if not finite(M):
                raise E.Unsupported("special value in the matrix")
            U, s, Vt = fact(runner.env, lambda nm: choice(ex, "%s%d" % (nm, t)))
            need_zero([M[i][j] - sum((U[i][k] * s[k] * Vt[k][j] for k in range(n)), P.ZERO) for i in range(n) for j in range(n)], what)
            ps = list(permutations(range(n))) if perms is None else perms
            o = ps[pick(ex, "perm%d" % t, len(ps))]
            write(ex, sp, [s[k] for k in o])
            writem(ex, up, [[U[i][k] for k in o] for i in range(n)])
            writem(ex, vp, [Vt[k] for k in o])
            bump(ex, "svd")
            return 1
        return {"vx_svd": h}
    return setup


def both(*setups):
    def setup(runner):
        d = {}
        for s in setups:
            d.update(s(runner))
        return d
    return setup
