"""C12: reconditioning projects a matrix onto the essential matrices."""
from engine.job import Job, mm, mat, tr
from engine import contracts as K, cond as C
from . import c11

ASSUMPTIONS = ["the singular value decomposition returns any factors its mathematics allows, singular values descending, with "
               "any signs (its iterations are not executed)"]


def prod(A, s, Bt):
    return [[sum((s[k] * A[i][k] * Bt[k][j] for k in range(1, 3)), s[0] * A[i][0] * Bt[0][j]) for j in range(3)] for i in range(3)]


def ordered(neg):
    def b(inp):
        A, B = inp.rot("a"), inp.rot("b")
        s2, d1, d0 = inp.free("s2", 0), inp.free("d1", 0), inp.free("d0", 0)
        s = [s2 + d1 + d0, s2 + d1, s2]
        Bt = tr(B)
        inp.put(prod(A, s[:2] + [neg * s2], Bt))
        return {"A": A, "Bt": Bt, "s": s, "neg": neg}
    return b


def fact(env, flag):
    """Any pair of factors: signs of the three singular vector pairs."""
    e = [-1 if flag("s%d" % k) else 1 for k in range(3)]
    U = [[e[k] * r[k] for k in range(3)] for r in env["A"]]
    V = [[e[k] * x for x in env["Bt"][k]] for k in range(2)]
    V.append([e[2] * env["neg"] * x for x in env["Bt"][2]])
    return U, env["s"], V


def projected(env, st, out, o):
    m = (env["s"][0] + env["s"][1]) / 2
    yield "the two larger singular values become their mean and the smallest zero", o.veq(
        mat(out[:9], 3, 3), prod(env["A"], [m, m, m * 0], env["Bt"]))


def essential_in(inp):
    A, B, s = inp.rot("a"), inp.rot("b"), inp.pos("s")
    Bt = tr(B)
    E = prod(A, [s, s, s * 0], Bt)
    inp.put(E)
    return {"A": A, "Bt": Bt, "s": s, "E": E}


def unchanged(env, st, out, o):
    yield "an essential matrix is unchanged", o.veq(mat(out[:9], 3, 3), env["E"])


X = dict(redirects=K.SVD3)
B = "all singular vectors, singular values s0 >= s1 >= s2 >= 0; any signs of the singular vectors"
JOBS = [
    Job("project", "h_ess_recondition", ordered(1), projected, setup=K.svd_exact(fact, perms=[(0, 1, 2)]), bounds=B + "; determinant >= 0", **X),
    Job("project-negative", "h_ess_recondition", ordered(-1), projected, setup=K.svd_exact(fact, perms=[(0, 1, 2)]), bounds=B + "; determinant <= 0", **X),
    Job("essential", "h_ess_recondition", essential_in, unchanged, setup=K.svd_exact(c11.fact, perms=[(0, 1, 2), (1, 0, 2)]), bounds=c11.B, **X),
    Job("refused", "h_ess_recondition", c11.any_in(""), c11.refused, setup=K.svd_any(3, (1,)), validate=False, witness=(0,),
        bounds="every matrix; the decomposition fails to converge", **X),
]
