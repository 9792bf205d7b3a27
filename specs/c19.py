"""C19: the eight-point estimator."""
from engine.job import Job, fault, mm, tr, mat, hat, scale, dot, vadd, vsub, mv
from engine import contracts as K, poly as P, cond as C
from . import c11
import numpy
import math

ASSUMPTIONS = ["the symmetric eigen decomposition returns any eigenvectors of the matrix, in any order and with any signs and scales, and the singular value "
               "decomposition any factors its mathematics allows (their iterations are not executed)",
               "the eight matches determine the matrix (the least eigenvalue is simple)"]


def bearing(inp, nm, p):
    """The bearing along p, to either side."""
    inp.put(scale(inp.normaliser(nm, dot(p, p)), p))


def plane(inp, nm):
    return [inp.free(nm + "x"), inp.free(nm + "y"), P.ONE]


def size(v):
    return math.sqrt(dot(v, v))


def row(a, b):
    """The epipolar equation of a match, in the order of the entries of the matrix, column by column."""
    return [x * y for x in a for y in b]


def noisy(inp):
    ms = []
    for k in range(8):
        a, b = plane(inp, "a%d" % k), plane(inp, "b%d" % k)
        bearing(inp, "wa%d" % k, a)
        bearing(inp, "wb%d" % k, b)
        ms.append((a, b))
    return {"ms": ms, "rows": [row(a, b) for a, b in ms]}


def kernel(env, fresh):
    """What annihilates the equations: eight equations for nine unknowns always have a solution."""
    X = [fresh("x%d" % i, 0.3 - 0.1 * i) for i in range(9)]
    return X, [C.rel("=", dot(r, X)) for r in env["rows"]]


def solves(env, st, out, o):
    """out: the matrix, row by row"""
    E = mat(out, 3, 3)
    for k, (a, b) in enumerate(env["ms"]):
        yield "match %d has epipolar residual zero" % k, o.eq(dot(b, mv(E, a)), 0)


def pose(inp, count=8):
    """A camera pair (any rotation, unit translation t with t_z != 0) that sees eight points."""
    R = mm(inp.rot1("rz", 2), mm(inp.rot1("ry", 1), inp.rot1("rx", 0)))
    N = mm(inp.rot1("nz", 2), inp.rot1("ny", 1))
    n = [r[2] for r in N]
    ms = []
    for k in range(count):
        a, h = plane(inp, "a%d" % k), inp.free("h%d" % k)
        q = mv(R, a)
        # in the plane of n and q, with third component n_z
        b = [n[i] + h * (n[2] * q[i] - q[2] * n[i]) for i in range(2)] + [n[2]]
        bearing(inp, "wa%d" % k, a)
        bearing(inp, "wb%d" % k, b)
        ms.append((a, b))
    E = mm(hat(n), R)
    return {"ms": ms, "E": E, "R": R, "n": n, "A": N, "Bt": mm(mm(c11.W, tr(N)), R), "s": 1}


def column(env):
    return [env["E"][i][j] for j in range(3) for i in range(3)]


def well(env, o):
    """Numerically, for the inputs that are run: the matches determine the matrix."""
    if o.real:
        return []
    v = numpy.linalg.svd(numpy.array([[float(x * y) for x in scale(1 / a[2], a) for y in scale(1 / b[2], b)] for a, b in env["ms"]]), compute_uv=False)
    return [float(v[7] / v[0]) - 1e-3]


def up(env, o):
    return [o.gt(env["n"][2] * env["n"][2], 0)] + well(env, o)


def fact(env, flag):
    """The factors of what the eigen decomposition returned: a multiple of the essential matrix of either sign."""
    a = P.CTX.by_key[("cx", "scale0")]
    U, s, Vt = c11.fact(dict(env, s=P.R.var(a)), flag)
    if not flag("sign"):
        U = [[-r[0], -r[1], r[2]] for r in U]
    return U, s, Vt


@fault
def refused(env, st, out, o):
    yield "a failed decomposition is refused", o.eq(st, 0)


B = "all sets of eight matches with bearings on either side of the image planes"
BP = "all rotations, all translation directions not parallel to the second image plane, all sets of eight points (any depth ratio)"
JOBS = [
    Job("matrix", "h_ep_matrix", noisy, solves, assume=well, redirects=K.EIG9, setup=K.symeig_form(lambda env: env["rows"], kernel), bounds=B + "; any position, sign and scale of the eigenvector"),
    Job("matrix-refused", "h_ep_matrix", noisy, refused, redirects=K.EIG9, setup=K.symeig_any((1,)), validate=False, witness=(0,), bounds=B),
    Job("matrix-pose", "h_ep_matrix", pose, solves, assume=up, redirects=K.EIG9, setup=K.symeig_null(column), bounds=BP),
    Job("poses", "h_ep_estimate", pose, c11.generating(4), assume=up, redirects=dict(K.EIG9, **K.SVD3), witness=(4,),
        setup=K.both(K.symeig_null(column, positions=False), K.svd_exact(fact, perms=[(0, 1, 2)])), bounds=BP),
    Job("poses-refused", "h_ep_estimate", noisy, refused, redirects=dict(K.EIG9, **K.SVD3), validate=False, witness=(0,),
        setup=K.both(K.symeig_any((0, 1)), K.svd_any(3, (1,))), bounds=B),
]
