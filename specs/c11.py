"""C11: decomposition of essential matrices into rotations and translations."""
from engine.job import Job, fault, mm, mv, tr, mat, hat, scale, eye, det3 as det
from engine import contracts as K

ASSUMPTIONS = ["the singular value decomposition returns any factors its mathematics allows, in descending order and with any signs "
               "(its iterations are not executed)", "the scale of the essential matrix is in [2^-40, 2^40]"]
W = [[0, -1, 0], [1, 0, 0], [0, 0, 1]]
WT = tr(W)


def factors_in(inp):
    """E = s A diag(1, 1, 0) B^T: every essential matrix."""
    A, B, s = inp.rot("a"), inp.rot("b"), inp.pos("s")
    Bt = tr(B)
    E = [[s * (A[i][0] * Bt[0][j] + A[i][1] * Bt[1][j]) for j in range(3)] for i in range(3)]
    inp.put(E)
    return {"A": A, "Bt": Bt, "s": s, "E": E, "rots": [mm(mm(A, W), Bt), mm(mm(A, WT), Bt)], "n": [r[2] for r in A]}


def factors_eps_in(inp):
    e = factors_in(inp)
    inp.put(1e-12)
    return e


def pose_in(inp):
    """E = hat(t) R with t = s n, and n the last column of a rotation."""
    R, N, s = inp.rot("q"), inp.rot("n"), inp.pos("s")
    n = [r[2] for r in N]
    E = mm(hat(scale(s, n)), R)
    inp.put(E)
    return {"A": N, "Bt": mm(mm(W, tr(N)), R), "s": s, "E": E, "R": R, "n": n}


def fact(env, flag):
    f = -1 if flag("refl") else 1
    e1 = -1 if flag("su") else 1
    e2 = -1 if flag("sv") else 1
    A, Bt, s = env["A"], env["Bt"], env["s"]
    U = [[r[0], f * r[1], e1 * r[2]] for r in A]
    V = [Bt[0], [f * x for x in Bt[1]], [e2 * x for x in Bt[2]]]
    return U, [s, s, s * 0], V


def same(o, a, b):
    return o.veq(a, b)


def proper(o, R):
    return o.And(o.veq(mm(tr(R), R), eye(3)), o.eq(det(R), 1))


def generates(env, o, t, R):
    G = mm(hat(scale(env["s"], t)), R)
    return o.Or(o.veq(G, env["E"]), o.veq(G, scale(-1, env["E"])))


def rotations(env, st, out, o):
    yield "a decomposition is returned", o.eq(st, 1)
    Ra, Rb, t = mat(out[:9], 3, 3), mat(out[9:18], 3, 3), out[18:21]
    yield "rotation a is proper", proper(o, Ra)
    yield "rotation b is proper", proper(o, Rb)
    yield "translation has unit length", o.eq(sum(x * x for x in t), 1)
    yield "rotation a generates the matrix up to sign", generates(env, o, t, Ra)
    yield "rotation b generates the matrix up to sign", generates(env, o, t, Rb)
    for k in range(2):
        yield "solution %d is found" % k, o.Or(o.veq(Ra, env["rots"][k]), o.veq(Rb, env["rots"][k]))


def rotations2(env, st, out, o):
    Ra, Rb = mat(out[:9], 3, 3), mat(out[9:18], 3, 3)
    for k in range(2):
        yield "solution %d is found" % k, o.Or(o.veq(Ra, env["rots"][k]), o.veq(Rb, env["rots"][k]))


def isos(out, n):
    return [(mat(out[12 * k:12 * k + 9], 3, 3), out[12 * k + 9:12 * k + 12]) for k in range(n)]


def four(env, st, out, o):
    ps = isos(out, 4)
    for k, R in enumerate(env["rots"]):
        for s in (1, -1):
            yield "pose with solution %d and translation %+d is a candidate" % (k, s), o.Or(
                *[o.And(o.veq(p, R), o.veq(t, scale(s, env["n"]))) for p, t in ps])


def two(env, st, out, o):
    ps = isos(out, 2)
    for k, R in enumerate(env["rots"]):
        yield "pose with solution %d is a candidate" % k, o.Or(
            *[o.And(o.veq(p, R), o.Or(o.veq(t, env["n"]), o.veq(t, scale(-1, env["n"])))) for p, t in ps])


def generating(n):
    def c(env, st, out, o):
        ps = isos(out, n)
        if n == 4:
            yield "the generating pose is a candidate", o.Or(*[o.And(o.veq(p, env["R"]), o.veq(t, env["n"])) for p, t in ps])
        else:
            yield "the generating pose is a candidate up to the direction", o.Or(
                *[o.And(o.veq(p, env["R"]), o.Or(o.veq(t, env["n"]), o.veq(t, scale(-1, env["n"])))) for p, t in ps])
    return c


@fault
def refused(env, st, out, o):
    yield "a failed decomposition is refused", o.eq(st, 0)


def any_in(h):
    def b(inp):
        m = inp.vec(9, "m")
        inp.put(m)
        if h == "h_ess_rotations":
            inp.put(1e-12)
        return {"m": m}
    return b


B = "every essential matrix (two rotations, scale in [2^-40, 2^40]); every sign, reflection and order (descending) the decomposition may return"
X = dict(redirects=K.SVD3, setup=K.svd_exact(fact, perms=[(0, 1, 2), (1, 0, 2)]))
JOBS = [
    Job("rotations-translation", "h_ess_rotations", factors_eps_in, rotations, bounds=B, **X),
    Job("rotations", "h_ess_rotations2", factors_in, rotations2, bounds=B, **X),
    Job("poses", "h_ess_poses", factors_in, four, bounds=B, **X),
    Job("poses-bearing", "h_ess_poses_bearing", factors_in, two, bounds=B, **X),
    Job("generating", "h_ess_poses", pose_in, generating(4), bounds="every rotation and translation direction, scale in [2^-40, 2^40]", **X),
    Job("generating-bearing", "h_ess_poses_bearing", pose_in, generating(2), bounds="every rotation and translation direction, scale in [2^-40, 2^40]", **X),
] + [Job("refused-" + h[6:], h, any_in(h), refused, redirects=K.SVD3, setup=K.svd_any(3, (1,)), validate=False, witness=(0,),
          bounds="every matrix; the decomposition fails to converge")
     for h in ("h_ess_rotations", "h_ess_rotations2", "h_ess_poses", "h_ess_poses_bearing")]
