"""C10: the essential matrix of a pose, and the epipolar residual."""
from engine.job import Job, dot, mm, mv, cross, scale, vadd, hat, mat

ASSUMPTIONS = ["bearings have a non-zero z (the residual divides by it)"]


def pose_in(inp):
    r, t = inp.rot("q"), inp.vec(3, "t")
    inp.put(r, t)
    return {"r": r, "t": t}


def of_pose(env, st, out, o):
    yield "essential matrix is hat(t) R", o.veq(mat(out[:9], 3, 3), mm(hat(env["t"]), env["r"]))


def res_in(inp):
    m = inp.vec(9, "m")
    a, b = inp.unit("a"), inp.unit("b")
    inp.put(m, a, b)
    return {"m": m, "a": a, "b": b}


def front(env, o):
    return [o.ne(env["a"][2], 0), o.ne(env["b"][2], 0)]


def residual(env, st, out, o):
    m, a, b, r = mat(env["m"], 3, 3), env["a"], env["b"], out[0]
    v = dot(b, mv(m, a))
    s = r * a[2] * b[2]
    yield "residual is |b^T E a| on the image planes", o.Or(o.eq(s, v), o.eq(s, -v))
    yield "residual is not negative", o.ge(r, 0)


def match_in(inp):
    """A point seen by both cameras: depths d1, d2 along a and b, t := d2 b - d1 R a."""
    r = inp.rot("q")
    a, b = inp.unit("a"), inp.unit("b")
    d1, d2 = inp.pos("d1"), inp.pos("d2")
    t = [d2 * y - d1 * x for x, y in zip(mv(r, a), b)]
    inp.put(r, t, a, b)
    return {"a": a, "b": b}


def pose_residual(env, st, out, o):
    yield "a match of the same point has residual zero", o.eq(out[0], 0)


JOBS = [
    Job("of-pose", "h_ess_of_pose", pose_in, of_pose, bounds="all rotations and translations"),
    Job("residual", "h_ess_residual", res_in, residual, assume=front, bounds="all 3x3 matrices, all bearings with z != 0"),
    Job("noise-free", "h_ess_pose_residual", match_in, pose_residual, assume=front,
        bounds="all rotations, all bearing pairs with z != 0, depths in [2^-40, 2^40] (every noise-free match up to scale)"),
]
