"""C01: projective points are normalised to a unit bearing with non-negative homogeneous coordinate."""
from engine.job import Job, dot, cross, scale, vsub

ASSUMPTIONS = ["the bearing part of the input is non-zero (documented precondition of from_homogeneous)"]


def vec4(inp):
    v = inp.vec(4, "v")
    inp.put(v)
    return {"v": v}


def nonzero(env, o):
    v = env["v"]
    return [o.Or(*[o.ne(x, 0) for x in v[:3]])]


def normalised(env, st, out, o):
    v = env["v"]
    h, b = out[:4], out[4:7]
    yield "bearing is a unit vector", o.eq(dot(h[:3], h[:3]), 1)
    yield "homogeneous coordinate is not negative", o.ge(h[3], 0)
    yield "bearing() is the direction part", o.veq(b, h[:3])
    yield "output is parallel to the input", o.And(*[o.eq(h[i] * v[j], h[j] * v[i]) for i in range(4) for j in range(i)])
    yield "output has the input's sense, flipped only for negative w", \
        o.And(o.implies(o.gt(v[3], 0), o.gt(dot(h[:3], v[:3]), 0)), o.implies(o.lt(v[3], 0), o.lt(dot(h[:3], v[:3]), 0)))
    if st == 1:
        p = out[7:10]
        yield "point() times w is the bearing", o.veq(scale(v[3], p), v[:3])
        yield "point() exists only for w != 0", o.ne(h[3], 0)
    else:
        yield "point() is missing only for w = 0", o.eq(v[3], 0)


def idem(env, st, out, o):
    yield "normalising twice changes nothing", o.veq(out[:4], out[4:8])


def scaled_in(inp):
    v = inp.vec(4, "v")
    k = inp.free("k")
    inp.put(v, k)
    return {"v": v, "k": k}


def scaled(env, st, out, o):
    v, k = env["v"], env["k"]
    yield "scale by k != 0 gives the same projective point", \
        o.veq(out[:4], out[4:8])


def point_in(inp):
    p = inp.vec(3, "p")
    inp.put(p)
    return {"v": p}


def point(env, st, out, o):
    p = env["v"]
    yield "point() exists", st == 1
    h = out[:4]
    yield "bearing is a unit vector", o.eq(dot(h[:3], h[:3]), 1)
    yield "w is positive", o.gt(h[3], 0)
    if st == 1:
        yield "point() returns the point it was built from", o.veq(out[4:7], p)
        yield "bearing points from the origin to the point", o.gt(dot(h[:3], p), 0)


B = "all real 4-vectors with a non-zero bearing part; no loops"
JOBS = [
    Job("camera-point", "h_proj_camera", vec4, normalised, assume=nonzero, witness=(1,), bounds=B, opts={"zsign": True}),
    Job("world-point", "h_proj_world", vec4, normalised, assume=nonzero, witness=(1,), bounds=B, opts={"zsign": True}),
    Job("idempotent", "h_proj_again", vec4, idem, assume=lambda env, o: nonzero(env, o) + [o.ne(env["v"][3], 0)], bounds=B + "; w != 0"),
    Job("scale-invariant", "h_proj_scaled", scaled_in, scaled,
        assume=lambda env, o: nonzero(env, o) + [o.ne(env["k"], 0), o.ne(env["v"][3], 0)], bounds=B + "; w != 0, every non-zero factor"),
    Job("from-point", "h_from_point", point_in, point, assume=nonzero, bounds="all non-zero points of R^3"),
]
