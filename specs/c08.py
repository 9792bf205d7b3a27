"""C08: the K1 radial distortion model: undistortion by 1/(1 + k1 r^2), its inverse, and the points without an image."""
from fractions import Fraction
from engine.job import Job, dot, mat

ASSUMPTIONS = ["focal lengths are not zero", "distorted points on the circle 1 + k1 r^2 = 0 are excluded (no undistorted point exists)"]


def cam(inp):
    f, pp, s, k = inp.vec(2, "f"), inp.vec(2, "c"), inp.free("s"), inp.free("k")
    inp.put(f, pp, s, k)
    return {"f": f, "pp": pp, "s": s, "k": k, "K": [[f[0], s, pp[0]], [0, f[1], pp[1]], [0, 0, 1]]}


def pixel_in(inp):
    """A pixel given by its normalised distorted coordinates d."""
    env = cam(inp)
    d = env["d"] = inp.vec(2, "d", span=2)
    f, pp, s = env["f"], env["pp"], env["s"]
    env["p"] = [f[0] * d[0] + s * d[1] + pp[0], f[1] * d[1] + pp[1]]
    inp.put(env["p"])
    return env


def bearing_in(inp):
    env = cam(inp)
    env["b"] = inp.unit("b")
    inp.put(env["b"])
    return env


def focal(env, o):
    return [o.ne(env["f"][0], 0), o.ne(env["f"][1], 0)]


def regular(env, o):
    d, k = env["d"], env["k"]
    return focal(env, o) + [o.ne(1 + k * dot(d, d), 0)]


def cal(env, st, out, o):
    b, d, k = out[:3], env["d"], env["k"]
    yield "bearing is a unit vector", o.eq(dot(b, b), 1)
    yield "bearing points forwards", o.gt(b[2], 0)
    yield "undistorted point is d / (1 + k1 |d|^2)", o.veq([(1 + k * dot(d, d)) * x for x in b[:2]], [b[2] * x for x in d])


def monotone(env, o):
    """The part of the image on which distortion is invertible: k1 |d|^2 < 1."""
    d, k = env["d"], env["k"]
    return regular(env, o) + [o.lt(k * dot(d, d), 1), o.gt(k * dot(d, d), -1)]


def round_pixel(env, st, out, o):
    yield "the pixel exists", st == 1
    if st == 1:
        yield "uncalibrate undoes calibrate", o.veq(out[:2], env["p"])


def front(env, o):
    return [o.ne(env["b"][2], 0)]


def uncal(env, st, out, o):
    b, k, f, pp, s = (env[x] for x in ("b", "k", "f", "pp", "s"))
    r2 = b[0] * b[0] + b[1] * b[1]
    disc = b[2] * b[2] - 4 * k * r2
    if st == 1:
        yield "only bearings in front have a pixel", o.gt(b[2], 0)
        yield "only reachable bearings have a pixel", o.ge(disc, 0)
        y = (out[1] - pp[1]) / f[1]
        x = (out[0] - pp[0] - s * y) / f[0]
        q = x * x + y * y
        yield "distorting the pixel's undistortion gives the bearing", o.veq([b[2] * x, b[2] * y], [(1 + k * q) * b[0], (1 + k * q) * b[1]])
        yield "the smaller solution is chosen", o.le(k * q, 1)
    else:
        yield "reachable bearings in front have a pixel", o.Or(o.lt(b[2], 0), o.lt(disc, 0))


def round_bearing(env, st, out, o):
    if st == 1:
        yield "calibrate undoes uncalibrate", o.veq(out[:3], env["b"])


def zero_in(inp):
    f, pp, s = inp.vec(2, "f"), inp.vec(2, "c"), inp.free("s")
    b = inp.unit("b")
    inp.put(f, pp, s, 0, b)
    return {"f": f, "pp": pp, "s": s, "b": b, "K": [[f[0], s, pp[0]], [0, f[1], pp[1]], [0, 0, 1]]}


def nodist(env, st, out, o):
    b = env["b"]
    if st == 1:
        yield "without distortion the pixel is K bearing", o.veq([b[2] * x for x in out[:2]], [dot(r, b) for r in env["K"][:2]])
    else:
        yield "without distortion every bearing in front has a pixel", o.lt(b[2], 0)


def axis_in(inp):
    env = cam(inp)
    inp.put(0, 0, 1)
    return env


def axis(env, st, out, o):
    yield "the optical axis has a pixel", st == 1
    if st == 1:
        yield "the optical axis maps to the principal point", o.veq(out[:2], env["pp"])


B = "all intrinsics with non-zero focal lengths, all distortion coefficients"
JOBS = [
    Job("calibrate", "h_k1_cal", pixel_in, cal, assume=regular, bounds=B + ", all pixels off the singular circle"),
    Job("uncalibrate", "h_k1_uncal", bearing_in, uncal, assume=lambda e, o: focal(e, o) + front(e, o),
        bounds=B + ", all unit bearings with z != 0"),
    Job("pixel-round-trip", "h_k1_round_pixel", pixel_in, round_pixel, assume=monotone, bounds=B + ", all pixels with |k1| r^2 < 1"),
    Job("bearing-round-trip", "h_k1_round_bearing", bearing_in, round_bearing, assume=lambda e, o: focal(e, o) + front(e, o) + [o.ne(e["k"], 0)],
        bounds=B + ", all unit bearings with z != 0"),
    Job("no-distortion", "h_k1_uncal", zero_in, nodist, assume=front, bounds="all intrinsics, k1 = 0, all unit bearings with z != 0"),
    Job("optical-axis", "h_k1_uncal", axis_in, axis, bounds="all intrinsics and k1"),
]
