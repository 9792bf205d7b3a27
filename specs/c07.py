"""C07: the pinhole model maps pixels to bearings and back as its intrinsic matrix says."""
from fractions import Fraction
from engine.job import Job, dot, mat, mv

ASSUMPTIONS = ["focal lengths are not zero", "pixel coordinates are finite"]


def cam(inp):
    f, pp, s = inp.vec(2, "f"), inp.vec(2, "c"), inp.free("s")
    inp.put(f, pp, s)
    return {"f": f, "pp": pp, "s": s, "K": [[f[0], s, pp[0]], [0, f[1], pp[1]], [0, 0, 1]]}


def pixel_in(inp):
    env = cam(inp)
    env["p"] = inp.vec(2, "p")
    inp.put(env["p"])
    return env


def bearing_in(inp):
    env = cam(inp)
    env["b"] = inp.unit("b")
    inp.put(env["b"])
    return env


def focal(env, o):
    return [o.ne(env["f"][0], 0), o.ne(env["f"][1], 0)]


def kmul(K, v):
    return [dot(r, v) for r in K]


def cal(env, st, out, o):
    b = out[:3]
    k = kmul(env["K"], b)
    yield "bearing is a unit vector", o.eq(dot(b, b), 1)
    yield "bearing points forwards", o.gt(b[2], 0)
    yield "K bearing is the pixel", o.veq(k[:2], [b[2] * x for x in env["p"]])


def uncal(env, st, out, o):
    b = env["b"]
    k = kmul(env["K"], b)
    if st == 1:
        yield "only bearings in front have a pixel", o.ge(b[2], 0)
        yield "pixel is K bearing", o.veq(k[:2], [b[2] * x for x in out[:2]])
    else:
        yield "bearings in front have a pixel", o.le(b[2], 0)


def off_plane(env, o):
    return [o.ne(env["b"][2], 0)]


def round_pixel(env, st, out, o):
    yield "the pixel exists", st == 1
    if st == 1:
        yield "uncalibrate undoes calibrate", o.veq(out[:2], env["p"])


def round_bearing(env, st, out, o):
    if st == 1:
        yield "calibrate undoes uncalibrate", o.veq(out[:3], env["b"])
    else:
        yield "bearings in front survive the round trip", o.lt(env["b"][2], 0)


def matrix(env, st, out, o):
    yield "matrix() is [fx s cx; 0 fy cy; 0 0 1]", o.veq(mat(out[:9], 3, 3), env["K"])


def builders_in(inp):
    f, pp, s, g = inp.vec(2, "f"), inp.vec(2, "c"), inp.free("s"), inp.free("g")
    inp.put(f, pp, s, g)
    return {"f": f, "pp": pp, "s": s, "g": g}


def builders(env, st, out, o):
    f, pp, s, g = (env[k] for k in ("f", "pp", "s", "g"))
    K = lambda a, b, s, x, y: [a, s, x, 0, b, y, 0, 0, 1]
    yield "identity intrinsics", o.veq(out[:9], K(1, 1, 0, 0, 0))
    yield "focals, principal_point and skew set their field", o.veq(out[9:18], K(f[0], f[1], s, pp[0], pp[1]))
    yield "focal sets both focal lengths", o.veq(out[18:27], K(g, g, s, pp[0], pp[1]))
    yield "unset fields keep their value", o.veq(out[27:36], K(f[0], f[1], s, 0, 0))


B = "all intrinsics with non-zero focal lengths"
JOBS = [
    Job("calibrate", "h_pin_cal", pixel_in, cal, assume=focal, bounds=B + ", all pixels"),
    Job("uncalibrate", "h_pin_uncal", bearing_in, uncal, assume=off_plane, bounds=B + ", all unit bearings off the image plane's parallel"),
    Job("pixel-round-trip", "h_pin_round_pixel", pixel_in, round_pixel, assume=focal, bounds=B + ", all pixels"),
    Job("bearing-round-trip", "h_pin_round_bearing", bearing_in, round_bearing, assume=lambda e, o: focal(e, o) + off_plane(e, o),
        bounds=B + ", all unit bearings with z != 0"),
    Job("matrix", "h_pin_matrix", cam, matrix, bounds="all intrinsics"),
    Job("builders", "h_pin_builders", builders_in, builders, bounds="all field values"),
]
