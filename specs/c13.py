"""C13: reprojection errors."""
from engine.job import Job, mv, vsub, scale, dot
from engine.dom import NAN

ASSUMPTIONS = ["observed bearings and the predicted directions have a non-zero z (the error divides by them)"]


def inputs(inp):
    """The second camera sees the point at v (any vector): t := g (v - R u), w := 1/g."""
    r, v = inp.rot("q"), inp.vec(3, "v")
    a, b, u = inp.unit("a"), inp.unit("b"), inp.unit("u")
    g = inp.pos("g")
    inp.put(r, scale(g, vsub(v, mv(r, u))), a, b, u, 1 / g)
    return {"a": a, "b": b, "u": u, "v": v}


def at_infinity(inp):
    r, t = inp.rot("q"), inp.vec(3, "t")
    a, b, u = inp.unit("a"), inp.unit("b"), inp.unit("u")
    inp.put(r, t, a, b, u, 0)
    return {"a": a, "b": b, "u": u, "v": mv(r, u)}


def planes(env, o):
    return [o.ne(env[k][2], 0) for k in "abuv"]


def seen(env, o):
    return o.And(o.gt(env["u"][2], 0), o.gt(env["v"][2], 0))


def errors(env, st, out, o):
    yield "an error is returned exactly when the point is in front of both cameras", (
        seen(env, o) if st == 1 else o.Not(seen(env, o)))
    if st == 1:
        for k, (x, y) in enumerate((("a", "u"), ("b", "v"))):
            p, q = env[x], env[y]
            for i in range(2):
                yield "camera %s coordinate %d: observed minus predicted" % (x, i), o.eq(out[2 * k + i], p[i] / p[2] - q[i] / q[2])


def plane_in(sa, sb, su, sv):
    """Image plane coordinates p, q of the observations and x, y of the predictions, with the sides they are on."""
    def build(inp):
        r = inp.rot("q")
        pl = [inp.vec(2, n) for n in "pqxy"]
        n = [1 / inp.dom_sqrt(c[0] * c[0] + c[1] * c[1] + 1) for c in pl[:3]]
        a, b, u = [[s * k * c[0], s * k * c[1], s * k] for s, k, c in zip((sa, sb, su), n, pl)]
        h, g = inp.pos("h"), inp.pos("g")
        v = [sv * h * pl[3][0], sv * h * pl[3][1], sv * h]
        inp.put(r, scale(g, vsub(v, mv(r, u))), a, b, u, 1 / g)
        return {"d": vsub(pl[0], pl[2]), "e": vsub(pl[1], pl[3])}
    return build


def average(env, st, out, o):
    yield "an error is returned", o.eq(st, 1)
    yield "average is the mean of the two lengths", o.eq(out[0], (o.sqrt(dot(env["d"], env["d"])) + o.sqrt(dot(env["e"], env["e"]))) / 2)


def none_in(inp):
    r, t = inp.rot("q"), inp.vec(3, "t")
    a, b = inp.unit("a"), inp.unit("b")
    inp.put(r, t, a, b)
    return {"a": a, "b": b, "u": a, "v": b}


def none(env, st, out, o):
    yield "no point, no error", o.eq(st, 0)


B = "all rotations, translations and bearings off the image plane, every supplied point with 2^-40 <= w <= 2^40 at any position in the second camera"
JOBS = [
    Job("errors", "h_reproj", inputs, errors, assume=planes, bounds=B, witness=(1,)),
    Job("errors-at-infinity", "h_reproj", at_infinity, errors, assume=planes, bounds=B + ", w = 0", witness=(1,)),
    Job("average", "h_reproj_avg", plane_in(1, 1, 1, 1), average, bounds=B + ", both observed in front"),
    Job("average-behind-a", "h_reproj_avg", plane_in(-1, 1, 1, 1), average, bounds=B + ", observed behind the first camera"),
    Job("average-behind-b", "h_reproj_avg", plane_in(1, -1, 1, 1), average, bounds=B + ", observed behind the second camera"),
    Job("average-predicted-behind-a", "h_reproj_avg", plane_in(1, 1, -1, 1), none, bounds=B + ", point behind the first camera", witness=(0,)),
    Job("average-predicted-behind-b", "h_reproj_avg", plane_in(1, 1, 1, -1), none, bounds=B + ", point behind the second camera", witness=(0,)),
    Job("untriangulated", "h_reproj_none", none_in, none, assume=planes, bounds="the triangulator refuses", witness=(0,)),
]
