"""C06: residuals of poses in sample consensus."""
from engine.job import Job, fault, dot
from engine import contracts as K, cond as C
from . import c02, scene

ASSUMPTIONS = ["the symmetric eigen decomposition returns any eigenpairs its mathematics allows (its iterations are not executed)",
               "noise-free matches have non-parallel rays, so that the null space is one-dimensional"]


def w2c_in(inp):
    r = inp.rot("q")
    k = inp.unit("k")
    b, u = inp.unit("b"), inp.unit("u")
    w, n = inp.pos("w"), inp.pos("n")
    t = c02.vsub(c02.scale(n, u), c02.scale(1 / w, c02.mv(r, b)))
    inp.put(r, t, k, b, w)
    return {"u": u, "k": k}


def w2c(env, st, out, o):
    yield "residual is 1 - cos(observed, predicted)", o.eq(out[0], 1 - dot(env["k"], env["u"]))
    yield "residual is within [0, 2]", o.And(o.ge(out[0], 0), o.le(out[0], 2))


def inf_in(inp):
    r, t = c02.iso(inp)
    k, b = inp.unit("k"), inp.unit("b")
    inp.put(k, b, 0)
    return {"p": c02.mv(r, b), "k": k}


def w2c_inf(env, st, out, o):
    yield "residual of a landmark at infinity uses the rotated direction", o.eq(out[0], 1 - dot(env["k"], env["p"]))


def signed(sa, sb):
    def build(inp):
        e = scene.two_view(inp, put=False)
        inp.put(e["r"], e["t"], [sa * x for x in e["a"]], [sb * x for x in e["b"]])
        return e
    return build


def value(v):
    def claims(env, st, out, o):
        yield "residual of the match is %g" % v, o.eq(out[0], v)
    return claims


def any_in(inp):
    r, t = c02.iso(inp)
    a, b = inp.unit("a"), inp.unit("b")
    inp.put(a, b)
    return {"r": r, "t": t}


def generic(env, fresh):
    y = [fresh("y%d" % k, 0.3 + k) for k in range(3)]
    w = fresh("w", 0.7)
    x = c02.mv(c02.tr(env["r"]), c02.vsub(y, c02.scale(w, env["t"])))
    return x + [w], [C.rel("!=", dot(y, y)), C.rel("!=", dot(x, x))]


def centre_in(inp):
    r, c = inp.rot("q"), inp.vec(3, "c")
    a, b = inp.unit("a"), inp.unit("b")
    inp.put(r, c02.scale(-1, c02.mv(r, c)), a, b)
    return {"c": c}


def centre(env, fresh):
    w = fresh("w", 0.7)
    return c02.scale(w, env["c"]) + [w], [C.rel("!=", w)]


def first_centre(env, fresh):
    return [0, 0, 0, fresh("w", 0.7)], []


def number(env, st, out, o):
    yield "residual is a number", o.finite(out[0])


B = "all rotations, all bearing pairs, depths in [2^-40, 2^40]; every position and sign of the null eigenvector"
JOBS = [
    Job("landmark", "h_res_w2c", w2c_in, w2c, bounds="all rotations, observed bearings, landmarks with 2^-40 <= w <= 2^40 at a distance in [2^-40, 2^40]"),
    Job("landmark-at-infinity", "h_res_w2c", inf_in, w2c_inf, bounds="all rotations, translations, bearings; w = 0"),
    Job("match", "h_res_c2c", signed(1, 1), value(0), assume=scene.apart, redirects=K.EIG4, setup=K.symeig_null(scene.point), bounds=B),
    Job("match-behind-first", "h_res_c2c", signed(-1, 1), value(1), assume=scene.apart, redirects=K.EIG4, setup=K.symeig_null(scene.point), bounds=B),
    Job("match-behind-second", "h_res_c2c", signed(1, -1), value(1), assume=scene.apart, redirects=K.EIG4, setup=K.symeig_null(scene.point), bounds=B),
    Job("match-any", "h_res_c2c", any_in, number, redirects=K.EIG4, setup=K.symeig_vec(generic), validate=False, opts={"concretize": 64},
        bounds="all rotations, translations and bearing pairs; any finite eigenvector that is not a camera centre"),
    Job("match-second-centre", "h_res_c2c", centre_in, fault(value(2), number), redirects=K.EIG4, setup=K.symeig_vec(centre), validate=False, opts={"concretize": 64},
        bounds="all rotations, translations and bearing pairs; the eigenvector is the second camera's centre"),
    Job("match-first-centre", "h_res_c2c", any_in, fault(value(2), number), redirects=K.EIG4, setup=K.symeig_vec(first_centre), validate=False, opts={"concretize": 64},
        bounds="all rotations, translations and bearing pairs; the eigenvector is the first camera's centre"),
    Job("match-none", "h_res_c2c", any_in, fault(value(2), number), redirects=K.EIG4, setup=K.symeig_any((1, 2)), validate=False, opts={"concretize": 64},
        bounds="all rotations, translations and bearing pairs; failure to converge, or NaN eigenpairs"),
]
