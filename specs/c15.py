"""C15: two-view triangulation by angular errors."""
from fractions import Fraction
from engine.job import Job, mv, vsub, vadd, scale, dot, cross, tr

TINY = Fraction(1, 1 << 40)
ASSUMPTIONS = ["the cameras are at different places and neither ray is along the baseline"]


def put(inp, r, c, u, v):
    """The second camera, of rotation r, is at c; the rays are u and v in the first camera's frame."""
    inp.put(r, scale(-1, mv(r, c)), u, mv(r, v))


def exact(su, sv):
    """Noise-free: the point is d1 along u and d2 along v; u, v at any angle in any plane."""
    def build(inp):
        k1, k2, k3 = tr(inp.rot("f"))
        s = inp.free("s", TINY, 1)
        c = inp.root("c", 1 - s * s)
        d1, d2 = inp.pos("d1"), inp.pos("d2")
        u, v = k1, vadd(scale(c, k1), scale(s, k2))
        put(inp, inp.rot("q"), vsub(scale(d1, u), scale(d2, v)), scale(su, u), scale(sv, v))
        return {"u": u, "w": 1 / d1}
    return build


def exact_claims(env, st, out, o):
    yield "a point is returned", o.eq(st, 1)
    yield "it is the observed point", o.veq(out[:4], env["u"] + [env["w"]])


def refused(env, st, out, o):
    yield "refused", o.eq(st, 0)


def angle(inp, name, positive=False):
    """(cos, sin) of any angle, or of one in (0, pi)."""
    s = inp.free(name, TINY, 1) if positive else inp.free(name, -1, 1)
    return inp.root("c" + name, 1 - s * s), s


def noisy(inp):
    """Any rays, in a frame whose first axis is the baseline and whose second is the side of the first ray."""
    k1, k2, k3 = tr(inp.rot("f"))
    n = inp.pos("n")
    (cu, su), (cv, sv), (cp, sp) = angle(inp, "u", True), angle(inp, "v", True), angle(inp, "p")
    u = vadd(scale(cu, k1), scale(su, k2))
    v = vadd(scale(cv, k1), scale(sv, vadd(scale(cp, k2), scale(sp, k3))))
    c = scale(n, k1)
    put(inp, inp.rot("q"), c, u, v)
    return {"c": c, "u": u, "v": v, "su": su, "sv": sv, "cp": cp}


def onto(x, n):
    """n.n times the projection of x onto the plane of normal n."""
    return vsub(scale(dot(n, n), x), scale(dot(x, n), n))


def parallel(o, x, y):
    return o.And(o.veq(cross(x, y), [0, 0, 0]), o.ge(dot(x, y), 0))


def rays(o, out, c, u, v):
    """The point lies on the ray of direction u from the origin, and on that of direction v from c."""
    p = vsub(out[:3], scale(out[3], c))
    yield "the point lies on the first camera's corrected ray", parallel(o, out[:3], u)
    yield "the point lies on the second camera's corrected ray", parallel(o, p, v)


def ahead(o, c, u, v):
    """The rays (in a plane) meet in front of both cameras."""
    n = cross(u, v)
    return o.And(o.gt(dot(n, cross(c, v)), 0), o.gt(dot(n, cross(c, u)), 0))


def l1(which):
    """The ray that is moved: 0 the first camera's, 1 the second's."""
    def claims(env, st, out, o):
        c, u, v = env["c"], env["u"], env["v"]
        uu, vv = (onto(u, cross(v, c)), v) if which == 0 else (u, onto(v, cross(u, c)))
        if st == 1:
            yield from rays(o, out, c, uu, vv)
        else:
            yield "only refused when the corrected rays do not meet in front", o.Not(ahead(o, c, uu, vv))
    return claims


def nearer(which):
    """The ray closer to the baseline is moved."""
    def assume(env, o):
        return [o.gt(env["su"], env["sv"]) if which else o.lt(env["su"], env["sv"])]
    return assume


def bisected(sign):
    """Any rays, in a frame whose first axis is the baseline and whose second is the side of v + u (or of v - u, if sign < 0)."""
    def build(inp):
        k1, k2, k3 = tr(inp.rot("f"))
        n = inp.pos("n")
        x, y, z = inp.free("x", -1, 1), inp.free("y", -1, 1), inp.free("z", -1, 1)
        cu, cv = inp.root("cu", 1 - x * x - z * z), inp.root("cv", 1 - y * y - z * z)
        u = vadd(scale(cu, k1), vadd(scale(sign * x, k2), scale(z, k3)))
        v = vadd(scale(cv, k1), vadd(scale(y, k2), scale(-sign * z, k3)))
        c = scale(n, k1)
        put(inp, inp.rot("q"), c, u, v)
        return {"c": c, "u": u, "v": v, "n": k3, "x": x, "y": y, "z": z}
    return build


def smaller(env, o):
    """Of the two planes at equal angles from both rays, the one at the smaller angle is the one normal to the frame's third axis."""
    return [o.gt(env["x"] + env["y"], 0), o.gt(env["x"] * env["y"], env["z"] * env["z"])]


def linf(env, st, out, o):
    c, n = env["c"], env["n"]
    uu, vv = onto(env["u"], n), onto(env["v"], n)
    if st == 1:
        yield from rays(o, out, c, uu, vv)
    else:
        yield "only refused when the corrected rays do not meet in front", o.Not(ahead(o, c, uu, vv))


B = "all rotations, bearing pairs not along the baseline, depths in [2^-40, 2^40]"
N = "all rotations and translations, all bearing pairs, "
JOBS = [
    Job("l1-exact", "h_rel_l1", exact(1, 1), exact_claims, bounds=B),
    Job("l1-exact-behind-first", "h_rel_l1", exact(-1, 1), refused, witness=(0,), bounds=B),
    Job("l1-exact-behind-second", "h_rel_l1", exact(1, -1), refused, witness=(0,), bounds=B),
    Job("linf-exact", "h_rel_linf", exact(1, 1), exact_claims, bounds=B),
    Job("linf-exact-behind-first", "h_rel_linf", exact(-1, 1), refused, witness=(0,), bounds=B),
    Job("linf-exact-behind-second", "h_rel_linf", exact(1, -1), refused, witness=(0,), bounds=B),
    Job("l1-moves-first", "h_rel_l1", noisy, l1(0), assume=nearer(0), bounds=N + "the first closer to the baseline"),
    Job("l1-moves-second", "h_rel_l1", noisy, l1(1), opts={"samples": 80}, assume=nearer(1), bounds=N + "the second closer to the baseline"),
    Job("linf-sum", "h_rel_linf", bisected(1), linf, assume=smaller, bounds=N + "the plane through their sum is closer"),
    Job("linf-difference", "h_rel_linf", bisected(-1), linf, assume=smaller, witness=(0,), bounds=N + "the plane through their difference is closer"),
]
