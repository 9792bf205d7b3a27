"""C17: epipolar gradients and loss."""
from itertools import permutations
from fractions import Fraction
from engine.job import Job, vsub, vadd, scale, dot, cross, tr
from . import c15

ASSUMPTIONS = ["the point is not at the camera, and no ray is along the baseline (the documented directions are undefined there)"]


def ray(inp):
    """A camera at t relative to the point and the bearing b."""
    t, b = inp.vec(3, "t"), inp.unit("b")
    inp.put(t, b)
    return {"t": t, "b": b}


def away(env, o):
    return [o.gt(dot(env["t"], env["t"]), 0)]


def point(env, st, out, o):
    t, b, g = env["t"], env["b"], out[:3]
    yield "moving the point by the gradient puts it on the ray", o.veq(vsub(g, t), scale(-dot(t, b), b))
    yield "the gradient is perpendicular to the ray", o.eq(dot(g, b), 0)


def world(env, st, out, o):
    t, b, g, r = env["t"], env["b"], out[:3], out[3:6]
    n = o.sqrt(dot(t, t))
    yield "moving the point by the translation gradient puts it on the ray", o.veq(vadd(t, g), scale(dot(t, b), b))
    yield "the translation gradient is perpendicular to the ray", o.eq(dot(g, b), 0)
    yield "the rotation gradient is the sine-length axis turning the point onto the bearing", o.veq(scale(n, r), cross(t, b))


def consistent(inp):
    """A camera that sees the point along b."""
    b, d = inp.unit("b"), inp.pos("d")
    inp.put(scale(d, b), b)
    return {}


def opposite(inp):
    b, d = inp.unit("b"), inp.pos("d")
    inp.put(scale(-d, b), b)
    return {}


def zero(env, st, out, o):
    for k, nm in ((0, "translation"), (3, "rotation"), (6, "second translation"), (9, "second rotation")):
        if len(out) > k:
            yield nm + " gradient is zero", o.veq(out[k:k + 3], [0, 0, 0])


def pair(inp):
    """Two rays a, b and the translation t between the cameras, in a frame along t."""
    k1, k2, k3 = tr(inp.rot("f"))
    n = inp.pos("n")
    (ca, sa), (cb, sb), (cp, sp) = c15.angle(inp, "a", True), c15.angle(inp, "b", True), c15.angle(inp, "p")
    a = vadd(scale(ca, k1), scale(sa, k2))
    b = vadd(scale(cb, k1), scale(sb, vadd(scale(cp, k2), scale(sp, k3))))
    inp.put(scale(n, k1), a, b)
    return {"n": n, "sa": sa, "sb": sb, "sp": sp, "cosine": ca * cb + sa * sb * cp}


def loss(env, st, out, o):
    l, s = out[0], env["sa"] * env["sp"]
    t = env["sb"] * env["sp"]
    back = o.lt(env["cosine"], 0)
    front = o.gt(env["cosine"], 0)
    near = o.lt(env["sa"], env["sb"])
    far = o.gt(env["sa"], env["sb"])
    yield "the loss is within [0, 1]", o.And(o.ge(l, 0), o.le(l, 1))
    yield "bearings more than a right angle apart have loss one", o.implies(back, o.eq(l, 1))
    # squared: the loss and the sine are not negative
    yield "a nearer the baseline: its sine to b's plane", o.implies(o.And(front, near), o.eq(l * l, s * s))
    yield "b nearer the baseline: its sine to a's plane", o.implies(o.And(front, far), o.eq(l * l, t * t))


def match(inp):
    """Rays that meet at depths d1, d2; t the translation between the cameras, in either direction."""
    k1, k2, k3 = tr(inp.rot("f"))
    c, s = c15.angle(inp, "s", True)
    d1, d2, g = inp.pos("d1"), inp.pos("d2"), inp.free("g", -1, 1)
    a, b = k1, vadd(scale(c, k1), scale(s, k2))
    inp.put(scale(g, vsub(scale(d1, a), scale(d2, b))), a, b)
    return {"c": c, "g": g}


def match_ok(env, o):
    return [o.ne(env["g"], 0), o.gt(env["c"], 0)]


def loss_zero(env, st, out, o):
    yield "the loss of a noise-free match is zero", o.eq(out[0], 0)


def still(inp):
    """No translation at all."""
    a, b = inp.unit("a"), inp.unit("b")
    inp.put([0, 0, 0], a, b)
    return {}


def loss_one(env, st, out, o):
    yield "the loss without a baseline is one", o.eq(out[0], 1)


def triple(sf=1, ss=1):
    """Three cameras see one point at depths d0, d1, d2 along c, f, s."""
    def build(inp):
        c, f, s = (inp.unit(k) for k in "cfs")
        d0, d1, d2 = (inp.pos("d%d" % k) for k in range(3))
        p = scale(d0, c)
        inp.put(c, f, vsub(p, scale(d1, f)), s, vsub(p, scale(d2, s)))
        return {"rays": [c, f, s]}
    return build


def spread(env, o):
    c, f, s = env["rays"]
    return [o.gt(dot(x, x), 0) for x in (cross(c, f), cross(c, s), cross(f, s))]


def off(p, b):
    """The part of p perpendicular to the ray b."""
    return vsub(p, scale(dot(p, b), b))


def inline(dev, cp, sp):
    """Three cameras on a line; their rays have any angle to the line, and that of camera dev is rolled about it."""
    def build(inp):
        x1, x2 = inp.free("x1"), inp.free("x2")
        cs, ss = zip(*(c15.angle(inp, "a%d" % k, True) for k in range(3)))
        roll = [(cp, sp) if k == dev else (1, 0) for k in range(3)]
        rays = [[cs[k], ss[k] * roll[k][0], ss[k] * roll[k][1]] for k in range(3)]
        inp.put(rays[0], rays[1], [x1, 0, 0], rays[2], [x2, 0, 0])
        for i in range(3):
            for j in range(3):
                if i != j:
                    inp.square(cs[i] * ss[j] - cs[j] * ss[i] * (cp if dev in (i, j) else 1))
        return {"rays": rays, "x": [0, x1, x2], "cos": cs, "sin": ss, "roll": roll, "cp": cp, "dev": dev}
    return build


def meet(env, i, j, move_j):
    """The point of the rays i and j (seen from camera 0) after moving one into the other's plane through the line, and
    numbers that are positive when it is in front of both."""
    (ci, cj), (si, sj) = ([env[k][i], env[k][j]] for k in ("cos", "sin"))
    e = env["x"][j] - env["x"][i]
    cp = env["cp"] if env["dev"] in (i, j) else 1
    # in the plane of the ray that stays, the other makes the angle of direction (c, s * cp) with the line
    if move_j:
        (r, q), z = env["roll"][i], ci * sj * cp - cj * si
        d = scale(e * sj * cp / z, [ci, si * r, si * q])
    else:
        (r, q), z = env["roll"][j], ci * sj - cj * si * cp
        d = scale(e * sj / z, [ci, si * cp * r, si * cp * q])
    return [d[0] + env["x"][i], d[1], d[2]], (cp, e * z)


def order(*ks):
    """The cameras in the order of the angle between their ray and the line."""
    def assume(env, o):
        x, s = env["x"], env["sin"]
        return [o.ne(x[1], 0), o.ne(x[2], 0), o.ne(x[1], x[2])] + [o.lt(s[i], s[j]) for i, j in zip(ks, ks[1:])]
    return assume


def three(*ks):
    def claims(env, st, out, o):
        x, rays, n = env["x"], env["rays"], [[0, q, -r] for r, q in env["roll"]]
        two, one = Fraction(2, 3), Fraction(1, 3)

        def turn(i, j):
            return cross(n[j], n[i])

        def shift(i, j, k, sign):
            """What camera k is off the point of i and j, and whether there is one."""
            p, (u, v) = meet(env, i, j, ks.index(j) <= ks.index(i))
            p = [p[0] - x[k], p[1], p[2]]
            return scale(sign, off(p, rays[k])), o.And(o.gt(u, 0), o.gt(v, 0))

        cf, cs, fs = turn(0, 1), turn(0, 2), turn(1, 2)
        yield "first rotation gradient", o.veq(out[3:6], vsub(scale(two, cf), scale(one, fs)))
        yield "second rotation gradient", o.veq(out[9:12], vadd(scale(two, cs), scale(one, fs)))
        tf, ts, tc = shift(0, 2, 1, 1), shift(0, 1, 2, 1), shift(1, 2, 0, -1)
        zero = ([0, 0, 0], None)
        for a, g, nm in ((tf, out[:3], "first"), (ts, out[6:9], "second")):
            for p in (True, False):
                for q in (True, False):
                    v = vadd(scale(two, (a if p else zero)[0]), scale(one, (tc if q else zero)[0]))
                    h = o.And(a[1] if p else o.Not(a[1]), tc[1] if q else o.Not(tc[1]))
                    yield "%s translation gradient%s%s" % (nm, "" if p else ", its edge behind", "" if q else ", other edge behind"), o.implies(h, o.veq(g, v))
    return claims


TINY = c15.TINY
B = "all translations in R^3, all bearings"
JOBS = [
    Job("point", "h_point_gradient", ray, point, bounds=B),
    Job("point-on-ray", "h_point_gradient", consistent, zero, bounds="all bearings, depths in [2^-40, 2^40]"),
    Job("pose", "h_world_pose_gradient", ray, world, assume=away, bounds=B),
    Job("pose-on-ray", "h_world_pose_gradient", consistent, zero, bounds="all bearings, depths in [2^-40, 2^40]"),
    Job("loss", "h_loss", pair, loss, bounds="all baselines, all pairs of bearings not along it"),
    Job("loss-match", "h_loss", match, loss_zero, assume=match_ok, bounds="all baselines in both directions, all noise-free matches less than a right angle apart"),
    Job("loss-still", "h_loss", still, loss_one, bounds="all pairs of bearings, no baseline"),
    Job("three-views", "h_three_view", triple(), zero, assume=spread, bounds="all triples of pairwise non-parallel rays, depths in [2^-40, 2^40]"),
] + [Job("three-views-%s-%s%s" % ("cfs"[dev], "".join("cfs"[k] for k in ks), name), "h_three_view", inline(dev, *roll), three(*ks), assume=order(*ks), tier="quick" if ks == (0, 1, 2) else tier,
         bounds="cameras on the x axis at any distances; rays at any angles to it (in this order), two of them coplanar and the third rolled by the angle of cosine %s" % roll[0])
     for name, roll, tier in (("", (Fraction(3, 5), Fraction(4, 5)), "quick"), ("-far", (Fraction(-5, 13), Fraction(12, 13)), "thorough"), ("-small", (Fraction(40, 41), Fraction(-9, 41)), "thorough"))
     for dev in range(3) for ks in permutations(range(3))]
