"""C18: the pose optimisers."""
from fractions import Fraction
from engine.job import Job, dot, mv, mm, tr, mat, vadd, vsub, scale, cross, eye
from . import c15, c17

ASSUMPTIONS = ["epsilon and the optimisation rate are within [2^-20, 1]"]


def isos(out):
    return [(mat(out[12 * k:12 * k + 9], 3, 3), out[12 * k + 9:12 * k + 12]) for k in range(len(out) // 12)]


def settings(inp, kind, eps=None, rate=1):
    """What the optimiser takes between poses and landmarks."""
    e = {}
    if kind == "l1":
        e["eps"] = inp.free("eps", *(eps or (2**-20, 1)))
        inp.put(e["eps"])
    if kind != "ad":
        e["rate"] = inp.free("rate", 2**-20, rate)
        inp.put(e["rate"])
    return e


def kept(env, st, out, o):
    for k, ((R, t), (A, a)) in enumerate(zip(env["poses"], isos(out))):
        yield "pose %d: rotation is kept" % k, o.veq(A, R)
        yield "pose %d: translation is kept" % k, o.veq(a, t)


# ---- one view ----------------------------------------------------------------------------------------
FRAMES = [[[Fraction(x, 3) for x in r] for r in ((2, -1, 2), (2, 2, -1), (-1, 2, 2))],
          [[Fraction(x, 7) for x in r] for r in ((-3, 2, 6), (6, 3, 2), (-2, 6, -3))],
          [[Fraction(x, 9) for x in r] for r in ((4, 8, 1), (-7, 4, 4), (4, -1, 8))]]
ANGLES = [(Fraction(3, 5), Fraction(4, 5)), (Fraction(-5, 13), Fraction(12, 13)), (Fraction(-8, 17), Fraction(-15, 17))]


def single(kind, marks, rot=None, fixed=False, sure=False):
    """marks: for each landmark "seen" (along its bearing), "off" (anywhere off the bearing's line), "infinite"."""
    def build(inp):
        R = inp.rot("r") if rot is None else rot
        t = [2, -1, 2] if fixed else inp.vec(3, "t")
        inp.put(R, t)
        # rounding turns the direction of a vanishing gradient: steps from it are kept small
        if fixed == "eps":
            inp.put(Fraction(1, 8))
        env = settings(inp, "l2" if fixed == "eps" else kind, (2**-60, 2**-30) if sure else None, Fraction(1, 4) if sure else 1)
        env.update(poses=[(R, t)])
        for k, m in enumerate(marks):
            if m == "off":
                # the bearing is fixed, the point is at any distance d and any angle from it
                b, n, q = FRAMES[k]
                c, s = ANGLES[k - 1] if fixed else c15.angle(inp, "a%d" % k, True)
                cp, sp = ANGLES[k]
                d = k + 2 if fixed else inp.pos("d%d" % k)
                x = scale(d, vadd(scale(c, b), scale(s, vadd(scale(cp, n), scale(sp, q)))))
            else:
                b = inp.unit("b%d" % k)
                if m == "infinite":
                    inp.put(b, inp.unit("p%d" % k), 0)
                    continue
                x = scale(inp.free("d%d" % k, Fraction(1, 64), 64), b)
            inp.put(b, mv(tr(R), vsub(x, t)), 1)
        return env
    return build


# ---- three views -------------------------------------------------------------------------------------
def views(inp, kind, rots, centres, rays, sure=False):
    """The poses take the first camera's coordinates to the others', whose centres and turns are given; rays in the first's."""
    poses = [(tr(R), scale(-1, mv(tr(R), c))) for R, c in zip(rots, centres)]
    inp.put(*[y for x in poses for y in x])
    env = settings(inp, kind, (2**-60, 2**-30) if sure else None, sure or 1)
    for r in rays:
        inp.put(r[0], mv(tr(rots[0]), r[1]), mv(tr(rots[1]), r[2]))
    env["poses"] = poses
    return env


def triple(kind, n, turned=True, rate=Fraction(1, 4)):
    """Three cameras see n points at any depths along any rays."""
    def build(inp):
        rots = [inp.rot("r%d" % k) for k in range(2)] if turned else [FRAMES[0], FRAMES[1]]
        c, f, s = (inp.unit(k) for k in "cfs")
        d0, d1, d2 = (inp.free("d%d" % k, Fraction(1, 64), 64) for k in range(3))
        p = scale(d0, c)
        env = views(inp, kind, rots, [vsub(p, scale(d1, f)), vsub(p, scale(d2, s))], [[c, f, s]] * n, rate)
        env["rays"] = [c, f, s]
        return env
    return build


def spread(env, o):
    c, f, s = env["rays"]
    return [o.gt(dot(x, x), 0) for x in (cross(c, f), cross(c, s), cross(f, s))]


def unseen(kind, n):
    def build(inp):
        return views(inp, kind, [inp.rot("r%d" % k) for k in range(2)], [inp.vec(3, "t%d" % k) for k in range(2)],
                     [[inp.unit("b%d%d" % (i, k)) for k in range(3)] for i in range(n)])
    return build


MORE = [[[Fraction(x, q) for x in v] for q, v in m] for m in (
    ((3, (2, 2, 1)), (7, (2, 3, 6)), (9, (-1, 4, 8))), ((7, (-6, 2, 3)), (3, (-2, 1, 2)), (9, (-4, -1, 8))))]


def tilted(kind, n, free=(0, 1, 2), centres=None):
    """Cameras on a line; the rays of the first match have any angle to the line and one of them is rolled about it; the
    rays of other matches are fixed, and so are those of the cameras that are not free, and the centres if they are given."""
    def build(inp):
        x = centres or [inp.free("x1"), inp.free("x2")]
        cs, ss = zip(*(c15.angle(inp, "a%d" % k, True) if k in free else ANGLES[k] for k in range(3)))
        roll = [ANGLES[0], (1, 0), (1, 0)]
        rays = [[cs[k], ss[k] * roll[k][0], ss[k] * roll[k][1]] for k in range(3)]
        env = views(inp, kind, FRAMES[:2], [[v, 0, 0] for v in x], ([rays] + MORE)[:n])
        for i in range(3):
            for j in range(3):
                if i != j and (i in free or j in free):
                    inp.square(cs[i] * ss[j] - cs[j] * ss[i] * (roll[0][0] if 0 in (i, j) else 1))
        env.update(x=[0] + list(x), sin=ss)
        return env
    return build


def ordered(env, o):
    x, s = env["x"], env["sin"]
    return [o.ne(x[1], 0), o.ne(x[2], 0), o.ne(x[1], x[2])] + [o.lt(s[i], s[i + 1]) for i in range(2)]


def same(env, st, out, o):
    p = isos(out)
    h = len(p) // 2
    for k in range(h):
        (A, a), (B, b) = p[k], p[k + h]
        yield "pose %d: rotation after the documented steps" % k, o.veq(A, B)
        yield "pose %d: translation after the documented steps" % k, o.veq(a, b)


def rigid(env, st, out, o):
    for k, (A, a) in enumerate(isos(out)):
        yield "pose %d is a rotation" % k, o.veq(mm(A, tr(A)), eye(3))


def rigid(env, st, out, o):
    yield from same(env, st, out, o)
    for k, (A, a) in enumerate(isos(out)[:len(out) // 24]):
        yield "pose %d is a rotation" % k, o.veq(mm(A, tr(A)), eye(3))


I3 = eye(3)
EPS = "epsilon and rate in [2^-20, 1]"
SURE = "depths in [1/64, 64], epsilon in [2^-60, 2^-30], rate in [2^-20, 1/4]"
JOBS = []
for kind in ("l1", "l2"):
    one = "one-%s-" % kind
    JOBS += [
        Job(one + "empty", "h_sv_%s_0" % kind, single(kind, ()), kept, bounds="all poses, no landmark, 3 iterations"),
        Job(one + "no-iteration", "h_sv_%s_1x0" % kind, single(kind, ("off",)), kept, bounds="all poses, one landmark at any place, no iteration"),
        Job(one + "infinite", "h_sv_%s_1x2" % kind, single(kind, ("infinite",)), kept, bounds="all poses, one landmark at infinity, 2 iterations"),
    ] + [
        Job(one + "perfect" + nm, "h_sv_%s_%s" % (kind, h), single(kind, marks, sure=True), kept, bounds="all poses, all bearings; " + SURE + "; %d landmarks x %d iterations" % (len(marks), int(h.split("x")[1])))
        for nm, h, marks in (("", "1x1", ("seen",)), ("-2", "2x2", ("seen", "seen")), ("-60", "1x60", ("seen",)), ("-infinite", "2x2", ("infinite", "seen")))
    ] + [
        Job(one + "step", "h_ref_sv_%s_1x1" % kind, single(kind, ("off",)), same, bounds="all poses, landmark at any place off the line of a fixed bearing; " + EPS),
        Job(one + "step-rigid", "h_ref_sv_%s_1x1" % kind, single(kind, ("off",), I3), rigid, bounds="all translations, landmark at any place off the line of a fixed bearing; " + EPS),
        Job(one + "step-2", "h_ref_sv_%s_2x1" % kind, single(kind, ("off", "off"), I3), same, bounds="all translations, two landmarks at any distance and angle from fixed bearings; " + EPS),
        Job(one + "step-infinite", "h_ref_sv_%s_2x1" % kind, single(kind, ("off", "infinite"), I3), same, bounds="all translations, a landmark at any place and one at infinity; " + EPS),
        Job(one + "step-3", "h_ref_sv_%s_3x1" % kind, single(kind, ("off",) * 3, I3, True), same, bounds="three fixed landmarks; " + EPS),
        Job(one + "steps", "h_ref_sv_%s_1x2" % kind, single(kind, ("off",), I3, "eps" if kind == "l1" else False), same, bounds=("a fixed landmark and epsilon" if kind == "l1" else "all translations, a landmark at any place") + ", 2 iterations; " + EPS),
    ]
for kind in ("l1", "l2", "ad"):
    nm = "three-%s-" % kind
    JOBS += [
        Job(nm + "empty", "h_tv_%s_0" % kind, unseen(kind, 0), kept, bounds="all poses, no landmark, 3 iterations"),
        Job(nm + "no-iteration", "h_tv_%s_1x0" % kind, unseen(kind, 1), kept, bounds="all poses, all observations, no iteration"),
        Job(nm + "perfect", "h_tv_%s_1x1" % kind, triple(kind, 1), kept, assume=spread, bounds="all poses that explain a match exactly; " + SURE),
        Job(nm + "perfect-2", "h_tv_%s_1x2" % kind, triple(kind, 1, False), kept, assume=spread, bounds="the same, fixed rotations, 2 iterations; " + SURE),
    ] + ([] if kind == "ad" else [
        Job(nm + "perfect-60", "h_tv_%s_1x60" % kind, triple(kind, 1, rate=Fraction(1, 4096)), kept, assume=spread, bounds="the same, 60 iterations, rate up to 2^-12; " + SURE)
    ]) + ([] if kind != "l2" else [
        Job(nm + "step", "h_ref_tv_%s_1x1" % kind, tilted(kind, 1), same, assume=ordered, bounds="cameras at any place on a line, rays at any angle to it, one rolled about it; " + EPS),
        Job(nm + "step-2", "h_ref_tv_%s_2x1" % kind, tilted(kind, 2), same, assume=ordered, bounds="the same and a second, fixed match; " + EPS, tier="thorough"),
    ]) + [
        Job(nm + "step-%d-%s" % (n, "cfs"[f]), "h_ref_tv_%s_%dx1" % (kind, n), tilted(kind, n, (f,), [2, -3]), same, tier="quick" if n == 1 or f == 0 else "thorough",
            bounds="fixed cameras, one ray at any angle to their line, %d other matches; " % (n - 1) + EPS) for n in (1, 2) for f in range(3)
    ] + [
        Job(nm + "step-3", "h_ref_tv_%s_3x1" % kind, tilted(kind, 3, (), [2, -3]), same, tier="thorough" if kind == "l1" else "quick", bounds="fixed cameras, three fixed matches; " + EPS)
    ]
