"""C14: linear triangulation of noise-free observations."""
from engine.job import Job, mv, vsub, vadd, scale, dot, cross, tr
from engine import contracts as K
from . import scene

ASSUMPTIONS = ["the symmetric eigen and singular value decompositions return any factors their mathematics allows "
               "(their iterations are not executed)",
               "the observed rays are not parallel, so that the null space is one-dimensional"]


def signed(*sg):
    """n views: camera k sees the point at depth d_k along b_k; its bearing is negated where sg[k] < 0."""
    def build(inp):
        e = scene.two_view(inp, put=False)
        inp.put(e["r"], e["t"], scale(sg[0], e["a"]), scale(sg[1], e["b"]))
        return e
    return build


def observations(*sg):
    """The world point p is d_k along b_k in camera k: t_k := d_k b_k - R_k p."""
    def build(inp):
        u, w = inp.unit("u"), inp.pos("w")
        bs, rs, ds = [], [], []
        for k, s in enumerate(sg):
            r = inp.rot("q%d" % k)
            b, d = inp.unit("b%d" % k), inp.pos("d%d" % k)
            inp.put(r, vsub(scale(d, b), scale(1 / w, mv(r, u))), scale(s, b))
            bs.append(b)
            rs.append(r)
        return {"u": u, "w": w, "rs": rs, "bs": bs}
    return build


def relative(*sg):
    """The centre camera and others that see its point: t_k := d_k b_k - d R_k a."""
    def build(inp):
        a, w = inp.unit("a"), inp.pos("w")
        inp.put(scale(sg[0], a))
        bs, rs = [a], [[[1, 0, 0], [0, 1, 0], [0, 0, 1]]]
        for k, s in enumerate(sg[1:]):
            r = inp.rot("q%d" % k)
            b, d = inp.unit("b%d" % k), inp.pos("d%d" % k)
            inp.put(r, vsub(scale(d, b), scale(1 / w, mv(r, a))), scale(s, b))
            bs.append(b)
            rs.append(r)
        return {"u": a, "w": w, "rs": rs, "bs": bs}
    return build


def world(env):
    return env["u"] + [env["w"]]


def apart(env, o):
    """The first two rays are not parallel."""
    c = dot(mv(tr(env["rs"][0]), env["bs"][0]), mv(tr(env["rs"][1]), env["bs"][1]))
    return [o.ne(c * c, 1)]


def equal(n, relative=False):
    """All cameras are at one distance of the point; their rays are c_k m + x_k k1 + y_k k2 with sum(x) = sum(y) = 0
    (m, k1, k2 any orthonormal frame: m is the average direction)."""
    def build(inp):
        w = inp.pos("w")
        m, k1, k2 = tr(inp.rot("f"))
        if n == 2:
            k, = [inp.unit("k")]
            cs, xs = [k[2], k[2]], [[inp.norm(k[:2]), 0]]
            xs.append(scale(-1, xs[0]))
        else:
            ks = [inp.unit("k%d" % j) for j in range(n - 1)]
            xs = [k[:2] for k in ks]
            xs.append([-sum(c[1:], c[0]) for c in zip(*xs)])
            cs = [k[2] for k in ks] + [inp.root("c", 1 - dot(xs[-1], xs[-1]))]
            inp.square(sum(cs[1:], cs[0]))
        vs = [vadd(scale(c, m), vadd(scale(x, k1), scale(y, k2))) for c, (x, y) in zip(cs, xs)]
        if relative:
            u, d = vs[0], 1 / w
        else:
            u, d = inp.unit("u"), inp.pos("d")
        for j, v in enumerate(vs):
            if relative and j == 0:
                continue
            r = inp.rot("q%d" % j)
            c = vsub(scale(1 / w, u), scale(d, v))
            inp.put(r, scale(-1, mv(r, c)))
            if relative:
                inp.put(u)
            inp.put(mv(r, v))
        return {"u": u, "w": w, "cs": cs, "xs": xs}
    return build


def spread(env, o):
    """No ray is along the average direction, nor do they cancel."""
    s = sum(env["cs"])
    return [o.gt(s, 0), o.gt(s * s, 0)] + [o.gt(dot(x, x), 0) for x in env["xs"]]


def point(xs):
    def claims(env, st, out, o):
        yield "a point is returned", o.eq(st, 1)
        yield "it is the observed point", o.veq(out[:4], xs(env))
    return claims


def refused(env, st, out, o):
    yield "refused", o.eq(st, 0)


def one_in(inp):
    inp.put(inp.rot("q"), inp.vec(3, "t"), inp.unit("b"))
    return {}


def none_in(inp):
    return {}


B2 = "all rotations and bearing pairs, depths in [2^-40, 2^40], every position and sign of the null vector"
B3 = "all rotations and bearings, depths in [2^-40, 2^40], every position and sign of the null vector; %d views"
BM = "all rotations and bearings, one common depth in [2^-40, 2^40]; %d views"
E2 = dict(assume=scene.apart, redirects=K.EIG4, setup=K.symeig_null(scene.point), bounds=B2)
EW = dict(assume=apart, redirects=K.EIG4, setup=K.symeig_null(world))
S4 = dict(assume=scene.apart, redirects=K.SVD4, setup=K.svd_null(scene.point, 4), bounds=B2)
NO = dict(claims=refused, witness=(0,))
JOBS = [
    Job("relative-eigen", "h_rel_eigen", signed(1, 1), point(scene.point), **E2),
    Job("relative-eigen-behind-first", "h_rel_eigen", signed(-1, 1), **NO, **E2),
    Job("relative-eigen-behind-second", "h_rel_eigen", signed(1, -1), **NO, **E2),
    Job("relative-dlt", "h_rel_dlt", signed(1, 1), point(scene.point), **S4),
    Job("relative-dlt-behind-first", "h_rel_dlt", signed(-1, 1), **NO, **S4),
    Job("relative-dlt-behind-second", "h_rel_dlt", signed(1, -1), **NO, **S4),
    Job("two-views-eigen", "h_obs2_eigen", observations(1, 1), point(world), bounds=B3 % 2, **EW),
    Job("three-views-eigen", "h_obs3_eigen", observations(1, 1, 1), point(world), bounds=B3 % 3, **EW),
    Job("three-views-eigen-behind-third", "h_obs3_eigen", observations(1, 1, -1), bounds=B3 % 3, **NO, **EW),
    Job("to-camera-eigen", "h_obscam2_eigen", relative(1, 1, 1), point(world), bounds=B3 % 3, **EW),
    Job("to-camera-eigen-behind-centre", "h_obscam2_eigen", relative(-1, 1, 1), bounds=B3 % 3, **NO, **EW),
    Job("to-camera-eigen-behind-third", "h_obscam2_eigen", relative(1, 1, -1), bounds=B3 % 3, **NO, **EW),
    Job("relative-sine", "h_rel_sine", signed(1, 1), point(scene.point), **E2),
    Job("relative-sine-behind-second", "h_rel_sine", signed(1, -1), **NO, **E2),
    Job("two-views-sine", "h_obs2_sine", observations(1, 1), point(world), bounds=B3 % 2, **EW),
    Job("three-views-sine", "h_obs3_sine", observations(1, 1, 1), point(world), bounds=B3 % 3, **EW),
    Job("relative-mean", "h_rel_mean", equal(2, True), point(world), assume=spread, bounds=BM % 2),
    Job("two-views-mean", "h_obs2_mean", equal(2), point(world), assume=spread, bounds=BM % 2),
    Job("three-views-mean", "h_obs3_mean", equal(3), point(world), assume=spread, bounds=BM % 3),
    Job("no-view-mean", "h_obs0_mean", none_in, bounds="no observation", validate=False, claims=refused, witness=()),
    Job("one-view-mean", "h_obs1_mean", one_in, bounds="all poses and bearings", validate=False, claims=refused, witness=()),
    Job("no-view-eigen", "h_obs0_eigen", none_in, bounds="no observation", validate=False, **NO),
    Job("one-view-eigen", "h_obs1_eigen", one_in, bounds="all poses and bearings", validate=False, **NO),
    Job("no-view-sine", "h_obs0_sine", none_in, bounds="no observation", validate=False, **NO),
    Job("one-view-sine", "h_obs1_sine", one_in, bounds="all poses and bearings", validate=False, **NO),
]
