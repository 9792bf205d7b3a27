"""C16: what triangulators return is finite and in front of the cameras."""
from engine.job import Job, mv, vsub, vadd, scale, dot, tr
from engine import contracts as K
from . import c15

ASSUMPTIONS = ["the symmetric eigen and singular value decompositions return any finite vector, NaN or nothing "
               "(their iterations are not executed)"]
AXES = ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]])
I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def kept(env, st, out, o):
    """Nothing, or a finite point on the side of every camera that its bearing points to."""
    yield "answers with a point or nothing", o.Or(o.eq(st, 0), o.eq(st, 1))
    if st == 1:
        yield "the point is finite", o.finite(*out[:4])
        if all(o.finite(x) is not False for x in out[:4]):
            for k, (r, t, b) in enumerate(env["views"]):
                yield "it is in front of camera %d" % k, o.ge(dot(vadd(mv(r, out[:3]), scale(out[3], t)), b), 0)


def views(n, relative=False, rots=None, infinite=False):
    """n cameras anywhere, seeing anything; the vector of the decomposition is (x, w), at y_k in camera k's coordinates."""
    def build(inp):
        x = inp.vec(3, "x")
        w = 0 if infinite else inp.free("w")
        vs = []
        for k in range(n):
            b = inp.unit("b%d" % k)
            if relative and k == 0:
                vs.append((I3, [0, 0, 0], b))
                continue
            r = inp.rot("q%d" % k) if rots is None else rots[k]
            t = inp.vec(3, "t%d" % k) if infinite else scale(1 / w, vsub(inp.vec(3, "y%d" % k), mv(r, x)))
            vs.append((r, t, b))
        if relative == "pair":
            (_, _, a), (r, t, b) = vs
            inp.put(r, t, a, b)
        else:
            for k, (r, t, b) in enumerate(vs):
                inp.put(*([b] if relative and k == 0 else [r, t, b]))
        return {"views": vs, "x": x + [w]}
    return build


def there(env, o):
    return [o.ne(env["x"][3], 0)]


def vec(env, fresh):
    return env["x"], []


def rated(build):
    """One refinement step of any rate."""
    def b(inp):
        inp.put(inp.free("rate", -4, 4))
        return build(inp)
    return b


def refined(n):
    """The step moves the decomposition's point by d to p. Camera k looks along its third axis, and is at (h_k, a_k) of its axes from the point."""
    def build(inp):
        rate = inp.free("rate", -4, 4)
        inp.put(rate)
        rs = AXES[:n]
        hs = [inp.vec(2, "h%d" % k) for k in range(n)]
        p, e = inp.vec(3, "p"), [0, 0, 1]
        d = [0, 0, 0]
        for r, h in zip(rs, hs):
            d = vadd(d, scale(rate / n, mv(tr(r), h + [0])))
        x = vsub(p, d)
        vs = []
        for k, (r, h) in enumerate(zip(rs, hs)):
            t = scale(-1, vadd(mv(r, x), h + [inp.free("a%d" % k)]))
            inp.put(r, t, e)
            vs.append((r, t, e))
        return {"views": vs, "x": x + [1]}
    return build


def mean(n, rots=None, relative=False, frame=None):
    """n cameras anywhere, seeing anything; their rays are c_k m + x_k k1 + y_k k2 with sum(x) = sum(y) = 0
    (m, k1, k2 any orthonormal frame: m is the average direction), from e_k with sum(e) = 0, or from a + e_k with a + e_0 = 0."""
    def build(inp):
        m, k1, k2 = frame or tr(inp.rot("f"))
        if n == 2:
            k = inp.unit("k")
            cs, xs = [k[2], k[2]], [[inp.norm(k[:2]), 0]]
            xs.append(scale(-1, xs[0]))
        else:
            ks = [inp.unit("k%d" % j) for j in range(n - 1)]
            xs = [k[:2] for k in ks]
            xs.append([-sum(c[1:], c[0]) for c in zip(*xs)])
            cs = [k[2] for k in ks] + [inp.root("c", 1 - dot(xs[-1], xs[-1]))]
        vs = [vadd(scale(c, m), vadd(scale(x, k1), scale(y, k2))) for c, (x, y) in zip(cs, xs)]
        es = [inp.vec(3, "e%d" % k) for k in range(n - 1)]
        es.append([-sum(c[1:], c[0]) for c in zip(*es)])
        es = [vadd(scale(e[0], m), vadd(scale(e[1], k1), scale(e[2], k2))) for e in es]
        a = scale(-1, es[0]) if relative else [0, 0, 0]
        out = []
        for k, (v, e) in enumerate(zip(vs, es)):
            if relative and k == 0:
                out.append((I3, [0, 0, 0], v))
                continue
            r = inp.rot("q%d" % k) if rots is None else rots[k]
            t = scale(-1, mv(r, vadd(a, e)))
            b = mv(r, v)
            inp.put(r, t, *([vs[0], b] if relative else [b]))
            out.append((r, t, b))
        inp.square(sum(cs[1:], cs[0]))
        return {"views": out, "cs": cs, "xs": xs}
    return build


def facing(env, o):
    """The rays do not cancel."""
    s = sum(env["cs"])
    return [o.gt(s, 0), o.gt(s * s, 0)]


def angular(build):
    """Any pair of rays (see C15)."""
    def b(inp):
        n = len(inp.slots)
        env = build(inp)
        xs = inp.slots[n:]
        r, t, a, b = [xs[0:3], xs[3:6], xs[6:9]], xs[9:12], xs[12:15], xs[15:18]
        return dict(env, views=[(I3, [0, 0, 0], a), (r, t, b)])
    return b


B = "all poses, all bearings, any finite vector of the decomposition"
M = "all poses, all bearings"
JOBS = []
for nm, h, n, rel, red, any_, one in (
        ("relative-eigen", "h_rel_eigen", 2, "pair", K.EIG4, K.symeig_any, K.symeig_vec),
        ("relative-dlt", "h_rel_dlt", 2, "pair", K.SVD4, lambda k: K.svd_any(4, k), K.svd_vec),
        ("two-views-eigen", "h_obs2_eigen", 2, False, K.EIG4, K.symeig_any, K.symeig_vec),
        ("three-views-eigen", "h_obs3_eigen", 3, False, K.EIG4, K.symeig_any, K.symeig_vec),
        ("to-camera-eigen", "h_obscam2_eigen", 3, True, K.EIG4, K.symeig_any, K.symeig_vec),
        ("relative-sine", "h_rel_sine_step", 2, "pair", K.EIG4, K.symeig_any, K.symeig_vec),
        ("two-views-sine", "h_obs2_sine_step", 2, False, K.EIG4, K.symeig_any, K.symeig_vec),
        ("three-views-sine", "h_obs3_sine_step", 3, False, K.EIG4, K.symeig_any, K.symeig_vec)):
    X = dict(redirects=red, validate=False, witness=(), opts={"concretize": 64})
    step = rated if "sine" in nm else lambda b: b
    if step is not rated or n == 2 and not rel:
        JOBS.append(Job(nm, h, refined(n) if step is rated else views(n, rel), kept, assume=there, setup=one(vec), bounds=B, **X))
    JOBS += [
        Job(nm + "-infinite", h, step(views(n, rel, infinite=True)), kept, setup=one(vec), bounds=B + " at infinity", **X),
        Job(nm + "-none", h, step(views(n, rel)), kept, assume=there, setup=any_((1, 2)), bounds="all poses, all bearings; failure to converge, or NaN", **X),
    ]
JOBS += [
    Job("relative-mean", "h_rel_mean", mean(2, relative=True), kept, assume=facing, bounds=M),
    Job("two-views-mean", "h_obs2_mean", mean(2), kept, assume=facing, bounds=M),
    Job("l1-first", "h_rel_l1", angular(c15.noisy), kept, assume=c15.nearer(0), bounds=M),
    Job("l1-second", "h_rel_l1", angular(c15.noisy), kept, assume=c15.nearer(1), bounds=M),
    Job("linf-sum", "h_rel_linf", angular(c15.bisected(1)), kept, assume=c15.smaller, bounds=M),
    Job("linf-difference", "h_rel_linf", angular(c15.bisected(-1)), kept, assume=c15.smaller, witness=(0,), bounds=M),
]
