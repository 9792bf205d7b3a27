"""C21: the three-point solver."""
from fractions import Fraction as F
from engine.job import Job, fault, mv, tr, mat, dot, scale, vadd, vsub, mm
from engine import contracts as K, poly as P, cond as C, exec as X

ASSUMPTIONS = ["the Newton iteration for the root of the cubic returns a root (its iterations are not executed; native runs of every shape execute them)"]

# depths of the three points, and a second triple of depths (any signs) with the same distances: they determine the cosines between
# the bearings, and make the line through both, hence the root of the cubic, rational
I = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
SHAPES = [((1, 5, 3), (4, 4, -3)), ((4, 3, 4), (5, -3, 1)), ((11, 6, 12), (9, 10, 13)), ((5, 8, 9), (9, 8, -9)), ((9, 13, 10), (11, 12, 6)), ((3, 8, 6), (7, -8, 9)),
          ((6, 5, 1), (4, -5, -4)), ((4, 8, 4), (2, 8, -1)), ((8, 6, 5), (8, -3, -1)), ((2, 8, 7), (9, 6, -7)), ((1, 8, 3), (5, -8, 6)), ((9, 4, 2), (9, -4, 4))]


def cosines(l, m):
    def c(i, j):
        return F(l[i] ** 2 + l[j] ** 2 - m[i] ** 2 - m[j] ** 2, 2 * (l[i] * l[j] - m[i] * m[j]))
    return c(0, 1), c(1, 2), c(2, 0)


def root(inp, nm, sq):
    return inp.dom.sqrt(P.R.const(sq))


def bearings(inp, shape):
    c12, c23, c31 = cosines(*shape)
    s12 = root(inp, "s12", 1 - c12 * c12)
    k = F(c23 - c12 * c31, 1 - c12 * c12)
    v = root(inp, "v", 1 - c31 * c31 - k * k * (1 - c12 * c12))
    Z, cst = P.ZERO, P.R.const
    return [[Z, Z, P.ONE], [s12, Z, cst(c12)], [k * s12, v, cst(c31)]]


def scene(shape, rot=None, scaled=False, turn=False):
    def build(inp):
        y = bearings(inp, shape)
        if turn:
            Q = mm(inp.rot1("cz", 2), inp.rot1("cy", 1))
            y = [mv(Q, v) for v in y]
        R = inp.rot("r") if rot is None else [[P.R.const(x) for x in r] for r in rot]
        t = inp.vec(3, "t")
        s = inp.pos("s", F(1, 1000), 1000) if scaled else P.ONE
        q = [scale(s * l, v) for l, v in zip(shape[0], y)]
        p = [mv(tr(R), vsub(x, t)) for x in q]
        for a, b in zip(y, p):
            inp.put(a, b, P.ONE)
        return {"y": y, "p": p, "q": q, "R": R, "t": t}
    return build


def isos(out, n):
    return [(mat(out[12 * k:12 * k + 9], 3, 3), out[12 * k + 9:12 * k + 12]) for k in range(n)]


def cubic(shape):
    l, m = shape
    def setup(runner):
        def h(ex, args, ins):
            b, c, d = args
            g = rational_root(shape)
            K.need_zero([((g + b) * g + c) * g + d], "the pencil of conics is degenerate at the root of the cubic")
            return P.R.const(g)
        return {"vx_cubic": h}
    return setup


def rational_root(shape):
    l, m = shape
    c12, c23, c31 = cosines(l, m)
    x = [F(a + b) for a, b in zip(l, m)]

    def quad(i, j, c, v):
        return v[i] * v[i] + v[j] * v[j] - 2 * c * v[i] * v[j]
    M = [quad(0, 1, c12, x), quad(0, 2, c31, x), quad(1, 2, c23, x)]
    a12, a13, a23 = quad(0, 1, c12, l), quad(0, 2, c31, l), quad(1, 2, c23, l)
    # (a23 M12 - a12 M23) + g (a13 M23 - a23 M13) vanishes on the line
    return (a23 * M[0] - a12 * M[2]) / (a23 * M[1] - a13 * M[2])


def claims(env, st, out, o):
    ps = isos(out, int(st))
    yield "the generating pose is among the poses", o.Or(*[o.And(o.veq(R, env["R"]), o.veq(t, env["t"])) for R, t in ps]) if ps else False
    for k, (R, t) in enumerate(ps):
        yield "pose %d maps the landmarks onto their bearings" % k, o.And(*[o.veq(o_cross(vadd(mv(R, p), t), y), [0, 0, 0]) for p, y in zip(env["p"], env["y"])])
        yield "pose %d has the landmarks in front" % k, o.And(*[o.ge(dot(vadd(mv(R, p), t), y), 0) for p, y in zip(env["p"], env["y"])])
        yield "pose %d is a rigid motion" % k, o.And(o.veq(mm(R, tr(R)), [[1, 0, 0], [0, 1, 0], [0, 0, 1]]), o.eq(K_det(R), 1))


def o_cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def K_det(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))



def given(runner):
    def h(ex, args, ins):
        b, c, d = args
        g = runner.env["g"]
        K.need_zero([((g + b) * g + c) * g + d], "the pencil of conics is degenerate at the root of the cubic")
        return g
    return {"vx_cubic": h}


FRAMES = [((-1, 3, -1, -2), F(3)), ((2, 1, -3, -4), F(1, 2)), ((-4, 2, 1, -3), F(1, 3)), ((1, -1, 2, -3), F(2)), ((2, -4, 4, 0), F(3)), ((-2, 0, 1, -2), F(1, 2)), ((-3, -2, 3, 4), F(1, 3)), ((2, -1, 0, 2), F(2, 3))]


def family(frame, rot=I, scaled=True, moved=True):
    """Degenerate conics C^2 e e' - S^2 f f' for an orthonormal frame (e, f) have the normals C e + S f and C e - S f of their lines as rational
    functions: every configuration with real lines is of this form.  The depths are any point of the first line."""
    (a, b, c, d), k = frame
    n = F(a * a + b * b + c * c + d * d)
    e = [(a * a + b * b - c * c - d * d) / n, 2 * (b * c + a * d) / n, 2 * (b * d - a * c) / n]
    f = [2 * (b * c - a * d) / n, (a * a - b * b + c * c - d * d) / n, 2 * (c * d + a * b) / n]
    Cc, S = (1 - k * k) / (1 + k * k), 2 * k / (1 + k * k)
    D = [[Cc * Cc * e[i] * e[j] - S * S * f[i] * f[j] for j in range(3)] for i in range(3)]
    l = [Cc * x + S * y for x, y in zip(e, f)]
    a0 = (D[0][0] + D[1][1] - D[2][2]) / 2
    ag = -(D[0][0] - D[1][1] + D[2][2]) / 2
    E = (D[1][1] + D[2][2] - D[0][0]) / 2
    c12, c31, c23 = -D[0][1] / a0, D[0][2] / ag, -D[1][2] / E
    # the line's positive points lie between two of these
    ends = [v for v in ([F(0), l[2], -l[1]], [l[2], F(0), -l[0]], [l[1], -l[0], F(0)]) if sorted(x > 0 for x in v if x) in ([True, True], [False, False])]
    ends = [[abs(x) for x in v] for v in ends]

    def build(inp):
        s12 = root(inp, "s12", 1 - c12 * c12)
        h = (c23 - c12 * c31) / (1 - c12 * c12)
        v = root(inp, "v", 1 - c31 * c31 - h * h * (1 - c12 * c12))
        Z, O, cst = P.ZERO, P.ONE, P.R.const
        y = [[Z, Z, O], [s12, Z, cst(c12)], [h * s12, v, cst(c31)]]
        u = inp.free("u", 0, 1)
        w = inp.pos("s", F(1, 1000), 1000) if scaled else O
        lam = [w * (p * u + q * (1 - u)) for p, q in zip(*ends)]
        R = inp.rot("r") if rot is None else [[cst(x) for x in r] for r in rot]
        t = inp.vec(3, "t") if moved else [Z, Z, Z]
        q = [scale(x, b) for x, b in zip(lam, y)]
        p = [mv(tr(R), vsub(x, t)) for x in q]
        for a, b in zip(y, p):
            inp.put(a, b, O)
        return {"y": y, "p": p, "q": q, "R": R, "t": t, "g": cst(ag / a0), "u": u, "lam": lam, "c": (c12, c23, c31), "w": -l[2] / l[0]}
    return build


def position(env, o):
    """General position: the cubic has three roots, and no triple of depths with the same distances has a zero second depth."""
    u, (x, y, z), (c12, c23, c31), w = env["u"], env["lam"], env["c"], env["w"]
    a12, a13, a23 = x * x + y * y - 2 * c12 * x * y, x * x + z * z - 2 * c31 * x * z, y * y + z * z - 2 * c23 * y * z
    lead = a23 * (1 - c31 * c31) - a13 * (1 - c23 * c23)
    last = (a13 - a12) * w * w + 2 * c31 * a12 * w - a12
    if o.real:
        return [o.gt(u, 0), o.lt(u, 1), o.ne(lead, 0), o.ne(last, 0)]
    return [u - 0.02, 0.98 - u, abs(lead) / a23 - 0.02, abs(last) / a12 - 0.02]


def angle(frame, k0, rot=I, scaled=False, at=None):
    """As family, with any half angle k between the lines."""
    (a, b, c, d) = frame
    n = F(a * a + b * b + c * c + d * d)
    e = [(a * a + b * b - c * c - d * d) / n, 2 * (b * c + a * d) / n, 2 * (b * d - a * c) / n]
    f = [2 * (b * c - a * d) / n, (a * a - b * b + c * c - d * d) / n, 2 * (c * d + a * b) / n]

    def build(inp):
        Z, O, cst = P.ZERO, P.ONE, P.R.const
        k = inp.free("k", F(k0) * F(3, 4), F(k0) * F(4, 3))
        Cc, S = 1 - k * k, 2 * k
        D = [[Cc * Cc * e[i] * e[j] - S * S * f[i] * f[j] for j in range(3)] for i in range(3)]
        l = [Cc * x + S * y for x, y in zip(e, f)]
        m = [Cc * x - S * y for x, y in zip(e, f)]
        a0 = (D[0][0] + D[1][1] - D[2][2]) / 2
        ag = -(D[0][0] - D[1][1] + D[2][2]) / 2
        E = (D[1][1] + D[2][2] - D[0][0]) / 2
        c12, c31, c23 = -D[0][1] / a0, D[0][2] / ag, -D[1][2] / E
        d12 = a0 * a0 - D[0][1] * D[0][1]
        s12 = inp.root("s12", d12)
        # Gram determinant
        gram = (a0 * a0 * ag * ag * E * E - D[0][1] * D[0][1] * ag * ag * E * E - D[0][2] * D[0][2] * a0 * a0 * E * E - D[1][2] * D[1][2] * a0 * a0 * ag * ag
                + 2 * D[0][1] * D[0][2] * D[1][2] * a0 * ag * E)
        v = inp.root("v", gram)
        h = (c23 - c12 * c31)
        y = [[Z, Z, O], [s12 / a0, Z, c12], [h * a0 / s12, v / (s12 * ag * E), c31]]
        u = inp.free("u", 0, 1) if at is None else cst(at)
        w = inp.pos("s", F(1, 1000), 1000) if scaled else O
        l0 = [F(0), F(0), F(0)]
        kk = F(k0)
        lc = [(1 - kk * kk) * x + 2 * kk * yy for x, yy in zip(e, f)]
        ends = [(g, vv) for g, vv in (([F(0), lc[2], -lc[1]], [Z, l[2], -l[1]]), ([lc[2], F(0), -lc[0]], [l[2], Z, -l[0]]), ([lc[1], -lc[0], F(0)], [l[1], -l[0], Z]))
                if sorted(x > 0 for x in g if x) in ([True, True], [False, False])]
        ends = [[x if g0 >= 0 else -x for g0, x in zip(g, vv)] for g, vv in ends]
        lam = [w * (p * u + q * (1 - u)) for p, q in zip(*ends)]
        R = inp.rot("r") if rot is None else [[cst(x) for x in r] for r in rot]
        t = [Z, Z, Z]
        q = [scale(x, b) for x, b in zip(lam, y)]
        p = [mv(tr(R), vsub(x, t)) for x in q]
        for a, b in zip(y, p):
            inp.put(a, b, O)
        return {"y": y, "p": p, "q": q, "R": R, "t": t, "g": ag / a0, "u": u, "lam": lam, "c": (c12, c23, c31), "w": -l[2] / l[0], "m": m, "d12": d12, "gram": gram, "l": l,
           "p0": [a0, ag, E]}
    return build


def position2(env, o):
    m = env["m"]
    sgn = [m[0] * m[1], m[0] * m[2], env["d12"], env["gram"]] + env["lam"]
    if o.real:
        return position(env, o) + [o.gt(x, 0) for x in sgn] + [o.ne(x, 0) for x in env["l"]+env["p0"]]
    return position(env, o) + [x - 1e-3 for x in sgn]+[abs(x)-1e-2 for x in env["l"]+env["p0"]]

def infinite(n):
    """Landmark n is a point at infinity."""
    def build(inp):
        for k in range(3):
            inp.put(inp.unit("y%d" % k), inp.vec(3, "p%d" % k), P.ZERO if k == n else inp.free("w%d" % k))
        return {}
    return build


def collinear(inp):
    p, d = inp.vec(3, "p"), inp.vec(3, "d")
    for k in range(3):
        inp.put(inp.unit("y%d" % k), vadd(p, scale(k if k < 2 else inp.free("m"), d)), P.ONE)
    return {}


@fault
def degenerate(env, st, out, o):
    yield "there is no pose", o.eq(st, 0)


def refused(env, st, out, o):
    yield "there is no pose", o.eq(st, 0)


def symmetric(inp):
    """An isosceles triangle seen from its plane of symmetry, the apex last."""
    w, z, h, a = inp.pos("w", F(1, 4), 2), inp.pos("z", 1, 4), inp.free("h", F(1, 4), 2), inp.pos("a", 1, 4)
    q = [[w, P.ZERO, z], [-w, P.ZERO, z], [P.ZERO, h, a]]
    n = [inp.norm(x) for x in q]
    y = [scale(1 / m, x) for m, x in zip(n, q)]
    for b, x in zip(y, q):
        inp.put(b, x, P.ONE)
    return {"y": y, "p": q, "R": [[P.R.const(x) for x in r] for r in I], "t": [P.ZERO] * 3}


def found(env, st, out, o):
    yield next(iter(claims(env, st, out, o)))


def no_root(runner):
    """The cubic has no leading coefficient: there is nothing to find the root of."""
    def h(ex, args, ins):
        return P.NAN
    return {"vx_cubic": h}


ALL = "all rotations, translations and scales"
TURNS = {"half-turn-x": ((1, 0, 0), (0, -1, 0), (0, 0, -1)), "half-turn-y": ((-1, 0, 0), (0, 1, 0), (0, 0, -1)), "half-turn-z": ((-1, 0, 0), (0, -1, 0), (0, 0, 1)),
         "half-turn": ((F(-7, 9), F(4, 9), F(4, 9)), (F(4, 9), F(-1, 9), F(8, 9)), (F(4, 9), F(8, 9), F(-1, 9))),
         "turn": ((F(2, 3), F(-2, 3), F(1, 3)), (F(1, 3), F(2, 3), F(2, 3)), (F(-2, 3), F(-1, 3), F(2, 3)))}
W = (1, 2, 3, 4)
O = dict(redirects=K.CUBIC, witness=W)
JOBS = [Job("family-%d" % k, "h_p3p", family(f, None), claims, assume=position, setup=given, bounds=ALL + ", all depths on a line (frame %s, half angle tangent %s)" % f, **O)
        for k, f in enumerate(FRAMES)]
JOBS += [Job("lines-%d" % k, "h_p3p", angle(*FRAMES[k], at=F(1, 3)), claims, assume=position2, setup=given, tier="quick" if k not in (0, 1) else "thorough",
             bounds="all angles between the lines of the degenerate conic (frame %s)" % (FRAMES[k][0],), **O) for k in (0, 1, 2, 4, 5, 7)]
JOBS += [Job("lines2-%d" % k, "h_p3p", angle(*FRAMES[k], at=F(2, 3)), claims, assume=position2, setup=given, tier="thorough",
             bounds="all angles between the lines of the degenerate conic (frame %s)" % (FRAMES[k][0],), **O) for k in (0, 1, 2, 4, 5, 7)]
JOBS += [Job("shape-%d" % k, "h_p3p", scene(SHAPES[k]), claims, setup=cubic(SHAPES[k]), bounds="all rotations and translations; depths %s" % (SHAPES[k][0],), **O) for k in (0, 1, 9)]
JOBS += [Job("camera-%d" % k, "h_p3p", scene(SHAPES[k], turn=True), claims, setup=cubic(SHAPES[k]), bounds="all rotations, translations and directions of the camera's axes; depths %s" % (SHAPES[k][0],), **O) for k in (0,)]
JOBS += [Job("direct-%d" % k, "h_p3p_0gn", scene(SHAPES[k], scaled=True), claims, setup=cubic(SHAPES[k]), bounds=ALL + ", without refinement; depths %s" % (SHAPES[k][0],), **O) for k in (0, 1, 9)]
JOBS += [Job("several-%d" % k, "h_p3p", scene(SHAPES[k], I), claims, setup=cubic(SHAPES[k]), bounds="all translations; depths %s" % (SHAPES[k][0],), **O) for k in (2, 3, 4, 5, 6, 7, 10)]
JOBS += [Job("%s-%d" % (n, k), "h_p3p", scene(SHAPES[k], R), claims, setup=cubic(SHAPES[k]), bounds="all translations; rotation %s; depths %s" % (n, SHAPES[k][0]), **O)
         for n, R in TURNS.items() for k in (0, 1, 9)]
JOBS += [Job("infinite-%d" % k, "h_p3p", infinite(k), refused, witness=(0,), bounds="every bearing and landmark") for k in range(3)]
JOBS += [Job("collinear", "h_p3p", collinear, degenerate, redirects=K.CUBIC, setup=no_root, witness=(0,), bounds="every bearing, all collinear landmarks", validate=False)]
JOBS += [Job("symmetric", "h_p3p", symmetric, found, setup=no_root, redirects=K.CUBIC, witness=(), bounds="all isosceles triangles seen from their plane of symmetry, apex last", validate=False)]
