"""C04: so(3) and SO(3): exponential, logarithm, hat, vee, bracket and rotation Jacobians."""
from fractions import Fraction
from engine.job import Job, dot, cross, scale, mv, mm, tr, hat, eye, mat, homog
from .lie import exp_claims

ASSUMPTIONS = ["rotation vectors of length in (0, 3.2e-8] take a first-order branch that is outside the encoding",
               "facts used about sine and cosine: s^2+c^2=1, their signs on (0,pi) and (-pi/2,pi/2), values at 0, double "
               "angles, atan2/acos as their inverses, angle >= sine"]


def w_in(inp):
    w = inp.vec(3, "w")
    inp.put(w)
    return {"w": w}


def not_small(env, o):
    return [o.gt(dot(env["w"], env["w"]), Fraction(1, 10 ** 15))]


def exp(env, st, out, o):
    w = env["w"]
    r = mat(out[:9], 3, 3)
    yield from exp_claims(o, w, r)
    yield "rotation() is the exponential", o.veq(out[9:18], out[:9])
    yield "jacobian_input is the homogeneous rotation", o.veq(mat(out[18:34], 4, 4), homog(r, [0, 0, 0]))


def zero_in(inp):
    inp.put(0, 0, 0)
    return {"w": [0, 0, 0]}


def exp0(env, st, out, o):
    yield "exp(0) is the identity", o.And(o.veq(mat(out[:9], 3, 3), eye(3)), o.veq(out[9:18], out[:9]))


def r_in(inp):
    r = inp.rot("q")
    inp.put(r)
    return {"r": r}


def log(env, st, out, o):
    r, l = env["r"], out[:3]
    th = o.sqrt(dot(l, l))
    anti = [r[2][1] - r[1][2], r[0][2] - r[2][0], r[1][0] - r[0][1]]
    yield "log is along the axis", o.veq(mv(r, l), l)
    yield "log has at most half a turn", o.le(th, Fraction(314159265359, 10 ** 11))
    yield "length of log is the rotation angle", o.eq(r[0][0] + r[1][1] + r[2][2], 1 + 2 * o.cos(th))
    yield "log is right-handed", o.veq([th * a for a in anti], [2 * o.sin(th) * x for x in l])


def not_tiny(env, o):
    r = env["r"]
    return [o.lt(r[0][0] + r[1][1] + r[2][2], 3 - Fraction(1, 10 ** 10))]


def round_(env, st, out, o):
    yield "exp(log R) is R", o.veq(mat(out[3:12], 3, 3), env["r"])


def half_in(inp):
    u = inp.unit("u")
    r = [[2 * u[i] * u[j] - (1 if i == j else 0) for j in range(3)] for i in range(3)]
    inp.put(r)
    return {"r": r}


def polar_in(inp):
    u = inp.unit("u")
    h = inp.free("h", Fraction(1, 1000), Fraction(157, 100))
    w = scale(2 * h, u)
    inp.put(w)
    return {"w": w}


def round2(env, st, out, o):
    yield "log(exp w) is w", o.veq(out[:3], env["w"])


def ab_in(inp):
    a, b = inp.vec(3, "a"), inp.vec(3, "b")
    inp.put(a, b)
    return {"a": a, "b": b}


def algebra(env, st, out, o):
    a, b = env["a"], env["b"]
    ha, hb = hat(a), hat(b)
    yield "hat(a) x = a cross x", o.veq(mat(out[:9], 3, 3), ha)
    yield "hat2 is hat squared", o.veq(mat(out[9:18], 3, 3), mm(ha, ha))
    yield "vee undoes hat", o.veq(out[18:21], a)
    yield "bracket is the cross product", o.veq(out[21:24], cross(a, b))
    yield "bracket is antisymmetric", o.veq(out[24:27], scale(-1, out[21:24]))
    yield "jacobian_self(y) is -hat(y)", o.veq(mat(out[27:36], 3, 3), [scale(-1, x) for x in hb])


def m_in(inp):
    m = inp.vec(9, "m")
    inp.put(m)
    return {"m": m}


def vee(env, st, out, o):
    m = env["m"]
    yield "vee reads entries (3,2), (1,3), (2,1)", o.veq(out[:3], [m[7], m[2], m[3]])


def abc_in(inp):
    v = [inp.vec(3, n) for n in "abc"]
    inp.put(v)
    return {}


def jacobi(env, st, out, o):
    yield "Jacobi identity", o.veq([out[k] + out[3 + k] + out[6 + k] for k in range(3)], [0, 0, 0])


def se3_in(inp):
    r = inp.rot("q")
    t = inp.vec(3, "t")
    inp.put(r, t)
    return {"r": r, "t": t}


def se3(env, st, out, o):
    yield "se3() starts with the translation", o.veq(out[:3], env["t"])
    for n, c in log(env, st, out[3:6], o):
        yield "se3() rotation: " + n, c


def se3_round(env, st, out, o):
    yield "from_se3(se3(pose)) has the pose's rotation", o.veq(mat(out[:9], 3, 3), env["r"])
    yield "from_se3(se3(pose)) has the pose's translation", o.veq(out[9:12], env["t"])


def from_in(inp):
    t, w = inp.vec(3, "t"), inp.vec(3, "w")
    inp.put(t, w)
    return {"t": t, "w": w}


def from_se3(env, st, out, o):
    yield from exp_claims(o, env["w"], mat(out[:9], 3, 3))
    yield "from_se3 keeps the translation", o.veq(out[9:12], env["t"])


RB = "all rotation matrices (unit quaternions)"
RT = RB + " turning by at least 1e-5 rad"
WB = "all rotation vectors longer than 3.2e-8"
JOBS = [
    Job("exp", "h_so3_exp", w_in, exp, assume=not_small, bounds=WB),
    Job("exp-zero", "h_so3_exp", zero_in, exp0, bounds="the zero vector", validate=False),
    Job("log", "h_so3_log", r_in, log, bounds=RB),
    Job("log-half-turn", "h_so3_log", half_in, log, bounds="all half-turns"),
    Job("exp-log", "h_so3_round", r_in, round_, assume=not_tiny, bounds=RT),
    Job("exp-log-half-turn", "h_so3_round", half_in, round_, bounds="all half-turns"),
    Job("log-exp", "h_so3_round2", polar_in, round2, bounds="all axes, angles from 0.002 to 3.14"),
    Job("algebra", "h_so3_algebra", ab_in, algebra, bounds="all pairs of vectors"),
    Job("vee", "h_vee", m_in, vee, bounds="all 3x3 matrices"),
    Job("jacobi", "h_jacobi", abc_in, jacobi, bounds="all triples of vectors"),
    Job("se3", "h_se3_of", se3_in, se3, bounds=RB + ", all translations"),
    Job("from-se3", "h_from_se3", from_in, from_se3, assume=not_small, bounds=WB + ", all translations"),
    Job("se3-round", "h_se3_round", se3_in, se3_round, assume=not_tiny, bounds=RT + ", all translations"),
]
