"""C05: SE(3) tangent vectors: vector-space operations, isometry and inverse, NaN sanitising, L1 direction."""
from engine.job import Job, dot, mv, vadd, scale, eye, mat, tr, mm, NAN
from .lie import exp_claims

ASSUMPTIONS = ["the isometry of a tangent vector is x -> R (x + t), with R the rotation by the rotation vector (the convention "
               "of the code's own comment)"]


def two_in(inp):
    x, y = inp.vec(6, "x"), inp.vec(6, "y")
    k = inp.free("k")
    inp.put(x, y, k)
    return {"x": x, "y": y, "k": k}


def algebra(env, st, out, o):
    x, y, k = env["x"], env["y"], env["k"]
    s = vadd(x, y)
    yield "sum is componentwise", o.veq(out[:6], s)
    yield "+= is +", o.veq(out[6:12], s)
    yield "Sum adds all elements", o.veq(out[12:18], scale(2, s))
    yield "scale scales both parts", o.veq(out[18:24], scale(k, x))
    yield "scale_translation scales only the translation", o.veq(out[24:30], scale(k, x[:3]) + x[3:])
    yield "scale_rotation scales only the rotation", o.veq(out[30:36], x[:3] + scale(k, x[3:]))
    yield "from_vec undoes to_vec", o.veq(out[36:42], x)
    yield "to_vec lists translation then rotation", o.veq(out[42:48], x)
    yield "identity is zero", o.veq(out[48:54], [0] * 6)


def one_in(inp):
    t, w = inp.vec(3, "t"), inp.vec(3, "w")
    inp.put(t, w)
    return {"t": t, "w": w}


def iso(env, st, out, o):
    t, w = env["t"], env["w"]
    r = mat(out[:9], 3, 3)
    yield from exp_claims(o, w, r)
    yield "isometry rotates the translation", o.veq(out[9:12], mv(r, t))


def inverse(env, st, out, o):
    yield "inverse undoes the isometry (rotation)", o.veq(mat(out[:9], 3, 3), eye(3))
    yield "inverse undoes the isometry (translation)", o.veq(out[9:12], [0, 0, 0])


def rotations(env, st, out, o):
    yield from exp_claims(o, env["t"], mat(out[:9], 3, 3), "translation rotation")
    yield from exp_claims(o, env["w"], mat(out[9:18], 3, 3), "rotation")


def l1(env, st, out, o):
    for nm, v, u in (("translation", env["t"], out[:3]), ("rotation", env["w"], out[3:6])):
        z = o.And(*[o.eq(x, 0) for x in v])
        n = o.sqrt(dot(v, v))
        yield nm + " is normalised, or zero when it was zero", o.Or(
            o.And(z, o.veq(u, [0, 0, 0])), o.And(o.Not(z), o.veq([n * x for x in u], v)))


def nan_in(mask):
    def b(inp):
        x = inp.vec(6, "x")
        v = [NAN if mask >> k & 1 else x[k] for k in range(6)]
        inp.put(v)
        return {"v": v}
    return b


def new(mask):
    def c(env, st, out, o):
        v = env["v"]
        for nm, m, a, b in (("translation", mask & 7, v[:3], out[:3]), ("rotation", mask >> 3, v[3:], out[3:6])):
            if m:
                yield nm + " with a NaN becomes zero", o.veq(b, [0, 0, 0])
            else:
                yield nm + " is kept", o.veq(b, a)
    return c


B = "all real tangent vectors"
JOBS = [
    Job("algebra", "h_se3t_algebra", two_in, algebra, bounds=B + ", all scale factors"),
    Job("isometry", "h_se3t_iso", one_in, iso, bounds=B),
    Job("inverse", "h_se3t_inverse", one_in, inverse, bounds=B),
    Job("rotations", "h_se3t_rotations", one_in, rotations, bounds=B),
    Job("l1", "h_se3t_l1", one_in, l1, bounds=B),
] + [Job("new-nan-%02x" % m, "h_se3t_new", nan_in(m), new(m), bounds="this NaN pattern, all other entries real",
         tier="quick" if m in (0, 1, 2, 4, 8, 16, 32, 63) else "thorough") for m in range(64)]
