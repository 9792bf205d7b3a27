"""C02: poses act on projective points as rigid motions, and inverse/compose/scale obey the group laws."""
from engine.job import Job, dot, mv, mm, tr, vadd, vsub, scale, homog, eye, mat, flat

ASSUMPTIONS = ["rotations are exact rotation matrices (every unit quaternion)", "input points are normalised (C01)"]


def iso(inp, n=""):
    r = inp.rot("q" + n)
    t = inp.vec(3, "t" + n)
    inp.put(r, t)
    return r, t


def point_in(inp):
    """A finite point at depth 1/w along b whose image is at distance n along u: t = n u - R b / w.
    Every pose and finite point is of this form, except that the point must not be the output camera's centre."""
    r = inp.rot("q")
    b, u = inp.unit("b"), inp.unit("u")
    w, n = inp.pos("w"), inp.pos("n")
    t = vsub(scale(n, u), scale(1 / w, mv(r, b)))
    inp.put(r, t, b, w)
    return {"r": r, "t": t, "b": b, "w": w, "u": u, "n": n}


def transform(env, st, out, o):
    r, t, b, w = env["r"], env["t"], env["b"], env["w"]
    q, m = out[:4], mat(out[4:20], 4, 4)
    inv_r, inv_t = mat(out[20:29], 3, 3), out[29:32]
    iso_r, iso_t = mat(out[32:41], 3, 3), out[41:44]
    back = out[44:48]
    u, n = env["u"], env["n"]
    yield "result is R p + w t up to a positive scale", o.And(o.veq(q[:3], u), o.eq(q[3] * n, 1))
    yield "result is normalised", o.eq(dot(q[:3], q[:3]), 1)
    yield "homogeneous() is [R t; 0 1]", o.veq(m, homog(r, t))
    yield "isometry() is (R, t)", o.And(o.veq(iso_r, r), o.veq(iso_t, t))
    yield "inverse() is (R^T, -R^T t)", o.And(o.veq(inv_r, tr(r)), o.veq(vadd(mv(tr(r), t), inv_t), [0, 0, 0]))
    yield "transforming back with inverse() recovers the point", o.veq(back, b + [w])


def inf_in(inp):
    r, t = iso(inp)
    b = inp.unit("b")
    inp.put(b, 0)
    return {"r": r, "t": t, "b": b}


def infinity(env, st, out, o):
    q = out[:4]
    yield "points at infinity are only rotated", o.veq(q, mv(env["r"], env["b"]) + [0])


def parts_in(inp):
    r, t = iso(inp)
    k = inp.free("k")
    inp.put(k)
    return {"r": r, "t": t, "k": k}


def parts(env, st, out, o):
    r, t, k = env["r"], env["t"], env["k"]
    yield "from_parts keeps rotation and translation", o.And(o.veq(out[:9], r), o.veq(out[9:12], t))
    yield "scale multiplies only the translation", o.And(o.veq(out[12:21], r), o.veq(out[21:24], scale(k, t)))
    yield "identity is neutral", o.And(o.veq(out[24:33], eye(3)), o.veq(out[33:36], [0, 0, 0]))


def two_in(inp):
    ra, ta = iso(inp, "a")
    rb, tb = iso(inp, "b")
    return {"ra": ra, "ta": ta, "rb": rb, "tb": tb}


def two(env, st, out, o):
    ra, ta, rb, tb = (env[k] for k in ("ra", "ta", "rb", "tb"))
    r, t = mat(out[:9], 3, 3), out[9:12]
    yield "first camera pose = second camera pose * result (rotation)", o.veq(mm(rb, r), ra)
    yield "first camera pose = second camera pose * result (translation)", o.veq(vadd(mv(rb, t), tb), ta)


def loose_in(inp):
    """The same with an unnormalised homogeneous vector k (b, w)."""
    r = inp.rot("q")
    b, u = inp.unit("b"), inp.unit("u")
    w, n, k = inp.pos("w"), inp.pos("n"), inp.pos("k")
    t = vsub(scale(n, u), scale(1 / w, mv(r, b)))
    inp.put(r, t, scale(k, b), k * w)
    return {"r": r, "t": t, "b": b, "w": w, "u": u, "n": n, "k": k}


def loose(env, st, out, o):
    q, back = out[:4], out[44:48]
    u, n = env["u"], env["n"]
    yield "result is R p + w t, normalised", o.And(o.veq(q[:3], u), o.eq(q[3] * n, 1))
    yield "transforming back with inverse() recovers the normalised point", o.veq(back, env["b"] + [env["w"]])


B = "all rotations (unit quaternions), translations in R^3, finite points with 2^-40 <= w <= 2^40 at an image distance in [2^-40, 2^40]; no loops"
K4 = ("w2c", "c2w", "c2c", "w2w")
JOBS = [Job("transform-" + k, "h_transform_" + k, point_in, transform, bounds=B) for k in K4] + [
    Job("transform-unnormalised-" + k, "h_transform_" + k, loose_in, loose, bounds=B + ", times any factor in [2^-40, 2^40]") for k in K4] + [
    Job("infinity-" + k, "h_transform_" + k, inf_in, infinity, bounds="all rotations, translations, bearings; w = 0") for k in K4] + [
    Job("parts-" + k, "h_parts_" + k, parts_in, parts, bounds="all rotations, translations, all scale factors") for k in K4] + [
    Job("from-camera-poses", "h_from_camera_poses", two_in, two, bounds="all pairs of poses"),
]
