"""C03: the Jacobians of a pose transform are the derivatives of the homogeneous transform."""
from engine.job import Job, dot, mv, vadd, scale, homog, hat, mat
from .c02 import point_in

ASSUMPTIONS = ["the derivative is that of the unnormalised homogeneous output [R p + w t; w], rotation perturbed on the left "
               "and translation added (the convention of the documentation)"]


def jac(env, st, out, o):
    r, t, b, w = env["r"], env["t"], env["b"], env["w"]
    q, ji, js = out[:4], mat(out[4:20], 4, 4), mat(out[20:44], 4, 6)
    q2, ji2 = out[44:48], mat(out[48:64], 4, 4)
    q3, js2 = out[64:68], mat(out[68:92], 4, 6)
    q4 = out[92:96]
    p = mv(r, b)
    h = hat(p)
    want = [[w if j == i else 0 for j in range(3)] + [-h[i][j] for j in range(3)] for i in range(3)] + [[0] * 6]
    yield "input jacobian is the homogeneous matrix", o.veq(ji, homog(r, t))
    yield "translation block is w times the identity", o.veq([x[:3] for x in js], [x[:3] for x in want])
    yield "rotation block is -hat(R p)", o.veq([x[3:] for x in js[:3]], [x[3:] for x in want[:3]])
    yield "w row of the rotation block is zero", o.veq(js[3][3:], [0, 0, 0])
    yield "separate and joint jacobians agree", o.And(o.veq(ji2, ji), o.veq(js2, js))
    yield "the points returned with the jacobians equal transform()", o.And(o.veq(q, q4), o.veq(q2, q4), o.veq(q3, q4))


def inf_in(inp):
    r, t = inp.rot("q"), inp.vec(3, "t")
    b = inp.unit("b")
    inp.put(r, t, b, 0)
    return {"r": r, "t": t, "b": b, "w": 0}


B = "all rotations, translations in R^3, normalised points with 2^-40 <= w <= 2^40 at an image distance in [2^-40, 2^40]"
K4 = ("w2c", "c2w", "c2c", "w2w")
JOBS = [Job("jacobians-" + k, "h_jac_" + k, point_in, jac, bounds=B) for k in K4] + [
    Job("jacobians-infinity-" + k, "h_jac_" + k, inf_in, jac, bounds="all rotations, translations, directions; w = 0") for k in K4]
