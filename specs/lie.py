"""Claims about the exponential map shared by several specifications."""
from engine.job import dot, cross, mm, mv, tr, det3, eye, vsub


def exp_claims(o, w, r, what="rotation"):
    """r is the rotation by the vector w (right-handed, angle |w|)."""
    anti = [r[2][1] - r[1][2], r[0][2] - r[2][0], r[1][0] - r[0][1]]
    th = o.sqrt(dot(w, w))
    yield what + " is orthogonal", o.veq(mm(tr(r), r), eye(3))
    yield what + " has determinant one", o.eq(det3(r), 1)
    yield what + " fixes its axis", o.veq(mv(r, w), w)
    yield what + " turns by the angle |w|", o.eq(r[0][0] + r[1][1] + r[2][2], 1 + 2 * o.cos(th))
    yield what + " turns right-handed about its axis", o.veq([th * a for a in anti], [2 * o.sin(th) * x for x in w])
