"""Noise-free observations: a point at depth d1 along a in the first camera and d2 along b in the second."""
from engine.job import mv, vadd, vsub, scale, dot, cross, tr


def two_view(inp, put=True, rot=None, lo=None):
    r = rot(inp) if rot else inp.rot("q")
    a, b = inp.unit("a"), inp.unit("b")
    d1, d2 = inp.pos("d1"), inp.pos("d2")
    t = vsub(scale(d2, b), scale(d1, mv(r, a)))
    if put:
        inp.put(r, t, a, b)
    return {"r": r, "t": t, "a": a, "b": b, "d1": d1, "d2": d2}


def apart(env, o):
    """The two rays are not parallel, and neither is along the baseline: the point is determined."""
    return [o.ne(dot(env["b"], mv(env["r"], env["a"])) * dot(env["b"], mv(env["r"], env["a"])), 1)]


def point(env):
    return env["a"] + [1 / env["d1"]]
