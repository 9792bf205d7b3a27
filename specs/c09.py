"""C09: camera specifications give pixel pitch and centred intrinsics."""
from fractions import Fraction
from engine.job import Job

ASSUMPTIONS = ["pixel counts below 2^31 (exact in f64)"]


def spec_in(inp):
    px, py = inp.integer("px", 1, 1 << 31), inp.integer("py", 1, 1 << 31)
    w, h, f = inp.pos("w"), inp.pos("h"), inp.free("f")
    inp.put(px, py, w, h, f)
    return {"px": px, "py": py, "w": w, "h": h, "f": f}


def spec(env, st, out, o):
    px, py, w, h, f = (env[k] for k in ("px", "py", "w", "h", "f"))
    half = Fraction(1, 2) if o.real else 0.5
    K = [f, 0, px * half - half, 0, f, py * half - half, 0, 0, 1]
    yield "pixel width is sensor width over columns", o.eq(out[0] * px, w)
    yield "pixel height is sensor height over rows", o.eq(out[1] * py, h)
    yield "pixel counts are kept", o.veq(out[2:4], [px, py])
    yield "centred intrinsics: principal point at the image centre", o.veq(out[4:13], K)
    yield "square pixels have the pitch of the width", o.And(o.eq(out[13] * px, w), o.eq(out[14], out[13]))
    yield "square: pixel counts are kept", o.veq(out[15:17], [px, py])
    yield "square: principal point at the image centre", o.veq(out[17:26], K)


JOBS = [Job("specification", "h_spec", spec_in, spec, bounds="1 <= pixels <= 2^31, sensor sides in [2^-40, 2^40], any focal length")]
