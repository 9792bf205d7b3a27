"""C22: nothing panics, whatever the doubles are."""
import importlib
from engine import contracts as K
from engine.fp import FpJob

ALL = {**K.EIG, **K.SVD3, **K.SVD4, **K.SVD10, **K.LU10, **K.EV10, **K.ROT, **K.CUBIC}
B = "every double of every input, NaN and infinities included; every failure and every result of the decompositions"
NEVER = 10 ** 9


def opts(h):
    if "sine" in h:
        return {"merge": 0, "max_visits": 20000}
    if h.startswith("h_five"):
        return {"merge": NEVER}
    if "-" in h or h.startswith(("h_p3p", "h_ref", "h_sv", "h_tv")):
        return {"merge": 1}
    return {}


def jobs():
    seen, out = {}, []
    for n in range(1, 22):
        for jb in importlib.import_module("specs.c%02d" % n).JOBS:
            if jb.harness not in seen and not jb.panic_ok and not jb.harness.endswith("x60"):
                seen[jb.harness] = jb
    for h, jb in seen.items():
        out.append(FpJob(h[2:].replace("_", "-"), h, jb, ALL, bounds=B, opts=opts(h)))
    out.append(FpJob("five-all-real", "h_five_estimate", lambda rng: rng.choice(TEN), ALL, opts=dict(MANY, real=10, merge=0),
                     bounds="every double; all ten eigenvalues real, every one with a null vector and four poses"))
    return out


# matches with ten real solutions, to replay with
TEN = [
    [0.208686, -0.767999, 0.605498, 0.141805, -0.798867, 0.584554, 0.360546, 0.762082, 0.537808, 0.841669, -0.277465, 0.463257, 0.262109, 0.383487, 0.885571,
     -0.305173, -0.178391, 0.935439, -0.700536, -0.242656, 0.671095, 0.704711, 0.14103, 0.695337, -0.59634, 0.515241, 0.615552, -0.24415, 0.320493, 0.915246],
    [-0.560653, 0.618124, 0.550991, 0.395246, -0.172824, 0.902171, -0.187335, 0.244255, 0.951444, -0.672984, 0.344164, 0.654709, -0.412698, -0.603649, 0.68212,
     0.204277, 0.80775, 0.553002, 0.659272, -0.071892, 0.74846, -0.286103, -0.105471, 0.952376, -0.042472, 0.248469, 0.967708, -0.300333, 0.238449, 0.923549],
    [-0.898039, 0.341259, 0.277611, -0.228411, 0.921104, 0.315271, -0.102458, 0.46711, 0.878243, -0.746134, -0.190767, 0.637881, 0.515568, 0.764985, 0.385989,
     -0.190892, 0.830392, 0.523459, 0.625817, 0.084826, 0.775344, 0.726841, 0.482615, 0.488656, -0.02909, -0.744743, 0.666717, 0.159758, -0.533047, 0.830866]]


# decompositions that give the most solutions
MANY = {"eig": [0.0] * 4 + [1.0, 2.0, 3.0, 4.0, 5.0], "svd10": [10.0 - k for k in range(1, 10)] + [0.0], "svd3": [1.0, 1.0, 0.0], "eye": True, "solved": True}



JOBS = jobs()
ASSUMPTIONS = [
    "the results of float operations other than comparison, negation and absolute value are arbitrary doubles (more behaviours than the real ones)",
    "nalgebra's decompositions return instead of panicking when their iteration limit is positive, and a converged singular value decomposition has no NaN singular values of a 3x3 or 10x10 matrix",
    "Rotation3::from_matrix_eps and lambda-twist's cube_root return",
    "integer inputs (the sensor's size) at one value each"]
ARITHMETIC = []
