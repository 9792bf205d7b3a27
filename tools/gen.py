#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from the table below (specs/<id>.py decides what is claimed)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def p(id, title, statement, qtext, why, files, mech, note="", over=("inputs",), na=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    PROPS.append((d, note, na))


p("C01", "Projective points keep their normalisation and round-trip with Euclidean points",
  "Every way of building a point yields a homogeneous vector whose bearing part has unit length and whose fourth component is not negative, naming the same point (or direction at infinity) it was built from. Reading the Euclidean point back, or its bearing, gives exactly what was put in, and a point at infinity has no Euclidean point.",
  "every homogeneous vector with a non-zero bearing part, every Euclidean point other than the origin, every scale and sign of the fourth component",
  "tests build a handful of points with a positive depth; negative, zero and infinite fourth components and the sign rules are never exercised",
  ["cv-core/src/point.rs"], [("Projective::from_homogeneous / from_point / point / bearing", "cv-core/src/point.rs")])
p("C02", "Poses act as rigid motions and obey the group laws",
  "Transforming a point by a pose gives the point R p + t, normalised, for finite points and only rotates points at infinity. Inverting a pose undoes it, building a pose from parts and scaling it affect exactly the stated parts, and the relative pose of two camera poses composed with the second gives the first.",
  "every rotation, every translation, every finite point (any depth) and every direction",
  "tests transform random samples only; nothing quantifies over all poses or the inverse/composition identities",
  ["cv-core/src/pose.rs"], [("Pose trait and its four implementations", "cv-core/src/pose.rs")])
p("C03", "Pose transformation Jacobians are the derivatives of the transformation",
  "The Jacobians returned with a transformed point are the partial derivatives of the homogeneous output with respect to the input point and to a pose perturbation in the tangent space. This holds at every pose and for every point, including at infinity.",
  "every rotation, translation and homogeneous point; every perturbation direction",
  "a derivative is a statement about all directions at all points; the tests never evaluate one",
  ["cv-core/src/pose.rs"], [("transform_jacobians and its helpers", "cv-core/src/pose.rs")])
p("C04", "Rotation vectors and rotation matrices: exponential, logarithm and derivatives",
  "The exponential of a rotation vector is the rotation about that axis by its length, for every vector including zero, and the logarithm of any rotation matrix - identity and half-turns included - is a rotation vector whose exponential is that matrix. The documented Jacobians and the operators (hat, Lie bracket, inverse, compositions) agree with these maps.",
  "every rotation vector (any length) and every rotation matrix",
  "tests sample a few rotations; the half-turn and identity branches and the derivative identities are not reached",
  ["cv-core/src/so3.rs"], [("Skew3 conversions, operators and jacobians", "cv-core/src/so3.rs")])
p("C05", "Tangent-space updates compose, invert and scale as rigid motions",
  "Turning a tangent-space element into a rigid motion uses its rotation part as rotation vector and its translation part as translation; inverse, scaling, averaging, gradients of either norm and sums act on it as documented. The inverse always represents the inverse motion.",
  "every translation and rotation vector, every scale factor",
  "tests never look at the tangent-space type on its own",
  ["cv-core/src/so3.rs", "cv-core/src/pose.rs"], [("Se3TangentSpace", "cv-core/src/so3.rs")])
p("C06", "Consensus residuals measure the reprojection error of a pose",
  "The residual of a world-to-camera pose on a landmark match is one minus the cosine between the observed and the predicted bearing. The residual of a relative pose on a feature match is zero for a noise-free match of a finite point in front of both cameras, stays between zero and two, and is the maximum when no point can be triangulated.",
  "every pose, bearing pair and landmark, whatever the internal eigen decomposition returns",
  "tests only use residuals to pick inliers in a random consensus run",
  ["cv-core/src/pose.rs"], [("Model::residual implementations", "cv-core/src/pose.rs")])
p("C07", "Pinhole intrinsics: calibration and projection are inverse to each other",
  "For any focal lengths, principal point and skew, calibrating a pixel gives the unit bearing whose projection by the intrinsics matrix is that pixel, projecting a bearing in front of the camera gives the pixel that calibrates back to it, and a bearing that is not in front of the camera has no projection. The intrinsics matrix and builders expose exactly the stated parameters.",
  "every intrinsics (focal lengths non-zero), every pixel, every unit bearing",
  "one doc test calibrates and uncalibrates a single pixel without skew",
  ["cv-pinhole/src/lib.rs"], [("CameraIntrinsics as CameraModel", "cv-pinhole/src/lib.rs")])
p("C08", "Radially distorted cameras: calibration and projection are inverse to each other",
  "With a first-order radial distortion coefficient, calibrating a pixel undistorts it by one plus the coefficient times the squared radius, and projecting a bearing returns a pixel that calibrates back to it, or nothing when the lens cannot image the bearing. No bearing, coefficient or pixel produces an undefined (NaN) pixel.",
  "every intrinsics, every distortion coefficient (zero, positive, negative), every pixel and bearing, the principal point included",
  "one doc test uses a single coefficient and pixel; the principal point, zero coefficient and out-of-reach bearings are not tested",
  ["cv-pinhole/src/lib.rs"], [("CameraIntrinsicsK1Distortion as CameraModel", "cv-pinhole/src/lib.rs")])
p("C09", "Camera specifications turn sensor sizes into centred intrinsics",
  "A specification built from a sensor size has that size divided by the pixel count as pixel size, and its centred intrinsics have the focal length in pixels and the centre of the pixel grid as the principal point.",
  "every pixel count, sensor size and focal length", "no test constructs a specification",
  ["cv-pinhole/src/lib.rs"], [("CameraSpecification", "cv-pinhole/src/lib.rs")])
p("C10", "Essential matrices of poses and the epipolar residual",
  "The essential matrix of a relative pose is the cross-product matrix of its translation times its rotation, so every noise-free match has residual zero. The residual of a match is the absolute epipolar form on the normalised image planes.",
  "every pose, every matrix, every bearing pair with non-zero third components",
  "tests use eight random points and one pose", ["cv-pinhole/src/essential.rs"],
  [("EssentialMatrix from CameraToCamera; Model::residual", "cv-pinhole/src/essential.rs")])
p("C11", "Essential matrices decompose into exactly the poses that generate them",
  "Decomposing an essential matrix returns proper rotations and a unit translation whose essential matrices equal the input up to scale and sign, whatever signs the singular value decomposition picks. One of the returned candidate poses is the pose that generated the matrix, up to the scale of the translation.",
  "every essential matrix (all rotations and translation directions, both signs), every sign choice of the decomposition",
  "tests decompose a few random poses; the reflected singular vectors and sign choices depend on the input",
  ["cv-pinhole/src/essential.rs"], [("possible_rotations_unscaled_translation, possible_unscaled_poses(_bearing)", "cv-pinhole/src/essential.rs")])
p("C12", "Reconditioning projects onto the essential matrices",
  "Reconditioning any matrix keeps its singular vectors, replaces the two larger singular values by their mean and drops the smallest. A matrix that already is an essential matrix is unchanged.",
  "every matrix, given as any product of rotations/reflections and ordered singular values", "one test checks that a nearly ideal matrix keeps its poses",
  ["cv-pinhole/src/essential.rs"], [("EssentialMatrix::recondition", "cv-pinhole/src/essential.rs")])
p("C13", "Reprojection errors compare observed and predicted image coordinates",
  "The pose reprojection error of a match is, in each camera, the observed minus the predicted coordinates on the normalised image plane, for whatever point the triangulator supplies, and the average is the mean of the two norms. There is no error exactly when the point cannot be triangulated or is not in front of both cameras.",
  "every pose, bearing pair and triangulated point (finite or at infinity), and every failure of the triangulator",
  "a doc test checks that one noise-free example has a small error",
  ["cv-pinhole/src/lib.rs"], [("pose_reprojection_error, average_pose_reprojection_error", "cv-pinhole/src/lib.rs")])
p("C14", "Linear triangulation recovers the observed point",
  "From noise-free observations by two or more posed cameras with distinct rays, the linear triangulators and their refinement return the observed point, for relative poses and absolute poses alike; the mean-ray triangulator does so when all cameras are equally distant. Fewer than two observations, or observations that contradict the point, are refused.",
  "every pair of poses, every point in front of the cameras (any depth), whatever signs and scales the eigen or singular value decomposition picks",
  "tests triangulate a few random points; sign choices of the decomposition and degenerate counts are not reached",
  ["cv-geom/src/triangulation.rs", "cv-core/src/triangulation.rs"],
  [("LinearEigenTriangulator, RelativeDltTriangulator, SineL1Triangulator, MeanMeanTriangulator", "cv-geom/src/triangulation.rs"),
   ("triangulate_relative / triangulate_observations_to_camera defaults", "cv-core/src/triangulation.rs")])
p("C15", "Angular two-view triangulation recovers the observed point",
  "From a noise-free match, the two-view triangulators that minimise angular errors return the observed point in the first camera's frame. From a noisy match they return the intersection of corrected rays: the L1 method moves only the ray nearer to the baseline, into the other's epipolar plane, and the L-infinity method moves both by the same angle into a common one.",
  "every relative pose, every pair of bearings and depths", "tests use a few random examples with small rotations",
  ["cv-geom/src/triangulation.rs"], [("AngularL1Triangulator, AngularLInfinityTriangulator", "cv-geom/src/triangulation.rs")])
p("C16", "Triangulated points are finite and in front of every camera that saw them",
  "Whatever the inputs - noisy, contradictory or degenerate - and whatever the numerical decomposition returns, a triangulator either returns nothing or a point with finite coordinates that lies on the side of every observing camera its bearing points to.",
  "every pose, bearing and decomposition result", "tests only feed consistent observations",
  ["cv-geom/src/triangulation.rs"], [("finiteness and cheirality filters of every triangulator", "cv-geom/src/triangulation.rs")])
p("C17", "Epipolar gradients vanish on consistent observations and point downhill",
  "The point, pose and three-view gradients are zero exactly when the observations already agree, and otherwise are the residual vectors they are documented to be. The epipolar loss is the sine of the angle of the corrected bearing, lies between zero and one, is one for bearings more than a right angle apart, and is zero on other noise-free matches.",
  "every translation and bearing (and every noise-free triple of views)", "no test evaluates a gradient or the loss on its own",
  ["cv-geom/src/epipolar.rs"], [("point_gradient, world_pose_gradient, three_view_gradients, loss", "cv-geom/src/epipolar.rs")])
p("C18", "Pose optimisers keep a perfect pose and always return rigid motions",
  "Started at poses that explain all observations exactly, every pose optimiser returns those poses, and with no observations or no iterations it returns its input. One step applies exactly the documented gradient step, and the result is always a rigid motion.",
  "every pose, every consistent set of observations (bounded count and iterations)", "no test covers the optimisers on their own",
  ["cv-optimize/src/single_view_optimizer.rs", "cv-optimize/src/three_view_optimizer.rs"],
  [("single_view_simple_optimize_l1/l2", "cv-optimize/src/single_view_optimizer.rs"), ("three_view_simple/adaptive optimisers", "cv-optimize/src/three_view_optimizer.rs")])
p("C19", "The eight-point estimator solves the epipolar equations of its matches",
  "From eight matches the estimator forms exactly the linear epipolar constraint of each match and returns the matrix that satisfies them, so for noise-free matches every match has epipolar residual zero and one of the estimated poses is the generating one. When a decomposition fails there is no estimate.",
  "every set of eight bearing pairs, whatever order and sign the decomposition returns", "one test with eight random points and a small motion",
  ["eight-point/src/lib.rs"], [("EightPoint::from_matches / estimate", "eight-point/src/lib.rs")])
p("C20", "The five-point estimator's candidates satisfy the epipolar equations",
  "The five-point estimator spans exactly the matrices that satisfy the epipolar equation of all five matches, and its polynomial system encodes that a candidate is an essential matrix. Every essential matrix in the span is among its candidates, and degenerate matches give none.",
  "every set of five bearing pairs; every null-space basis", "one test checks that the right pose is among the results on random data",
  ["nister-stewenius/src/lib.rs"], [("five-point nullspace, constraint matrix and solver", "nister-stewenius/src/lib.rs")])
p("C21", "Three-point pose candidates reproduce the three observations",
  "For a noise-free observation in general position, every pose returned by the three-point solver maps the three landmarks onto their observed bearings, in front of the camera, and is a rigid motion, and the generating pose is among them - whatever the rotation, half-turns included. Landmarks at infinity or on a line give no pose.",
  "every triple of landmarks and bearings in general position", "three tests with fixed numbers",
  ["lambda-twist/src/lib.rs"], [("LambdaTwist::compute_poses_nordberg and helpers", "lambda-twist/src/lib.rs")])
p("C22", "Estimators and triangulators fail by refusing, never by panicking",
  "On any input - NaN, infinities, coincident or collinear data, no observations at all for the triangulators, any data of at least the minimum sample size for the estimators - the estimators, triangulators, optimizers, camera models and consensus residuals either answer or refuse, after a bounded number of iterations. None of them panics.",
  "every double-precision input, including NaN and infinities, and every failure of a numerical decomposition", "tests never pass degenerate or non-finite data",
  ["cv-geom/src/triangulation.rs", "cv-pinhole/src/lib.rs", "cv-pinhole/src/essential.rs", "eight-point/src/lib.rs", "lambda-twist/src/lib.rs", "nister-stewenius/src/lib.rs", "cv-core/src/pose.rs"],
  [("Option-returning APIs and sorts/filters inside them", "all listed files")], over=("inputs", "fault_sequences"))
NB = "this crate does not build in the sandbox (its dependencies are not in the offline cache), so there is neither an IR to execute symbolically nor a native build to replay a counterexample on"
p("C23", "Feature extraction is deterministic and its keypoints lie inside the image",
  "Extracting features twice from the same image gives the same keypoints and descriptors, every keypoint lies inside the image, and the descriptor length does not depend on the image.",
  "every image and every configuration", "tests use a few fixture images", ["akaze/src/lib.rs"], [("Akaze::extract", "akaze/src/lib.rs")], na=NB, over=("inputs", "configurations"))
p("C24", "Reconstruction bookkeeping keeps views, features and landmarks consistent",
  "After any sequence of adding frames, merging, splitting and removing views or landmarks, every landmark's observations and every view's features refer to each other and to existing entities.",
  "every history of reconstruction operations", "the crate has no test of its data structure", ["cv-sfm/src/lib.rs"], [("VSlamData", "cv-sfm/src/lib.rs")], na=NB, over=("histories",))
p("C25", "Diffusion step lengths sum up to the requested time",
  "The fast explicit diffusion step sizes of a cycle are positive and sum up to the requested stopping time, in whatever order they are used.",
  "every stopping time, step limit and reordering", "tests check one configuration", ["akaze/src/fed_tau.rs"], [("fed_tau_by_process_time", "akaze/src/fed_tau.rs")], na=NB)
TECH = "symbolic execution of the compiled code's LLVM IR, decided by SMT (z3, cvc5) over real arithmetic, counterexamples replayed natively"
NOTE = ("Every path of the real functions within the stated bounds is executed symbolically and every claim is discharged by an SMT solver for all inputs; "
        "violations are only reported after replay against the native build. Trusts: rustc/LLVM IR generation, the executor's instruction semantics (cross-checked against native runs), "
        "exact real arithmetic in place of f64 rounding, and ")

if __name__ == "__main__":
    import importlib
    import sys
    sys.path.insert(0, V)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, note, na in PROPS:
            f.write(json.dumps(d) + "\n")
    checks, nas = [], []
    for d, note, na in PROPS:
        i = d["id"]
        if na or not os.path.exists(os.path.join(V, "specs", i.lower() + ".py")):
            nas.append({"property": i, "reason": na or "the check for it is not finished"})
            continue
        m = importlib.import_module("specs." + i.lower())
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s --tier quick" % i,
                       "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                       "technique": TECH, "level": "model_checking",
                       "level_note": NOTE + "; ".join(getattr(m, "ASSUMPTIONS", ["the stated input bounds"])) + "."})
    json.dump({"version": 1, "setup_cmd": "python3-vt check.py --setup", "checks": checks, "not_applicable": nas,
               "notes": "Solver-based checking of the real code; see DESIGN.md. `python3-vt check.py ID -v` prints per-job details; `check.py --replay FILE` reruns a reported counterexample natively."},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
