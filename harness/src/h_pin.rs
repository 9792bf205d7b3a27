use crate::harnesses;
use crate::io::{In, Out};
use cv_core::nalgebra::*;
use cv_core::sample_consensus::Model;
use cv_core::*;
use cv_pinhole::*;

fn intr(i: &mut In) -> CameraIntrinsics {
    let f = i.v2();
    let pp = i.v2();
    let skew = i.f();
    CameraIntrinsics { focals: f, principal_point: pp.into(), skew }
}
fn k1(i: &mut In) -> CameraIntrinsicsK1Distortion {
    let simple = intr(i);
    let k = i.f();
    CameraIntrinsicsK1Distortion::new(simple, k)
}
fn cal<M: CameraModel>(m: M, i: &mut In, o: &mut Out) -> i32 {
    let p = KeyPoint(i.v2().into());
    o.v3(m.calibrate(p).into_inner());
    1
}
fn uncal<M: CameraModel>(m: M, i: &mut In, o: &mut Out) -> i32 {
    let b = i.unit();
    match m.uncalibrate(b) { Some(p) => { o.v2(p.0.coords); 1 } None => 0 }
}
fn round_pixel<M: CameraModel>(m: M, i: &mut In, o: &mut Out) -> i32 {
    let p = KeyPoint(i.v2().into());
    match m.uncalibrate(m.calibrate(p)) { Some(p) => { o.v2(p.0.coords); 1 } None => 0 }
}
fn round_bearing<M: CameraModel>(m: M, i: &mut In, o: &mut Out) -> i32 {
    let b = i.unit();
    match m.uncalibrate(b) { Some(p) => { o.v3(m.calibrate(p).into_inner()); 1 } None => 0 }
}

struct Given(Option<CameraPoint>);
impl TriangulatorRelative for Given {
    fn triangulate_relative(&self, _: CameraToCamera, _: UnitVector3<f64>, _: UnitVector3<f64>) -> Option<CameraPoint> {
        self.0
    }
}

fn out_errs(o: &mut Out, e: Option<[Vector2<f64>; 2]>) -> i32 {
    match e { Some([a, b]) => { o.v2(a); o.v2(b); 1 } None => 0 }
}

harnesses! {
    fn h_pin_cal(i, o) -> i32 { let m = intr(&mut i); cal(m, &mut i, &mut o) }
    fn h_pin_uncal(i, o) -> i32 { let m = intr(&mut i); uncal(m, &mut i, &mut o) }
    fn h_pin_round_pixel(i, o) -> i32 { let m = intr(&mut i); round_pixel(m, &mut i, &mut o) }
    fn h_pin_round_bearing(i, o) -> i32 { let m = intr(&mut i); round_bearing(m, &mut i, &mut o) }
    fn h_pin_matrix(i, o) -> i32 { let m = intr(&mut i); o.m3(&m.matrix()); 1 }
    fn h_pin_builders(i, o) -> i32 {
        let f = i.v2();
        let pp = i.v2();
        let s = i.f();
        let f1 = i.f();
        o.m3(&CameraIntrinsics::identity().matrix());
        o.m3(&CameraIntrinsics::identity().focals(f).principal_point(pp.into()).skew(s).matrix());
        o.m3(&CameraIntrinsics::identity().skew(s).principal_point(pp.into()).focal(f1).matrix());
        o.m3(&CameraIntrinsics::identity().focals(f).skew(s).matrix());
        1
    }
    fn h_k1_cal(i, o) -> i32 { let m = k1(&mut i); cal(m, &mut i, &mut o) }
    fn h_k1_uncal(i, o) -> i32 { let m = k1(&mut i); uncal(m, &mut i, &mut o) }
    fn h_k1_round_pixel(i, o) -> i32 { let m = k1(&mut i); round_pixel(m, &mut i, &mut o) }
    fn h_k1_round_bearing(i, o) -> i32 { let m = k1(&mut i); round_bearing(m, &mut i, &mut o) }
    fn h_spec(i, o) -> i32 {
        let px = i.f() as usize;
        let py = i.f() as usize;
        let w = i.f();
        let h = i.f();
        let focal = i.f();
        let s = CameraSpecification::from_sensor(Vector2::new(px, py), Vector2::new(w, h));
        o.v2(s.pixel_dimensions);
        o.f(s.pixels.x as f64);
        o.f(s.pixels.y as f64);
        o.m3(&s.intrinsics_centered(focal).matrix());
        let q = CameraSpecification::from_sensor_square(Vector2::new(px, py), w);
        o.v2(q.pixel_dimensions);
        o.f(q.pixels.x as f64);
        o.f(q.pixels.y as f64);
        o.m3(&q.intrinsics_centered(focal).matrix());
        1
    }
    fn h_ess_of_pose(i, o) -> i32 {
        let pose = CameraToCamera(i.iso());
        o.m3(&EssentialMatrix::from(pose).0);
        1
    }
    fn h_ess_residual(i, o) -> i32 {
        let e = EssentialMatrix(i.m3());
        let a = i.unit();
        let b = i.unit();
        o.f(e.residual(&FeatureMatch(a, b)));
        1
    }
    fn h_ess_pose_residual(i, o) -> i32 {
        let pose = CameraToCamera(i.iso());
        let a = i.unit();
        let b = i.unit();
        o.f(EssentialMatrix::from(pose).residual(&FeatureMatch(a, b)));
        1
    }
    fn h_ess_rotations(i, o) -> i32 {
        let e = EssentialMatrix(i.m3());
        let eps = i.f();
        match e.possible_rotations_unscaled_translation(eps, 100) {
            Some((a, b, t)) => { o.m3(a.matrix()); o.m3(b.matrix()); o.v3(t); 1 }
            None => 0,
        }
    }
    fn h_ess_rotations2(i, o) -> i32 {
        let e = EssentialMatrix(i.m3());
        match e.possible_rotations(1e-12, 100) {
            Some([a, b]) => { o.m3(a.matrix()); o.m3(b.matrix()); 1 }
            None => 0,
        }
    }
    fn h_ess_poses(i, o) -> i32 {
        let e = EssentialMatrix(i.m3());
        match e.possible_unscaled_poses(1e-12, 100) {
            Some(ps) => { for p in ps.iter() { o.iso(&p.0); } 1 }
            None => 0,
        }
    }
    fn h_ess_poses_bearing(i, o) -> i32 {
        let e = EssentialMatrix(i.m3());
        match e.possible_unscaled_poses_bearing(1e-12, 100) {
            Some(ps) => { for p in ps.iter() { o.iso(&p.0); } 1 }
            None => 0,
        }
    }
    fn h_ess_recondition(i, o) -> i32 {
        let e = EssentialMatrix(i.m3());
        match e.recondition(1e-12, 100) { Some(e) => { o.m3(&e.0); 1 } None => 0 }
    }
    fn h_reproj(i, o) -> i32 {
        let pose = CameraToCamera(i.iso());
        let a = i.unit();
        let b = i.unit();
        let p = i.cam();
        out_errs(&mut o, pose_reprojection_error(pose, FeatureMatch(a, b), Given(Some(p))))
    }
    fn h_reproj_none(i, o) -> i32 {
        let pose = CameraToCamera(i.iso());
        let a = i.unit();
        let b = i.unit();
        let r = out_errs(&mut o, pose_reprojection_error(pose, FeatureMatch(a, b), Given(None)));
        let q = average_pose_reprojection_error(pose, FeatureMatch(a, b), Given(None)).is_some() as i32;
        r + q
    }
    fn h_reproj_avg(i, o) -> i32 {
        let pose = CameraToCamera(i.iso());
        let a = i.unit();
        let b = i.unit();
        let p = i.cam();
        match average_pose_reprojection_error(pose, FeatureMatch(a, b), Given(Some(p))) {
            Some(e) => { o.f(e); 1 }
            None => 0,
        }
    }
}
