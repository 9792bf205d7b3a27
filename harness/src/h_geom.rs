use crate::harnesses;
use crate::io::{In, Out};
use cv_core::nalgebra::*;
use cv_core::*;
use cv_geom::epipolar;
use cv_geom::triangulation::*;

fn rel<T: TriangulatorRelative>(t: T, i: &mut In, o: &mut Out) -> i32 {
    let pose = CameraToCamera(i.iso());
    let a = i.unit();
    let b = i.unit();
    match t.triangulate_relative(pose, a, b) {
        Some(p) => { o.v4(p.homogeneous()); 1 }
        None => 0,
    }
}
fn obs<T: TriangulatorObservations, const N: usize>(t: T, i: &mut In, o: &mut Out) -> i32 {
    let ps: [(WorldToCamera, UnitVector3<f64>); N] = std::array::from_fn(|_| {
        let pose = WorldToCamera(i.iso());
        (pose, i.unit())
    });
    match t.triangulate_observations(ps.iter().copied()) {
        Some(p) => { o.v4(p.homogeneous()); 1 }
        None => 0,
    }
}
fn obs_cam<T: TriangulatorObservations, const N: usize>(t: T, i: &mut In, o: &mut Out) -> i32 {
    let c = i.unit();
    let ps: [(CameraToCamera, UnitVector3<f64>); N] = std::array::from_fn(|_| {
        let pose = CameraToCamera(i.iso());
        (pose, i.unit())
    });
    match t.triangulate_observations_to_camera(c, ps.iter().copied()) {
        Some(p) => { o.v4(p.homogeneous()); 1 }
        None => 0,
    }
}

/// One refinement step of any rate; the large epsilon also keeps the decomposition from iterating.
fn one_step(rate: f64) -> SineL1Triangulator {
    SineL1Triangulator::new().epsilon(1e3).max_iterations(1).optimization_rate(rate)
}

harnesses! {
    fn h_rel_sine_step(i, o) -> i32 { let r = i.f(); rel(one_step(r), &mut i, &mut o) }
    fn h_obs2_sine_step(i, o) -> i32 { let r = i.f(); obs::<_, 2>(one_step(r), &mut i, &mut o) }
    fn h_obs3_sine_step(i, o) -> i32 { let r = i.f(); obs::<_, 3>(one_step(r), &mut i, &mut o) }
    fn h_rel_eigen(i, o) -> i32 { rel(LinearEigenTriangulator::new(), &mut i, &mut o) }
    fn h_rel_dlt(i, o) -> i32 { rel(RelativeDltTriangulator::new(), &mut i, &mut o) }
    fn h_rel_sine(i, o) -> i32 { rel(SineL1Triangulator::new(), &mut i, &mut o) }
    fn h_rel_mean(i, o) -> i32 { rel(MeanMeanTriangulator, &mut i, &mut o) }
    fn h_rel_l1(i, o) -> i32 { rel(AngularL1Triangulator, &mut i, &mut o) }
    fn h_rel_linf(i, o) -> i32 { rel(AngularLInfinityTriangulator, &mut i, &mut o) }
    fn h_obs1_eigen(i, o) -> i32 { obs::<_, 1>(LinearEigenTriangulator::new(), &mut i, &mut o) }
    fn h_obs1_sine(i, o) -> i32 { obs::<_, 1>(SineL1Triangulator::new(), &mut i, &mut o) }
    fn h_obs0_eigen(i, o) -> i32 { obs::<_, 0>(LinearEigenTriangulator::new(), &mut i, &mut o) }
    fn h_obs0_sine(i, o) -> i32 { obs::<_, 0>(SineL1Triangulator::new(), &mut i, &mut o) }
    fn h_obs0_mean(i, o) -> i32 { obs::<_, 0>(MeanMeanTriangulator, &mut i, &mut o) }
    fn h_obs1_mean(i, o) -> i32 { obs::<_, 1>(MeanMeanTriangulator, &mut i, &mut o) }
    fn h_obs2_eigen(i, o) -> i32 { obs::<_, 2>(LinearEigenTriangulator::new(), &mut i, &mut o) }
    fn h_obs3_eigen(i, o) -> i32 { obs::<_, 3>(LinearEigenTriangulator::new(), &mut i, &mut o) }
    fn h_obs2_mean(i, o) -> i32 { obs::<_, 2>(MeanMeanTriangulator, &mut i, &mut o) }
    fn h_obs3_mean(i, o) -> i32 { obs::<_, 3>(MeanMeanTriangulator, &mut i, &mut o) }
    fn h_obs2_sine(i, o) -> i32 { obs::<_, 2>(SineL1Triangulator::new(), &mut i, &mut o) }
    fn h_obs3_sine(i, o) -> i32 { obs::<_, 3>(SineL1Triangulator::new(), &mut i, &mut o) }
    fn h_obscam2_eigen(i, o) -> i32 { obs_cam::<_, 2>(LinearEigenTriangulator::new(), &mut i, &mut o) }
    fn h_obscam2_mean(i, o) -> i32 { obs_cam::<_, 2>(MeanMeanTriangulator, &mut i, &mut o) }
    fn h_point_gradient(i, o) -> i32 {
        let t = i.v3();
        let b = i.unit();
        o.v3(epipolar::point_gradient(t, b));
        1
    }
    fn h_world_pose_gradient(i, o) -> i32 {
        let t = i.v3();
        let b = i.unit();
        let g = epipolar::world_pose_gradient(t, b);
        o.v3(g.translation);
        o.v3(g.rotation);
        1
    }
    fn h_loss(i, o) -> i32 {
        let t = i.v3();
        let a = i.unit();
        let b = i.unit();
        o.f(epipolar::loss(t, a, b));
        1
    }
    fn h_three_view(i, o) -> i32 {
        let c = i.unit();
        let f = i.unit();
        let ftoc = i.v3();
        let s = i.unit();
        let stoc = i.v3();
        for g in epipolar::three_view_gradients(c, f, ftoc, s, stoc).iter() {
            o.v3(g.translation);
            o.v3(g.rotation);
        }
        1
    }
}
