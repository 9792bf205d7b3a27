use crate::harnesses;
use crate::io::{In, Out};
use cv_core::nalgebra::*;
use cv_core::*;
use cv_optimize::*;

fn marks<const N: usize>(i: &mut In) -> [FeatureWorldMatch; N] {
    std::array::from_fn(|_| { let b = i.unit(); FeatureWorldMatch(b, i.world()) })
}
fn tri<const N: usize>(i: &mut In) -> [[UnitVector3<f64>; 3]; N] {
    std::array::from_fn(|_| std::array::from_fn(|_| i.unit()))
}
fn sv_l1<const N: usize>(i: &mut In, o: &mut Out, iters: usize) -> i32 {
    let pose = WorldToCamera(i.iso());
    let eps = i.f();
    let rate = i.f();
    let m = marks::<N>(i);
    o.iso(&single_view_simple_optimize_l1(pose, eps, rate, iters, &m).0);
    1
}
fn sv_l2<const N: usize>(i: &mut In, o: &mut Out, iters: usize) -> i32 {
    let pose = WorldToCamera(i.iso());
    let rate = i.f();
    let m = marks::<N>(i);
    o.iso(&single_view_simple_optimize_l2(pose, rate, iters, &m).0);
    1
}
fn tv_l1<const N: usize>(i: &mut In, o: &mut Out, iters: usize) -> i32 {
    let a = CameraToCamera(i.iso());
    let b = CameraToCamera(i.iso());
    let eps = i.f();
    let rate = i.f();
    let m = tri::<N>(i);
    for p in three_view_simple_optimize_l1([a, b], eps, rate, iters, &m).iter() { o.iso(&p.0); }
    1
}
fn tv_l2<const N: usize>(i: &mut In, o: &mut Out, iters: usize) -> i32 {
    let a = CameraToCamera(i.iso());
    let b = CameraToCamera(i.iso());
    let rate = i.f();
    let m = tri::<N>(i);
    for p in three_view_simple_optimize_l2([a, b], rate, iters, &m).iter() { o.iso(&p.0); }
    1
}
fn tv_ad<const N: usize>(i: &mut In, o: &mut Out, iters: usize) -> i32 {
    let a = CameraToCamera(i.iso());
    let b = CameraToCamera(i.iso());
    let m = tri::<N>(i);
    for p in three_view_adaptive_optimize_l2([a, b], iters, &m).iter() { o.iso(&p.0); }
    1
}

// The documented steps, formed from the gradients of cv-geom.
fn delta(t: Vector3<f64>, r: Vector3<f64>) -> IsometryMatrix3<f64> {
    Se3TangentSpace::new(t, r).isometry()
}
fn unit(v: Vector3<f64>) -> Vector3<f64> {
    Se3TangentSpace::new(v, Vector3::zeros()).l1().translation
}
/// The l1 step: the sum of the gradients' directions over the sum of their reciprocal sizes.
fn weiszfeld(g: &[Se3TangentSpace], size: f64, eps: f64, rate: f64) -> IsometryMatrix3<f64> {
    let (mut t, mut r, mut wt, mut wr) = (Vector3::zeros(), Vector3::zeros(), 0.0, 0.0);
    for g in g {
        t += unit(g.translation);
        r += unit(g.rotation);
        wt += 1.0 / (g.translation.norm() + eps * size);
        wr += 1.0 / (g.rotation.norm() + eps);
    }
    delta(t * (rate / wt), r * (rate / wr))
}
/// The l2 step: the mean gradient.
fn mean(g: &[Se3TangentSpace], n: usize, rate: f64) -> IsometryMatrix3<f64> {
    let (mut t, mut r) = (Vector3::zeros(), Vector3::zeros());
    for g in g {
        t += g.translation;
        r += g.rotation;
    }
    delta(t * (rate / n as f64), r * (rate / n as f64))
}
/// The adaptive l2 step: the mean gradient scaled by how much the gradients agree.
fn adaptive(g: &[Se3TangentSpace]) -> IsometryMatrix3<f64> {
    let (mut t, mut r, mut nt, mut nr) = (Vector3::zeros(), Vector3::zeros(), 0.0, 0.0);
    for g in g {
        t += g.translation;
        r += g.rotation;
        nt += g.translation.norm();
        nr += g.rotation.norm();
    }
    let n = g.len() as f64;
    let part = |v: Vector3<f64>, s: f64| if s > 0.0 { v * (v.norm() / s / n) } else { Vector3::zeros() };
    delta(part(t, nt), part(r, nr))
}
fn seen(pose: WorldToCamera, m: &[FeatureWorldMatch]) -> Vec<Se3TangentSpace> {
    m.iter().filter_map(|m| pose.transform(m.1).point().map(|p| cv_geom::epipolar::world_pose_gradient(p.coords, m.0))).collect()
}
fn views(p: &[IsometryMatrix3<f64>; 2], m: &[[UnitVector3<f64>; 3]]) -> [Vec<Se3TangentSpace>; 2] {
    let g: Vec<_> = m.iter().map(|m| cv_geom::epipolar::three_view_gradients(m[0], p[0] * m[1], p[0].translation.vector, p[1] * m[2], p[1].translation.vector)).collect();
    [g.iter().map(|g| g[0]).collect(), g.iter().map(|g| g[1]).collect()]
}
fn ref_sv_l1<const N: usize>(i: &mut In, o: &mut Out, iters: usize) -> i32 {
    let mut pose = WorldToCamera(i.iso());
    let eps = i.f();
    let rate = i.f();
    let m = marks::<N>(i);
    o.iso(&single_view_simple_optimize_l1(pose, eps, rate, iters, &m).0);
    for _ in 0..iters {
        pose = WorldToCamera(weiszfeld(&seen(pose, &m), pose.0.translation.vector.norm(), eps, rate) * pose.0);
    }
    o.iso(&pose.0);
    1
}
fn ref_sv_l2<const N: usize>(i: &mut In, o: &mut Out, iters: usize) -> i32 {
    let mut pose = WorldToCamera(i.iso());
    let rate = i.f();
    let m = marks::<N>(i);
    o.iso(&single_view_simple_optimize_l2(pose, rate, iters, &m).0);
    for _ in 0..iters {
        pose = WorldToCamera(mean(&seen(pose, &m), N, rate) * pose.0);
    }
    o.iso(&pose.0);
    1
}
fn ref_tv<const N: usize>(i: &mut In, o: &mut Out, kind: i32, iters: usize) -> i32 {
    let a = CameraToCamera(i.iso());
    let b = CameraToCamera(i.iso());
    let eps = if kind == 1 { i.f() } else { 0.0 };
    let rate = if kind != 0 { i.f() } else { 0.0 };
    let m = tri::<N>(i);
    let out = match kind {
        1 => three_view_simple_optimize_l1([a, b], eps, rate, iters, &m),
        2 => three_view_simple_optimize_l2([a, b], rate, iters, &m),
        _ => three_view_adaptive_optimize_l2([a, b], iters, &m),
    };
    for p in out.iter() { o.iso(&p.0); }
    let mut p = [a.0.inverse(), b.0.inverse()];
    for _ in 0..iters {
        let g = views(&p, &m);
        let size = p[0].translation.vector.norm() + p[1].translation.vector.norm();
        for k in 0..2 {
            p[k] = match kind {
                1 => weiszfeld(&g[k], size, eps, rate),
                2 => mean(&g[k], N, rate),
                _ => adaptive(&g[k]),
            } * p[k];
        }
    }
    for p in p { o.iso(&p.inverse()); }
    1
}

harnesses! {
    fn h_ref_sv_l1_1x1(i, o) -> i32 { ref_sv_l1::<1>(&mut i, &mut o, 1) }
    fn h_ref_sv_l1_2x1(i, o) -> i32 { ref_sv_l1::<2>(&mut i, &mut o, 1) }
    fn h_ref_sv_l1_3x1(i, o) -> i32 { ref_sv_l1::<3>(&mut i, &mut o, 1) }
    fn h_ref_sv_l1_1x2(i, o) -> i32 { ref_sv_l1::<1>(&mut i, &mut o, 2) }
    fn h_ref_sv_l1_2x2(i, o) -> i32 { ref_sv_l1::<2>(&mut i, &mut o, 2) }
    fn h_ref_sv_l2_1x1(i, o) -> i32 { ref_sv_l2::<1>(&mut i, &mut o, 1) }
    fn h_ref_sv_l2_2x1(i, o) -> i32 { ref_sv_l2::<2>(&mut i, &mut o, 1) }
    fn h_ref_sv_l2_3x1(i, o) -> i32 { ref_sv_l2::<3>(&mut i, &mut o, 1) }
    fn h_ref_sv_l2_1x2(i, o) -> i32 { ref_sv_l2::<1>(&mut i, &mut o, 2) }
    fn h_ref_sv_l2_2x2(i, o) -> i32 { ref_sv_l2::<2>(&mut i, &mut o, 2) }
    fn h_ref_tv_ad_1x1(i, o) -> i32 { ref_tv::<1>(&mut i, &mut o, 0, 1) }
    fn h_ref_tv_ad_2x1(i, o) -> i32 { ref_tv::<2>(&mut i, &mut o, 0, 1) }
    fn h_ref_tv_ad_3x1(i, o) -> i32 { ref_tv::<3>(&mut i, &mut o, 0, 1) }
    fn h_ref_tv_ad_1x2(i, o) -> i32 { ref_tv::<1>(&mut i, &mut o, 0, 2) }
    fn h_ref_tv_ad_2x2(i, o) -> i32 { ref_tv::<2>(&mut i, &mut o, 0, 2) }
    fn h_ref_tv_l1_1x1(i, o) -> i32 { ref_tv::<1>(&mut i, &mut o, 1, 1) }
    fn h_ref_tv_l1_2x1(i, o) -> i32 { ref_tv::<2>(&mut i, &mut o, 1, 1) }
    fn h_ref_tv_l1_3x1(i, o) -> i32 { ref_tv::<3>(&mut i, &mut o, 1, 1) }
    fn h_ref_tv_l1_1x2(i, o) -> i32 { ref_tv::<1>(&mut i, &mut o, 1, 2) }
    fn h_ref_tv_l1_2x2(i, o) -> i32 { ref_tv::<2>(&mut i, &mut o, 1, 2) }
    fn h_ref_tv_l2_1x1(i, o) -> i32 { ref_tv::<1>(&mut i, &mut o, 2, 1) }
    fn h_ref_tv_l2_2x1(i, o) -> i32 { ref_tv::<2>(&mut i, &mut o, 2, 1) }
    fn h_ref_tv_l2_3x1(i, o) -> i32 { ref_tv::<3>(&mut i, &mut o, 2, 1) }
    fn h_ref_tv_l2_1x2(i, o) -> i32 { ref_tv::<1>(&mut i, &mut o, 2, 2) }
    fn h_ref_tv_l2_2x2(i, o) -> i32 { ref_tv::<2>(&mut i, &mut o, 2, 2) }
    fn h_sv_l1_1x60(i, o) -> i32 { sv_l1::<1>(&mut i, &mut o, 60) }
    fn h_sv_l2_1x60(i, o) -> i32 { sv_l2::<1>(&mut i, &mut o, 60) }
    fn h_tv_l1_1x60(i, o) -> i32 { tv_l1::<1>(&mut i, &mut o, 60) }
    fn h_tv_l2_1x60(i, o) -> i32 { tv_l2::<1>(&mut i, &mut o, 60) }
    fn h_tv_ad_1x60(i, o) -> i32 { tv_ad::<1>(&mut i, &mut o, 60) }
    fn h_sv_l1_3x1(i, o) -> i32 { sv_l1::<3>(&mut i, &mut o, 1) }
    fn h_sv_l2_3x1(i, o) -> i32 { sv_l2::<3>(&mut i, &mut o, 1) }
    fn h_sv_l1_0(i, o) -> i32 { sv_l1::<0>(&mut i, &mut o, 3) }
    fn h_sv_l2_0(i, o) -> i32 { sv_l2::<0>(&mut i, &mut o, 3) }
    fn h_tv_l1_0(i, o) -> i32 { tv_l1::<0>(&mut i, &mut o, 3) }
    fn h_tv_l2_0(i, o) -> i32 { tv_l2::<0>(&mut i, &mut o, 3) }
    fn h_tv_ad_0(i, o) -> i32 { tv_ad::<0>(&mut i, &mut o, 3) }
    fn h_sv_l1_1x0(i, o) -> i32 { sv_l1::<1>(&mut i, &mut o, 0) }
    fn h_sv_l2_1x0(i, o) -> i32 { sv_l2::<1>(&mut i, &mut o, 0) }
    fn h_tv_l1_1x0(i, o) -> i32 { tv_l1::<1>(&mut i, &mut o, 0) }
    fn h_tv_l2_1x0(i, o) -> i32 { tv_l2::<1>(&mut i, &mut o, 0) }
    fn h_tv_ad_1x0(i, o) -> i32 { tv_ad::<1>(&mut i, &mut o, 0) }
    fn h_sv_l1_1x1(i, o) -> i32 { sv_l1::<1>(&mut i, &mut o, 1) }
    fn h_sv_l2_1x1(i, o) -> i32 { sv_l2::<1>(&mut i, &mut o, 1) }
    fn h_sv_l1_2x1(i, o) -> i32 { sv_l1::<2>(&mut i, &mut o, 1) }
    fn h_sv_l2_2x1(i, o) -> i32 { sv_l2::<2>(&mut i, &mut o, 1) }
    fn h_sv_l1_1x2(i, o) -> i32 { sv_l1::<1>(&mut i, &mut o, 2) }
    fn h_sv_l2_1x2(i, o) -> i32 { sv_l2::<1>(&mut i, &mut o, 2) }
    fn h_sv_l1_2x2(i, o) -> i32 { sv_l1::<2>(&mut i, &mut o, 2) }
    fn h_sv_l2_2x2(i, o) -> i32 { sv_l2::<2>(&mut i, &mut o, 2) }
    fn h_tv_l1_1x1(i, o) -> i32 { tv_l1::<1>(&mut i, &mut o, 1) }
    fn h_tv_l2_1x1(i, o) -> i32 { tv_l2::<1>(&mut i, &mut o, 1) }
    fn h_tv_ad_1x1(i, o) -> i32 { tv_ad::<1>(&mut i, &mut o, 1) }
    fn h_tv_l1_1x2(i, o) -> i32 { tv_l1::<1>(&mut i, &mut o, 2) }
    fn h_tv_l2_1x2(i, o) -> i32 { tv_l2::<1>(&mut i, &mut o, 2) }
    fn h_tv_ad_1x2(i, o) -> i32 { tv_ad::<1>(&mut i, &mut o, 2) }
    fn h_tv_l1_2x1(i, o) -> i32 { tv_l1::<2>(&mut i, &mut o, 1) }
    fn h_tv_l2_2x1(i, o) -> i32 { tv_l2::<2>(&mut i, &mut o, 1) }
    fn h_tv_ad_2x1(i, o) -> i32 { tv_ad::<2>(&mut i, &mut o, 1) }
}
