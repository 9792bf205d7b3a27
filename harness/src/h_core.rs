use crate::harnesses;
use crate::io::{In, Out};
use cv_core::nalgebra::*;
use cv_core::sample_consensus::Model;
use cv_core::*;

fn projective<P: Projective>(i: &mut In, o: &mut Out) -> i32 {
    let p = P::from_homogeneous(i.v4());
    o.v4(p.homogeneous());
    o.v3(p.bearing().into_inner());
    match p.point() {
        Some(q) => {
            o.v3(q.coords);
            1
        }
        None => 0,
    }
}

fn transform<P: Pose>(i: &mut In, o: &mut Out) -> i32 {
    let pose: P = i.iso().into();
    let p = P::InputPoint::from_homogeneous_unchecked(i.v4());
    let q = pose.transform(p);
    o.v4(q.homogeneous());
    o.m4(&pose.homogeneous());
    let inv = pose.inverse();
    o.iso(&inv.isometry());
    o.iso(&pose.isometry());
    let back = inv.transform(<P::Inverse as Pose>::InputPoint::from_homogeneous_unchecked(q.homogeneous()));
    o.v4(back.homogeneous());
    1
}

fn parts<P: Pose>(i: &mut In, o: &mut Out) -> i32 {
    let r = i.rot();
    let t = i.v3();
    let k = i.f();
    let pose = P::from_parts(t, r);
    o.iso(&pose.isometry());
    o.iso(&pose.scale(k).isometry());
    o.iso(&P::identity().isometry());
    1
}

fn jacobians<P: Pose>(i: &mut In, o: &mut Out) -> i32 {
    let pose: P = i.iso().into();
    let p = P::InputPoint::from_homogeneous_unchecked(i.v4());
    let (q, ji, js) = pose.transform_jacobians(p);
    o.v4(q.homogeneous());
    o.m4(&ji);
    o.m46(&js);
    let (q, ji) = pose.transform_jacobian_input(p);
    o.v4(q.homogeneous());
    o.m4(&ji);
    let (q, js) = pose.transform_jacobian_self(p);
    o.v4(q.homogeneous());
    o.m46(&js);
    o.v4(pose.transform(p).homogeneous());
    1
}

fn se3(i: &mut In) -> Se3TangentSpace {
    let translation = i.v3();
    let rotation = i.v3();
    Se3TangentSpace { translation, rotation }
}

fn out_se3(o: &mut Out, s: Se3TangentSpace) {
    o.v3(s.translation);
    o.v3(s.rotation);
}

harnesses! {
    fn h_proj_camera(i, o) -> i32 { projective::<CameraPoint>(&mut i, &mut o) }
    fn h_proj_world(i, o) -> i32 { projective::<WorldPoint>(&mut i, &mut o) }
    fn h_proj_again(i, o) -> i32 {
        let p = CameraPoint::from_homogeneous(i.v4());
        o.v4(p.homogeneous());
        o.v4(CameraPoint::from_homogeneous(p.homogeneous()).homogeneous());
        1
    }
    fn h_proj_scaled(i, o) -> i32 {
        let v = i.v4();
        let k = i.f();
        o.v4(WorldPoint::from_homogeneous(v).homogeneous());
        o.v4(WorldPoint::from_homogeneous(v * k).homogeneous());
        1
    }
    fn h_from_point(i, o) -> i32 {
        let p = CameraPoint::from_point(Point3::from(i.v3()));
        o.v4(p.homogeneous());
        match p.point() { Some(q) => { o.v3(q.coords); 1 } None => 0 }
    }
    fn h_transform_w2c(i, o) -> i32 { transform::<WorldToCamera>(&mut i, &mut o) }
    fn h_transform_c2w(i, o) -> i32 { transform::<CameraToWorld>(&mut i, &mut o) }
    fn h_transform_c2c(i, o) -> i32 { transform::<CameraToCamera>(&mut i, &mut o) }
    fn h_transform_w2w(i, o) -> i32 { transform::<WorldToWorld>(&mut i, &mut o) }
    fn h_parts_w2c(i, o) -> i32 { parts::<WorldToCamera>(&mut i, &mut o) }
    fn h_parts_c2w(i, o) -> i32 { parts::<CameraToWorld>(&mut i, &mut o) }
    fn h_parts_w2w(i, o) -> i32 { parts::<WorldToWorld>(&mut i, &mut o) }
    fn h_parts_c2c(i, o) -> i32 { parts::<CameraToCamera>(&mut i, &mut o) }
    fn h_from_camera_poses(i, o) -> i32 {
        let a = WorldToCamera(i.iso());
        let b = WorldToCamera(i.iso());
        o.iso(&WorldToWorld::from_camera_poses(a, b).isometry());
        1
    }
    fn h_se3_of(i, o) -> i32 {
        let v = CameraToCamera(i.iso()).se3();
        o.v3(v.xyz());
        o.v3(Vector3::new(v[3], v[4], v[5]));
        1
    }
    fn h_from_se3(i, o) -> i32 {
        let t = i.v3();
        let w = i.v3();
        o.iso(&CameraToCamera::from_se3(Vector6::new(t.x, t.y, t.z, w.x, w.y, w.z)).isometry());
        1
    }
    fn h_se3_round(i, o) -> i32 {
        let p = WorldToCamera(i.iso());
        o.iso(&WorldToCamera::from_se3(p.se3()).isometry());
        1
    }
    fn h_jac_w2c(i, o) -> i32 { jacobians::<WorldToCamera>(&mut i, &mut o) }
    fn h_jac_c2w(i, o) -> i32 { jacobians::<CameraToWorld>(&mut i, &mut o) }
    fn h_jac_w2w(i, o) -> i32 { jacobians::<WorldToWorld>(&mut i, &mut o) }
    fn h_jac_c2c(i, o) -> i32 { jacobians::<CameraToCamera>(&mut i, &mut o) }
    fn h_so3_exp(i, o) -> i32 {
        let w = i.v3();
        let r: Rotation3<f64> = Skew3(w).into();
        o.m3(r.matrix());
        o.m3(Skew3(w).rotation().matrix());
        o.m4(&Skew3(w).jacobian_input());
        1
    }
    fn h_so3_log(i, o) -> i32 {
        let s: Skew3 = i.rot().into();
        o.v3(s.0);
        1
    }
    fn h_so3_round(i, o) -> i32 {
        let s: Skew3 = i.rot().into();
        o.v3(s.0);
        o.m3(s.rotation().matrix());
        1
    }
    fn h_so3_round2(i, o) -> i32 {
        let s: Skew3 = Skew3(i.v3()).rotation().into();
        o.v3(s.0);
        1
    }
    fn h_so3_algebra(i, o) -> i32 {
        let a = Skew3(i.v3());
        let b = Skew3(i.v3());
        o.m3(&a.hat());
        o.m3(&a.hat2());
        o.v3(Skew3::vee(a.hat()).0);
        o.v3(a.bracket(b).0);
        o.v3(b.bracket(a).0);
        o.m3(&Skew3::jacobian_self(b.0));
        1
    }
    fn h_vee(i, o) -> i32 {
        o.v3(Skew3::vee(i.m3()).0);
        1
    }
    fn h_jacobi(i, o) -> i32 {
        let a = Skew3(i.v3());
        let b = Skew3(i.v3());
        let c = Skew3(i.v3());
        o.v3(a.bracket(b.bracket(c)).0);
        o.v3(b.bracket(c.bracket(a)).0);
        o.v3(c.bracket(a.bracket(b)).0);
        1
    }
    fn h_se3t_new(i, o) -> i32 {
        let t = i.v3();
        let r = i.v3();
        out_se3(&mut o, Se3TangentSpace::new(t, r));
        1
    }
    fn h_se3t_algebra(i, o) -> i32 {
        let x = se3(&mut i);
        let y = se3(&mut i);
        let k = i.f();
        out_se3(&mut o, x + y);
        let mut z = x;
        z += y;
        out_se3(&mut o, z);
        out_se3(&mut o, [x, y, z].iter().copied().sum());
        out_se3(&mut o, x.scale(k));
        out_se3(&mut o, x.scale_translation(k));
        out_se3(&mut o, x.scale_rotation(k));
        out_se3(&mut o, Se3TangentSpace::from_vec(x.to_vec()));
        for e in x.to_vec().iter() { o.f(*e); }
        out_se3(&mut o, Se3TangentSpace::identity());
        1
    }
    fn h_se3t_iso(i, o) -> i32 {
        let x = se3(&mut i);
        o.iso(&x.isometry());
        1
    }
    fn h_se3t_inverse(i, o) -> i32 {
        let x = se3(&mut i);
        o.iso(&(x.inverse().isometry() * x.isometry()));
        1
    }
    fn h_se3t_rotations(i, o) -> i32 {
        let (a, b) = se3(&mut i).rotations();
        o.m3(a.matrix());
        o.m3(b.matrix());
        1
    }
    fn h_se3t_l1(i, o) -> i32 {
        out_se3(&mut o, se3(&mut i).l1());
        1
    }
    fn h_res_w2c(i, o) -> i32 {
        let pose = WorldToCamera(i.iso());
        let b = i.unit();
        let w = i.world();
        o.f(pose.residual(&FeatureWorldMatch(b, w)));
        1
    }
    fn h_res_c2c(i, o) -> i32 {
        let pose = CameraToCamera(i.iso());
        let a = i.unit();
        let b = i.unit();
        o.f(pose.residual(&FeatureMatch(a, b)));
        1
    }
}
