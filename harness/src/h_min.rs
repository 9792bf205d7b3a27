use crate::harnesses;
use crate::io::{In, Out};
use cv_core::nalgebra::*;
use cv_core::sample_consensus::Estimator;
use cv_core::*;

fn fm<const N: usize>(i: &mut In) -> [FeatureMatch; N] {
    std::array::from_fn(|_| { let a = i.unit(); FeatureMatch(a, i.unit()) })
}
fn five(i: &mut In) -> ([UnitVector3<f64>; 5], [UnitVector3<f64>; 5]) {
    (std::array::from_fn(|_| i.unit()), std::array::from_fn(|_| i.unit()))
}
fn out_poses<'a>(o: &mut Out, ps: impl Iterator<Item = &'a IsometryMatrix3<f64>>) -> i32 {
    let mut n = 0;
    for p in ps { o.iso(p); n += 1; }
    n
}

harnesses! {
    fn h_ep_matrix(i, o) -> i32 {
        let m = fm::<8>(&mut i);
        match eight_point::EightPoint::new().from_matches(m.iter().copied()) {
            Some(e) => { o.m3(&e.0); 1 }
            None => 0,
        }
    }
    fn h_ep_estimate(i, o) -> i32 {
        let m = fm::<8>(&mut i);
        let v = eight_point::EightPoint::new().estimate(m.iter().copied());
        out_poses(&mut o, v.iter().map(|p| &p.0))
    }
    fn h_five_basis(i, o) -> i32 {
        let (a, b) = five(&mut i);
        match nister_stewenius::five_points_nullspace_basis(&a, &b) {
            Some(m) => { for c in 0..4 { for r in 0..9 { o.f(m[(r, c)]); } } 1 }
            None => 0,
        }
    }
    fn h_five_estimate(i, o) -> i32 {
        let m = fm::<5>(&mut i);
        let v = nister_stewenius::NisterStewenius::new().estimate(m.iter().copied());
        out_poses(&mut o, v.iter().map(|p| &p.0))
    }
    fn h_p3p(i, o) -> i32 {
        let m: [FeatureWorldMatch; 3] = std::array::from_fn(|_| { let b = i.unit(); FeatureWorldMatch(b, i.world()) });
        let v = lambda_twist::LambdaTwist::new().estimate(m.iter().copied());
        out_poses(&mut o, v.iter().map(|p| &p.0))
    }
    fn h_p3p_0gn(i, o) -> i32 {
        let m: [FeatureWorldMatch; 3] = std::array::from_fn(|_| { let b = i.unit(); FeatureWorldMatch(b, i.world()) });
        let v = lambda_twist::LambdaTwist::new().gauss_newton_iterations(0).estimate(m.iter().copied());
        out_poses(&mut o, v.iter().map(|p| &p.0))
    }
    fn h_p3p_1gn(i, o) -> i32 {
        let m: [FeatureWorldMatch; 3] = std::array::from_fn(|_| { let b = i.unit(); FeatureWorldMatch(b, i.world()) });
        let v = lambda_twist::LambdaTwist::new().gauss_newton_iterations(1).estimate(m.iter().copied());
        out_poses(&mut o, v.iter().map(|p| &p.0))
    }
}
