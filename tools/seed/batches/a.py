[{'id': 'C01-nearly-unit',
  'property': 'C01',
  'file': 'cv-core/src/point.rs',
  'subs': [['        Self::from_homogeneous_unchecked(point.unscale(point.xyz().norm()))',
            '        let norm = point.xyz().norm();\n'
            '        if (norm - 1.0).abs() < 1e-2 {\n'
            '            // Already normalized, no need to divide again.\n'
            '            return Self::from_homogeneous_unchecked(point);\n'
            '        }\n'
            '        Self::from_homogeneous_unchecked(point.unscale(norm))']],
  'needs': 'a homogeneous vector whose bearing part has a length within 1% of one, but not one',
  'breaks': 'such a point is stored without being normalised, so its bearing is not a unit vector',
  'demo': 'use cv_core::nalgebra::*;\n'
          'use cv_core::*;\n'
          'fn main() {\n'
          '    let p = WorldPoint::from_homogeneous(Vector4::new(0.0, 0.6, 0.805, 0.25));\n'
          '    assert!((p.homogeneous().xyz().norm() - 1.0).abs() < 1e-9, "{}", p.homogeneous());\n'
          '    let c = CameraPoint::from_point(Point3::new(0.3, 0.1, 2.0));\n'
          '    assert!((c.point().unwrap() - Point3::new(0.3, 0.1, 2.0)).norm() < 1e-9);\n'
          '}\n'},
 {'id': 'C02-small-baseline',
  'property': 'C02',
  'file': 'cv-core/src/pose.rs',
  'subs': [['        self.isometry().inverse().into()',
            '        let mut isometry = self.isometry();\n'
            '        isometry.rotation = isometry.rotation.inverse();\n'
            '        // No need to rotate a vanishing baseline.\n'
            '        if isometry.translation.vector.norm_squared() > 1e-6 {\n'
            '            isometry.translation.vector = isometry.rotation * -isometry.translation.vector;\n'
            '        }\n'
            '        isometry.into()']],
  'needs': 'a pose whose translation is shorter than 1e-3',
  'breaks': 'the inverse keeps the translation of the forward pose, so inverting does not undo it',
  'demo': 'use cv_core::nalgebra::*;\n'
          'use cv_core::*;\n'
          'fn main() {\n'
          '    for s in [1.0, 1e-2, 9e-4] {\n'
          '        let pose = CameraToCamera::from_parts(Vector3::new(0.3, -0.2, 0.9) * s, Rotation3::new(Vector3::new(0.4, 0.2, -0.1)));\n'
          '        let both = pose.isometry() * pose.inverse().isometry();\n'
          '        assert!(both.translation.vector.norm() < 1e-9, "{}", both);\n'
          '    }\n'
          '}\n'},
 {'id': 'C03-unrotated',
  'property': 'C03',
  'file': 'cv-core/src/pose.rs',
  'subs': [['    ) -> (Self::OutputPoint, Matrix4x6<f64>) {\n        let (rotated, output) = pose_rotated_output(self, input);\n',
            '    ) -> (Self::OutputPoint, Matrix4x6<f64>) {\n'
            '        let rotated = input.homogeneous();\n'
            '        let output = pose_output(self, input);\n']],
  'needs': 'a call of transform_jacobian_self (not transform_jacobians) on a pose with a rotation',
  'breaks': 'the derivative with respect to the rotation is taken at the unrotated point',
  'demo': 'use cv_core::nalgebra::*;\n'
          'use cv_core::*;\n'
          'fn main() {\n'
          '    let pose = WorldToCamera::from_parts(Vector3::new(0.3, -0.2, 0.9), Rotation3::new(Vector3::new(0.4, 0.2, -0.1)));\n'
          '    let p = WorldPoint::from_point(Point3::new(1.0, 2.0, 3.0));\n'
          '    let (_, _, all) = pose.transform_jacobians(p);\n'
          '    let (_, own) = pose.transform_jacobian_self(p);\n'
          '    assert!((all - own).norm() < 1e-9, "{}", all - own);\n'
          '}\n'},
 {'id': 'C04-wrapped-angle',
  'property': 'C04',
  'file': 'cv-core/src/so3.rs',
  'subs': [['            Self::from_axis_angle(&axis, theta)', '            Self::from_axis_angle(&axis, theta % core::f64::consts::PI)']],
  'needs': 'a rotation vector of length pi or more',
  'breaks': 'its exponential is the rotation by the length modulo pi instead of modulo two pi',
  'demo': 'use cv_core::nalgebra::*;\n'
          'use cv_core::*;\n'
          'fn main() {\n'
          '    for theta in [0.5, 3.0, 3.3, 5.0] {\n'
          '        let axis = Vector3::new(0.6, 0.0, 0.8);\n'
          '        let r = Skew3(axis * theta).rotation();\n'
          '        let expect = Rotation3::from_axis_angle(&Unit::new_normalize(axis), theta);\n'
          '        assert!((r.matrix() - expect.matrix()).norm() < 1e-9, "{} {}", theta, r);\n'
          '    }\n'
          '}\n'},
 {'id': 'C07-wide-angle',
  'property': 'C07',
  'file': 'cv-pinhole/src/lib.rs',
  'subs': [['        let projection = projection.xy() / projection.z;', '        let projection = projection.xy() / projection.z.max(0.02);']],
  'needs': 'a bearing more than 88.8 degrees away from the optical axis, still in front of the camera',
  'breaks': 'its projection is not the pixel that calibrates back to it',
  'demo': 'use cv_core::nalgebra::*;\n'
          'use cv_core::*;\n'
          'use cv_pinhole::*;\n'
          'fn main() {\n'
          '    let cam = CameraIntrinsics::identity().focals(Vector2::new(800.0, 900.0)).principal_point(Point2::new(500.0, 600.0)).skew(1.7);\n'
          '    for z in [1.0, 0.1, 0.01] {\n'
          '        let b = UnitVector3::new_normalize(Vector3::new(0.6, -0.8, z));\n'
          '        let back = cam.calibrate(cam.uncalibrate(b).unwrap());\n'
          '        assert!((back.into_inner() - b.into_inner()).norm() < 1e-9, "{} {:?}", z, back);\n'
          '    }\n'
          '}\n'},
 {'id': 'C08-strong-distortion',
  'property': 'C08',
  'file': 'cv-pinhole/src/lib.rs',
  'subs': [['        let undistorted = Point2::from(distorted / (1.0 + self.k1 * r2));',
            '        // Keep strongly distorted corners from diverging.\n'
            '        let undistorted = Point2::from(distorted / (1.0 + self.k1 * r2).max(0.25));']],
  'needs': 'a barrel distortion and a pixel far enough from the centre that one plus the coefficient times the squared radius is below a quarter',
  'breaks': 'calibration no longer divides by the documented factor',
  'demo': 'use cv_core::nalgebra::*;\n'
          'use cv_core::*;\n'
          'use cv_pinhole::*;\n'
          'fn main() {\n'
          '    let cam = CameraIntrinsicsK1Distortion::new(CameraIntrinsics::identity(), -0.2);\n'
          '    for x in [0.1, 1.0, 1.5, 2.0] {\n'
          '        let b = cam.calibrate(KeyPoint(Point2::new(x, 0.0)));\n'
          '        let u = b.x / b.z;\n'
          '        assert!((u - x / (1.0 - 0.2 * x * x)).abs() < 1e-9, "{} {}", x, u);\n'
          '    }\n'
          '}\n'},
 {'id': 'C09-square-height',
  'property': 'C09',
  'file': 'cv-pinhole/src/lib.rs',
  'subs': [['        let pixel_width = sensor_width / pixels.x as f64;', '        let pixel_width = sensor_width / pixels.max() as f64;']],
  'needs': 'a sensor that is taller than wide',
  'breaks': 'the pixel size is the sensor width divided by the pixel height',
  'demo': 'use cv_core::nalgebra::*;\n'
          'use cv_pinhole::*;\n'
          'fn main() {\n'
          '    for (w, h) in [(640, 480), (480, 640)] {\n'
          '        let s = CameraSpecification::from_sensor_square(Vector2::new(w, h), 4.8);\n'
          '        assert!((s.pixel_dimensions.x - 4.8 / w as f64).abs() < 1e-12, "{:?}", s);\n'
          '    }\n'
          '}\n'},
 {'id': 'C10-unit-baseline',
  'property': 'C10',
  'file': 'cv-pinhole/src/essential.rs',
  'subs': [['        Self(pose.0.translation.vector.cross_matrix() * *pose.0.rotation.matrix())',
            '        let t = pose.0.translation.vector;\n'
            '        // The scale of an essential matrix is arbitrary.\n'
            '        let t = t.try_normalize(0.5).unwrap_or(t);\n'
            '        Self(t.cross_matrix() * *pose.0.rotation.matrix())']],
  'needs': 'a translation longer than one half and not of unit length',
  'breaks': 'the essential matrix loses the scale of the translation, so equal poses up to scale are conflated only beyond a threshold',
  'demo': 'use cv_core::nalgebra::*;\n'
          'use cv_core::*;\n'
          'use cv_pinhole::*;\n'
          'fn main() {\n'
          '    for s in [0.1, 1.0, 3.0] {\n'
          '        let t = Vector3::new(0.6, 0.0, 0.8) * s;\n'
          '        let r = Rotation3::new(Vector3::new(0.4, 0.2, -0.1));\n'
          '        let e = EssentialMatrix::from(CameraToCamera::from_parts(t, r));\n'
          '        assert!((e.0 - t.cross_matrix() * r.matrix()).norm() < 1e-9, "{}", s);\n'
          '    }\n'
          '}\n'},
 {'id': 'C12-rank-two',
  'property': 'C12',
  'file': 'cv-pinhole/src/essential.rs',
  'subs': [['        svd.singular_values[2] = 0.0;\n        let new_singular = (svd.singular_values[0] + svd.singular_values[1]) / 2.0;',
            '        if svd.singular_values[2] <= epsilon {\n'
            '            // It already has the rank of an essential matrix.\n'
            '            return Some(self);\n'
            '        }\n'
            '        svd.singular_values[2] = 0.0;\n'
            '        let new_singular = (svd.singular_values[0] + svd.singular_values[1]) / 2.0;']],
  'needs': 'a matrix of rank two whose non-zero singular values differ',
  'breaks': 'it is returned as it is although it is not an essential matrix',
  'demo': 'use cv_core::nalgebra::*;\n'
          'use cv_pinhole::*;\n'
          'fn main() {\n'
          '    let e = EssentialMatrix(Matrix3::from_diagonal(&Vector3::new(3.0, 1.0, 0.0)));\n'
          '    let r = e.recondition(1e-9, 100).unwrap();\n'
          '    assert!((r.0 - Matrix3::from_diagonal(&Vector3::new(2.0, 2.0, 0.0))).norm() < 1e-6, "{}", r.0);\n'
          '}\n'},
 {'id': 'C13-near-plane',
  'property': 'C13',
  'file': 'cv-pinhole/src/lib.rs',
  'subs': [['            let point_b = pose.transform(point_a);',
            '            // Points at infinity only rotate.\n'
            '            let point_b = if point_a.homogeneous().w < 1e-3 {\n'
            '                CameraToCamera::from_parts(Default::default(), pose.0.rotation).transform(point_a)\n'
            '            } else {\n'
            '                pose.transform(point_a)\n'
            '            };']],
  'needs': 'a triangulated point more than a thousand units away together with a translation that still matters',
  'breaks': 'the translation is ignored for far points, so the predicted coordinates in the second camera are wrong',
  'demo': 'use cv_core::nalgebra::*;\n'
          'use cv_core::*;\n'
          'use cv_pinhole::*;\n'
          'struct Fixed(CameraPoint);\n'
          'impl TriangulatorRelative for Fixed {\n'
          '    fn triangulate_relative(&self, _: CameraToCamera, _: UnitVector3<f64>, _: UnitVector3<f64>) -> Option<CameraPoint> {\n'
          '        Some(self.0)\n'
          '    }\n'
          '}\n'
          'fn main() {\n'
          '    for far in [1.0, 100.0, 2000.0] {\n'
          '        let p = CameraPoint::from_point(Point3::new(0.3, 0.1, 2.0) * far);\n'
          '        let pose = CameraToCamera::from_parts(Vector3::new(0.5, -0.2, 0.3) * far, Rotation3::new(Vector3::new(0.05, 0.1, 0.0)));\n'
          '        let m = FeatureMatch(p.bearing(), pose.transform(p).bearing());\n'
          '        let e = pose_reprojection_error(pose, m, Fixed(p)).unwrap();\n'
          '        assert!(e[0].norm() + e[1].norm() < 1e-9, "{} {:?}", far, e);\n'
          '    }\n'
          '}\n'},
 {'id': 'C06-far-points',
  'property': 'C06',
  'file': 'cv-core/src/pose.rs',
  'subs': [['            .map(|point| {\n                // Ensure the cheirality constraint.\n                0.5',
            '            // Far points do not constrain the baseline.\n'
            '            .filter(|point| point.homogeneous().w > 1e-3)\n'
            '            .map(|point| {\n'
            '                // Ensure the cheirality constraint.\n'
            '                0.5']],
  'needs': 'a noise-free match of a point more than a thousand units away',
  'breaks': 'its residual is the maximum instead of zero',
  'demo': 'use cv_core::nalgebra::*;\n'
          'use cv_core::sample_consensus::Model;\n'
          'use cv_core::*;\n'
          'fn main() {\n'
          '    for far in [1.0, 50.0, 2000.0] {\n'
          '        let p = CameraPoint::from_point(Point3::new(0.3, 0.1, 2.0) * far);\n'
          '        let pose = CameraToCamera::from_parts(Vector3::new(0.5, -0.2, 0.3) * far, Rotation3::new(Vector3::new(0.05, 0.1, 0.0)));\n'
          '        let r = pose.residual(&FeatureMatch(p.bearing(), pose.transform(p).bearing()));\n'
          '        assert!(r < 1e-6, "{} {}", far, r);\n'
          '    }\n'
          '}\n'},
 {'id': 'C05-tiny-l1',
  'property': 'C05',
  'file': 'cv-core/src/so3.rs',
  'subs': [['        Self::new(self.translation.normalize(), self.rotation.normalize())',
            '        let unit = |v: Vector3<f64>| v.try_normalize(1e-6).unwrap_or(v);\n'
            '        Self::new(unit(self.translation), unit(self.rotation))']],
  'needs': 'a tangent whose translation or rotation is shorter than 1e-6',
  'breaks': 'its L1 gradient does not have unit length',
  'demo': 'use cv_core::nalgebra::*;\n'
          'use cv_core::*;\n'
          'fn main() {\n'
          '    for s in [1.0, 1e-3, 1e-7] {\n'
          '        let t = Se3TangentSpace::new(Vector3::new(1.0, 2.0, 3.0) * s, Vector3::new(0.0, 2.0, 1.0) * s).l1();\n'
          '        assert!((t.translation.norm() - 1.0).abs() < 1e-9 && (t.rotation.norm() - 1.0).abs() < 1e-9, "{} {:?}", s, t);\n'
          '    }\n'
          '}\n'},
 {'id': 'C11-lost-rotation',
  'property': 'C11',
  'file': 'cv-pinhole/src/essential.rs',
  'subs': [['                    CameraToCamera::from_parts(t, rot_a),\n                    CameraToCamera::from_parts(t, rot_b),\n                ]',
            '                    CameraToCamera::from_parts(t, rot_a),\n'
            '                    CameraToCamera::from_parts(-(rot_b * t), rot_b.inverse()),\n'
            '                ]']],
  'needs': 'possible_unscaled_poses_bearing on an essential matrix whose generating rotation is the second one',
  'breaks': 'the second candidate is inverted, so its essential matrix is the transpose of the input',
  'demo': 'use cv_core::nalgebra::*;\n'
          'use cv_core::*;\n'
          'use cv_pinhole::*;\n'
          'fn main() {\n'
          '    for k in 0..40 {\n'
          '        let x = k as f64;\n'
          '        let t = Vector3::new(x.sin(), (2.0 * x).cos(), 0.3);\n'
          '        let r = Rotation3::new(Vector3::new(0.4 * x.cos(), 0.2, -0.1 * x.sin()));\n'
          '        let e = EssentialMatrix::from(CameraToCamera::from_parts(t, r));\n'
          '        let poses = e.possible_unscaled_poses_bearing(1e-12, 1000).unwrap();\n'
          '        assert!(poses.iter().any(|p| (p.0.rotation.matrix() - r.matrix()).norm() < 1e-6), "{}", k);\n'
          '    }\n'
          '}\n'}]