//! Flat f64 input/output cursors: every harness reads its inputs from one array of doubles and
//! writes its outputs to another, so that the symbolic executor and the native replay drive
//! exactly the same entry points.
use cv_core::nalgebra::*;
use cv_core::*;

pub type Harness = extern "C-unwind" fn(*const f64, *mut f64) -> i32;

#[derive(Clone, Copy)]
pub struct In(pub *const f64);
impl In {
    #[inline(always)]
    pub fn f(&mut self) -> f64 {
        unsafe {
            let v = *self.0;
            self.0 = self.0.add(1);
            v
        }
    }
    #[inline(always)]
    pub fn v2(&mut self) -> Vector2<f64> {
        let x = self.f();
        let y = self.f();
        Vector2::new(x, y)
    }
    #[inline(always)]
    pub fn v3(&mut self) -> Vector3<f64> {
        let x = self.f();
        let y = self.f();
        let z = self.f();
        Vector3::new(x, y, z)
    }
    #[inline(always)]
    pub fn v4(&mut self) -> Vector4<f64> {
        let v = self.v3();
        let w = self.f();
        Vector4::new(v.x, v.y, v.z, w)
    }
    #[inline(always)]
    pub fn unit(&mut self) -> UnitVector3<f64> {
        UnitVector3::new_unchecked(self.v3())
    }
    /// Nine entries, row by row.
    #[inline(always)]
    pub fn m3(&mut self) -> Matrix3<f64> {
        let a = self.v3();
        let b = self.v3();
        let c = self.v3();
        Matrix3::new(a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z)
    }
    #[inline(always)]
    pub fn rot(&mut self) -> Rotation3<f64> {
        Rotation3::from_matrix_unchecked(self.m3())
    }
    /// Rotation (nine entries, row by row) and then translation.
    #[inline(always)]
    pub fn iso(&mut self) -> IsometryMatrix3<f64> {
        let r = self.rot();
        let t = self.v3();
        IsometryMatrix3::from_parts(t.into(), r)
    }
    #[inline(always)]
    pub fn cam(&mut self) -> CameraPoint {
        CameraPoint::from_homogeneous_unchecked(self.v4())
    }
    #[inline(always)]
    pub fn world(&mut self) -> WorldPoint {
        WorldPoint::from_homogeneous_unchecked(self.v4())
    }
}

#[derive(Clone, Copy)]
pub struct Out(pub *mut f64);
impl Out {
    #[inline(always)]
    pub fn f(&mut self, v: f64) {
        unsafe {
            *self.0 = v;
            self.0 = self.0.add(1);
        }
    }
    #[inline(always)]
    pub fn v2(&mut self, v: Vector2<f64>) {
        self.f(v.x);
        self.f(v.y);
    }
    #[inline(always)]
    pub fn v3(&mut self, v: Vector3<f64>) {
        self.f(v.x);
        self.f(v.y);
        self.f(v.z);
    }
    #[inline(always)]
    pub fn v4(&mut self, v: Vector4<f64>) {
        self.v3(v.xyz());
        self.f(v.w);
    }
    /// Row by row.
    #[inline(always)]
    pub fn m3(&mut self, m: &Matrix3<f64>) {
        for r in 0..3 {
            for c in 0..3 {
                self.f(m[(r, c)]);
            }
        }
    }
    #[inline(always)]
    pub fn m4(&mut self, m: &Matrix4<f64>) {
        for r in 0..4 {
            for c in 0..4 {
                self.f(m[(r, c)]);
            }
        }
    }
    #[inline(always)]
    pub fn m46(&mut self, m: &Matrix4x6<f64>) {
        for r in 0..4 {
            for c in 0..6 {
                self.f(m[(r, c)]);
            }
        }
    }
    #[inline(always)]
    pub fn iso(&mut self, i: &IsometryMatrix3<f64>) {
        self.m3(i.rotation.matrix());
        self.v3(i.translation.vector);
    }
}

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident($i:ident, $o:ident) -> i32 $body:block)*) => {
        $(
            $(#[$m])*
            #[no_mangle]
            pub extern "C-unwind" fn $name(inp: *const f64, out: *mut f64) -> i32 {
                #[allow(unused_mut, unused_variables)]
                let mut $i = $crate::io::In(inp);
                #[allow(unused_mut, unused_variables)]
                let mut $o = $crate::io::Out(out);
                $body
            }
        )*
        pub const TABLE: &[(&str, $crate::io::Harness)] = &[$((stringify!($name), $name)),*];
    };
}
