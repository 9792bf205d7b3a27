//! Stand-ins for nalgebra's iterative decompositions, with the signatures of the originals.  The
//! executor redirects calls of the originals here; the `vx_*` intrinsics supply any decomposition
//! allowed by the contract of the check (see engine/contracts.py).
use cv_core::nalgebra::*;

extern "C" {
    fn vx_symeig(n: usize, m: *const f64, vals: *mut f64, vecs: *mut f64) -> i32;
    fn vx_svd(n: usize, m: *const f64, flags: i32, s: *mut f64, u: *mut f64, vt: *mut f64) -> i32;
    fn vx_svd_rect(r: usize, c: usize, m: *const f64, flags: i32, s: *mut f64, u: *mut f64, vt: *mut f64) -> i32;
    fn vx_lusolve(n: usize, m: *const f64, rhs: *const f64, x: *mut f64) -> i32;
    fn vx_eigenvalues(n: usize, m: *const f64, out: *mut f64) -> i32;
    fn vx_nearest_rotation(m: *const f64, out: *mut f64);
    fn vx_limit(max: usize);
    fn vx_cubic(b: f64, c: f64, d: f64) -> f64;
}

macro_rules! symeig {
    ($name:ident, $n:literal) => {
        #[no_mangle]
        pub fn $name(m: SMatrix<f64, $n, $n>, vectors: bool, _eps: f64, max: usize) -> Option<(SVector<f64, $n>, Option<SMatrix<f64, $n, $n>>)> {
            unsafe { vx_limit(max) };
            let mut vals = SVector::<f64, $n>::zeros();
            let mut vecs = SMatrix::<f64, $n, $n>::zeros();
            let ok = unsafe { vx_symeig($n, m.as_ptr(), vals.as_mut_ptr(), vecs.as_mut_ptr()) };
            if ok == 0 {
                return None;
            }
            Some((vals, if vectors { Some(vecs) } else { None }))
        }
    };
}
symeig!(stub_symeig3, 3);
symeig!(stub_symeig4, 4);
symeig!(stub_symeig9, 9);

macro_rules! svd {
    ($name:ident, $n:literal) => {
        #[no_mangle]
        pub fn $name(m: SMatrix<f64, $n, $n>, cu: bool, cv: bool, _eps: f64, max: usize) -> Option<SVD<f64, Const<$n>, Const<$n>>> {
            unsafe { vx_limit(max) };
            let mut s = SVector::<f64, $n>::zeros();
            let mut u = SMatrix::<f64, $n, $n>::zeros();
            let mut vt = SMatrix::<f64, $n, $n>::zeros();
            let ok = unsafe { vx_svd($n, m.as_ptr(), cu as i32 + 2 * cv as i32, s.as_mut_ptr(), u.as_mut_ptr(), vt.as_mut_ptr()) };
            if ok == 0 {
                return None;
            }
            Some(SVD { u: if cu { Some(u) } else { None }, v_t: if cv { Some(vt) } else { None }, singular_values: s })
        }
    };
}
svd!(stub_svd3, 3);
svd!(stub_svd4, 4);
svd!(stub_svd10, 10);

#[no_mangle]
pub fn stub_svd59(m: SMatrix<f64, 5, 9>, cu: bool, cv: bool, _eps: f64, max: usize) -> Option<SVD<f64, Const<5>, Const<9>>> {
    unsafe { vx_limit(max) };
    let mut s = SVector::<f64, 5>::zeros();
    let mut u = SMatrix::<f64, 5, 5>::zeros();
    let mut vt = SMatrix::<f64, 5, 9>::zeros();
    let ok = unsafe { vx_svd_rect(5, 9, m.as_ptr(), cu as i32 + 2 * cv as i32, s.as_mut_ptr(), u.as_mut_ptr(), vt.as_mut_ptr()) };
    if ok == 0 {
        return None;
    }
    Some(SVD { u: if cu { Some(u) } else { None }, v_t: if cv { Some(vt) } else { None }, singular_values: s })
}

/// `FullPivLU::new`: the matrix itself is kept (in a decomposition that only `stub_lu_solve10` reads).
#[repr(C)]
pub struct Lu10([f64; 142]);

#[no_mangle]
pub fn stub_lu10(m: SMatrix<f64, 10, 10>) -> Lu10 {
    let mut l = Lu10([0.0; 142]);
    l.0[..100].copy_from_slice(m.as_slice());
    l
}

#[no_mangle]
pub fn stub_lu_solve10(lu: &Lu10, b: &mut SMatrix<f64, 10, 10>) -> bool {
    let mut x = SMatrix::<f64, 10, 10>::zeros();
    if unsafe { vx_lusolve(10, lu.0.as_ptr(), b.as_ptr(), x.as_mut_ptr()) } == 0 {
        return false;
    }
    *b = x;
    true
}

#[no_mangle]
pub fn stub_nearest_rotation(m: &Matrix3<f64>, _eps: f64, _max: usize, _guess: Rotation3<f64>) -> Rotation3<f64> {
    let mut r = Matrix3::<f64>::zeros();
    unsafe { vx_nearest_rotation(m.as_ptr(), r.as_mut_ptr()) };
    Rotation3::from_matrix_unchecked(r)
}

#[no_mangle]
pub fn stub_eigenvalues10(m: &SMatrix<f64, 10, 10>) -> SVector<Complex<f64>, 10> {
    unsafe { vx_limit(0) };
    let mut out = [0.0f64; 20];
    unsafe { vx_eigenvalues(10, m.as_ptr(), out.as_mut_ptr()) };
    SVector::<Complex<f64>, 10>::from_fn(|i, _| Complex::new(out[2 * i], out[2 * i + 1]))
}

/// The eigenvalues are carried where the Schur form would be; stub_schur_values10 reads them.
#[no_mangle]
pub fn stub_schur10(m: SMatrix<f64, 10, 10>, _eps: f64, max: usize) -> Option<Schur<f64, Const<10>>> {
    unsafe { vx_limit(max) };
    let mut out = [0.0f64; 200];
    if unsafe { vx_eigenvalues(10, m.as_ptr(), out.as_mut_ptr()) } == 0 {
        return None;
    }
    Some(unsafe { std::mem::transmute::<[f64; 200], Schur<f64, Const<10>>>(out) })
}

#[no_mangle]
pub fn stub_schur_values10(s: &Schur<f64, Const<10>>) -> SVector<Complex<f64>, 10> {
    let p = s as *const _ as *const f64;
    SVector::<Complex<f64>, 10>::from_fn(|i, _| unsafe { Complex::new(*p.add(2 * i), *p.add(2 * i + 1)) })
}

#[no_mangle]
pub fn stub_cubic(b: f64, c: f64, d: f64) -> f64 {
    unsafe { vx_cubic(b, c, d) }
}
