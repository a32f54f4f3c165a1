//! Declarations with nothing of the crate imported.

advantage::adv_fn! {
    /// documented
    pub fn bare_vec(x: [[3]]) -> [[2]] {
        let a = x[0] * x[1] + x[2];
        let b = x[1] - x[2] * 2.0;
        advantage::adv_dvec!(a, b)
    }
}

advantage::adv_fn! {
    pub(crate) fn bare_named([[p, q]], c: f64) -> [[3]] {
        advantage::adv_dvec!(p - q, q * c, p / 2.0)
    }
}

advantage::adv_fn! {
    #[allow(clippy::all)]
    #[inline]
    pub fn bare_attr([[p]]) -> [[1]] {
        advantage::adv_dvec!(2.0 * p; 1)
    }
}

pub mod deeper {
    advantage::adv_fn! {
        pub(in super::super) fn deep(x: [[k + 1]], k: usize) -> [[k * 2]] {
            advantage::DVector::from_fn(k * 2, |i, _| x[i / 2] + x[i / 2 + 1] * (i as f64))
        }
    }
    pub fn deep_obj(k: usize) -> Box<dyn advantage::Function> {
        Box::new(advantage::adv_fn_obj!(deep, k))
    }
}

pub fn objects(c: f64) -> [Box<dyn advantage::Function>; 3] {
    [Box::new(advantage::adv_fn_obj!(bare_vec)), Box::new(advantage::adv_fn_obj!(bare_named, c)), Box::new(advantage::adv_fn_obj!(bare_attr))]
}
