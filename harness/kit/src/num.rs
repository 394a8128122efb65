//! Float comparison helpers shared by the oracles.

pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if a == b {
        return true;
    }
    if !a.is_finite() || !b.is_finite() {
        return a.is_nan() && b.is_nan();
    }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

/// Smallest angle between two bearings in degrees, in [0, 180].
pub fn ang(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(360.0);
    d.min(360.0 - d)
}

pub fn vclose(a: &[f64], b: &[f64], rel: f64, abs: f64) -> Option<usize> {
    if a.len() != b.len() {
        return Some(usize::MAX);
    }
    (0..a.len()).find(|&i| !close(a[i], b[i], rel, abs))
}

/// Whether a whole number of degrees is `want` rounded or cut off, `eps` being the error of `want`
pub fn whole_degrees(got: f64, want: f64, eps: f64) -> bool {
    let d = (got - want + 180.0).rem_euclid(360.0) - 180.0;
    -1.0 - eps <= d && d <= 0.5 + eps
}
