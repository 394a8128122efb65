use kit::rng::Rng;
use std::f64::consts::PI;
use surfrs::spectra::Spectra;
use surfrs::units::direction::DirectionConvention;

/// Words as published texts have them: digits, signs, foreign letters; none of `not`, no blanks around
pub fn phrase(r: &mut Rng, longest: usize, not: &str) -> String {
    const WORDS: [&str; 40] = [
        "Block", "Island", "surface", "10", "m", "above-ground", "2-10", "0.33", "anl", "SE", "NW", "of", "the", "a", "x", "PV=2e-06", "(Km^2/kg/s)", "prob", ">=0.1", "<5%", "St.", "John's", "Ca\u{f1}on",
        "\u{ce}le", "\u{1F30A}", "A&M", "no.1", "#4", "1/2", "[old]", "{2}", "mb", "Bay,", "Shoal;", "OFF", "null", "NaN", "MM", "0", "_z_",
    ];
    let n = r.usize(1, 6);
    let mut s = String::new();
    for _ in 0..n {
        let w: String = r.pick(&WORDS).chars().filter(|k| !not.contains(*k)).collect();
        if w.is_empty() || s.chars().count() + 1 + w.chars().count() > longest {
            continue;
        }
        if !s.is_empty() {
            s.push(' ');
        }
        s.push_str(&w);
    }
    if s.is_empty() {
        s.push('Q');
    }
    s
}

pub fn frequencies(r: &mut Rng, nk: usize) -> Vec<f64> {
    match r.below(4) {
        0 => {
            let f0 = r.f(0.025, 0.06);
            let x = r.f(1.04, 1.2);
            (0..nk).map(|i| f0 * x.powi(i as i32)).collect()
        }
        1 => {
            let f0 = r.f(0.02, 0.05);
            let d = r.f(0.002, 0.02);
            (0..nk).map(|i| f0 + d * i as f64).collect()
        }
        2 => {
            // buoy-like: a fine lower part and a coarse upper part
            let mut f = 0.0325;
            (0..nk)
                .map(|i| {
                    f += if i < nk / 2 { 0.005 } else { 0.01 };
                    f
                })
                .collect()
        }
        _ => {
            let mut f = r.f(0.02, 0.05);
            (0..nk)
                .map(|_| {
                    f *= r.f(1.02, 1.3);
                    f
                })
                .collect()
        }
    }
}

/// Evenly spaced, ascending directions in radians
pub fn even_directions(r: &mut Rng, nth: usize) -> Vec<f64> {
    let step = 2.0 * PI / nth as f64;
    let off = match r.below(3) {
        0 => 0.0,
        1 => step / 2.0,
        _ => r.f(0.0, step * 0.999),
    };
    (0..nth).map(|i| off + step * i as f64).collect()
}

/// Ascending directions over less than a turn, mostly even, now and then of any spacing
pub fn any_directions(r: &mut Rng, nth: usize) -> Vec<f64> {
    if !r.chance(0.3) {
        return even_directions(r, nth);
    }
    let parts: Vec<f64> = (0..=nth).map(|_| r.f(0.2, 1.0)).collect();
    let whole: f64 = parts.iter().sum();
    let mut at = 0.0;
    parts[..nth]
        .iter()
        .map(|p| {
            at += p * 2.0 * PI / whole;
            at
        })
        .collect()
}

pub fn convention(r: &mut Rng) -> DirectionConvention {
    match r.below(3) {
        0 => DirectionConvention::From,
        1 => DirectionConvention::Towards,
        _ => DirectionConvention::Met,
    }
}

/// Non-negative energy over a frequency (fast) by direction (slow) grid.
pub fn energy(r: &mut Rng, nk: usize, nth: usize) -> (Vec<f64>, &'static str) {
    let n = nk * nth;
    let style = r.below(9);
    let scale = match r.below(6) {
        0 => 1e-6,
        1 => 1e4,
        _ => r.log(0.01, 100.0),
    };
    let mut e = vec![0.0; n];
    let name = match style {
        0 | 1 | 2 => {
            for _ in 0..r.usize(1, 6) {
                let (ck, ct) = (r.f(0.0, nk as f64), r.f(0.0, nth as f64));
                let (sk, st) = (r.f(0.6, 1.0 + nk as f64 / 5.0), r.f(0.6, 1.0 + nth as f64 / 5.0));
                let a = r.log(0.05, 1.0);
                for i in 0..n {
                    let dk = (i % nk) as f64 - ck;
                    let mut dt = ((i / nk) as f64 - ct).abs();
                    dt = dt.min(nth as f64 - dt);
                    e[i] += a * (-(dk / sk).powi(2) - (dt / st).powi(2)).exp();
                }
            }
            if style == 2 {
                for v in e.iter_mut() {
                    *v += 0.02 * r.unit();
                }
                "swells+noise"
            } else {
                "swells"
            }
        }
        3 => {
            for v in e.iter_mut() {
                *v = r.unit();
            }
            "noise"
        }
        4 => {
            for v in e.iter_mut() {
                *v = if r.chance(0.15) { r.unit() } else { 0.0 };
            }
            "sparse"
        }
        5 => {
            let q = r.usize(2, 6) as f64;
            for v in e.iter_mut() {
                *v = (r.unit() * q).floor() / q;
            }
            "plateaus"
        }
        6 => {
            // a smooth field quantised into wide plateaus
            let (a, b, c) = (r.f(0.5, 4.0), r.f(1.0, 3.0).floor(), r.f(0.0, 6.0));
            let q = r.usize(2, 8) as f64;
            for i in 0..n {
                let x = (i % nk) as f64 / nk as f64;
                let y = (i / nk) as f64 / nth as f64;
                let v = 1.0 + (a * PI * x + c).sin() * (b * 2.0 * PI * y).cos();
                e[i] = (v * q).round() / q;
            }
            "smooth plateaus"
        }
        7 => {
            let k = r.below(3);
            let c = r.unit();
            for v in e.iter_mut() {
                *v = if k == 0 { 0.0 } else { c };
            }
            if k == 2 {
                let i = r.below(n);
                e[i] += 1.0;
                "one spike"
            } else {
                "constant"
            }
        }
        _ => {
            for i in 0..n {
                e[i] = ((i % nk + i / nk) % 2) as f64 + 0.01 * r.unit();
            }
            "checkerboard"
        }
    };
    for v in e.iter_mut() {
        *v *= scale;
    }
    (e, name)
}

pub fn spectra(r: &mut Rng, nk: usize, nth: usize) -> (Spectra, &'static str) {
    let f = frequencies(r, nk);
    let d = even_directions(r, nth);
    let (e, style) = energy(r, nk, nth);
    let c = convention(r);
    (Spectra::new(f, d, e, c), style)
}

/// Like spectra, on directions that need not be evenly spaced
pub fn any_spectra(r: &mut Rng, nk: usize, nth: usize) -> (Spectra, &'static str) {
    let (s, style) = spectra(r, nk, nth);
    let d = any_directions(r, nth);
    (Spectra::new(s.frequency.clone(), d, s.energy.clone(), s.dir_convention.clone()), style)
}

/// Grid size: mostly small, sometimes operational (up to 50 x 36)
pub fn grid(r: &mut Rng, min_k: usize, min_t: usize) -> (usize, usize) {
    match r.below(10) {
        0 => match r.below(8) {
            // long and narrow
            0 => (r.usize(min_k, 4.max(min_k)), r.usize(40, 160)),
            1 => (r.usize(50, 120), r.usize(min_t, 6.max(min_t))),
            _ => (r.usize(25, 50), r.usize(24, 48)),
        },
        1 => (r.usize(min_k, 4.max(min_k)), r.usize(min_t, 4.max(min_t))),
        _ => (r.usize(min_k, 20), r.usize(min_t, 20)),
    }
}

pub fn show(s: &Spectra) -> String {
    format!(
        "nk={} nth={} conv={:?} f={:.4?} dir0={:.4} energy={:.4?}",
        s.nk(), s.nth(), s.dir_convention, s.frequency, s.direction_raw()[0], s.energy
    )
}
