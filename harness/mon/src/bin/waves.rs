//! W01 dispersion, W02 shoaling, refraction and breaking, W03 energy, moments and wind.
use kit::num::{ang, close, whole_degrees};
use kit::rng::{hash_f64s, Rng};
use kit::*;
use std::f64::consts::PI;
use surfrs::swell::Swell;
use surfrs::tools::math::scalar_from_uv;
use surfrs::tools::waves::*;
use surfrs::units::{Direction, UnitSystem};

const G: f64 = 9.81;

/// The wavenumber that solves w^2 = g k tanh(k h), by bisection
fn exact_k(w: f64, h: f64) -> f64 {
    let f = |k: f64| G * k * (k * h).tanh() - w * w;
    let (mut lo, mut hi) = (0.0, w * w / G + w / (G * h).sqrt() + 1e-12);
    while f(hi) < 0.0 {
        hi *= 2.0;
    }
    for _ in 0..200 {
        let m = 0.5 * (lo + hi);
        if f(m) < 0.0 { lo = m } else { hi = m }
    }
    0.5 * (lo + hi)
}

/// Hunt's approximation of the wavenumber
fn hunt(w: f64, h: f64) -> f64 {
    let y = w * w * h / G;
    let p = 1.0 + y * (0.6522 + y * (0.4622 + y * y * (0.0864 + y * 0.0675)));
    (y * y + y / p).sqrt() / h
}

/// Beji's correction of Eckart's formula of the wavenumber, its terms limited to 20 as the models do
fn beji(w: f64, h: f64) -> f64 {
    let y = w * w * h / G;
    y * (1.0 + y.powf(1.09) * (-(1.55 + 1.3 * y + 0.216 * y * y).min(20.0)).exp()) / y.min(20.0).tanh().sqrt() / h
}

/// Group velocity: half the celerity times 1 + 2kh / sinh 2kh
fn exact_cg(w: f64, k: f64, h: f64) -> f64 {
    let x = 2.0 * k * h;
    0.5 * w / k * (1.0 + if x > 600.0 { 0.0 } else { x / x.sinh() })
}

fn sea(r: &mut Rng) -> (f64, f64) {
    let t = if r.chance(0.3) { r.int(1, 30) as f64 } else { r.log(1.0, 30.0) };
    let h = match r.below(4) {
        0 => r.log(0.1, 2.0),
        1 => r.int(1, 100) as f64,
        2 => r.log(100.0, 5000.0),
        _ => r.log(0.5, 200.0),
    };
    (t, h)
}

fn dispersion(c: &mut Case) -> R {
    let (t, h) = sea(&mut c.rng);
    c.describe(|| format!("period {t} s, depth {h} m"));
    let w = 2.0 * PI / t;
    let k = exact_k(w, h);
    let l = 2.0 * PI / k;
    match ldis(t, h) {
        Ok(g) => {
            c.max("relative error of ldis", ((g - l) / l).abs());
            ensure!(close(g, l, 1e-8, 0.0), "a {t} s wave in {h} m is {l} m long, solved as {g}");
        }
        Err(_) => return violation(format!("no wavelength found for {t} s in {h} m")),
    }
    let (k3, cg3) = wavenu3(w, h);
    let cg = exact_cg(w, k, h);
    c.max("relative error of wavenu3", ((k3 - k) / k).abs());
    c.max("relative error of its group velocity", ((cg3 - cg) / cg).abs());
    ensure!(close(k3, k, 1e-3, 0.0), "wavenumber at {w} rad/s in {h} m is {k}, computed {k3}");
    ensure!(close(cg3, cg, 1.5e-3, 0.0), "group velocity at {w} rad/s in {h} m is {cg}, computed {cg3}");
    // it is off by what the published formula is off by, or less
    let kb = beji(w, h);
    let (known, known_cg) = (((kb - k) / k).abs(), ((exact_cg(w, kb, h) - cg) / cg).abs());
    ensure!(((k3 - k) / k).abs() <= known + 5e-5, "wavenumber at {w} rad/s in {h} m is {k}, computed {k3}, which is further off than {known}");
    ensure!(((cg3 - cg) / cg).abs() <= known_cg + 5e-5, "group velocity at {w} rad/s in {h} m is {cg}, computed {cg3}, which is further off than {known_cg}");
    let ka = wavenuma(w, h);
    c.max("relative error of wavenuma", ((ka - k) / k).abs());
    ensure!(close(ka, k, 1.5e-3, 0.0), "wavenumber at {w} rad/s in {h} m is {k}, approximated {ka}");
    // the approximation is off by what its published coefficients are off by, or less
    let known = ((hunt(w, h) - k) / k).abs();
    ensure!(((ka - k) / k).abs() <= known + 5e-5, "wavenumber at {w} rad/s in {h} m is {k}, approximated {ka}, which is further off than {known}");
    let f = 1.0 / t;
    let (ce, la) = (celerity(f, Some(h)), wavelength(f, Some(h)));
    ensure!(close(ce, w / k, 2e-3, 0.0), "a {t} s wave in {h} m moves at {} m/s, computed {ce}", w / k);
    ensure!(close(la, l, 2e-3, 0.0), "a {t} s wave in {h} m is {l} m long, computed {la}");
    ensure!(close(la * f, ce, 1e-9, 0.0), "wavelength {la} over period {t} is not the celerity {ce}");
    let (cd, ld) = (celerity(f, None), wavelength(f, None));
    ensure!(close(cd, G * t / (2.0 * PI), 2e-3, 0.0), "a {t} s deep-water wave moves at {}, computed {cd}", G * t / (2.0 * PI));
    ensure!(close(ld, G * t * t / (2.0 * PI), 2e-3, 0.0), "a {t} s deep-water wave is {} m long, computed {ld}", G * t * t / (2.0 * PI));
    if k * h < 0.3 {
        c.saw("shallow water");
    } else if k * h > PI {
        c.saw("deep water");
        ensure!(close(cd, ce, 5e-3, 0.0) && close(ld, la, 5e-3, 0.0), "deep water at {h} m: {ce} m/s and {la} m, without a depth {cd} and {ld}");
    } else {
        c.saw("intermediate water");
    }
    c.nontrivial(hash_f64s(&[t, h]));
    Ok(())
}

fn transformation(c: &mut Case) -> R {
    let (t, h) = sea(&mut c.rng);
    let w = 2.0 * PI / t;
    let k = exact_k(w, h);
    let l = 2.0 * PI / k;
    let a0 = if c.rng.chance(0.2) { *c.rng.pick(&[0.0, 30.0, 45.0, 89.0, -45.0]) } else { c.rng.f(-89.5, 89.5) };
    c.describe(|| format!("period {t} s, depth {h} m, angle {a0}"));
    // conservation of energy flux: Ks^2 = Cg0 / Cg
    let ks = shoaling_coefficient(l, h);
    let want = (0.5 * G * t / (2.0 * PI) / exact_cg(w, k, h)).sqrt();
    ensure!(close(ks, want, 1e-6, 0.0), "shoaling coefficient of a {t} s wave in {h} m is {want}, computed {ks}");
    // Snell: sin a / C is conserved; energy between rays: Kr^2 = cos a0 / cos a
    let (kr, a) = refraction_coefficient(l, h, a0);
    let th = (k * h).tanh();
    let wa = (a0.to_radians().sin() * th).asin();
    let wkr = (a0.to_radians().cos() / wa.cos()).sqrt();
    ensure!(close(a, wa.to_degrees(), 1e-6, 1e-6), "a {t} s wave at {a0} degrees turns to {} in {h} m, computed {a}", wa.to_degrees());
    ensure!(close(kr, wkr, 1e-6, 0.0), "refraction coefficient of a {t} s wave at {a0} degrees in {h} m is {wkr}, computed {kr}");
    if (a - a0).abs() > 1.0 {
        c.saw("waves that turn");
    }
    if ks > 1.0 {
        c.saw("waves that grow");
    } else if ks < 0.97 {
        c.saw("waves that shrink");
    }
    c.nontrivial(hash_f64s(&[t, h, a0]));
    Ok(())
}

/// Breaking height and depth: refracted deep-water height, Komar and Gaughan's height,
/// Weggel's depth
fn broken(t: f64, a0: f64, h0: f64, slope: f64, h: f64) -> (f64, f64) {
    let w = 2.0 * PI / t;
    let th = (exact_k(w, h) * h).tanh();
    let s = a0.to_radians().sin() * th;
    let kr = (a0.to_radians().cos() / (1.0 - s * s).sqrt()).sqrt();
    let l0 = G * t * t / (2.0 * PI);
    let hr = kr * h0;
    let hb = 0.56 * hr.powf(0.8) * l0.powf(0.2);
    let a = 43.8 * (1.0 - (-19.0 * slope).exp());
    let b = 1.56 / (1.0 + (-19.5 * slope).exp());
    (hb, hb / (b - a * hb / (G * t * t)))
}

fn breaking(c: &mut Case) -> R {
    let (mut t, h) = sea(&mut c.rng);
    t = t.max(2.0);
    let l0 = G * t * t / (2.0 * PI);
    let h0 = if c.rng.chance(0.05) { 0.0 } else { c.rng.log(1e-4, 0.1) * l0 };
    let slope = c.rng.log(0.001, 0.5);
    let a0 = if c.rng.chance(0.2) { 0.0 } else { c.rng.f(-89.0, 89.0) };
    c.describe(|| format!("period {t}, height {h0}, angle {a0}, slope {slope}, depth {h}"));
    let (hb, db) = broken(t, a0, h0, slope, h);
    match break_wave(t, a0, h0, slope, h) {
        Ok((g, gd)) => {
            ensure!(close(g, hb, 1e-6, 1e-12), "{h0} m at {t} s and {a0} degrees breaks {hb} m high, computed {g}");
            ensure!(close(gd, db, 1e-6, 1e-12), "{h0} m at {t} s and {a0} degrees breaks in {db} m, computed {gd}");
        }
        Err(_) => return violation(format!("{h0} m at {t} s does not break")),
    }
    // the same from a swell and a beach on any side of the compass
    let beach = if c.rng.chance(0.5) { c.rng.int(0, 359) as f64 } else { c.rng.f(0.0, 360.0) };
    let from = c.rng.int(0, 360) as i32;
    // now and then next to square on
    let beach = if c.rng.chance(0.1) { (from as f64 + c.rng.f(-0.05, 0.05) + if c.rng.chance(0.5) { 90.0 } else { 270.0 }).rem_euclid(360.0) } else { beach };
    let s = Swell::new(&UnitSystem::Metric, h0, t, Direction::from_degrees(from), None, None, None);
    let inc = ang(from as f64, beach);
    if (inc - 90.0).abs() < 1e-6 {
        return Ok(());
    }
    let got = estimate_breaking_wave_height(&s, beach, slope, h);
    let seam = (from as f64 - beach).abs() > 180.0;
    if inc > 90.0 {
        ensure!(matches!(got, Err(Error::OutOfRange)), "swell from {from} breaks on a beach facing {beach}");
        c.saw("swells from behind the beach");
    } else {
        let (hb, _) = broken(t, inc, h0, slope, h);
        match got {
            // next to grazing the height hangs on the last digits of the cosine
            Ok(g) => ensure!(inc > 89.9 || close(g, hb, 1e-6, 1e-12), "{h0} m at {t} s from {from} breaks {hb} m high on a beach facing {beach}, computed {g}"),
            Err(_) => return violation(format!("swell from {from} does not break on a beach facing {beach}")),
        }
        c.saw("breaking swells");
        if seam {
            c.saw("breaking swells across north");
        }
    }
    c.nontrivial(hash_f64s(&[t, h0, a0, slope, beach, from as f64]));
    Ok(())
}

fn formulas(c: &mut Case) -> R {
    let r = &mut c.rng;
    let hs = match r.below(8) { 0 => 0.0, 1 => r.log(1e-4, 60.0), 2 => r.int(1, 30) as f64, _ => r.f(0.0, 20.0) };
    let tp = match r.below(4) { 0 => r.log(0.02, 300.0), 1 => r.int(1, 40) as f64, _ => r.f(1.0, 30.0) };
    let (e, b) = (r.log(1e-9, 1e5), r.log(1e-5, 10.0));
    let f = if r.chance(0.3) { r.log(1e-3, 10.0) } else { r.f(0.02, 1.0) };
    let u10 = if r.chance(0.3) { r.log(0.1, 120.0) } else { r.f(1.0, 40.0) };
    let dt = match r.below(4) { 0 => 0.0, 1 => r.log(1.0, 1e6), 2 => 3600.0 * r.int(1, 12) as f64, _ => r.f(600.0, 20000.0) };
    let (dist, sc) = (r.log(1e3, 4e7), r.f(0.2, 2.0));
    c.describe(|| format!("{hs} m, {tp} s; {e}, {b}, {f}; {u10}, {dt}, {dist}, {sc}"));
    // rho g^2 / (16 pi) H^2 T^2, in kilojoules
    let want = 1029.0 * G * G / (16.0 * PI) * hs * hs * tp * tp / 1000.0;
    let got = wave_energy(hs, tp);
    ensure!(close(got, want, 1e-9, 1e-12), "{hs} m at {tp} s hold {want} kJ, computed {got}");
    let m0 = zero_spectral_moment(e, b);
    let m2 = second_spectral_moment(e, b, f);
    ensure!(close(m0, e * b, 1e-12, 0.0), "zeroth moment of {e} over {b} Hz is {m0}");
    ensure!(close(m2, e * b * f * f, 1e-12, 0.0), "second moment of {e} over {b} Hz at {f} Hz is {m2}");
    let st = steepness_coefficient(m0, m2);
    ensure!(close(st, 8.0 * PI * m2 / (G * m0.sqrt()), 1e-9, 0.0), "steepness of moments {m0} and {m2} is {st}");
    // Snodgrass: the peak of a swell from distance d moves by g dt / (4 pi d)
    // (and back again)
    for dt in [dt, -dt] {
        let ds = dfp_swell_sea(dt, dist);
        ensure!(close(ds, dt * G / (4.0 * PI * dist), 1e-9, 0.0), "a swell from {dist} m moves {ds} in {dt} s");
    }
    // Ewans and Kibblewhite
    let tmp = 15.8 * (G / u10).powf(0.57);
    let fp = f;
    let t0 = (fp / tmp).powf(-1.0 / 0.43);
    let dw = dfp_wind_sea(u10, fp, dt, sc);
    let want = sc * tmp * (t0 + dt).powf(-0.43) - fp;
    ensure!(close(dw, want, 1e-7, 1e-9), "a wind sea of {fp} under {u10} m/s moves {want} in {dt} s, computed {dw}");
    c.saw("formulas");
    c.nontrivial(hash_f64s(&[hs, tp, e, b, f]));
    Ok(())
}


fn wind(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (u, v) = match r.below(6) {
        0 => (if r.chance(0.5) { 0.0 } else { -0.0 }, r.f(-40.0, 40.0)),
        1 => (r.f(-40.0, 40.0), if r.chance(0.5) { 0.0 } else { -0.0 }),
        2 => {
            let x = r.f(-20.0, 20.0);
            (x, if r.chance(0.5) { x } else { -x })
        }
        3 => (r.f(-1e-3, 1e-3), r.f(-1e-3, 1e-3)),
        _ => (r.f(-60.0, 60.0), r.f(-60.0, 60.0)),
    };
    c.describe(|| format!("u {u}, v {v}"));
    let (s, d) = scalar_from_uv(u, v);
    ensure!(close(s, u.hypot(v), 1e-9, 1e-12), "({u}, {v}) blows at {}, computed {s}", u.hypot(v));
    ensure!((0..=360).contains(&d), "({u}, {v}) comes from {d}");
    if u.hypot(v) > 0.0 {
        let from = (-u).atan2(-v).to_degrees().rem_euclid(360.0);
        ensure!(whole_degrees(d as f64, from, 1e-9), "({u}, {v}) comes from {from}, computed {d}");
        c.distinct("wind quadrants", ((u > 0.0) as u64) * 2 + (v > 0.0) as u64);
    }
    c.saw("winds");
    c.nontrivial(hash_f64s(&[u, v]));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "W01",
            rule: "Periods 1 to 30 s over depths 0.1 to 5000 m, every wavelength, wavenumber, celerity and group velocity against the dispersion relation solved by bisection. Non-trivial: every case.",
            monitors: vec![mon("dispersion", 4000, dispersion)],
            require: vec![("shallow water", 500), ("deep water", 500), ("intermediate water", 500)],
            assumptions: vec!["g = 9.81 m/s^2; approximations within 0.2%"],
        },
        Property {
            id: "W02",
            rule: "Shoaling and refraction against conserved energy flux and Snell's law, breaking against the published formulas, on beaches facing everywhere. Non-trivial: every case.",
            monitors: vec![mon("transformation", 3000, transformation), mon("breaking", 3000, breaking)],
            require: vec![("waves that turn", 500), ("waves that grow", 200), ("waves that shrink", 20), ("breaking swells", 500), ("breaking swells across north", 200), ("swells from behind the beach", 500)],
            assumptions: vec!["deep-water steepness up to 0.1; slopes 0.001 to 0.5"],
        },
        Property {
            id: "W03",
            rule: "Energy, moments, steepness and peak drift against their formulas; wind vectors in every quadrant. Non-trivial: every case.",
            monitors: vec![mon("formulas", 3000, formulas), mon("wind", 3000, wind)],
            require: vec![("formulas", 3000), ("winds", 3000), ("wind quadrants", 4)],
            assumptions: vec![],
        },
    ]
}

#[allow(dead_code)]
fn main() {
    kit::main(properties());
}
