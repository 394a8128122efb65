//! S07 regridding, S08 monotone cubic interpolation, S09 one-dimensional spectra and
//! moments, S10 bin lookup, S11 cartesian projection, S12 contours, S13 reconstruction.
use geojson::{Feature, GeoJson, Value};
use kit::num::{ang, close};
use kit::rng::{hash_f64s, mix, Rng};
use kit::*;
use mon::gen;
use std::f64::consts::PI;
use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord;
use surfrs::data::spectral_wave_data_record::SpectralWaveDataRecord;
use surfrs::spectra::{Spectra, SpectralAxis};
use surfrs::swell::SwellProvider;
use surfrs::tools::contour::{compute_contours, compute_latlng_gridded_contours};
use surfrs::tools::interpolation::{circular_pchip_interpolate, PchipInterpolator};
use surfrs::units::direction::DirectionConvention;

fn from_deg(conv: &DirectionConvention, raw: f64) -> f64 {
    match conv {
        DirectionConvention::From => raw,
        DirectionConvention::Towards => raw + 180.0,
        DirectionConvention::Met => 270.0 - raw,
    }
    .rem_euclid(360.0)
}

fn range(v: &[f64]) -> (f64, f64) {
    v.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), x| (a.min(*x), b.max(*x)))
}

// ---- reference monotone cubic ---------------------------------------------------------

fn slopes(x: &[f64], y: &[f64]) -> Vec<f64> {
    let n = x.len();
    let sec: Vec<f64> = (0..n - 1).map(|i| (y[i + 1] - y[i]) / (x[i + 1] - x[i])).collect();
    let mut m = vec![0.0; n];
    m[0] = sec[0];
    m[n - 1] = sec[n - 2];
    for i in 1..n - 1 {
        if sec[i - 1] * sec[i] > 0.0 || (sec[i - 1] > 0.0) == (sec[i] > 0.0) && sec[i - 1] != 0.0 && sec[i] != 0.0 {
            let (hl, hr) = (x[i] - x[i - 1], x[i + 1] - x[i]);
            let (wl, wr) = (2.0 * hr + hl, hr + 2.0 * hl);
            m[i] = (wl + wr) / (wl / sec[i - 1] + wr / sec[i]);
        }
    }
    if n > 2 {
        // where a neighbouring interval is flat the curve is flat at the shared knot
        // (sec[i] == 0), and where both ends are too steep for their interval the pair is drawn
        // back, from left to right, to the circle of radius 3 of Fritsch and Carlson
        for i in 0..n - 1 {
            if sec[i] == 0.0 {
                m[i] = 0.0;
                m[i + 1] = 0.0;
                continue;
            }
            let r = (m[i] / sec[i]).hypot(m[i + 1] / sec[i]);
            if r > 3.0 {
                m[i] *= 3.0 / r;
                m[i + 1] *= 3.0 / r;
            }
        }
    }
    m
}

fn cubic(x: &[f64], y: &[f64], at: f64) -> f64 {
    let n = x.len();
    if at <= x[0] {
        return y[0];
    }
    if at >= x[n - 1] {
        return y[n - 1];
    }
    let m = slopes(x, y);
    let k = (0..n - 1).rev().find(|&k| x[k] <= at).unwrap();
    let h = x[k + 1] - x[k];
    let t = (at - x[k]) / h;
    let d = y[k + 1] - y[k];
    // Horner form of the Hermite cubic
    y[k] + t * (h * m[k] + t * (3.0 * d - h * (2.0 * m[k] + m[k + 1]) + t * (-2.0 * d + h * (m[k] + m[k + 1]))))
}

/// The same on a circle of 360 degrees. None where steep ends hand their limit on all the way
/// around, so that it matters where the circle was cut open: there only bounds are checked.
fn around(d: &[f64], v: &[f64], at: f64) -> Option<f64> {
    let turns = |n: i32| {
        let x: Vec<f64> = (-n..=n).flat_map(|k| d.iter().map(move |a| a + 360.0 * k as f64)).collect();
        let y: Vec<f64> = (-n..=n).flat_map(|_| v.iter().copied()).collect();
        cubic(&x, &y, at)
    };
    let (a, b) = (turns(1), turns(2));
    close(a, b, 1e-9, 1e-12).then_some(b)
}

fn knots(r: &mut Rng) -> (Vec<f64>, Vec<f64>, &'static str) {
    let n = if r.chance(0.002) { r.usize(120, 700) } else { r.size(2, 24) };
    let mut x = vec![r.f(-100.0, 100.0)];
    let even = r.chance(0.3);
    let step = r.log(0.01, 10.0);
    for i in 1..n {
        let d = if even { step } else { r.log(0.01, 20.0) };
        x.push(x[i - 1] + d);
    }
    let style = r.below(6);
    let mut y = vec![0.0; n];
    let name = match style {
        0 => {
            let mut v = r.f(-5.0, 5.0);
            for q in y.iter_mut() {
                v += r.log(1e-4, 10.0);
                *q = v;
            }
            "increasing"
        }
        1 => {
            let (a, b) = (r.f(-3.0, 3.0), r.f(-10.0, 10.0));
            for i in 0..n {
                y[i] = a * x[i] + b;
            }
            "line"
        }
        2 => {
            let k = r.usize(2, 4) as f64;
            for q in y.iter_mut() {
                *q = (r.unit() * k).floor();
            }
            "plateaus"
        }
        3 => {
            let i = r.below(n);
            y[i] = r.log(0.01, 1e4);
            "spike"
        }
        4 => {
            for q in y.iter_mut() {
                *q = r.gauss() * 10f64.powi(r.int(-3, 3) as i32);
            }
            "wild"
        }
        _ => {
            for q in y.iter_mut() {
                *q = r.unit();
            }
            "noise"
        }
    };
    (x, y, name)
}

fn pchip(c: &mut Case) -> R {
    let (x, y, style) = knots(&mut c.rng);
    c.describe(|| format!("{style} x={x:?} y={y:?}"));
    let p = PchipInterpolator::new(&x, &y);
    let n = x.len();
    let (lo, hi) = range(&y);
    let size = lo.abs().max(hi.abs()).max(1e-300);
    for i in 0..n {
        let v = p.interpolate(x[i]);
        ensure!(close(v, y[i], 1e-9, 1e-11 * size), "knot {i}: {v} instead of {}", y[i]);
    }
    for k in 0..3 {
        let d = c.rng.log(1e-6, 1e6);
        ensure!(p.interpolate(x[0] - d) == y[0] && p.interpolate(x[n - 1] + d) == y[n - 1], "not clamped {d} outside (probe {k})");
    }
    let mut pts: Vec<f64> = (0..40).map(|_| c.rng.f(x[0], x[n - 1])).collect();
    for k in 0..n - 1 {
        pts.push(x[k] + (x[k + 1] - x[k]) * 1e-7);
        pts.push(x[k + 1] - (x[k + 1] - x[k]) * 1e-7);
    }
    pts.sort_by(|a, b| a.total_cmp(b));
    let got = p.interpolate_many(&pts);
    ensure!(got.len() == pts.len(), "{} values for {} points", got.len(), pts.len());
    for (i, (&q, &v)) in pts.iter().zip(&got).enumerate() {
        ensure!(v == p.interpolate(q), "interpolating many differs at {q}");
        let k = (0..n - 1).rev().find(|&k| x[k] <= q).unwrap_or(0);
        let (a, b) = (y[k].min(y[k + 1]), y[k].max(y[k + 1]));
        ensure!(v >= a - 1e-9 * size && v <= b + 1e-9 * size, "{v} at {q} leaves [{a}, {b}] of its interval");
        let want = cubic(&x, &y, q);
        ensure!(close(v, want, 1e-7, 1e-9 * size), "{v} at {q}, monotone cubic gives {want}");
        c.saw("points compared with the reference");
        if i > 0 && pts[i - 1] >= x[k] && q > pts[i - 1] {
            let s = (y[k + 1] - y[k]).signum();
            ensure!((v - got[i - 1]) * s >= -1e-9 * size, "not monotone between {} and {q}", pts[i - 1]);
        }
        if style == "line" {
            let l = y[0] + (y[n - 1] - y[0]) * (q - x[0]) / (x[n - 1] - x[0]);
            ensure!(close(v, l, 1e-9, 1e-9 * size), "{v} at {q} on a line through {l}");
            c.saw("points on lines");
        }
    }
    c.count("points interpolated", pts.len() as u64);
    if n > 2 && lo != hi {
        c.nontrivial(hash_f64s(&y));
    }
    Ok(())
}

fn circular(c: &mut Case) -> R {
    let n = c.rng.size(2, 40);
    let mut d: Vec<f64> = if c.rng.chance(0.5) {
        let o = c.rng.f(0.0, 360.0 / n as f64);
        (0..n).map(|i| o + 360.0 * i as f64 / n as f64).collect()
    } else {
        (0..n).map(|_| (c.rng.f(0.0, 360.0) * 100.0).floor() / 100.0).collect()
    };
    d.sort_by(|a, b| a.total_cmp(b));
    d.dedup();
    let n = d.len();
    if n < 2 {
        return Ok(());
    }
    let v: Vec<f64> = (0..n).map(|_| if c.rng.chance(0.2) { 0.0 } else { c.rng.f(0.0, 10.0) }).collect();
    c.describe(|| format!("directions={d:?} values={v:?}"));
    for i in 0..n {
        for turn in [0.0, 360.0] {
            if d[i] + turn > 360.0 {
                continue;
            }
            let g = circular_pchip_interpolate(&d, &v, d[i] + turn);
            ensure!(close(g, v[i], 1e-9, 1e-9), "direction {}: {g} instead of {}", d[i] + turn, v[i]);
        }
    }
    let ext = |f: fn(f64) -> f64| -> Vec<f64> { d.iter().map(|a| f(*a)).collect() };
    let x: Vec<f64> = [ext(|a| a - 720.0), ext(|a| a - 360.0), d.clone(), ext(|a| a + 360.0), ext(|a| a + 720.0)].concat();
    let y: Vec<f64> = (0..5).flat_map(|_| v.clone()).collect();
    for k in 0..30 {
        let q = match k {
            0 => 0.0,
            1 => 360.0,
            2 => d[0] - 1e-6,
            3 => d[n - 1] + 1e-6,
            _ => c.rng.f(0.0, 360.0),
        };
        if !(0.0..=360.0).contains(&q) {
            continue;
        }
        let g = circular_pchip_interpolate(&d, &v, q);
        let k = (0..x.len() - 1).rev().find(|&k| x[k] <= q).unwrap();
        let (a, b) = (y[k].min(y[k + 1]), y[k].max(y[k + 1]));
        ensure!(g >= a - 1e-9 && g <= b + 1e-9, "{g} at {q} leaves [{a}, {b}]");
        if let Some(want) = around(&d, &v, q) {
            ensure!(close(g, want, 1e-7, 1e-9), "{g} at {q}, periodic monotone cubic gives {want}");
            c.saw("points compared with the reference");
        }
        c.saw("directions interpolated");
        if q < d[0] || q > d[n - 1] {
            c.saw("directions across the seam");
        }
    }
    let (a, b) = (circular_pchip_interpolate(&d, &v, 0.0), circular_pchip_interpolate(&d, &v, 360.0));
    ensure!(close(a, b, 1e-9, 1e-9), "{a} at 0 but {b} at 360");
    c.nontrivial(hash_f64s(&v));
    Ok(())
}

// ---- S07 ------------------------------------------------------------------------------

fn target(r: &mut Rng, s: &Spectra) -> (Vec<f64>, Vec<f64>) {
    let (f0, f1) = (s.frequency[0], s.frequency[s.nk() - 1]);
    let mut f: Vec<f64> = (0..r.size(1, 20)).map(|_| r.log(f0 * 0.5, f1 * 1.6)).collect();
    for _ in 0..r.below(4) {
        f.push(*r.pick(&s.frequency));
    }
    if r.chance(0.5) {
        f.push(f0);
        f.push(f1);
    }
    f.sort_by(|a, b| a.total_cmp(b));
    f.dedup();
    let n = r.size(1, 40);
    let mut d: Vec<f64> = if r.chance(0.5) {
        (0..n).map(|i| 360.0 * i as f64 / n as f64).collect()
    } else {
        (0..n).map(|_| r.f(0.0, 360.0)).collect()
    };
    let own = s.direction_deg();
    for _ in 0..r.below(4) {
        let v = *r.pick(&own);
        d.push(v.rem_euclid(360.0));
    }
    if r.chance(0.3) {
        d.push(0.0);
    }
    if r.chance(0.3) {
        d.push(360.0);
    }
    d.sort_by(|a, b| a.total_cmp(b));
    d.dedup();
    (f, d)
}

fn regrid(c: &mut Case) -> R {
    let (nk, nth) = gen::grid(&mut c.rng, 2, 3);
    let (s, style) = gen::any_spectra(&mut c.rng, nk, nth);
    let (f, d) = target(&mut c.rng, &s);
    c.describe(|| format!("{style} to {f:?} x {d:?} from {}", gen::show(&s)));
    let g = s.interpolate_to_grid(&f, &d);
    ensure!(g.frequency == f, "the frequencies are not the requested ones");
    ensure!(g.dir_convention == DirectionConvention::From, "convention {:?}", g.dir_convention);
    let gd = g.direction_deg();
    ensure!(gd.len() == d.len() && gd.iter().zip(&d).all(|(a, b)| ang(*a, *b) < 1e-7), "the directions are not the requested ones");
    let raw = g.direction_raw();
    ensure!(raw.len() == d.len() && raw.iter().zip(&d).all(|(a, b)| close(a.to_degrees(), *b, 1e-9, 1e-9)), "{raw:?} rad are not the requested {d:?} deg");
    ensure!(g.energy.len() == f.len() * d.len(), "{} energies", g.energy.len());
    // the source, sorted by the direction it comes from
    let mut order: Vec<(f64, usize)> = s.direction_raw().iter().enumerate().map(|(i, r)| (from_deg(&s.dir_convention, r.to_degrees()), i)).collect();
    order.sort_by(|a, b| a.0.total_cmp(&b.0));
    let sd: Vec<f64> = order.iter().map(|o| o.0).collect();
    let lf: Vec<f64> = s.frequency.iter().map(|v| v.ln()).collect();
    let top = range(&s.energy).1.max(1e-300);
    let x: Vec<f64> = [-720.0, -360.0, 0.0, 360.0, 720.0].iter().flat_map(|o| sd.iter().map(move |v| v + o)).collect();
    for (ik, &fq) in f.iter().enumerate() {
        let below = fq < s.frequency[0];
        let row: Vec<f64> = order
            .iter()
            .map(|&(_, t)| {
                let e: Vec<f64> = (0..nk).map(|k| s.energy[k + t * nk]).collect();
                if below { 0.0 } else { cubic(&lf, &e, fq.ln()) }
            })
            .collect();
        let hi = (0..nk).find(|&k| s.frequency[k] >= fq).unwrap_or(nk - 1);
        let lo = (0..nk).rev().find(|&k| s.frequency[k] <= fq).unwrap_or(0);
        for (it, &dq) in d.iter().enumerate() {
            let e = g.energy[ik + it * f.len()];
            ensure!(e >= 0.0, "negative energy {e}");
            if below {
                ensure!(e == 0.0, "{e} at {fq} Hz, below the lowest source frequency {}", s.frequency[0]);
                c.saw("bins below the source");
                continue;
            }
            // bins on either side in direction (degenerate knots within rounding skipped)
            let k = (0..x.len() - 1).rev().find(|&k| x[k] <= dq).unwrap();
            let near = (dq - x[k]).abs().min((x[k + 1] - dq).abs()) < 1e-9;
            let (ta, tb) = (order[k % nth].1, order[(k + 1) % nth].1);
            let four = [s.energy[lo + ta * nk], s.energy[hi + ta * nk], s.energy[lo + tb * nk], s.energy[hi + tb * nk]];
            let (a, b) = range(&four);
            if !near {
                ensure!(e >= a - 1e-9 * top && e <= b + 1e-9 * top, "{e} at {fq} Hz {dq} deg leaves [{a}, {b}] of the bins around it");
                c.saw("bins within their surroundings");
            }
            if fq > s.frequency[nk - 1] {
                c.saw("bins above the source");
            }
            if let Some(want) = around(&sd, &row, dq) {
                let want = want.max(0.0);
                ensure!(close(e, want, 1e-6, 1e-8 * top), "{e} at {fq} Hz {dq} deg, interpolation gives {want}");
                c.saw("bins compared with the reference");
            }
        }
    }
    if top > 0.0 {
        c.nontrivial(hash_f64s(&s.energy) ^ hash_f64s(&f));
    }
    Ok(())
}

fn own_grid(c: &mut Case) -> R {
    let (nk, nth) = gen::grid(&mut c.rng, 2, 3);
    let (s, style) = gen::any_spectra(&mut c.rng, nk, nth);
    c.describe(|| format!("{style} {}", gen::show(&s)));
    let mut order: Vec<(f64, usize)> = s.direction_deg().iter().enumerate().map(|(i, d)| (*d, i)).collect();
    order.sort_by(|a, b| a.0.total_cmp(&b.0));
    let d: Vec<f64> = order.iter().map(|o| o.0).collect();
    let g = s.interpolate_to_grid(&s.frequency, &d);
    let top = range(&s.energy).1.max(1e-300);
    for ik in 0..nk {
        for (it, &(deg, t)) in order.iter().enumerate() {
            let (a, b) = (g.energy[ik + it * nk], s.energy[ik + t * nk]);
            ensure!(close(a, b, 1e-8, 1e-9 * top), "{a} instead of {b} at {} Hz {deg} deg on the spectrum's own grid", s.frequency[ik]);
            c.saw("own bins kept");
        }
    }
    c.nontrivial(hash_f64s(&s.energy));
    Ok(())
}

/// A smooth sea keeps its height and direction when regridded.
fn smooth(c: &mut Case) -> R {
    let (nk, nth) = (c.rng.usize(25, 40), *c.rng.pick(&[24usize, 36, 48]));
    let f: Vec<f64> = (0..nk).map(|i| 0.035 * f64::powi(1.08, i as i32)).collect();
    let d = gen::even_directions(&mut c.rng, nth);
    let conv = gen::convention(&mut c.rng);
    let (th, peak) = (c.rng.f(0.0, 2.0 * PI), c.rng.f(0.07, 0.14));
    let mut e = vec![0.0; nk * nth];
    for i in 0..e.len() {
        let (k, t) = (i % nk, i / nk);
        e[i] = (-0.5 * ((f[k] / peak).ln() / 0.25).powi(2)).exp() * (0.5 * (d[t] - th)).cos().powi(4);
    }
    let s = Spectra::new(f.clone(), d, e, conv.clone());
    c.describe(|| format!("peak {peak} Hz raw direction {th} conv {conv:?} {nk}x{nth}"));
    let nt = *c.rng.pick(&[24usize, 36, 72]);
    let td: Vec<f64> = (0..nt).map(|i| i as f64 * 360.0 / nt as f64).collect();
    let tf: Vec<f64> = (0..60).map(|i| 0.036 * f64::powf(f[nk - 1] / 0.036, i as f64 / 59.0)).collect();
    let g = s.interpolate_to_grid(&tf, &td);
    for ik in 0..tf.len() {
        for it in 0..nt {
            let raw = match conv {
                DirectionConvention::From => td[it],
                DirectionConvention::Towards => td[it] - 180.0,
                DirectionConvention::Met => 270.0 - td[it],
            }
            .to_radians();
            let want = (-0.5 * ((tf[ik] / peak).ln() / 0.25).powi(2)).exp() * (0.5 * (raw - th)).cos().powi(4);
            let got = g.energy[ik + it * tf.len()];
            c.max("error on smooth seas (of the peak)", (got - want).abs());
            ensure!((got - want).abs() < 0.06, "{got} at {} Hz {} deg where the sea has {want}", tf[ik], td[it]);
        }
    }
    c.saw("smooth seas");
    c.nontrivial(mix(th.to_bits() ^ peak.to_bits()));
    Ok(())
}

// ---- S09 ------------------------------------------------------------------------------

fn oned(c: &mut Case) -> R {
    let (nk, nth) = gen::grid(&mut c.rng, 2, 3);
    let (s, style) = gen::any_spectra(&mut c.rng, nk, nth);
    c.describe(|| format!("{style} {}", gen::show(&s)));
    let width = |v: &[f64], i: usize| if i == 0 { v[1] - v[0] } else { v[i] - v[i - 1] };
    let raw = s.direction_raw();
    let (dk, dth) = (s.dk(), s.dth());
    ensure!(s.nk() == nk && s.nth() == nth, "grid {}x{}", s.nk(), s.nth());
    for i in 0..nk {
        ensure!(close(dk[i], width(&s.frequency, i), 1e-12, 0.0), "bandwidth {i}");
        ensure!(close(s.period()[i], 1.0 / s.frequency[i], 1e-12, 0.0), "period {i}");
    }
    let (dd, dr) = (s.direction_deg(), s.direction_rad());
    ensure!(dd.len() == nth && dr.len() == nth && dk.len() == nk && dth.len() == nth, "axis lengths");
    for t in 0..nth {
        ensure!(close(dth[t], width(&raw, t), 1e-12, 0.0), "directional width {t}");
        ensure!(ang(dd[t], from_deg(&s.dir_convention, raw[t].to_degrees())) < 1e-9, "direction {t}: {} deg", dd[t]);
        ensure!(close(dr[t].to_degrees(), dd[t], 1e-12, 1e-12), "direction {t}: radians and degrees differ");
    }
    let ind = s.energy_indices();
    ensure!(ind.len() == nk * nth, "{} indices", ind.len());
    for (i, (k, t)) in ind.iter().enumerate() {
        ensure!(*k == i % nk && *t == i / nk, "bin {i} is at frequency {k}, direction {t}");
        ensure!(s.energy_at(*k, *t) == s.energy[i], "energy of bin ({k}, {t})");
    }
    let (lo, hi) = range(&s.energy);
    ensure!(s.energy_range() == (lo, hi), "range {:?}, energy spans {lo}..{hi}", s.energy_range());
    let of = s.oned(SpectralAxis::Frequency);
    let od = s.oned(SpectralAxis::Direction);
    ensure!(of.len() == nk && od.len() == nth, "axis lengths {} {}", of.len(), od.len());
    let a: f64 = (0..nk).map(|k| of[k] * width(&s.frequency, k)).sum();
    let b: f64 = (0..nth).map(|t| od[t] * width(&raw, t)).sum();
    ensure!(close(a, b, 1e-9, 1e-15), "the two one-dimensional spectra hold {a} and {b}");
    let pw = c.rng.int(-6, 8) as i32;
    let mf = s.mom_f(pw);
    let md = s.mom_d(1);
    let mn = c.rng.int(0, 7) as i32;
    let mdn = s.mom_d(mn);
    let mean = s.mean_wave_direction_f();
    ensure!(mf.len() == nth && md.len() == nk && mean.len() == nk && mdn.len() == nk, "moment lengths");
    for t in 0..nth {
        let want: f64 = (0..nk).map(|k| s.energy[k + t * nk] * width(&s.frequency, k)).sum();
        ensure!(close(od[t], want, 1e-9, 1e-15), "direction {t}: {} instead of {want}", od[t]);
        let want: f64 = (0..nk).map(|k| s.energy[k + t * nk] * width(&s.frequency, k) * s.frequency[k].powi(pw)).sum();
        ensure!(close(mf[t], want, 1e-9, 1e-15), "moment {pw} of direction {t}: {} instead of {want}", mf[t]);
    }
    for k in 0..nk {
        let want: f64 = (0..nth).map(|t| s.energy[k + t * nk] * width(&raw, t)).sum();
        ensure!(close(of[k], want, 1e-9, 1e-15), "frequency {k}: {} instead of {want}", of[k]);
        let (mut es, mut ec, mut sn, mut cn) = (0.0, 0.0, 0.0, 0.0);
        for t in 0..nth {
            let e = s.energy[k + t * nk] * width(&raw, t);
            es += e * raw[t].sin();
            ec += e * raw[t].cos();
            sn += e * raw[t].sin().powi(mn);
            cn += e * raw[t].cos().powi(mn);
        }
        let scale = want.max(1e-15);
        ensure!(close(md[k].0, es, 1e-9, 1e-9 * scale) && close(md[k].1, ec, 1e-9, 1e-9 * scale), "directional moment {k}: {:?} instead of {:?}", md[k], (es, ec));
        ensure!(close(mdn[k].0, sn, 1e-9, 1e-9 * scale) && close(mdn[k].1, cn, 1e-9, 1e-9 * scale), "directional moment {mn} of {k}: {:?} instead of {:?}", mdn[k], (sn, cn));
        if es.hypot(ec) > 1e-6 * scale && want > 0.0 {
            let d = from_deg(&s.dir_convention, es.atan2(ec).to_degrees());
            ensure!((0.0..360.0 + 1e-9).contains(&mean[k]), "mean direction {} of frequency {k}", mean[k]);
            ensure!(ang(mean[k], d) < 1e-6, "mean direction {} of frequency {k}, energy comes from {d}", mean[k]);
            c.saw("mean directions per frequency");
        }
    }
    c.count("bins integrated", (nk * nth) as u64);
    if hi > lo {
        c.nontrivial(hash_f64s(&s.energy));
    }
    Ok(())
}

// ---- S10 ------------------------------------------------------------------------------

fn lookup(c: &mut Case) -> R {
    let (nk, nth) = gen::grid(&mut c.rng, 2, 3);
    let (s, style) = gen::any_spectra(&mut c.rng, nk, nth);
    let (f, d) = (s.frequency.clone(), s.direction_raw());
    c.describe(|| format!("{style} {}", gen::show(&s)));
    for k in 0..12 {
        let x = match k {
            0 => -c.rng.f(0.0, 3.0),
            1 => (nk - 1) as f64 + c.rng.f(0.0, 3.0),
            2 | 3 | 4 => c.rng.below(nk) as f64,
            _ => c.rng.f(0.0, nk as f64 - 1.0),
        };
        let lin = |v: &[f64], x: f64| {
            let x = x.clamp(0.0, v.len() as f64 - 1.0);
            let i = (x.floor() as usize).min(v.len() - 1);
            let j = (i + 1).min(v.len() - 1);
            v[i] + (v[j] - v[i]) * (x - i as f64)
        };
        ensure!(close(s.ik(x), lin(&f, x), 1e-12, 1e-12), "frequency at index {x}: {} instead of {}", s.ik(x), lin(&f, x));
        let y = match k {
            0 => -c.rng.f(0.0, 3.0),
            1 => (nth - 1) as f64 + c.rng.f(0.0, 3.0),
            2 | 3 | 4 => c.rng.below(nth) as f64,
            _ => c.rng.f(0.0, nth as f64 - 1.0),
        };
        ensure!(close(s.ith(y), lin(&d, y), 1e-12, 1e-12), "direction at index {y}: {} instead of {}", s.ith(y), lin(&d, y));
        c.saw("fractional indices");
    }
    for k in 0..16 {
        let q = match k {
            0 => f[0] * c.rng.f(0.2, 0.999),
            1 => f[nk - 1] * c.rng.f(1.001, 3.0),
            2 | 3 => *c.rng.pick(&f),
            _ => c.rng.f(f[0], f[nk - 1]),
        };
        let (a, b) = s.closest_k(q);
        let want = if q < f[0] {
            (0, 0)
        } else {
            let i = (0..nk).rev().find(|&i| f[i] <= q).unwrap();
            (i, (i + 1).min(nk - 1))
        };
        ensure!((a, b) == want, "bins around {q} Hz: {:?} instead of {want:?}", (a, b));
        // keep clear of the seam, where rounding decides
        let turn = 2.0 * PI * c.rng.int(-1, 1) as f64;
        let th = match k {
            2 | 3 => *c.rng.pick(&d),
            _ => d[0] + c.rng.f(1e-6, 2.0 * PI - 1e-6),
        };
        let i = (0..nth).rev().find(|&i| d[i] <= th).unwrap();
        let j = (i + 1) % nth;
        let on_bin = d.iter().any(|v| (v - th).abs() < 1e-9);
        if !on_bin {
            ensure!(s.closest_th(th + turn) == (i, j), "bins around {} rad: {:?} instead of {:?}", th + turn, s.closest_th(th + turn), (i, j));
        } else {
            // on a bin, rounding decides which of the two intervals it ends is given
            let got = s.closest_th(th);
            let before = ((i + nth - 1) % nth, i);
            ensure!(got == (i, j) || got == before, "bins around {th} rad: {:?} instead of {:?}", got, (i, j));
        }
        // interpolated energy
        let qc = q.clamp(f[0], f[nk - 1]);
        let (k0, k1) = want;
        let x = if k0 == k1 { 0.0 } else { (qc - f[k0]) / (f[k1] - f[k0]) };
        let w = if j > i { d[j] - d[i] } else { d[j] + 2.0 * PI - d[i] };
        let y = (th - d[i]) / w;
        let e = |k: usize, t: usize| s.energy[k + t * nk];
        let v = (e(k0, i) * (1.0 - x) + e(k1, i) * x) * (1.0 - y) + (e(k0, j) * (1.0 - x) + e(k1, j) * x) * y;
        let top = range(&s.energy).1;
        let at = if on_bin { th } else { th + turn };
        let got = s.interp_energy(q, at);
        ensure!(close(got, v, 1e-7, 1e-9 * top), "energy at {q} Hz {at} rad: {got} instead of {v}");
        c.saw("energies interpolated");
        if j < i {
            c.saw("energies across the seam");
        }
        if q < f[0] || q > f[nk - 1] {
            c.saw("energies beyond the outer bins");
        }
    }
    c.nontrivial(hash_f64s(&s.energy));
    Ok(())
}

// ---- S11 ------------------------------------------------------------------------------

fn cartesian(c: &mut Case) -> R {
    let (nk, nth) = gen::grid(&mut c.rng, 1, 3);
    let (s, style) = gen::any_spectra(&mut c.rng, nk.max(1), nth);
    let size = if c.rng.chance(0.01) { c.rng.usize(49, 420) } else { c.rng.usize(2, 48) };
    let p = s.period();
    let (pmin, pmax) = range(&p);
    let thr = match c.rng.below(4) {
        0 => None,
        1 => Some(*c.rng.pick(&p)),
        2 => Some(c.rng.f(pmin, pmax * 1.2)),
        _ => Some(c.rng.f(pmin * 0.5, pmax)),
    };
    let exp = if c.rng.chance(0.5) { Some(c.rng.log(0.05, 4.0)) } else { None };
    c.describe(|| format!("{style} size={size} threshold={thr:?} exponent={exp:?} {}", gen::show(&s)));
    let map = s.compute_cartesian_projection_map(size, thr, exp);
    let target: Vec<f64> = (0..s.energy.len()).map(|i| i as f64 * 0.5).collect();
    let out = s.project_cartesian(&target, size, thr, exp);
    let again = s.project_cartesian_with_map(&target, &map);
    ensure!(out.len() == size * size && map.indices.len() == size * size && map.size == size, "{} pixels for size {size}", out.len());
    ensure!(out.iter().zip(&again).all(|(a, b)| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()), "a reused map projects differently");
    let t0 = thr.unwrap_or(pmax);
    let ex = exp.unwrap_or(1.0);
    let half = (size / 2) as f64;
    let mut pts: Vec<(usize, f64, f64)> = vec![];
    for i in 0..s.energy.len() {
        let t = p[i % nk];
        if t > t0 {
            continue;
        }
        let r = half * (t / t0).powf(ex);
        let d = from_deg(&s.dir_convention, s.direction_raw()[i / nk].to_degrees()).to_radians();
        // north is up (towards row 0), east is right
        pts.push((i, half + r * d.sin(), half - r * d.cos()));
    }
    for px in 0..size * size {
        // of large images the rims, and some pixels between
        if size > 48 && px % size > 1 && px % size < size - 2 && px / size > 1 && px / size < size - 2 && !c.rng.chance(0.02) {
            continue;
        }
        let (x, y) = ((px % size) as f64, (px / size) as f64);
        if pts.is_empty() {
            ensure!(map.indices[px].is_none() && out[px].is_nan(), "pixel {px} has data although no bin is drawn");
            c.saw("blank pixels");
            continue;
        }
        let best = pts.iter().map(|q| (q.1 - x).powi(2) + (q.2 - y).powi(2)).fold(f64::INFINITY, f64::min);
        let Some(i) = map.indices[px] else { return violation(format!("pixel {px} is blank")) };
        ensure!(out[px] == target[i], "pixel {px} shows {} instead of the value of bin {i}", out[px]);
        let Some(q) = pts.iter().find(|q| q.0 == i) else { return violation(format!("pixel {px} shows bin {i}, which is beyond the period threshold")) };
        let dist = (q.1 - x).powi(2) + (q.2 - y).powi(2);
        ensure!(dist <= best + 1e-6 * (1.0 + best), "pixel {px} shows bin {i} at squared distance {dist}, the nearest is at {best}");
    }
    c.count("pixels compared", (size * size) as u64);
    if pts.len() > 1 {
        c.nontrivial(mix(hash_f64s(&s.frequency) ^ size as u64 ^ t0.to_bits()));
    }
    Ok(())
}

// ---- S12 ------------------------------------------------------------------------------

/// Even-odd containment over every ring of a feature.
fn inside(f: &Feature, x: f64, y: f64) -> Option<bool> {
    let Some(g) = &f.geometry else { return None };
    let Value::MultiPolygon(polys) = &g.value else { return None };
    let mut odd = false;
    for ring in polys.iter().flatten() {
        for w in ring.windows(2) {
            let (a, b) = (&w[0], &w[1]);
            if (a[1] > y) != (b[1] > y) && x < a[0] + (y - a[1]) / (b[1] - a[1]) * (b[0] - a[0]) {
                odd = !odd;
            }
        }
    }
    Some(odd)
}

fn field(r: &mut Rng, w: usize, h: usize) -> Vec<f64> {
    let mut v = vec![0.0; w * h];
    let noise = if r.chance(0.5) { 0.0 } else { r.f(0.0, 0.5) };
    for _ in 0..r.size(1, 4) {
        let (cx, cy, s, a) = (r.f(0.0, w as f64), r.f(0.0, h as f64), r.f(0.8, 4.0), r.f(0.3, 2.0));
        for i in 0..v.len() {
            let (x, y) = ((i % w) as f64 - cx, (i / w) as f64 - cy);
            v[i] += a * (-(x * x + y * y) / (2.0 * s * s)).exp();
        }
    }
    for q in v.iter_mut() {
        *q += noise * r.unit() + 1e-4 * r.unit();
    }
    // small and large values, heights below the sea
    if r.chance(0.3) {
        let scale = r.log(1e-4, 1e3);
        let shift = if r.chance(0.3) { 0.0 } else { r.f(-30.0, 30.0) * scale };
        for q in v.iter_mut() {
            *q = *q * scale + shift;
        }
    }
    v
}

fn check_feature(c: &mut Case, f: &Feature, v: &[f64], w: usize, h: usize, t: f64, scale: f64, at: impl Fn(f64, f64) -> (f64, f64)) -> R {
    let mut rings = 0;
    if let Some(Value::MultiPolygon(p)) = f.geometry.as_ref().map(|g| &g.value) {
        for ring in p.iter().flatten() {
            rings += 1;
            ensure!(ring.len() >= 4 && ring.first() == ring.last(), "a ring is not closed");
        }
    }
    for j in 1..h - 1 {
        for i in 1..w - 1 {
            let e = v[i + j * w];
            if (e - t).abs() < 1e-9 * scale {
                continue;
            }
            let (x, y) = at(i as f64, j as f64);
            let Some(got) = inside(f, x, y) else { return violation("a contour is not a multi-polygon") };
            ensure!(got == (e > t), "cell ({i}, {j}) of value {e} is {} the contour of {t}", if got { "inside" } else { "outside" });
            c.saw(if got { "cells inside contours" } else { "cells outside contours" });
        }
    }
    // between two neighbours the contour crosses where the values between them do
    for j in 1..h - 1 {
        for i in 1..w - 1 {
            for (k, l) in [(i + 1, j), (i, j + 1)] {
                let (a, b) = (v[i + j * w], v[k + l * w]);
                if k > w - 2 || l > h - 2 || (a > t) == (b > t) {
                    continue;
                }
                let around = (j - 1..=l + 1).flat_map(|y| (i - 1..=k + 1).map(move |x| (x, y)));
                if around.into_iter().any(|(x, y)| !((v[x + y * w] - t).abs() > 1e-3 * scale)) {
                    continue;
                }
                let at_t = (t - a) / (b - a);
                for (from, high) in [(at_t - 0.003, a > t), (at_t + 0.003, b > t)] {
                    if !a.is_finite() || !b.is_finite() || from <= 0.0 || from >= 1.0 {
                        continue;
                    }
                    let (x, y) = at(i as f64 + (k - i) as f64 * from, j as f64 + (l - j) as f64 * from);
                    let Some(got) = inside(f, x, y) else { return violation("a contour is not a multi-polygon") };
                    ensure!(got == high, "{from} of the way from cell ({i}, {j}) of {a} to ({k}, {l}) of {b} is {} the contour of {t}", if got { "inside" } else { "outside" });
                    c.saw("crossings between cells");
                }
            }
        }
    }
    // the centers of the outer cells lie on the edge of the field: look just inside of them
    let rows = (1..h - 1).flat_map(|j| [((0, j), (1, j)), ((w - 1, j), (w - 2, j))]);
    let columns = (1..w - 1).flat_map(|i| [((i, 0), (i, 1)), ((i, h - 1), (i, h - 2))]);
    for ((i, j), (k, l)) in rows.chain(columns) {
        let (e, inner) = (v[i + j * w], v[k + l * w]);
        const IN: f64 = 1e-3;
        let near = if e.is_finite() { e + (inner - e) * IN } else { e };
        if (e - t).abs() < 1e-6 * scale || (near - t).abs() < 1e-6 * scale || (e > t) != (near > t) {
            continue;
        }
        let (x, y) = at(i as f64 + (k as f64 - i as f64) * IN, j as f64 + (l as f64 - j as f64) * IN);
        let Some(got) = inside(f, x, y) else { return violation("a contour is not a multi-polygon") };
        ensure!(got == (e > t), "edge cell ({i}, {j}) of value {e} is {} the contour of {t}", if got { "inside" } else { "outside" });
        c.saw(if got { "edge cells inside contours" } else { "edge cells outside contours" });
    }
    c.count("rings", rings);
    Ok(())
}

fn prop(f: &Feature, k: &str) -> Option<f64> {
    f.property(k).and_then(|v| v.as_f64())
}

fn contours(c: &mut Case) -> R {
    let (w, h) = if c.rng.chance(0.001) {
        // as wide as a global model grid, or as high
        let (a, b) = (c.rng.usize(257, 400), c.rng.usize(3, 5));
        if c.rng.chance(0.5) { (a, b) } else { (b, a) }
    } else if c.rng.chance(0.003) { (c.rng.usize(17, 130), c.rng.usize(17, 130)) } else { (c.rng.usize(3, 16), c.rng.usize(3, 16)) };
    let v = field(&mut c.rng, w, h);
    let (lo, hi) = range(&v);
    let n = c.rng.usize(2, 8);
    let mut t: Vec<f64> = (0..n).map(|_| c.rng.f(lo, hi)).collect();
    t.sort_by(|a, b| a.total_cmp(b));
    let (ax, bx) = (c.rng.f(-5.0, 5.0) + 0.1, c.rng.f(-100.0, 100.0));
    let (ay, by) = (c.rng.f(0.1, 5.0), c.rng.f(-100.0, 100.0));
    let move_it = c.rng.chance(0.7);
    c.describe(|| format!("{w}x{h} thresholds={t:?} transform={:?} data={v:?}", move_it.then_some((ax, bx, ay, by))));
    let got = if move_it {
        compute_contours(&v, w, h, &t, Some(|p: &Vec<f64>| vec![ax * p[0] + bx, ay * p[1] + by]), Some(|i: &usize, v: &f64| format!("{i}:{v:.3}")))
    } else {
        compute_contours(&v, w, h, &t, None::<fn(&Vec<f64>) -> Vec<f64>>, Some(|i: &usize, v: &f64| format!("{i}:{v:.3}")))
    };
    let Ok(got) = got else { return violation("contouring failed") };
    ensure!(got.len() == t.len(), "{} contours for {} thresholds", got.len(), t.len());
    for (i, f) in got.iter().enumerate() {
        let th = prop(f, "threshold");
        ensure!(th == Some(t[i]), "contour {i} carries threshold {th:?} instead of {}", t[i]);
        if move_it {
            let norm = (t[i] - t[0]) / (t[n - 1] - t[0]);
            ensure!(prop(f, "normalized").is_some_and(|g| close(g, norm, 1e-9, 1e-9)), "contour {i}: normalized {:?} instead of {norm}", prop(f, "normalized"));
            ensure!(f.property("label").and_then(|l| l.as_str()) == Some(format!("{i}:{:.3}", t[i]).as_str()), "contour {i}: label {:?}", f.property("label"));
            check_feature(c, f, &v, w, h, t[i], hi - lo, |i, j| (ax * (i + 0.5) + bx, ay * (j + 0.5) + by))?;
        } else {
            check_feature(c, f, &v, w, h, t[i], hi - lo, |i, j| (i + 0.5, j + 0.5))?;
        }
    }
    c.nontrivial(hash_f64s(&v));
    Ok(())
}

fn latlng(c: &mut Case) -> R {
    let global = c.rng.chance(0.5);
    let h = c.rng.size(3, 14);
    let (w, lng0, lng1) = if global {
        let w = if c.rng.chance(0.003) { 360 } else { *c.rng.pick(&[7usize, 8, 12, 18, 24, 36]) };
        let a = if c.rng.chance(0.6) { 0.0 } else { *c.rng.pick(&[-180.0, -179.5, 20.25, 180.0, -37.3]) };
        (w, a, a + 360.0 - 360.0 / w as f64)
    } else if c.rng.chance(0.2) {
        // round the world but for a little, or on to its first column again
        let w = c.rng.usize(6, 36);
        let a = *c.rng.pick(&[0.0, -180.0, 12.5]);
        let short = *c.rng.pick(&[0.0, 0.02, 0.1, 0.5, 1.0, 3.0]);
        (w, a, if short == 0.0 { a + 360.0 } else { a + (360.0 - short) * (w as f64 - 1.0) / w as f64 })
    } else {
        let a = (c.rng.f(-170.0, 100.0) * 4.0).round() / 4.0;
        (c.rng.size(3, 14), a, a + c.rng.f(5.0, 60.0))
    };
    let lat0 = c.rng.f(-80.0, 0.0);
    let lat1 = lat0 + c.rng.f(5.0, 80.0);
    // from the south or from the north
    let (lat0, lat1) = if c.rng.chance(0.4) { (lat1, lat0) } else { (lat0, lat1) };
    let v = field(&mut c.rng, w, h);
    let mut data = v.clone();
    let holes: Vec<usize> = (0..c.rng.below(4)).map(|_| c.rng.below(w * h)).collect();
    for &i in &holes {
        data[i] = f64::NAN;
    }
    let (lo, hi) = range(&data.iter().cloned().filter(|v| !v.is_nan()).collect::<Vec<_>>());
    let ends = c.rng.chance(0.4);
    let n = if c.rng.chance(0.5) { None } else { Some(c.rng.size(2, 12)) };
    let (tmin, tmax) = if ends { (None, None) } else { (Some(lo + 0.1 * (hi - lo)), Some(lo + 0.9 * (hi - lo))) };
    c.describe(|| format!("{w}x{h} lng {lng0}..{lng1} lat {lat0}..{lat1} thresholds {tmin:?}..{tmax:?} x {n:?} data={data:?}"));
    let got = compute_latlng_gridded_contours(data.clone(), w, h, lng0, lng1, lat0, lat1, tmin, tmax, n, None::<fn(&usize, &f64) -> String>);
    let Ok(got) = got else { return violation("contouring failed") };
    let n = n.unwrap_or(20);
    ensure!(got.len() == n, "{} contours instead of {n}", got.len());
    let (a, b) = (tmin.unwrap_or(lo), tmax.unwrap_or(hi));
    // a global grid gains a copy of its first column
    let w2 = if global { w + 1 } else { w };
    let end = if global { lng0 + 360.0 } else { lng1 };
    let grid: Vec<f64> = (0..w2 * h)
        .map(|i| {
            let q = data[i % w2 % w + i / w2 * w];
            if q.is_nan() { f64::NEG_INFINITY } else { q }
        })
        .collect();
    for (i, f) in got.iter().enumerate() {
        let t = a + (b - a) * i as f64 / (n - 1) as f64;
        ensure!(prop(f, "threshold").is_some_and(|g| close(g, t, 1e-9, 1e-9)), "contour {i}: threshold {:?} instead of {t}", prop(f, "threshold"));
        let (ex, ey) = (1e-9 * (1.0 + (end - lng0).abs()), 1e-9 * (1.0 + (lat1 - lat0).abs()));
        if let Some(Value::MultiPolygon(rings)) = f.geometry.as_ref().map(|g| &g.value) {
            for p in rings.iter().flatten().flatten() {
                let within = p[0] >= lng0 - ex && p[0] <= end + ex && p[1] >= lat0.min(lat1) - ey && p[1] <= lat0.max(lat1) + ey;
                ensure!(within, "contour {i} reaches {p:?}, outside of its grid");
            }
        }
        check_feature(c, f, &grid, w2, h, t, hi - lo, |i, j| {
            (lng0 + (end - lng0) * i / (w2 - 1) as f64, lat0 + (lat1 - lat0) * j / (h - 1) as f64)
        })?;
    }
    if global {
        c.saw("global grids closed");
    }
    if !holes.is_empty() {
        c.saw("grids with missing cells");
    }
    c.nontrivial(hash_f64s(&v));
    Ok(())
}

fn spectral_contours(c: &mut Case) -> R {
    let (nk, nth) = (c.rng.usize(3, 16), c.rng.usize(3, 16));
    let f = gen::frequencies(&mut c.rng, nk);
    // a sector that does not cross north in the output
    let a = c.rng.f(1.0, 100.0);
    let step = c.rng.f(2.0, 250.0 / nth as f64);
    let conv = gen::convention(&mut c.rng);
    let raw = |from: f64| match conv {
        DirectionConvention::From => from,
        DirectionConvention::Towards => from - 180.0,
        DirectionConvention::Met => 270.0 - from,
    };
    let mut d: Vec<f64> = (0..nth).map(|i| raw(a + step * i as f64).to_radians()).collect();
    d.sort_by(|a, b| a.total_cmp(b));
    let amp = if c.rng.chance(0.7) { c.rng.f(1.0, 50.0) } else { c.rng.f(0.05, 1.0) };
    let e: Vec<f64> = field(&mut c.rng, nk, nth).iter().map(|v| v * amp).collect();
    let s = Spectra::new(f.clone(), d.clone(), e.clone(), conv.clone());
    c.describe(|| gen::show(&s));
    let (_, hi) = range(&e);
    if hi < 0.101 {
        return Ok(());
    }
    let Ok(GeoJson::FeatureCollection(fc)) = s.contoured() else { return violation("no feature collection") };
    ensure!(fc.features.len() == 10, "{} contours", fc.features.len());
    for (k, ft) in fc.features.iter().enumerate() {
        let t = 0.1 + (hi - 0.1) * k as f64 / 9.0;
        ensure!(prop(ft, "threshold").is_some_and(|g| close(g, t, 1e-9, 1e-9)), "contour {k}: threshold {:?} instead of {t}", prop(ft, "threshold"));
        check_feature(c, ft, &e, nk, nth, t, hi, |i, j| {
            let mix = |v: &[f64], x: f64| {
                let k = (x.floor() as usize).min(v.len() - 2);
                v[k] + (v[k + 1] - v[k]) * (x - k as f64)
            };
            (1.0 / mix(&f, i), from_deg(&conv, mix(&d, j).to_degrees()))
        })?;
    }
    c.saw("contoured spectra");
    c.nontrivial(hash_f64s(&e));
    Ok(())
}

// ---- S13 ------------------------------------------------------------------------------

fn reconstruct(c: &mut Case) -> R {
    let nk = c.rng.size(2, 30);
    let nth = c.rng.usize(5, 40);
    let f = gen::frequencies(&mut c.rng, nk);
    let th = gen::even_directions(&mut c.rng, nth);
    let weak = c.rng.chance(0.4); // weak coefficients: nothing is clipped
    let mut col = |a: f64, b: f64, miss: f64, p: f64| -> Vec<f64> { (0..nk).map(|_| if c.rng.chance(p) { miss } else { c.rng.f(a, b) }).collect() };
    let mut e = col(0.0, 20.0, 999.9, 0.04);
    let mut a1 = col(0.0, 360.0, 999.0, 0.04);
    let mut a2 = col(0.0, 360.0, 999.0, 0.04);
    let mut r1 = col(0.0, if weak { 0.25 } else { 0.95 }, 999.0, 0.04);
    let mut r2 = col(0.0, if weak { 0.24 } else { 0.9 }, 999.0, 0.04);
    if c.rng.chance(0.1) {
        // both ends of the circle and beyond, no spread and too much of it
        let k = c.rng.below(nk);
        a1[k] = *c.rng.pick(&[0.0, 360.0, 359.5, -10.0, 400.0, 180.0, 99.0]);
        a2[k] = *c.rng.pick(&[0.0, 360.0, 359.5, -10.0, 400.0, a1[k]]);
        if !weak {
            r1[k] = *c.rng.pick(&[0.0, 1.0, 1.5, 99.0]);
            r2[k] = *c.rng.pick(&[0.0, 1.0, 1.4, 99.0]);
        }
    }
    if c.rng.chance(0.1) {
        // measured values that look like missing codes
        let k = c.rng.below(e.len());
        e[k] = *c.rng.pick(&[998.5, 1000.6, 999.6, 99.99, 99.9, 9.999, 100.0]);
    }
    let date = chrono::Utc::now();
    let rec = |v: &Vec<f64>| SpectralWaveDataRecord { date, separation_frequency: None, value: v.clone(), frequency: f.clone() };
    c.describe(|| format!("f={f:?} nth={nth} dir0={} e={e:?} a1={a1:?} a2={a2:?} r1={r1:?} r2={r2:?}", th[0]));
    let s = if c.rng.chance(0.5) {
        DirectionalSpectralWaveDataRecord::new(&date, &th, &f, &e, &a1, &a2, &r1, &r2)
    } else {
        DirectionalSpectralWaveDataRecord::from_data_records(&th, rec(&e), rec(&a1), rec(&a2), rec(&r1), rec(&r2))
    };
    ensure!(s.date == date, "date changed");
    let sp = &s.spectra;
    ensure!(sp.frequency == f && sp.direction_raw() == th && sp.dir_convention == DirectionConvention::From && sp.energy.len() == nk * nth, "grid or convention changed");
    let one = sp.oned(SpectralAxis::Frequency);
    let mean = sp.mean_wave_direction_f();
    for k in 0..nk {
        let missing = e[k] == 999.9 || [a1[k], a2[k], r1[k], r2[k]].contains(&999.0);
        let mut clipped = false;
        for t in 0..nth {
            let got = sp.energy[k + t * nk];
            let spread = 0.5 + r1[k] * (th[t] - a1[k].to_radians()).cos() + r2[k] * (2.0 * (th[t] - a2[k].to_radians())).cos();
            clipped |= spread < 0.0;
            let want = if missing { 0.0 } else { (e[k] / PI * spread).max(0.0) };
            ensure!(close(got, want, 1e-9, 1e-12), "frequency {k} direction {t}: {got} instead of {want}");
        }
        if missing {
            c.saw("frequencies with missing values");
        } else if !clipped {
            ensure!(close(one[k], e[k], 1e-9, 1e-9), "frequency {k}: {} over all directions, the buoy measured {}", one[k], e[k]);
            c.saw("frequencies that keep their energy");
            if r1[k] > 0.02 && e[k] > 1e-6 {
                ensure!(ang(mean[k], a1[k]) < 1e-5, "frequency {k}: mean direction {} instead of {}", mean[k], a1[k]);
            }
        } else {
            c.saw("frequencies with clipped lobes");
        }
    }
    // the record's swells are those of its spectrum
    if nk >= 3 {
        let Ok(sw) = s.swell_data() else { return violation("no swell data") };
        let Ok(p) = sp.partition(100, Some(0.8)) else { return violation("no partition") };
        let Ok(sw2) = sp.swell_data(None, None, None, &p) else { return violation("no swell data") };
        ensure!(format!("{sw:?}") == format!("{sw2:?}"), "the record's swells differ from its spectrum's");
    }
    c.nontrivial(hash_f64s(&e));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "S07",
            rule: "Random spectra in all conventions regridded to arbitrary grids (below, inside and above the source range, on and between its bins), to their own grid, and smooth seas whose true value is known everywhere. Non-trivial: energy present.",
            monitors: vec![mon("regrid", 700, regrid), mon("own_grid", 1500, own_grid), mon("smooth", 40, smooth)],
            require: vec![("bins below the source", 300), ("bins within their surroundings", 3000), ("bins above the source", 300), ("bins compared with the reference", 3000), ("own bins kept", 3000), ("smooth seas", 20)],
            assumptions: vec!["target directions in 0..360"],
        },
        Property {
            id: "S08",
            rule: "Knot sets that are monotone, linear, flat, spiked, noisy; probed at, next to, between and beyond the knots; direction sets even and irregular, probed across the seam. Non-trivial: values differ.",
            monitors: vec![mon("pchip", 4000, pchip), mon("circular", 2000, circular)],
            require: vec![("points compared with the reference", 10000), ("points interpolated", 20000), ("points on lines", 3000), ("directions interpolated", 10000), ("directions across the seam", 1000)],
            assumptions: vec!["strictly ascending knots; target directions in 0..360"],
        },
        Property {
            id: "S09",
            rule: "Random spectra in all conventions; every axis, integral and moment against direct sums. Non-trivial: energies differ.",
            monitors: vec![mon("oned", 4000, oned)],
            require: vec![("mean directions per frequency", 3000), ("bins integrated", 10000)],
            assumptions: vec![],
        },
        Property {
            id: "S10",
            rule: "Random spectra probed at whole and fractional indices, at, between and beyond the bins and across the direction seam. Non-trivial: every case (distinct energy fields).",
            monitors: vec![mon("lookup", 3000, lookup)],
            require: vec![("fractional indices", 3000), ("energies interpolated", 3000), ("energies across the seam", 500), ("energies beyond the outer bins", 500)],
            assumptions: vec!["ascending frequencies, ascending directions within one turn"],
        },
        Property {
            id: "S11",
            rule: "Random spectra projected at sizes 2..48 with and without period threshold and exponent; every pixel against a brute-force nearest bin. Non-trivial: more than one bin drawn.",
            monitors: vec![mon("cartesian", 400, cartesian)],
            require: vec![("pixels compared", 20000), ("blank pixels", 1)],
            assumptions: vec!["pixels equally near two bins may show either"],
        },
        Property {
            id: "S12",
            rule: "Smooth and noisy fields contoured plainly, on regional and global longitude grids with missing cells, and as spectra; every interior cell tested for containment in every contour. Non-trivial: every case (distinct fields).",
            monitors: vec![mon("contours", 1200, contours), mon("latlng", 600, latlng), mon("spectral_contours", 500, spectral_contours)],
            require: vec![("cells inside contours", 10000), ("cells outside contours", 10000), ("crossings between cells", 10000), ("global grids closed", 50), ("grids with missing cells", 50), ("contoured spectra", 100)],
            assumptions: vec!["values equal to a threshold may fall on either side; border cells lie on their polygon's edge and are not tested", "spectral contours are tested on sectors that do not cross north"],
        },
        Property {
            id: "S13",
            rule: "Random buoy coefficients, with missing values, weak (nothing clipped) and strong spreading. Non-trivial: every case (distinct energies).",
            monitors: vec![mon("reconstruct", 3000, reconstruct)],
            require: vec![("frequencies with missing values", 300), ("frequencies that keep their energy", 1000), ("frequencies with clipped lobes", 1000)],
            assumptions: vec!["evenly spaced directions over the circle"],
        },
    ]
}

#[allow(dead_code)]
fn main() {
    kit::main(properties());
}
