//! S03 bulk parameters, S04 component list, S05 mirrored components, S06 tracking.
use chrono::{DateTime, Duration, TimeZone, Utc};
use kit::num::{ang, close, whole_degrees};
use kit::rng::{hash_f64s, mix, Rng};
use kit::*;
use mon::gen;
use std::collections::{BTreeMap, HashSet};
use std::f64::consts::PI;
use surfrs::spectra::Spectra;
use surfrs::swell::{Swell, SwellSummary};
use surfrs::tools::waves::track_partitions;
use surfrs::units::direction::DirectionConvention;
use surfrs::units::{Direction, Unit, UnitSystem};

struct Bulk {
    hs: f64,
    /// periods of the bins that share the largest direction-summed energy
    periods: Vec<f64>,
    dir: f64,
    /// resultant length over total: how well defined the mean direction is
    focus: f64,
    /// spectral density for each candidate peak
    density: Vec<f64>,
    m0: f64,
}

/// The direction a raw mean angle comes from, in degrees, per convention.
fn from_deg(conv: &DirectionConvention, raw: f64) -> f64 {
    match conv {
        DirectionConvention::From => raw,
        DirectionConvention::Towards => raw + 180.0,
        DirectionConvention::Met => 270.0 - raw,
    }
    .rem_euclid(360.0)
}

/// Reference bulk parameters of the bins for which `take` holds.
fn bulk(s: &Spectra, take: impl Fn(usize) -> bool) -> Bulk {
    let (f, d) = (&s.frequency, s.direction_raw());
    let (nk, nth) = (f.len(), d.len());
    let dth = d[1] - d[0];
    let band = |k: usize| -> f64 {
        let sig = 2.0 * PI * f[k];
        if k == 0 {
            0.5 * sig * (f[1] / f[0] - 1.0)
        } else {
            let x = f[k] / f[k - 1];
            if k + 1 == nk { 0.5 * sig * (x - 1.0) / x } else { 0.5 * sig * (x - 1.0 / x) }
        }
    };
    let tail = 0.25 * 2.0 * PI * f[nk - 1];
    let (mut m, mut cx, mut cy) = (0.0, 0.0, 0.0);
    let mut one = vec![0.0; nk];
    for k in 0..nk {
        let w = band(k) + if k + 1 == nk { tail } else { 0.0 };
        for (t, th) in d.iter().enumerate() {
            let i = k + t * nk;
            if !take(i) {
                continue;
            }
            let e = s.energy[i];
            one[k] += e;
            m += e * w;
            cx += e * th.cos() * w;
            cy += e * th.sin() * w;
        }
    }
    let _ = nth;
    let top = one.iter().cloned().fold(0.0, f64::max);
    let cand: Vec<usize> = if top == 0.0 {
        vec![0]
    } else {
        (0..nk).filter(|&k| one[k] >= top * (1.0 - 1e-12)).collect()
    };
    let density = cand
        .iter()
        .map(|&k| {
            let c = one[k] * dth;
            if k == 0 || k + 1 == nk {
                return c;
            }
            let (l, h) = (one[k - 1] * dth, one[k + 1] * dth);
            let den = l - 2.0 * c + h;
            if den == 0.0 { c } else { c - 0.125 * (l - h) * (l - h) / den }
        })
        .collect();
    let m0 = m * dth / (2.0 * PI);
    Bulk {
        hs: 4.0 * m0.max(0.0).sqrt(),
        periods: cand.iter().map(|&k| 1.0 / f[k]).collect(),
        dir: from_deg(&s.dir_convention, cy.atan2(cx).to_degrees()),
        focus: if m > 0.0 { cx.hypot(cy) / m } else { 0.0 },
        density,
        m0,
    }
}

fn matches(c: &mut Case, what: &str, got: &Swell, want: &Bulk) -> R {
    let hs = got.wave_height.get_value();
    ensure!(close(hs, want.hs, 1e-9, 1e-12), "{what}: wave height {hs}, integral of the spectrum gives {}", want.hs);
    let t = got.period.get_value();
    ensure!(want.periods.iter().any(|p| close(t, *p, 1e-9, 0.0)), "{what}: period {t}, peak bin has {:?}", want.periods);
    ensure!(got.wave_height.unit == Unit::Meters && got.period.unit == Unit::Seconds && got.direction.unit == Unit::Degrees, "{what}: units changed");
    let names = [&got.wave_height.variable_name, &got.period.variable_name, &got.direction.variable_name];
    ensure!(names == ["wave height", "period", "direction"], "{what}: its measurements are named {names:?}");
    for (d, n) in [(&got.energy, "energy"), (&got.spectral_density, "spectral density")] {
        ensure!(d.as_ref().is_none_or(|d| d.variable_name == n), "{what}: its {n} is named {:?}", d.as_ref().map(|d| &d.variable_name));
    }
    if want.focus > 1e-6 {
        let d = got.direction.get_value().degrees;
        ensure!((0..360).contains(&d), "{what}: direction {d} outside 0..360");
        ensure!(whole_degrees(d as f64, want.dir, 0.01), "{what}: direction {d}, energy comes from {:.3}", want.dir);
        c.saw("mean directions compared");
        c.distinct("mean directions", d as u64);
    }
    let sd = got.spectral_density.as_ref().map(|v| v.get_value());
    let Some(sd) = sd else { return violation(format!("{what}: no spectral density")) };
    ensure!(
        want.density.iter().zip(&want.periods).any(|(q, p)| close(t, *p, 1e-9, 0.0) && close(sd, *q, 1e-7, 1e-12)),
        "{what}: spectral density {sd}, peak fit gives {:?}", want.density
    );
    c.max("wave height", hs);
    Ok(())
}

fn any_opt(r: &mut Rng, a: f64, b: f64) -> Option<f64> {
    if r.chance(0.5) { Some(r.f(a, b)) } else { None }
}

fn none_parts(s: &Spectra) -> (Vec<i32>, usize) {
    (vec![0; s.energy.len()], 0)
}

fn bulk_mon(c: &mut Case) -> R {
    let (nk, nth) = gen::grid(&mut c.rng, 2, 3);
    let (s, style) = gen::any_spectra(&mut c.rng, nk, nth);
    let parts = if c.rng.chance(0.5) {
        none_parts(&s)
    } else {
        match s.partition(c.rng.usize(5, 200), None) {
            Ok(p) => p,
            Err(_) => return violation("partitioning refused valid data"),
        }
    };
    let (depth, ws, wd) = (any_opt(&mut c.rng, 1.0, 4000.0), any_opt(&mut c.rng, 0.0, 40.0), any_opt(&mut c.rng, 0.0, 360.0));
    c.describe(|| format!("{style} depth={depth:?} wind={ws:?}/{wd:?} {}", gen::show(&s)));
    let Ok(got) = s.swell_data(depth, ws, wd, &parts) else { return violation("no swell data") };
    let want = bulk(&s, |_| true);
    matches(c, "summary", &got.summary, &want)?;
    c.saw("summaries compared");
    if want.hs > 0.0 {
        c.nontrivial(hash_f64s(&s.energy));
    }
    Ok(())
}

fn laws(c: &mut Case) -> R {
    let (nk, nth) = gen::grid(&mut c.rng, 2, 4);
    let (s, style) = gen::any_spectra(&mut c.rng, nk, nth);
    let k = c.rng.log(0.01, 100.0);
    let turn = c.rng.f(0.0, 2.0 * PI);
    let roll = c.rng.below(nth);
    c.describe(|| format!("{style} scale={k} turn={turn} roll={roll} {}", gen::show(&s)));
    let p = none_parts(&s);
    let base = bulk(&s, |_| true);
    if base.periods.len() > 1 || base.hs == 0.0 {
        return Ok(());
    }
    let run = |s: &Spectra| s.swell_data(None, None, None, &p).map(|v| v.summary).map_err(|_| ());
    let Ok(a) = run(&s) else { return violation("no swell data") };
    let scaled = Spectra::new(s.frequency.clone(), s.direction_raw(), s.energy.iter().map(|e| e * k).collect(), s.dir_convention.clone());
    let Ok(b) = run(&scaled) else { return violation("no swell data") };
    ensure!(close(b.wave_height.get_value(), a.wave_height.get_value() * k.sqrt(), 1e-9, 0.0), "energy x {k}: height {} from {}", b.wave_height.get_value(), a.wave_height.get_value());
    ensure!(a.period.get_value() == b.period.get_value(), "scaling changed the period");
    let focused = base.focus > 1e-6;
    if focused {
        ensure!(ang(a.direction.get_value().degrees as f64, b.direction.get_value().degrees as f64) <= 1.0, "scaling changed the direction");
    }
    // the same sea seen from rotated axes
    let turned = Spectra::new(s.frequency.clone(), s.direction_raw().iter().map(|d| d + turn).collect(), s.energy.clone(), s.dir_convention.clone());
    let Ok(t) = run(&turned) else { return violation("no swell data") };
    ensure!(close(t.wave_height.get_value(), a.wave_height.get_value(), 1e-9, 0.0) && t.period.get_value() == a.period.get_value(), "turning changed height or period");
    if focused {
        let sign = if s.dir_convention == DirectionConvention::Met { -1.0 } else { 1.0 };
        let want = a.direction.get_value().degrees as f64 + sign * turn.to_degrees();
        ensure!(ang(t.direction.get_value().degrees as f64, want) <= 2.01, "turned by {:.2}: {} from {}", turn.to_degrees(), t.direction.get_value().degrees, a.direction.get_value().degrees);
        c.saw("turns compared");
    }
    // energy moved by whole direction bins
    let mut e = vec![0.0; s.energy.len()];
    for i in 0..e.len() {
        e[i % nk + ((i / nk + roll) % nth) * nk] = s.energy[i];
    }
    let Ok(o) = run(&Spectra::new(s.frequency.clone(), s.direction_raw(), e, s.dir_convention.clone())) else { return violation("no swell data") };
    ensure!(close(o.wave_height.get_value(), a.wave_height.get_value(), 1e-9, 0.0) && o.period.get_value() == a.period.get_value(), "moving energy around the circle changed height or period");
    c.nontrivial(hash_f64s(&s.energy));
    Ok(())
}

/// A narrow sea whose height, period and direction are known in closed form.
fn analytic(c: &mut Case) -> R {
    let nk = c.rng.usize(40, 60);
    let nth = *c.rng.pick(&[24usize, 36, 72]);
    let f0 = 0.04;
    let x = c.rng.f(1.03, 1.05);
    let f: Vec<f64> = (0..nk).map(|i| f0 * f64::powi(x, i as i32)).collect();
    let d = gen::even_directions(&mut c.rng, nth);
    let conv = gen::convention(&mut c.rng);
    let hs = c.rng.f(0.3, 12.0);
    let peak = c.rng.usize(10, nk - 12);
    let width = f[peak] * c.rng.f(0.06, 0.12);
    let th = c.rng.f(0.0, 2.0 * PI);
    let n = c.rng.usize(2, 10) as i32 * 2;
    c.describe(|| format!("hs={hs} fp={} width={width} dir={th} spread cos^{n} conv={conv:?} x={x} nk={nk} nth={nth}", f[peak]));
    let norm: f64 = (0..3600).map(|i| ((i as f64 / 3600.0 * PI).cos()).powi(2 * n)).sum::<f64>() / 3600.0 * 2.0 * PI;
    let m0 = (hs / 4.0) * (hs / 4.0);
    let mut e = vec![0.0; nk * nth];
    for k in 0..nk {
        let sf = m0 / (width * (2.0 * PI).sqrt()) * (-0.5 * ((f[k] - f[peak]) / width).powi(2)).exp();
        for t in 0..nth {
            e[k + t * nk] = sf * (0.5 * (d[t] - th)).cos().powi(2 * n) / norm;
        }
    }
    let s = Spectra::new(f.clone(), d, e, conv.clone());
    let Ok(got) = s.swell_data(None, None, None, &none_parts(&s)) else { return violation("no swell data") };
    let g = got.summary.wave_height.get_value();
    ensure!((g / hs - 1.0).abs() < 0.02, "height {g} for a sea of {hs} m");
    ensure!(close(got.summary.period.get_value(), 1.0 / f[peak], 1e-9, 0.0), "period {} for a peak at {} s", got.summary.period.get_value(), 1.0 / f[peak]);
    let want = from_deg(&conv, th.to_degrees());
    let dir = got.summary.direction.get_value().degrees as f64;
    ensure!(whole_degrees(dir, want, 0.05), "direction {dir} for a sea from {want:.2}");
    c.max("relative height error of known seas", (g / hs - 1.0).abs());
    c.saw("known seas");
    c.nontrivial(mix(hs.to_bits() ^ th.to_bits()));
    Ok(())
}

fn energy_of(h: f64, t: f64) -> f64 {
    1029.0 * 9.81 * 9.81 / (16.0 * PI) * h * h * t * t / 1000.0
}

fn components(c: &mut Case) -> R {
    let (nk, nth) = gen::grid(&mut c.rng, 2, 3);
    let (s, style) = gen::any_spectra(&mut c.rng, nk, nth);
    let own = c.rng.chance(0.4);
    let parts = if own {
        let n = c.rng.size(1, 8);
        ((0..nk * nth).map(|_| c.rng.int(0, n as i64) as i32).collect::<Vec<_>>(), n)
    } else {
        match s.partition(c.rng.usize(5, 200), None) {
            Ok(p) => p,
            Err(_) => return violation("partitioning refused valid data"),
        }
    };
    let (depth, ws, wd) = (any_opt(&mut c.rng, 1.0, 4000.0), any_opt(&mut c.rng, 0.0, 60.0), any_opt(&mut c.rng, -360.0, 720.0));
    c.describe(|| format!("{style} depth={depth:?} wind={ws:?}/{wd:?} map={parts:?} {}", gen::show(&s)));
    let Ok(got) = s.swell_data(depth, ws, wd, &parts) else { return violation("no swell data") };
    let mut expected: BTreeMap<usize, Bulk> = BTreeMap::new();
    let mut total = 0.0;
    for id in 1..=parts.1 {
        let b = bulk(&s, |i| parts.0[i] == id as i32);
        total += b.m0;
        expected.insert(id, b);
    }
    let mut ids = HashSet::new();
    let mut sum = 0.0;
    let mut last = f64::INFINITY;
    for w in &got.components {
        let Some(id) = w.partition else { return violation("a component carries no partition") };
        ensure!(ids.insert(id), "partition {id} listed twice");
        let Some(b) = expected.get(&id) else { return violation(format!("component of partition {id}, of which there is none")) };
        ensure!(b.hs >= 0.1 * (1.0 - 1e-9), "component {id} of {} m kept", b.hs);
        matches(c, &format!("component {id}"), w, b)?;
        let Some(e) = w.energy.as_ref() else { return violation(format!("component {id} has no energy")) };
        ensure!(e.unit == Unit::KiloJoules, "energy unit changed");
        let e = e.get_value();
        ensure!(close(e, energy_of(w.wave_height.get_value(), w.period.get_value()), 1e-9, 0.0), "component {id}: energy {e} for {} m at {} s", w.wave_height.get_value(), w.period.get_value());
        ensure!(e <= last, "components are not sorted by energy: {e} after {last}");
        last = e;
        sum += e;
    }
    for (id, b) in &expected {
        if b.hs > 0.1 * (1.0 + 1e-9) {
            ensure!(ids.contains(id), "component {id} of {} m is missing", b.hs);
        } else {
            c.saw("components too small to keep");
        }
    }
    let e = got.summary.energy.as_ref().map(|v| v.get_value()).unwrap_or(f64::NAN);
    ensure!(close(e, sum, 1e-9, 1e-12), "summary energy {e}, components add up to {sum}");
    let all = bulk(&s, |_| true);
    if !own {
        ensure!(close(total, all.m0, 1e-9, 1e-15), "partitions hold {total} of {}", all.m0);
    }
    matches(c, "summary", &got.summary, &all)?;
    c.count("components compared", got.components.len() as u64);
    c.distinct("component counts", got.components.len() as u64);
    if got.components.len() > 1 {
        c.nontrivial(hash_f64s(&s.energy));
    }
    Ok(())
}

fn swell(h: f64, t: f64, d: i32, e: Option<f64>, id: Option<usize>) -> Swell {
    Swell::new(&UnitSystem::Metric, h, t, Direction::from_degrees(d), None, e, id)
}

fn mirrored(c: &mut Case) -> R {
    let n = c.rng.size(0, 12);
    let periods: Vec<f64> = (0..c.rng.size(1, 4)).map(|_| c.rng.f(3.0, 22.0)).collect();
    let base = c.rng.int(0, 359) as i32;
    let v: Vec<Swell> = (0..n)
        .map(|i| {
            let mut t = *c.rng.pick(&periods);
            if c.rng.chance(0.4) {
                t += c.rng.f(-0.12, 0.12);
            }
            let d = match c.rng.below(3) {
                0 => (base + 180 + c.rng.int(-13, 13) as i32).rem_euclid(360),
                1 => (base + c.rng.int(-13, 13) as i32).rem_euclid(360),
                _ => c.rng.int(0, 359) as i32,
            };
            swell(c.rng.f(0.1, 5.0), t, d, Some(100.0 - i as f64), Some(i + 1))
        })
        .collect();
    c.describe(|| format!("{:?}", v.iter().map(|s| (s.period.get_value(), s.direction.get_value().degrees)).collect::<Vec<_>>()));
    let sum = SwellSummary { summary: swell(1.0, 10.0, 0, None, None), components: v.clone() };
    let mut first: BTreeMap<String, i32> = BTreeMap::new();
    let mut want = vec![];
    for (i, w) in v.iter().enumerate() {
        let key = format!("{:.1}", w.period.get_value());
        let d = w.direction.get_value().degrees;
        match first.get(&key) {
            None => {
                first.insert(key, d);
            }
            Some(d0) => {
                if (170..=190).contains(&(d0 - d).abs()) {
                    want.push(i);
                }
            }
        }
    }
    let mut got = sum.probable_false_components();
    got.sort();
    ensure!(got == want, "flagged {got:?}, expected {want:?}");
    let kept = sum.filtered_components();
    let ids: Vec<_> = kept.iter().map(|s| s.partition).collect();
    let left: Vec<_> = (0..n).filter(|i| !want.contains(i)).collect();
    ensure!(ids == left.iter().map(|i| Some(i + 1)).collect::<Vec<_>>(), "kept {ids:?}");
    for (k, &i) in kept.iter().zip(&left) {
        ensure!(format!("{k:?}") == format!("{:?}", v[i]), "component {i} was changed by filtering");
    }
    c.count("components flagged", want.len() as u64);
    c.count("components kept", left.len() as u64);
    if !want.is_empty() {
        c.nontrivial(hash_f64s(v.iter().map(|s| s.period.value.as_ref().unwrap()).collect::<Vec<_>>()) ^ base as u64);
    }
    Ok(())
}

fn series(r: &mut Rng, ascending: bool) -> (Vec<(DateTime<Utc>, Vec<Swell>)>, f64, f64) {
    let n = r.size(2, 12);
    let mut t = Utc.timestamp_opt(1_600_000_000 + r.int(0, 100_000_000), 0).unwrap();
    let max = match r.below(4) {
        0 => r.usize(1, 90) as f64,
        _ => r.f(5.0, 60.0),
    };
    let dist = r.log(1e5, 2e7);
    let step = *r.pick(&[600i64, 1800, 3600, 10800, 86400]);
    let uneven = r.chance(0.3);
    let most = if r.chance(0.1) { 30 } else { 8 };
    // a few swell systems wander, are born and die
    let mut live: Vec<(f64, f64)> = (0..r.below(most - 2)).map(|_| (r.f(0.0, 360.0), r.f(3.0, 22.0))).collect();
    let north = r.chance(0.3);
    let mut out = vec![];
    for k in 0..n {
        let mut v: Vec<Swell> = live
            .iter()
            .map(|(d, p)| swell(r.f(0.2, 4.0), (p * 1000.0).round() / 1000.0, (*d as i32).rem_euclid(360), None, None))
            .collect();
        if ascending && k > 0 && r.chance(0.15) {
            v.clear();
        }
        r.shuffle(&mut v);
        // ids as extraction produces them: 1.., with gaps where small swells were dropped
        let mut id = r.below(3);
        for s in v.iter_mut() {
            id += 1 + if r.chance(0.2) { r.below(4) } else { 0 };
            s.partition = if k == 0 || r.chance(0.9) { Some(id) } else { None };
        }
        if k == 0 && r.chance(0.5) {
            let mut ids: Vec<_> = v.iter().map(|s| s.partition).collect();
            r.shuffle(&mut ids);
            for (s, i) in v.iter_mut().zip(ids) {
                s.partition = i;
            }
        }
        out.push((t, v));
        t += Duration::seconds(if uneven { r.int(1, 2 * step) } else { step });
        for s in live.iter_mut() {
            let j = if north { r.f(-25.0, 25.0) } else { r.f(-12.0, 12.0) };
            s.0 = (s.0 + j).rem_euclid(360.0);
            s.1 = (s.1 + r.f(-0.4, 0.4)).max(2.0);
        }
        live.retain(|_| !r.chance(0.15));
        if r.chance(0.35) && live.len() < most {
            live.push((r.f(0.0, 360.0), r.f(3.0, 22.0)));
        }
    }
    (out, max, dist)
}

fn score(a: &Swell, b: &Swell, dt: f64, max: f64, dist: f64) -> f64 {
    let dd = ang(a.direction.get_value().degrees as f64, b.direction.get_value().degrees as f64);
    if dd > max.floor() {
        return 999.99;
    }
    let dfp = dt * 9.81 / (4.0 * PI * dist);
    dd / max + (a.period.get_value() - b.period.get_value()).abs() / dfp
}

fn tracking(c: &mut Case) -> R {
    let (input, max, dist) = series(&mut c.rng, true);
    let short = c.rng.chance(0.05);
    let input = if short { input[..c.rng.below(2)].to_vec() } else { input };
    c.describe(|| {
        let v: Vec<_> = input.iter().map(|(t, v)| (t.timestamp(), v.iter().map(|s| (s.partition, s.period.get_value(), s.direction.get_value().degrees)).collect::<Vec<_>>())).collect();
        format!("max_dir_delta={max} distance={dist} steps={v:?}")
    });
    let got = track_partitions(&input, max, dist);
    ensure!(got.len() == input.len(), "{} steps returned for {}", got.len(), input.len());
    for (k, ((_, a), b)) in input.iter().zip(&got).enumerate() {
        ensure!(a.len() == b.len(), "step {k}: {} swells returned for {}", b.len(), a.len());
        for (x, y) in a.iter().zip(b) {
            let mut y2 = y.clone();
            y2.partition = x.partition;
            ensure!(format!("{x:?}") == format!("{y2:?}"), "step {k}: tracking changed a swell: {x:?} became {y:?}");
        }
    }
    if input.len() < 2 {
        for (a, b) in input.iter().zip(&got) {
            ensure!(a.1.iter().map(|s| s.partition).eq(b.iter().map(|s| s.partition)), "a series of one step got new ids");
        }
        return Ok(());
    }
    let ids: Vec<Vec<usize>> = got.iter().map(|v| v.iter().map(|s| s.partition.unwrap_or(usize::MAX)).collect()).collect();
    ensure!(input[0].1.iter().map(|s| s.partition.unwrap()).eq(ids[0].iter().cloned()), "the first step lost its ids");
    let mut ever: HashSet<usize> = ids[0].iter().cloned().collect();
    for k in 1..ids.len() {
        let (prev, cur) = (&input[k - 1], &input[k]);
        let dt = (cur.0 - prev.0).num_seconds() as f64;
        let here: HashSet<usize> = ids[k].iter().cloned().collect();
        ensure!(here.len() == ids[k].len(), "step {k}: two swells share an id: {:?}", ids[k]);
        let mut born: Vec<usize> = vec![];
        for (i, id) in ids[k].iter().enumerate() {
            match ids[k - 1].iter().position(|p| p == id) {
                Some(p) => {
                    let (a, b) = (&cur.1[i], &prev.1[p]);
                    let dd = ang(a.direction.get_value().degrees as f64, b.direction.get_value().degrees as f64);
                    ensure!(dd <= max, "step {k}: swell {i} continues {id} although it turned {dd} (limit {max})");
                    c.saw("swells continued");
                }
                None => {
                    ensure!(!ever.contains(id), "step {k}: id {id} is reused for another swell");
                    born.push(*id);
                    c.saw("swells begun");
                }
            }
        }
        // greedy matching, best scores first; near-ties are not decided
        let best: Vec<Option<(usize, f64)>> = cur
            .1
            .iter()
            .map(|a| prev.1.iter().enumerate().map(|(p, b)| (p, score(a, b, dt, max, dist))).min_by(|x, y| x.1.total_cmp(&y.1)))
            .collect();
        let mut tie = false;
        for (i, a) in cur.1.iter().enumerate() {
            if let Some((p, s)) = best[i] {
                if (s - 999.0).abs() < 1e-6 {
                    tie = true;
                }
                for (q, b) in prev.1.iter().enumerate() {
                    if q != p && s < 999.0 && (score(a, b, dt, max, dist) - s).abs() < 1e-9 * (1.0 + s) {
                        tie = true;
                    }
                }
                for j in 0..i {
                    if let Some((q, s2)) = best[j] {
                        if q == p && (s - s2).abs() < 1e-9 * (1.0 + s) && s < 999.0 {
                            tie = true;
                        }
                    }
                }
            }
        }
        if tie {
            c.saw("steps with ties");
        } else {
            let mut order: Vec<usize> = (0..cur.1.len()).filter(|&i| best[i].is_some()).collect();
            order.sort_by(|&a, &b| best[a].unwrap().1.total_cmp(&best[b].unwrap().1));
            let mut taken = HashSet::new();
            let mut want: Vec<Option<usize>> = vec![None; cur.1.len()];
            for i in order {
                let (p, s) = best[i].unwrap();
                if s <= 999.0 && taken.insert(p) {
                    want[i] = Some(ids[k - 1][p]);
                }
            }
            for (i, w) in want.iter().enumerate() {
                match w {
                    Some(id) => ensure!(ids[k][i] == *id, "step {k}: swell {i} should continue {id}, has {}", ids[k][i]),
                    None => ensure!(!ids[k - 1].contains(&ids[k][i]), "step {k}: swell {i} continues {} but matches nothing free", ids[k][i]),
                }
            }
            c.saw("steps compared with greedy matching");
        }
        ever.extend(here);
        if prev.1.is_empty() && !cur.1.is_empty() {
            c.saw("steps after a calm");
        }
    }
    c.distinct("ids issued", ever.len() as u64);
    if ever.len() > 1 {
        c.nontrivial(mix(ids.iter().flatten().fold(1, |h, i| mix(h ^ *i as u64)) ^ dist.to_bits()));
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "S03",
            rule: "Random spectra in all three conventions, with every mix of depth and wind inputs; the sea-state summary is compared with an independent integration over the grid, with scaling and rotation laws, and with narrow seas of known height, period and direction. Non-trivial: energy present (distinct energy fields).",
            monitors: vec![mon("bulk", 4000, bulk_mon), mon("laws", 3000, laws), mon("analytic", 300, analytic)],
            require: vec![("mean directions compared", 1000), ("summaries compared", 1000), ("turns compared", 300), ("known seas", 100)],
            assumptions: vec!["directions are evenly spaced over the circle and ascending, frequencies ascending", "whole-degree directions: within 1 degree of the true mean; not compared where the energy has no mean direction"],
        },
        Property {
            id: "S04",
            rule: "Random spectra with their own partitioning or arbitrary maps; each component against an independent integration of its bins. Non-trivial: at least two components.",
            monitors: vec![mon("components", 4000, components)],
            require: vec![("components compared", 3000), ("components too small to keep", 300), ("component counts", 4)],
            assumptions: vec!["as S03"],
        },
        Property {
            id: "S05",
            rule: "Component lists with repeated and nearly equal periods and directions around opposition. Non-trivial: something is flagged.",
            monitors: vec![mon("mirrored", 20000, mirrored)],
            require: vec![("components flagged", 2000), ("components kept", 2000)],
            assumptions: vec!["components are listed from most to least energetic, directions in 0..360"],
        },
        Property {
            id: "S06",
            rule: "Time series in which swell systems wander (also across north), are born, die and vanish for whole steps; ids checked for uniqueness, freshness and against greedy matching. Non-trivial: more than one id issued.",
            monitors: vec![mon("tracking", 12000, tracking)],
            require: vec![("swells continued", 5000), ("swells begun", 5000), ("steps compared with greedy matching", 5000), ("steps after a calm", 200)],
            assumptions: vec!["the first step's swells carry distinct ids, times ascend", "near-equal scores leave the choice open"],
        },
    ]
}

#[allow(dead_code)]
fn main() {
    kit::main(properties());
}
