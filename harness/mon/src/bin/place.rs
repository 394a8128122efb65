//! L01 distances, L02 longitudes and boxes, L03 sun, T01 model runs.
use chrono::{DateTime, Datelike, Duration, TimeZone, Timelike, Utc};
use kit::num::{ang, close};
use kit::rng::{hash_f64s, mix, Rng};
use kit::*;
use std::f64::consts::PI;
use surfrs::location::{absolute_longitude, normalize_latitude, normalize_longitude, Location};
use surfrs::solar::calculate_solar_events;
use surfrs::tools::date::*;
use surfrs::units::UnitSystem;

/// A place; its height and name, which some have, change nothing about where it is
fn at(lat: f64, lon: f64) -> Location {
    let mut l = Location::new(lat, lon, "".into());
    let h = mix(lat.to_bits() ^ lon.to_bits().rotate_left(17));
    if h % 3 == 0 {
        l.elevation = [-400.0, 12.5, 800.0, 5000.0][(h / 3 % 4) as usize];
        l.name = "Summit".into();
    }
    l
}

fn lat(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 90.0,
        1 => -90.0,
        2 => 0.0,
        3 => r.int(-90, 90) as f64,
        _ => r.f(-1.0, 1.0).asin().to_degrees(),
    }
}

/// Any longitude from -180 to 360
fn lon(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => *r.pick(&[-180.0, 180.0, 0.0, 360.0, 359.75, -0.25, 179.999, -179.999, -1e-7, -1e-10, 1e-10, 180.0 + 1e-9, -180.0 + 1e-9, 360.0 - 1e-9]),
        1 => r.int(-180, 360) as f64,
        2 => r.f(-180.0, 0.0),
        _ => r.f(0.0, 360.0),
    }
}

/// The same longitude as another convention writes it
fn rewrite(r: &mut Rng, l: f64) -> f64 {
    match r.below(3) {
        0 if l < 0.0 => l + 360.0,
        1 if l > 180.0 => l - 360.0,
        _ => l,
    }
}

// ---- L01 -------------------------------------------------------------------------------

fn vector(lat: f64, lon: f64) -> [f64; 3] {
    let (p, l) = (lat.to_radians(), lon.to_radians());
    [p.cos() * l.cos(), p.cos() * l.sin(), p.sin()]
}

/// Angle between two places seen from the centre, well conditioned for all distances
fn angle(a: (f64, f64), b: (f64, f64)) -> f64 {
    let (u, v) = (vector(a.0, a.1), vector(b.0, b.1));
    let x = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]];
    let cross = (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]).sqrt();
    cross.atan2(u[0] * v[0] + u[1] * v[1] + u[2] * v[2])
}

fn distances(c: &mut Case) -> R {
    let a = (lat(&mut c.rng), lon(&mut c.rng));
    let r = &mut c.rng;
    let b = match r.below(6) {
        0 => a,
        // close by
        1 => ((a.0 + r.log(1e-6, 1.0) * if r.chance(0.5) { 1.0 } else { -1.0 }).clamp(-90.0, 90.0), (a.1 + r.log(1e-6, 1.0) * if r.chance(0.5) { 1.0 } else { -1.0 }).clamp(-180.0, 360.0)),
        // nearly opposite
        2 => (-a.0 + r.f(-0.01, 0.01) * 0.0, if a.1 > 0.0 { a.1 - 180.0 } else { a.1 + 180.0 }),
        _ => (lat(r), lon(r)),
    };
    let d = (lat(r), lon(r));
    c.describe(|| format!("{a:?} to {b:?} (and {d:?})"));
    for (unit, radius) in [(UnitSystem::Metric, 6371.0), (UnitSystem::English, 3956.0)] {
        let dist = |p: (f64, f64), q: (f64, f64)| at(p.0, p.1).distance(&at(q.0, q.1), &unit);
        let want = radius * angle(a, b);
        let got = dist(a, b);
        ensure!(close(got, want, 1e-6, 2e-4), "{a:?} to {b:?} is {want} ({unit}), computed {got}");
        ensure!(close(dist(b, a), got, 1e-9, 1e-6), "{a:?} to {b:?} is {got}, back {}", dist(b, a));
        ensure!(got >= 0.0 && got <= PI * radius * (1.0 + 1e-9), "{a:?} to {b:?} is {got}");
        ensure!(dist(a, d) <= got + dist(b, d) + 1e-3, "{a:?} to {d:?} is {}, over {b:?} {}", dist(a, d), got + dist(b, d));
        ensure!(dist(a, a) < 1e-6, "{a:?} lies {} from itself", dist(a, a));
        let (a2, b2) = ((a.0, rewrite(&mut c.rng, a.1)), (b.0, rewrite(&mut c.rng, b.1)));
        let other = at(a2.0, a2.1).distance(&at(b2.0, b2.1), &unit);
        ensure!(close(other, got, 1e-6, 1e-3), "{a:?} to {b:?} is {got}, written {a2:?} to {b2:?} {other}");
        if (a.1 - b.1).abs() > 180.0 {
            c.saw("pairs across a meridian");
        }
        if want > 0.9 * PI * radius {
            c.saw("far pairs");
        } else if want > 0.0 && want < 100.0 {
            c.saw("near pairs");
            if want < 0.01 {
                c.saw("pairs within metres");
            }
        }
    }
    c.saw("pairs");
    c.nontrivial(hash_f64s(&[a.0, a.1, b.0, b.1]));
    Ok(())
}

// ---- L02 -------------------------------------------------------------------------------

fn longitudes(c: &mut Case) -> R {
    let (p, l) = (lat(&mut c.rng), lon(&mut c.rng));
    c.describe(|| format!("{p}, {l}"));
    let place = at(p, l);
    for (what, v) in [("relative", place.relative_longitude()), ("normalized", normalize_longitude(l))] {
        ensure!((-180.0..=180.0).contains(&v) && ang(v, l) < 1e-9, "{what} longitude of {l} is {v}");
        ensure!(l > 180.0 || v == l, "{what} longitude of {l} is {v}");
    }
    for (what, v) in [("absolute", place.absolute_longitude()), ("absolute (free)", absolute_longitude(l))] {
        ensure!((0.0..=360.0).contains(&v) && ang(v, l) < 1e-9, "{what} longitude of {l} is {v}");
        ensure!(l < 0.0 || v == l, "{what} longitude of {l} is {v}");
    }
    let rel = normalize_longitude(absolute_longitude(l));
    ensure!(l > 180.0 || l == -180.0 || close(rel, l, 0.0, 1e-9), "{l} made absolute and relative again is {rel}");
    // latitudes counted 0..180 from the equator northwards, south of it as 90..180
    let abs = place.absolute_latitude();
    ensure!((0.0..=180.0).contains(&abs), "absolute latitude of {p} is {abs}");
    if p < 90.0 && p > -90.0 {
        for (what, v) in [("relative", at(abs, l).relative_latitude()), ("normalized", normalize_latitude(abs))] {
            ensure!(close(v, p, 0.0, 1e-9), "{what} latitude of {abs} is {v}, expected {p}");
        }
    }
    ensure!(place.relative_latitude() == p && normalize_latitude(p) == p, "latitude {p} is changed to {}", place.relative_latitude());
    ensure!(place.latitude == p && place.longitude == l && Location::new(p, l, "Summit".into()).elevation == 0.0, "a place at {p}, {l} is {place:?}");
    c.saw("places");
    c.nontrivial(hash_f64s(&[p, l]));
    Ok(())
}

fn boxes(c: &mut Case) -> R {
    let r = &mut c.rng;
    // the box runs eastward from `west` over `width` degrees
    let whole = r.chance(0.4);
    let q = |r: &mut Rng, a: f64, b: f64| if whole { r.int(a as i64, b as i64) as f64 } else { r.f(a, b) };
    let west = q(r, -180.0, 360.0);
    let width = match r.below(7) { 0 => q(r, 180.0, 359.0), 1 => 360.0, 6 => 360.0 - if whole { r.int(1, 3) as f64 / 4.0 } else { r.f(1e-4, 2.0) }, 2 => q(r, 1.0, 10.0), _ => q(r, 1.0, 180.0) };
    let (south, north) = {
        let (a, b) = (q(r, -90.0, 90.0), q(r, -90.0, 90.0));
        (a.min(b), a.max(b))
    };
    // every way to write its sides
    let mut east = west + width;
    let mut w = west;
    if width < 360.0 {
        w = rewrite(r, west);
        east = match r.below(3) {
            0 if east > 180.0 => east - 360.0,
            1 if east < 0.0 => east + 360.0,
            _ => east,
        };
        if (east - w).abs() >= 360.0 {
            (w, east) = (west, west + width);
        }
    }
    // now and then a box without height, and places barely off its sides
    let north = if r.chance(0.05) { south } else { north };
    let (p, mut l) = (if r.chance(0.1) { (if r.chance(0.5) { north } else { south }) + r.log(1e-7, 1e-2) * if r.chance(0.5) { 1.0 } else { -1.0 } } else if r.chance(0.7) && south < north { r.f(south, north) } else { q(r, -90.0, 90.0) }, if whole && r.chance(0.5) { r.int(-180, 360) as f64 } else { lon(r) });
    if (358.0..360.0).contains(&width) && r.chance(0.6) {
        // in the gap that the box leaves open
        l = west + width + r.f(0.1, 0.9) * (360.0 - width);
        if l > 360.0 {
            l -= 360.0;
        }
        c.saw("in the gap of an almost global box");
    }
    c.describe(|| format!("{p}, {l} in {w} {south} {east} {north}"));
    let off = (l - west).rem_euclid(360.0);
    // too close to a side to call, unless everything is a whole number
    let exact = whole && l.fract() == 0.0;
    if !(-90.0..=90.0).contains(&p) {
        return Ok(());
    }
    let edge = |x: f64, y: f64| ang(x, y) < 1e-6;
    let near_lon = width < 360.0 && (edge(l, west) || edge(l, west + width));
    let near_lat = (p - south).abs() < 1e-9 || (p - north).abs() < 1e-9;
    if (near_lon && !exact) || (near_lat && p.fract() != 0.0) {
        return Ok(());
    }
    let want = (width >= 360.0 || off <= width) && south <= p && p <= north;
    let got = at(p, l).within_bbox(&(w, south, east, north));
    ensure!(got == want, "{p}, {l} in the box {w} {south} {east} {north}: {got}, expected {want}");
    let l2 = rewrite(&mut c.rng, l);
    let again = at(p, l2).within_bbox(&(w, south, east, north));
    ensure!(again == want || (near_lon && !exact), "{p}, {l2} in the box {w} {south} {east} {north}: {again}, expected {want}");
    if want {
        c.saw("inside");
        if w > east || (w < 0.0 && east > 0.0) {
            c.saw("inside a box over the prime meridian");
        }
        if (w < 180.0 && east > 180.0) || w > east {
            c.saw("inside a box over the 180th meridian");
        }
    } else {
        c.saw("outside");
    }
    if near_lon {
        c.saw("on the side of a box");
    }
    c.nontrivial(hash_f64s(&[p, l, w, south, east, north]));
    Ok(())
}

// ---- L03 -------------------------------------------------------------------------------

/// Sun's declination and equation of time (minutes), NOAA's series from the Julian day
fn sun(t: DateTime<Utc>) -> (f64, f64) {
    let jd = t.timestamp() as f64 / 86400.0 + 2440587.5;
    let jc = (jd - 2451545.0) / 36525.0;
    let l0 = (280.46646 + jc * (36000.76983 + jc * 0.0003032)).rem_euclid(360.0);
    let m = 357.52911 + jc * (35999.05029 - 0.0001537 * jc);
    let e = 0.016708634 - jc * (0.000042037 + 0.0000001267 * jc);
    let mr = m.to_radians();
    let eqc = mr.sin() * (1.914602 - jc * (0.004817 + 0.000014 * jc)) + (2.0 * mr).sin() * (0.019993 - 0.000101 * jc) + (3.0 * mr).sin() * 0.000289;
    let om = (125.04 - 1934.136 * jc).to_radians();
    let app = (l0 + eqc - 0.00569 - 0.00478 * om.sin()).to_radians();
    let obl = (23.439291 - 0.0130042 * jc + 0.00256 * om.cos()).to_radians();
    let decl = (obl.sin() * app.sin()).asin();
    let y = (obl / 2.0).tan().powi(2);
    let l0r = l0.to_radians();
    let eqt = 4.0
        * (y * (2.0 * l0r).sin() - 2.0 * e * mr.sin() + 4.0 * e * y * mr.sin() * (2.0 * l0r).cos() - 0.5 * y * y * (4.0 * l0r).sin() - 1.25 * e * e * (2.0 * mr).sin())
            .to_degrees();
    (decl, eqt)
}

/// Altitude of the sun's centre in degrees, and its hour angle
fn altitude(lat: f64, lon: f64, t: DateTime<Utc>) -> (f64, f64) {
    let (decl, eqt) = sun(t);
    let minutes = (t.hour() * 60 + t.minute()) as f64 + t.second() as f64 / 60.0;
    let h = ((minutes + eqt + 4.0 * lon) / 4.0 - 180.0 + 180.0).rem_euclid(360.0) - 180.0;
    let p = lat.to_radians();
    let a = (p.sin() * decl.sin() + p.cos() * decl.cos() * h.to_radians().cos()).asin();
    (a.to_degrees(), h)
}

fn solar(c: &mut Case) -> R {
    let r = &mut c.rng;
    let p = match r.below(6) { 0 => r.f(60.0, 90.0), 1 => r.f(-90.0, -60.0), 2 => r.f(63.0, 69.0) * if r.chance(0.5) { 1.0 } else { -1.0 }, _ => r.f(-66.0, 66.0) };
    let l = lon(r);
    let t = Utc.with_ymd_and_hms(r.int(1990, 2050) as i32, 1, 1, 0, 0, 0).unwrap() + Duration::minutes(r.int(0, 525_599));
    c.describe(|| format!("{p}, {l} on {t}"));
    let got = calculate_solar_events(&at(p, l), &t);
    // solar noon of that date at that longitude
    let rel = if l > 180.0 { l - 360.0 } else { l };
    let mut noon = Utc.with_ymd_and_hms(t.year(), t.month(), t.day(), 12, 0, 0).unwrap() - Duration::seconds((rel * 240.0) as i64);
    let (_, eqt) = sun(noon);
    noon = noon - Duration::seconds((eqt * 60.0) as i64);
    let high = altitude(p, rel, noon).0;
    let low = altitude(p, rel, noon - Duration::hours(12)).0.max(altitude(p, rel, noon + Duration::hours(12)).0);
    let low2 = altitude(p, rel, noon - Duration::hours(12)).0.min(altitude(p, rel, noon + Duration::hours(12)).0);
    const RISE: f64 = -0.833;
    // how far the sun's declination is from that of noon, half a day away
    let dec = |t| sun(t).0.to_degrees();
    let m = 0.1 + (dec(noon) - dec(noon - Duration::hours(12))).abs().max((dec(noon) - dec(noon + Duration::hours(12))).abs());
    let Some(e) = got else {
        ensure!(high < RISE + m || low > RISE - m, "no sunrise at {p}, {l} on {t}: the sun stands between {low} and {high} degrees");
        c.saw("polar days and nights");
        c.nontrivial(hash_f64s(&[p, l, t.timestamp() as f64]));
        return Ok(());
    };
    ensure!(high > RISE - m && low2 < RISE + m, "the sun rises at {p}, {l} on {t} though it stands between {low2} and {high} degrees");
    let (rise, set) = (e.sunrise, e.sunset);
    ensure!(rise < set && set - rise < Duration::hours(24), "{p}, {l} on {t}: sunrise {rise}, sunset {set}");
    let mid = rise + (set - rise) / 2;
    let off = (mid - noon).num_seconds().abs();
    c.max("seconds between the middle of the day and solar noon", off as f64);
    ensure!(off < 60, "{p}, {l} on {t}: day from {rise} to {set} around {mid}, solar noon at {noon}");
    let ((a, h), (b, g)) = (altitude(p, rel, rise), altitude(p, rel, set));
    c.max("degrees of the sun off the horizon", (a - RISE).abs().max((b - RISE).abs()));
    // the declination is that of the day's middle, which matters more towards the poles
    let tol = 0.21 + 0.4 * p.abs().to_radians().sin();
    ensure!((a - RISE).abs() < tol && h < 0.5, "{p}, {l}: at sunrise {rise} the sun stands at {a} degrees, hour angle {h}");
    ensure!((b - RISE).abs() < tol && g > -0.5, "{p}, {l}: at sunset {set} the sun stands at {b} degrees, hour angle {g}");
    // the same all through the date, and however the longitude is written
    let t2 = Utc.with_ymd_and_hms(t.year(), t.month(), t.day(), c.rng.int(0, 23) as u32, c.rng.int(0, 59) as u32, 59).unwrap();
    // (at the date line itself the conventions mean different days)
    let l2 = if l.abs() == 180.0 { l } else { rewrite(&mut c.rng, l) };
    let Some(e2) = calculate_solar_events(&at(p, l2), &t2) else { return violation(format!("{p}, {l2} at {t2} has no sunrise, at {t} it has")) };
    ensure!((e2.sunrise - rise).num_seconds().abs() <= 1 && (e2.sunset - set).num_seconds().abs() <= 1, "{p}, {l2}: sunrise {} at {t2} but {rise} at {t}", e2.sunrise);
    c.saw("days");
    if rise.date_naive() != set.date_naive() {
        c.saw("days over midnight UTC");
    }
    c.nontrivial(hash_f64s(&[p, l, t.timestamp() as f64]));
    Ok(())
}

fn nowhere(c: &mut Case) -> R {
    let p = c.rng.f(-90.0, 90.0);
    let (p, l) = match c.rng.below(3) {
        0 => (-90.0 - c.rng.log(1e-3, 1e3), 0.0),
        1 => (p, -180.0 - c.rng.log(1e-3, 1e3)),
        _ => (p, 540.0 + c.rng.log(1e-3, 1e3)),
    };
    c.describe(|| format!("{p}, {l}"));
    let t = Utc.with_ymd_and_hms(2024, 6, 1, 0, 0, 0).unwrap();
    ensure!(calculate_solar_events(&at(p, l), &t).is_none(), "the sun rises at {p}, {l}");
    c.saw("impossible places");
    Ok(())
}

// ---- T01 -------------------------------------------------------------------------------

fn moment(r: &mut Rng) -> DateTime<Utc> {
    let s = match r.below(4) {
        // around whole hours, midnights, month and year ends
        0 => Utc.with_ymd_and_hms(r.int(1890, 2110) as i32, r.int(1, 12) as u32, 1, 0, 0, 0).unwrap().timestamp() + r.int(-9, 9) * 3600 + *r.pick(&[0, 0, 1, -1, 59, 1800]),
        1 => r.int(-400_000, 800_000) * 3600 + *r.pick(&[0, 1, -1]),
        _ => r.int(-1_000_000_000, 2_800_000_000),
    };
    Utc.timestamp_opt(s, if r.chance(0.5) { r.below(1_000_000_000) as u32 } else { 0 }).unwrap()
}

fn floor(t: DateTime<Utc>, hours: i64) -> DateTime<Utc> {
    let s = hours * 3600;
    Utc.timestamp_opt(t.timestamp().div_euclid(s) * s, 0).unwrap()
}

fn runs(c: &mut Case) -> R {
    let t = moment(&mut c.rng);
    c.describe(|| t.to_rfc3339());
    for m in 1u32..=24 {
        // multiples are counted from the midnight before
        let g = round_to_nearest_multiple_hour(&t, m);
        let want = floor(t, 24) + Duration::hours((t.hour() / m * m) as i64);
        ensure!(g == want, "{t} rounded to {m} hours is {want}, computed {g}");
    }
    for (what, g, want) in [
        ("station run", closest_gfs_model_stations_datetime(&t), floor(t - Duration::hours(6), 6)),
        ("gridded run", closest_gfs_model_gridded_datetime(&t), floor(t - Duration::hours(5), 6)),
        ("hourly run", closest_hourly_model_datetime(&t), floor(t - Duration::hours(2), 1)),
    ] {
        ensure!(g == want, "the {what} at {t} is {want}, computed {g}");
        if g.date_naive() != t.date_naive() {
            c.saw("runs of the day before");
        }
        if g.year() != t.year() {
            c.saw("runs of the year before");
        }
        c.saw("runs");
    }
    c.nontrivial(mix(t.timestamp() as u64));
    Ok(())
}

fn series(c: &mut Case) -> R {
    let mut a = moment(&mut c.rng);
    if c.rng.chance(0.2) {
        a = floor(a, 6);
    }
    let b = a + match c.rng.below(5) {
        0 => Duration::hours(c.rng.int(0, 30) * 6),
        1 => Duration::seconds(-c.rng.int(1, 100_000)),
        2 if c.rng.chance(0.02) => Duration::seconds(c.rng.int(0, 6 * 366 * 86400)),
        _ => Duration::seconds(c.rng.int(0, 20 * 86400)),
    };
    c.describe(|| format!("{a} to {b}"));
    let g = gfs_model_fmrc_datetimes((a, b));
    let mut want = vec![];
    let mut t = floor(a, 6);
    while t <= b {
        want.push(t);
        t = t + Duration::hours(6);
    }
    ensure!(g == want, "runs from {a} to {b} are {want:?}, computed {g:?}");
    c.count("listed runs", g.len() as u64);
    if g.is_empty() {
        c.saw("empty spans");
    }
    if g.last() == Some(&b) {
        c.saw("spans ending with a run");
    }
    c.nontrivial(mix(a.timestamp() as u64 ^ mix(b.timestamp() as u64)));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "L01",
            rule: "Random, coincident, close and antipodal pairs in both longitude conventions, against the angle between their position vectors; symmetry and triangle inequality. Non-trivial: every pair.",
            monitors: vec![mon("distances", 4000, distances)],
            require: vec![("pairs", 4000), ("near pairs", 200), ("pairs within metres", 5), ("far pairs", 200), ("pairs across a meridian", 500)],
            assumptions: vec!["spherical earth of 6371 km or 3956 miles; 1e-6 relative"],
        },
        Property {
            id: "L02",
            rule: "Places in every longitude convention, and boxes over any meridian written every way, against eastward arithmetic. Non-trivial: every case.",
            monitors: vec![mon("longitudes", 3000, longitudes), mon("boxes", 5000, boxes)],
            require: vec![("places", 3000), ("inside", 1000), ("outside", 1000), ("inside a box over the prime meridian", 100), ("inside a box over the 180th meridian", 100), ("on the side of a box", 20)],
            assumptions: vec!["latitudes -90 to 90, longitudes -180 to 360; sides of fractional boxes are left open"],
        },
        Property {
            id: "L03",
            rule: "Sunrise and sunset over the globe and six decades: the sun's altitude at both by NOAA's series, the day's middle against solar noon, and polar day and night. Non-trivial: every case.",
            monitors: vec![mon("solar", 3000, solar), mon("nowhere", 100, nowhere)],
            require: vec![("days", 1500), ("polar days and nights", 200), ("days over midnight UTC", 300), ("impossible places", 100)],
            assumptions: vec!["altitude -0.833 degrees, within 0.55 (0.8 beyond 66 degrees latitude, where the sun moves along the horizon)"],
        },
        Property {
            id: "T01",
            rule: "Instants around hours, midnights, month and year ends, against arithmetic on the seconds since 1970; lists of runs over random spans. Non-trivial: every case.",
            monitors: vec![mon("runs", 4000, runs), mon("series", 1500, series)],
            require: vec![("runs", 12000), ("runs of the day before", 2000), ("runs of the year before", 20), ("listed runs", 10000), ("empty spans", 100), ("spans ending with a run", 50)],
            assumptions: vec!["times after 1970, UTC"],
        },
    ]
}

#[allow(dead_code)]
fn main() {
    kit::main(properties());
}
