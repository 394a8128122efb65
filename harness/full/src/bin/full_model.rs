//! D14 queries of gridded model fields, T02 hours and indexes of model output.
use chrono::{DateTime, TimeZone, Utc};
use gribberish::message::Message;
use gribberish::templates::product::tables::FixedSurfaceType;
use kit::num::{ang, close};
use kit::rng::{hash_f64s, hash_str, mix, Rng};
use kit::*;
use std::collections::HashMap;
use surfrs::data::gfs_wave_grib_point_data_record::GFSWaveGribPointDataRecord;
use surfrs::location::Location;
use surfrs::model::{GEFSWaveModel, GFSWaveModel, ModelTimeOutputResolution, NOAAModel, NWPSModel};
use surfrs::tools::contour::compute_latlng_gridded_contours;
use surfrs::units::{Unit, UnitConvertible, UnitSystem};

// ---- D14 -------------------------------------------------------------------------------

struct Grid {
    lat: Vec<f64>,
    lng: Vec<f64>,
    msg: Message,
}

fn east(a: f64, b: f64) -> f64 {
    (b - a).rem_euclid(360.0)
}

/// A regular grid as the models publish them: regional ones anywhere, over the prime or the
/// 180th meridian too, in either longitude convention, and global ones
fn grid(r: &mut Rng, gaps: bool) -> Grid {
    let step = *r.pick(&[0.25, 0.5, 1.0, 2.0, 1.0 / 6.0, 0.16]);
    let (rows, cols) = (r.usize(2, 24), r.usize(2, 24));
    let (lng0, cols, step) = match r.below(8) {
        0 => {
            let n = *r.pick(&[12usize, 36, 40, 72]);
            (*r.pick(&[0.0, -180.0]), n, 360.0 / n as f64)
        }
        1 => (360.0 - step * r.f(0.0, cols as f64).floor(), cols, step), // over the prime meridian, up to 360 and on
        2 => (-step * r.f(0.0, cols as f64).floor(), cols, step),
        3 => (180.0 - step * r.f(0.0, cols as f64).floor(), cols, step),
        4 => (r.f(-180.0, 150.0), cols, step),
        _ => (r.f(0.0, 310.0), cols, step),
    };
    let rows = rows.min((180.0 / step) as usize + 1);
    let height = step * (rows - 1) as f64;
    let lat0 = if r.chance(0.2) { -90.0 } else { r.f(-90.0, 90.0 - height) };
    let mut lat: Vec<f64> = (0..rows).map(|i| lat0 + step * i as f64).collect();
    if r.chance(0.6) {
        lat.reverse();
    }
    let lng: Vec<f64> = (0..cols).map(|i| lng0 + step * i as f64).collect();
    let values: Vec<f64> = (0..rows * cols).map(|_| if gaps && r.chance(0.2) { f64::NAN } else { (r.f(0.0, 12.0) * 100.0).round() / 100.0 }).collect();
    let msg = Message {
        start: (lat[0], lng[0]),
        end: (lat[rows - 1], lng[cols - 1]),
        size: (rows, cols),
        values,
        unit: "m".into(),
        abbrev: "HTSGW".into(),
        date: Utc.with_ymd_and_hms(2023, 1, 21, 3, 0, 0).unwrap(),
        surface: (FixedSurfaceType::GroundOrWater, None),
        fails: vec![],
    };
    Grid { lat, lng, msg }
}

/// A place in the grid's box and its distance in cells from the first column and row
fn inside(r: &mut Rng, g: &Grid) -> (Location, f64, f64) {
    let (rows, cols) = (g.lat.len(), g.lng.len());
    let pos = |r: &mut Rng, n: usize| match r.below(6) {
        0 => r.usize(0, n - 1) as f64,
        1 => (n - 1) as f64 * r.unit().powi(3),
        2 => (n - 1) as f64 * (1.0 - r.unit().powi(3)),
        3 => (r.usize(0, n - 2) as f64) + 0.5 + r.f(-0.05, 0.05),
        _ => r.f(0.0, (n - 1) as f64),
    };
    let (y, x) = (pos(r, rows), pos(r, cols));
    let lat = g.lat[0] + (g.lat[rows - 1] - g.lat[0]) * y / (rows - 1) as f64;
    let lng = g.lng[0] + (g.lng[cols - 1] - g.lng[0]) * x / (cols - 1) as f64;
    (Location::new(lat, written(r, lng), "".into()), y, x)
}

/// The same meridian as either convention writes it
fn written(r: &mut Rng, lng: f64) -> f64 {
    let l = lng.rem_euclid(360.0);
    if l > 180.0 && r.chance(0.6) { l - 360.0 } else { l }
}

/// Rounding at the edge of the box may push a place out of it; such places decide nothing
fn on_edge(g: &Grid, y: f64, x: f64) -> bool {
    let e = 1e-9;
    y < e || x < e || y > g.lat.len() as f64 - 1.0 - e || x > g.lng.len() as f64 - 1.0 - e
}

fn equal(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn show(g: &Grid, l: &Location) -> String {
    format!("{:?} to {:?}, {:?} points, at {} {}: {:?}", g.msg.start, g.msg.end, g.msg.size, l.latitude, l.longitude, g.msg.values)
}

fn seen(c: &mut Case, g: &Grid) {
    let (a, b) = (g.lng[0], g.lng[g.lng.len() - 1]);
    if (a < 0.0 && b >= 0.0) || (a < 360.0 && b > 360.0) {
        c.saw("grids over the prime meridian");
    }
    if a < 180.0 && b > 180.0 {
        c.saw("grids over the 180th meridian");
    }
    c.distinct("grids", hash_f64s(&[g.lat[0], a, b, g.lat.len() as f64]));
}

fn nearest(c: &mut Case) -> R {
    let g = grid(&mut c.rng, true);
    let (l, y, x) = inside(&mut c.rng, &g);
    c.describe(|| show(&g, &l));
    seen(c, &g);
    let got = match GFSWaveModel::global_25().query_location_data(&l, &g.msg) {
        Ok(v) => v,
        Err(_) if on_edge(&g, y, x) => return Ok(()),
        Err(e) => return violation(format!("refused: {e}")),
    };
    // rounding decides at half cells
    let near = |p: f64| -> Vec<usize> { (0..=p as usize + 1).filter(|i| (*i as f64 - p).abs() <= 0.5 + 1e-6).collect() };
    let ok = near(y).iter().any(|i| near(x).iter().any(|j| g.msg.values.get(i * g.lng.len() + j).is_some_and(|v| equal(*v, got))));
    ensure!(ok, "the value at row {y:.3} column {x:.3} is {got}, the nearest grid point has {}", g.msg.values[y.round() as usize * g.lng.len() + x.round() as usize]);
    c.saw("nearest points");
    c.nontrivial(hash_f64s(&[l.latitude, l.longitude]));
    Ok(())
}

fn between(c: &mut Case) -> R {
    let gaps = c.rng.chance(0.3);
    let g = grid(&mut c.rng, gaps);
    let (l, y, x) = inside(&mut c.rng, &g);
    c.describe(|| show(&g, &l));
    seen(c, &g);
    let got = match GFSWaveModel::atlantic().interp_location_data(&l, &g.msg) {
        Ok(v) => v,
        Err(_) if on_edge(&g, y, x) => return Ok(()),
        Err(e) => return violation(format!("refused: {e}")),
    };
    let (y0, x0) = ((y.floor() as usize).min(g.lat.len() - 2), (x.floor() as usize).min(g.lng.len() - 2));
    let (fy, fx) = (y - y0 as f64, x - x0 as f64);
    let at = |i: usize, j: usize| g.msg.values[i * g.lng.len() + j];
    let corners = [(at(y0, x0), (1.0 - fx) * (1.0 - fy)), (at(y0, x0 + 1), fx * (1.0 - fy)), (at(y0 + 1, x0), (1.0 - fx) * fy), (at(y0 + 1, x0 + 1), fx * fy)];
    if corners.iter().any(|(v, w)| v.is_nan() && *w > 1e-6) {
        // there is no mix with a point that has no value
        ensure!(got.is_nan(), "the value at row {y:.4} column {x:.4} is {got} next to points without a value: {corners:?}");
        c.saw("next to a gap");
        return Ok(());
    }
    let want: f64 = corners.iter().filter(|(v, _)| !v.is_nan()).map(|(v, w)| v * w).sum();
    // rounding may bring in the next row or column at no weight
    let on_line = |p: f64| (p - p.round()).abs() < 1e-6;
    if got.is_nan() && gaps && (on_line(y) || on_line(x) || corners.iter().any(|(v, _)| v.is_nan())) {
        return Ok(());
    }
    ensure!(close(got, want, 1e-6, 1e-6), "the value at row {y:.4} column {x:.4} is {got}, between its points {want}");
    c.saw(if fy == 0.0 || fx == 0.0 { "on a row or column" } else { "between points" });
    c.nontrivial(hash_f64s(&[l.latitude, l.longitude]));
    Ok(())
}

/// Values of the grid points within `tol` degrees both ways, or nothing if one is too close to
/// call; nothing is too close where every number is a small multiple of a power of two
fn around(g: &Grid, l: &Location, tol: f64, exact: bool) -> Option<Vec<f64>> {
    let mut v = vec![];
    for (i, la) in g.lat.iter().enumerate() {
        for (j, ln) in g.lng.iter().enumerate() {
            let (a, b) = ((la - l.latitude).abs(), ang(*ln, l.longitude));
            if !exact && ((a - tol).abs() < 1e-9 || (b - tol).abs() < 1e-9) {
                return None;
            }
            let x = g.msg.values[i * g.lng.len() + j];
            if a <= tol && b <= tol && !x.is_nan() {
                v.push(x);
            }
        }
    }
    Some(v)
}

fn within(c: &mut Case) -> R {
    let mut g = grid(&mut c.rng, true);
    let (mut l, mut y, mut x) = inside(&mut c.rng, &g);
    let step = (g.lng[1] - g.lng[0]).abs();
    let mut tol = step * c.rng.f(0.0, 3.0);
    let mut exact = c.rng.chance(0.3);
    if exact {
        // everything in quarters of a degree, where sums and differences are exact
        let r = &mut c.rng;
        let step = *r.pick(&[0.25, 0.5, 1.0, 2.0]);
        let (rows, cols) = (r.usize(2, 20), r.usize(2, 20));
        let (la, ln) = (r.int(-360, 160) as f64 / 4.0, r.int(-720, 1240) as f64 / 4.0);
        g.lat = (0..rows).map(|i| la + step * i as f64).collect();
        if r.chance(0.6) {
            g.lat.reverse();
        }
        g.lng = (0..cols).map(|i| ln + step * i as f64).collect();
        g.msg.values = (0..rows * cols).map(|_| if r.chance(0.1) { f64::NAN } else { r.int(0, 1000) as f64 / 100.0 }).collect();
        (g.msg.start, g.msg.end, g.msg.size) = ((g.lat[0], g.lng[0]), (g.lat[rows - 1], g.lng[cols - 1]), (rows, cols));
        (y, x) = (r.int(0, 4 * (rows as i64 - 1)) as f64 / 4.0, r.int(0, 4 * (cols as i64 - 1)) as f64 / 4.0);
        l = Location::new(g.lat[0] + (g.lat[1] - g.lat[0]) * y, written(r, ln + step * x), "".into());
        tol = r.int(0, 20) as f64 / 4.0;
        exact = (4.0 * l.latitude).fract() == 0.0 && (4.0 * l.longitude).fract() == 0.0;
    }
    c.describe(|| format!("{tol} {}", show(&g, &l)));
    seen(c, &g);
    let Some(mut want) = around(&g, &l, tol, exact) else { return Ok(()) };
    let mut got = match GFSWaveModel::atlantic().query_location_tolerance(&l, &tol, &g.msg) {
        Ok(v) => v,
        Err(_) if on_edge(&g, y, x) => return Ok(()),
        Err(e) => return violation(format!("refused: {e}")),
    };
    want.sort_by(f64::total_cmp);
    got.sort_by(f64::total_cmp);
    ensure!(got == want, "the values within {tol} are {got:?}, those of the grid points around are {want:?}");
    c.saw(if want.is_empty() { "no points around" } else { "points around" });
    if exact && (g.lat.iter().any(|v| (v - l.latitude).abs() == tol) || g.lng.iter().any(|v| ang(*v, l.longitude) == tol)) {
        c.saw("points exactly as far");
    }
    c.nontrivial(hash_f64s(&[l.latitude, l.longitude, tol]));
    Ok(())
}

fn outside(c: &mut Case) -> R {
    let g = grid(&mut c.rng, false);
    let r = &mut c.rng;
    let (lo, hi) = (g.lat[0].min(g.lat[g.lat.len() - 1]), g.lat[0].max(g.lat[g.lat.len() - 1]));
    let width = g.lng[g.lng.len() - 1] - g.lng[0];
    let (mut lat, mut lng) = (r.f(lo, hi), g.lng[0] + r.f(0.0, width));
    match r.below(3) {
        0 if lo > -89.0 => lat = r.f(-90.0, lo - 0.01),
        1 if hi < 89.0 => lat = r.f(hi + 0.01, 90.0),
        _ if width < 358.0 => lng = g.lng[0] + width + r.f(0.01, 359.98 - width),
        _ => return Ok(()),
    }
    let l = Location::new(lat, written(r, lng), "".into());
    c.describe(|| show(&g, &l));
    let m = GFSWaveModel::atlantic();
    ensure!(m.query_location_data(&l, &g.msg).is_err(), "a value is given for a place outside the grid");
    ensure!(m.interp_location_data(&l, &g.msg).is_err(), "a value is interpolated for a place outside the grid");
    ensure!(m.query_location_tolerance(&l, &1.0, &g.msg).is_err(), "values are given for a place outside the grid");
    c.saw("places outside");
    c.nontrivial(hash_f64s(&[lat, lng]));
    Ok(())
}

fn contours(c: &mut Case) -> R {
    let mut g = grid(&mut c.rng, false);
    let r = &mut c.rng;
    let (unit, abbrev) = r.pick(&[("m", "m"), ("ms-1", "m/s"), ("s", "s"), ("deg", "°"), ("k", "K"), ("knots", "kt")]).clone();
    g.msg.unit = unit.into();
    // fields of small, large and shifted values
    let (scale, shift) = match r.below(6) { 0 => (0.05, 0.0), 1 => (20.0, 0.0), 2 => (1.0, -6.0), 3 => (0.01, 0.5), _ => (1.0, 0.0) };
    let shift = if unit == "k" { shift + 280.0 } else { shift };
    for v in g.msg.values.iter_mut() {
        *v = *v * scale + shift;
    }
    let system = r.pick(&[None, Some(UnitSystem::English), Some(UnitSystem::Metric), Some(UnitSystem::Knots), Some(UnitSystem::Kelvin)]).clone();
    let (factor, offset, label) = match (&system, unit) {
        (None, u) => (1.0, 0.0, u),
        (Some(UnitSystem::English), "m") => (3.281, 0.0, "ft"),
        (Some(UnitSystem::English), "ms-1") => (2.237, 0.0, "mph"),
        (Some(UnitSystem::Knots), "ms-1") => (1.944, 0.0, "kt"),
        (Some(UnitSystem::English), "k") => (1.8, -459.67, "°F"),
        (Some(UnitSystem::Metric), "k") => (1.0, -273.15, "°C"),
        (Some(UnitSystem::English), "knots") => (1.15, 0.0, "mph"),
        (Some(UnitSystem::Metric), "knots") => (0.514, 0.0, "m/s"),
        _ => (1.0, 0.0, abbrev),
    };
    let (lo, hi, n) = ((r.f(0.0, 2.0) * scale + shift) * factor + offset, (r.f(6.0, 12.0) * scale + shift) * factor + offset, r.usize(2, 8));
    c.describe(|| format!("{system:?} {unit} {lo} {hi} {n} {}", show(&g, &Location::new(0.0, 0.0, "".into()))));
    let got = match GFSWaveModel::global_25().contour_data(&g.msg, Some(lo), Some(hi), Some(n), system) {
        Ok(f) => f,
        Err(e) => return violation(format!("no contours: {e}")),
    };
    let data: Vec<f64> = g.msg.values.iter().map(|v| v * factor + offset).collect();
    let want = compute_latlng_gridded_contours(
        data, g.lng.len(), g.lat.len(), g.msg.start.1, g.msg.end.1, g.msg.start.0, g.msg.end.0, Some(lo), Some(hi), Some(n),
        Some(|i: &usize, v: &f64| if i % 2 > 0 { format!("{:.0}{label}", v.round()) } else { String::new() }),
    );
    let Ok(want) = want else { return Err(Fail::Undecided("no reference contours".into())) };
    ensure!(got.len() == n && want.len() == n, "{} contours for {n} thresholds", got.len());
    for (a, b) in got.iter().zip(&want) {
        for k in ["value", "normalized"] {
            let (x, y) = (a.property(k).and_then(|v| v.as_f64()), b.property(k).and_then(|v| v.as_f64()));
            ensure!(x.is_some() == y.is_some() && (x.is_none() || close(x.unwrap(), y.unwrap(), 1e-9, 1e-12)), "contour has {k} {x:?}, expected {y:?}");
        }
        ensure!(a.property("label") == b.property("label"), "contour is labelled {:?}, expected {:?}", a.property("label"), b.property("label"));
        ensure!(points(a) == points(b), "contours differ from those of the field in the wanted unit");
        c.count("contour points", points(a).len() as u64);
    }
    c.saw("contoured fields");
    if factor != 1.0 || offset != 0.0 {
        c.saw("contoured fields in another unit");
    }
    c.nontrivial(hash_f64s(&g.msg.values));
    Ok(())
}

/// All coordinates, to a millionth of a degree
fn points(f: &geojson::Feature) -> Vec<(i64, i64)> {
    let Some(geojson::Value::MultiPolygon(p)) = f.geometry.as_ref().map(|g| &g.value) else { return vec![] };
    p.iter().flatten().flatten().map(|c| ((c[0] * 1e6).round() as i64, (c[1] * 1e6).round() as i64)).collect()
}

const COMPONENTS: [(&str, &str, &str); 5] = [("SWELL_0", "SWPER_0", "SWDIR_0"), ("SWELL_1", "SWPER_1", "SWDIR_1"), ("SWELL_2", "SWPER_2", "SWDIR_2"), ("SWELL_3", "SWPER_3", "SWDIR_3"), ("WVHGT", "WVPER", "WVDIR")];

fn sea_state(c: &mut Case) -> R {
    let base = grid(&mut c.rng, false);
    let (l, y, x) = inside(&mut c.rng, &base);
    let r = &mut c.rng;
    let tol = (base.lng[1] - base.lng[0]).abs() * r.f(0.8, 2.0);
    if around(&base, &l, tol, false).is_none() || on_edge(&base, y, x) {
        return Ok(());
    }
    let date = DateTime::from_timestamp(r.int(1_000_000_000, 2_000_000_000), 0).unwrap();
    let mut names: Vec<String> = ["HTSGW", "PERPW", "DIRPW", "WIND", "WDIR", "WVHGT", "WVPER", "WVDIR"].iter().map(|s| s.to_string()).collect();
    for (h, p, d) in &COMPONENTS[r.below(2)..4] {
        names.extend([h.to_string(), p.to_string(), d.to_string()]);
    }
    if r.chance(0.3) {
        // some fields are not in the file
        for _ in 0..r.usize(1, 3) {
            let i = r.below(names.len());
            names.remove(i);
        }
    }
    r.shuffle(&mut names);
    let still = if r.chance(0.15) { Some(r.pick(&["WVHGT", "WVHGT", "SWELL_1", "SWELL_3", "WIND", "WVPER", "SWPER_2"]).to_string()) } else { None };
    let mut messages = vec![];
    let mut mean: HashMap<String, f64> = HashMap::new();
    for n in &names {
        let mut m = base.msg.clone();
        m.date = date;
        let direction = n.contains("DIR");
        let (abbrev, level) = n.split_once('_').map(|(a, b)| (a.to_string(), b.parse::<f64>().ok())).unwrap_or((n.clone(), None));
        m.abbrev = abbrev;
        m.surface = if level.is_some() { (FixedSurfaceType::OrderedSequence, level) } else { (FixedSurfaceType::GroundOrWater, if r.chance(0.5) { Some(1.0) } else { None }) };
        let gone = n.as_str() != "HTSGW" && n.as_str() != "PERPW" && n.as_str() != "DIRPW" && r.chance(0.1);
        let centre = if direction { r.f(0.0, 360.0) } else { r.f(0.5, 15.0) };
        // no wind, or no waves of one kind
        let calm = Some(n) == still.as_ref();
        for v in m.values.iter_mut() {
            *v = if gone || r.chance(0.05) {
                f64::NAN
            } else if calm {
                0.0
            } else if direction {
                ((centre + r.f(-30.0, 30.0)) * 100.0).round().rem_euclid(36000.0) / 100.0
            } else {
                centre + r.f(-0.4, 0.4)
            };
        }
        let g = Grid { lat: base.lat.clone(), lng: base.lng.clone(), msg: m };
        let v = around(&g, &l, tol, false).unwrap();
        if v.is_empty() && !gone {
            return Ok(()); // nothing around the place
        }
        let n0 = v.len() as f64;
        let m = if v.is_empty() {
            f64::NAN
        } else if direction {
            let (s, k) = v.iter().fold((0.0, 0.0), |(s, k), d| (s + (d - centre).to_radians(), k + 1.0));
            let _ = k;
            // within 60 degrees of each other, so the plain mean of the turns from the centre
            centre + v.iter().map(|d| (d - centre + 180.0).rem_euclid(360.0) - 180.0).sum::<f64>() / n0 + 0.0 * s
        } else {
            v.iter().sum::<f64>() / n0
        };
        mean.insert(n.clone(), m);
        messages.push(g.msg);
    }
    c.describe(|| format!("at {} {} within {tol}: {mean:?}", l.latitude, l.longitude));
    let got = GFSWaveGribPointDataRecord::from_messages(&GFSWaveModel::atlantic(), &messages, &l, tol);
    let has = |k: &str| mean.get(k).copied();
    let (Some(h), Some(p), Some(d)) = (has("HTSGW"), has("PERPW"), has("DIRPW")) else {
        ensure!(got.is_err(), "a sea state without its height, period or direction");
        c.saw("incomplete sea states");
        return Ok(());
    };
    let mut got = match got {
        Ok(g) => g,
        Err(e) => return violation(format!("no sea state: {e}")),
    };
    ensure!(got.date == date, "the sea state of {date} is dated {}", got.date);
    let swell = |what: &str, s: &surfrs::swell::Swell, h: f64, p: f64, d: f64| -> R {
        ensure!(s.wave_height.unit == Unit::Meters && close(s.wave_height.get_value(), h, 1e-9, 1e-12), "{what} height is {}, the field says {h}", s.wave_height);
        ensure!(s.period.unit == Unit::Seconds && close(s.period.get_value(), p, 1e-9, 1e-12), "{what} period is {}, the field says {p}", s.period);
        ensure!(ang(s.direction.get_value().degrees as f64, d) <= 1.0 + 1e-6, "{what} direction is {}, the field says {d}", s.direction);
        let e = 1029.0 * 9.81 * 9.81 / (16.0 * std::f64::consts::PI) * h * h * p * p / 1000.0;
        ensure!(s.energy.as_ref().is_some_and(|v| close(v.get_value(), e, 1e-9, 1e-12)), "{what} energy is {:?}, expected {e}", s.energy);
        Ok(())
    };
    swell("summary", &got.wave_summary, h, p, d)?;
    ensure!(got.wind_speed.unit == Unit::MetersPerSecond && got.wind_speed.value.is_some() == has("WIND").is_some(), "wind is {:?}", got.wind_speed);
    ensure!(got.wind_speed.variable_name == "wind speed" && got.wind_direction.variable_name == "wind directions", "the wind is named {:?} and {:?}", got.wind_speed.variable_name, got.wind_direction.variable_name);
    if let (Some(a), Some(b)) = (got.wind_speed.value, has("WIND")) {
        ensure!(close(a, b, 1e-9, 1e-12) || equal(a, b), "wind is {a}, the field says {b}");
    }
    if let Some(b) = has("WDIR").filter(|v| !v.is_nan()) {
        ensure!(got.wind_direction.value.as_ref().is_some_and(|a| ang(a.degrees as f64, b) <= 1.0 + 1e-6), "wind direction is {:?}, the field says {b}", got.wind_direction.value);
    }
    let mut want: Vec<(f64, f64, f64)> = COMPONENTS
        .iter()
        .filter_map(|(h, p, d)| Some((has(h)?, has(p)?, has(d)?)))
        .filter(|t| !t.0.is_nan() && !t.1.is_nan() && !t.2.is_nan())
        .collect();
    want.sort_by(|a, b| b.0.total_cmp(&a.0));
    ensure!(got.swell_components.len() == want.len(), "{} components of {}", got.swell_components.len(), want.len());
    for (s, w) in got.swell_components.iter().zip(&want) {
        swell("component", s, w.0, w.1, w.2)?;
        c.saw("components");
    }
    if want.len() < 4 {
        c.saw("sea states with fewer components");
    }
    got.to_units(&UnitSystem::English);
    ensure!(got.wave_summary.wave_height.unit == Unit::Feet && close(got.wave_summary.wave_height.get_value(), h / 0.3048, 1e-3, 1e-9), "{h} m is {}", got.wave_summary.wave_height);
    for (s, w) in got.swell_components.iter().zip(&want) {
        ensure!(s.wave_height.unit == Unit::Feet && close(s.wave_height.get_value(), w.0 / 0.3048, 1e-3, 1e-9), "{} m is {}", w.0, s.wave_height);
    }
    c.saw("sea states");
    c.nontrivial(hash_str(&format!("{mean:?}")));
    Ok(())
}

// ---- T02 -------------------------------------------------------------------------------

/// All output hours up to well beyond `to`
fn output(step: usize, cutoff: usize, then: usize, to: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut h = 0;
    while h <= to + 12 {
        v.push(h);
        h += if h < cutoff { step } else { then };
    }
    v
}

fn times(c: &mut Case) -> R {
    let r = &mut c.rng;
    let k = r.below(4);
    let small = r.chance(0.5);
    let cutoff = 3 * if small { r.usize(0, 12) } else { r.usize(0, 130) };
    let hourly_cutoff = if small { r.usize(0, 36) } else { r.usize(0, 400) };
    let (res, hours) = match k {
        0 => (ModelTimeOutputResolution::Hourly, output(1, 0, 1, 600)),
        1 => (ModelTimeOutputResolution::ThreeHourly, output(3, 0, 3, 600)),
        2 => (ModelTimeOutputResolution::HybridHourlyThreeHourly(hourly_cutoff), output(1, hourly_cutoff, 3, 600)),
        _ => (ModelTimeOutputResolution::HybridThreeHourlySixHourly(cutoff), output(3, cutoff, 6, 600)),
    };
    check_times(c, &res, &hours)
}

fn check_times(c: &mut Case, res: &ModelTimeOutputResolution, hours: &[usize]) -> R {
    let r = &mut c.rng;
    let index_of = |h: usize| hours.iter().rposition(|x| *x <= h).unwrap();
    let (mut a, mut b) = (r.usize(0, 600), r.usize(0, 600));
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    if r.chance(0.05) {
        b = a;
    }
    c.describe(|| format!("{res:?} hours {a} to {b}"));
    for h in [a, b] {
        ensure!(res.index_for_hour(h) == index_of(h), "{res:?}: hour {h} has index {}, expected {}", res.index_for_hour(h), index_of(h));
        let i = index_of(h);
        ensure!(res.hour_for_index(i) == hours[i], "{res:?}: index {i} is hour {}, expected {}", res.hour_for_index(i), hours[i]);
        ensure!(res.index_for_hour(hours[i]) == i, "{res:?}: hour {} of index {i} has index {}", hours[i], res.index_for_hour(hours[i]));
        if hours[i] == h {
            c.saw("hours with output");
        } else {
            c.saw("hours between outputs");
        }
    }
    let (i, j) = (index_of(a), index_of(b));
    let got = res.hours_for_hour_range(a, b);
    ensure!(got == hours[i..=j], "{res:?}: hours {a} to {b} have output at {got:?}, expected {:?}", &hours[i..=j]);
    let got = res.hours_for_index_range(i, j);
    ensure!(got == hours[i..=j], "{res:?}: indexes {i} to {j} are hours {got:?}, expected {:?}", &hours[i..=j]);
    let got = res.indexes_for_hour_range(a, b);
    let want: Vec<usize> = (a..=b).map(index_of).collect();
    ensure!(got == want, "{res:?}: hours {a} to {b} have indexes {got:?}, expected {want:?}");
    if b == a {
        c.saw("single hours");
    }
    c.count("listed hours", (j - i + 1) as u64);
    c.nontrivial(mix(a as u64 ^ mix(b as u64 ^ mix(hash_str(&format!("{res:?}"))))));
    Ok(())
}

fn models(c: &mut Case) -> R {
    let (res, hours): (ModelTimeOutputResolution, Vec<usize>) = match c.index % 3 {
        0 => (GFSWaveModel::global_16().time_resolution(), output(1, 120, 3, 600)),
        1 => (GEFSWaveModel::global_25_mean().time_resolution(), output(3, 240, 6, 600)),
        _ => (NWPSModel::boston().time_resolution(), output(1, 0, 1, 600)),
    };
    let i = c.rng.below(hours.len());
    let (h, k) = match c.index % 3 {
        0 => (GFSWaveModel::atlantic().hour_for_index(i), GFSWaveModel::atlantic().index_for_hour(hours[i])),
        1 => (GEFSWaveModel::global_25_spread().hour_for_index(i), GEFSWaveModel::global_25_spread().index_for_hour(hours[i])),
        _ => (NWPSModel::boston().hour_for_index(i), NWPSModel::boston().index_for_hour(hours[i])),
    };
    ensure!(h == hours[i] && k == i, "output {i} of a model is hour {h}, expected {}, whose index is {k}", hours[i]);
    check_times(c, &res, &hours)
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "D14",
            rule: "Made regular grids (rows either way, regional and global, over any meridian, with gaps) queried at random, corner, edge and outside places written in either convention, against eastward arithmetic in cells; contours against those of the converted field; sea states against means around the place. Non-trivial: every answered query.",
            monitors: vec![mon("nearest", 3000, nearest), mon("between", 3000, between), mon("within", 3000, within), mon("outside", 1000, outside), mon("contours", 300, contours), mon("sea_state", 1500, sea_state)],
            require: vec![("nearest points", 2500), ("between points", 1500), ("on a row or column", 100), ("points around", 2000), ("places outside", 500), ("points exactly as far", 100), ("grids over the prime meridian", 800), ("grids over the 180th meridian", 400), ("contoured fields", 300), ("sea states", 600), ("components", 1500), ("incomplete sea states", 30)],
            assumptions: vec!["a stand-in for gribberish serves the grids, its ends being the first and last grid points and its coordinates one per row and column; decoding GRIB itself is not observed"],
        },
        Property {
            id: "T02",
            rule: "All four kinds of output times with random changes of step, and the models' own, against the list of output hours. Non-trivial: every case.",
            monitors: vec![mon("times", 4000, times), mon("models", 1500, models)],
            require: vec![("hours with output", 4000), ("hours between outputs", 2000), ("listed hours", 100000), ("single hours", 200)],
            assumptions: vec!["hours up to 600; three-hourly output changes step at a multiple of three hours"],
        },
    ]
}

#[allow(dead_code)]
fn main() {
    kit::main(properties());
}
