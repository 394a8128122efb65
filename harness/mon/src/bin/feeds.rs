//! D01..D09, D12: the data feeds -- text and JSON in, typed records out.
use chrono::{DateTime, Datelike, Duration, TimeZone, Timelike, Utc};
use kit::num::{ang, close};
use kit::rng::{hash_f64s, hash_str, mix, Rng};
use kit::*;
use serde_json::Value;
use std::f64::consts::PI;
use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord;
use surfrs::data::forecast_cbulletin_wave_data_record::{ForecastCBulletinWaveRecord, ForecastCBulletinWaveRecordCollection, ForecastCBulletinWaveRecordMetadata};
use surfrs::data::forecast_spectral_wave_data_record::{ForecastSpectralWaveDataRecord, ForecastSpectralWaveDataRecordCollection, ForecastSpectralWaveDataRecordMetadata};
use surfrs::data::grib_index_record::{GribIndexRecord, GribIndexRecordCollection};
use surfrs::data::nws_weather_forecast_data_record::{NwsGridPointData, NwsWeatherForecastDataRecord, NwsWeatherForecastDataRecordCollection};
use surfrs::data::parseable_data_record::ParseableDataRecord;
use surfrs::data::spectral_wave_data_record::{SpectralWaveDataRecord, SpectralWaveDataRecordCollection};
use surfrs::data::tidal_data_record::{TidalDataRecordCollection, TidalEvent};
use surfrs::data::wave_data_record::{WaveDataRecord, WaveDataRecordCollection};
use surfrs::dimensional_data::DimensionalData;
use surfrs::location::Location;
use surfrs::station::Station;
use surfrs::swell::{Swell, SwellProvider, SwellSummary};
use surfrs::tide_station::{DataInterval, TideDatum, TideStation, TideStations};
use surfrs::units::direction::DirectionConvention;
use surfrs::units::{Direction, Steepness, Unit, UnitConvertible, UnitSystem};

// ---- generators ------------------------------------------------------------------------

fn date(r: &mut Rng) -> DateTime<Utc> {
    let base = Utc.with_ymd_and_hms(1975, 1, 1, 0, 0, 0).unwrap();
    match r.below(4) {
        // the last or first minutes of a month
        0 => {
            let m = Utc.with_ymd_and_hms(r.int(1980, 2060) as i32, r.int(1, 12) as u32, 1, 0, 0, 0).unwrap();
            m + Duration::minutes(r.int(-60, 60))
        }
        // around leap days
        1 => {
            let m = Utc.with_ymd_and_hms(r.int(495, 515) as i32 * 4, 2, 28, 0, 0, 0).unwrap();
            m + Duration::minutes(r.int(0, 3 * 1440))
        }
        // long before and long after
        2 if r.chance(0.15) => Utc.with_ymd_and_hms(*r.pick(&[1901, 1937, 1969, 2069, 2098, 2100]), 1, 1, 0, 0, 0).unwrap() + Duration::minutes(r.int(-60, 527_000)),
        _ => base + Duration::minutes(r.int(0, 40_000_000)),
    }
}

fn gap(r: &mut Rng) -> &'static str {
    *r.pick(&[" ", "  ", "   "])
}

/// A number with `d` decimals as text and as the value the text means
fn num(r: &mut Rng, lo: f64, hi: f64, d: usize) -> (String, f64) {
    let s = format!("{:.*}", d, r.fs(lo, hi));
    let v = s.parse().unwrap();
    (s, v)
}

/// As `num`, or NDBC's MM for a missing value
fn num_mm(r: &mut Rng, lo: f64, hi: f64, d: usize) -> (String, Option<f64>) {
    if r.chance(0.15) {
        return ("MM".into(), None);
    }
    let (s, v) = match r.below(20) {
        // numbers beyond the usual, and those other products use for missing ones
        0 => {
            let s = r.pick(&["0", "0.0", "99.0", "99.00", "99", "999", "999.0", "9999.0", "-0.1", "100.0", "0.01", "1e1", ".5", "5.", "007.0"]).to_string();
            let v = s.parse().unwrap();
            (s, v)
        }
        1 => num(r, lo - 0.5 * hi, 20.0 * hi, d + 1),
        _ => num(r, lo, hi, d),
    };
    (s, Some(v))
}

const COMPASS: [(&str, f64); 16] = [
    ("N", 0.0), ("NNE", 22.5), ("NE", 45.0), ("ENE", 67.5), ("E", 90.0), ("ESE", 112.5), ("SE", 135.0), ("SSE", 157.5),
    ("S", 180.0), ("SSW", 202.5), ("SW", 225.0), ("WSW", 247.5), ("W", 270.0), ("WNW", 292.5), ("NW", 315.0), ("NNW", 337.5),
];

/// A direction as text, and what it means (degrees, tolerance)
fn dir_mm(r: &mut Rng) -> (String, Option<(f64, f64)>) {
    match r.below(8) {
        0 => ("MM".into(), None),
        1 | 2 => {
            let d = r.int(0, 360);
            (d.to_string(), Some((d as f64, 0.0)))
        }
        _ => {
            let (s, d) = *r.pick(&COMPASS);
            (s.to_string(), Some((d, 1.6)))
        }
    }
}

fn same(what: &str, d: &DimensionalData<f64>, want: Option<f64>, unit: Unit) -> R {
    ensure!(d.unit == unit, "{what} is in {:?}, expected {unit:?}", d.unit);
    match (d.value, want) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) if close(a, b, 1e-9, 1e-12) => Ok(()),
        (a, b) => violation(format!("{what} is {a:?}, the feed says {b:?}")),
    }
}

fn same_dir(what: &str, d: &DimensionalData<Direction>, want: Option<(f64, f64)>) -> R {
    ensure!(d.unit == Unit::Degrees, "{what} is in {:?}", d.unit);
    match (&d.value, want) {
        (None, None) => Ok(()),
        (Some(a), Some((b, tol))) => {
            ensure!(ang(a.degrees as f64, b) <= tol + 1e-9, "{what} is {}, the feed says {b}", a.degrees);
            let (_, centre) = COMPASS.iter().map(|(s, v)| (*s, *v)).find(|(s, _)| a.cardinal_direction().to_string() == s.to_lowercase()).unwrap_or(("", -999.0));
            ensure!(centre >= 0.0 && ang(centre, b) <= 12.3, "{what} {b} degrees is called {:?}", a.cardinal_direction().to_string());
            Ok(())
        }
        (a, b) => violation(format!("{what} is {a:?}, the feed says {b:?}")),
    }
}

/// Measurements carry the name of what they measure
macro_rules! named {
    ($($d:expr => $n:expr),+ $(,)?) => {
        $(ensure!($d.variable_name == $n, "the {} is named {:?}", $n, $d.variable_name);)+
    };
}

fn header(r: &mut Rng, text: &mut String) {
    text.push_str(if r.chance(0.9) { "#YY  MM DD hh mm WVHT  SwH  SwP  WWH  WWP SwD WWD  STEEPNESS  APD MWD\n#yr  mo dy hr mn    m    m  sec    m  sec  -  degT     -      sec degT\n" } else { "" });
}

// ---- D01 -------------------------------------------------------------------------------

#[derive(Clone)]
struct WaveRow {
    date: DateTime<Utc>,
    n: [Option<f64>; 6], // WVHT SwH SwP WWH WWP APD
    d: [Option<(f64, f64)>; 3],
    steep: Steepness,
    text: String,
}

fn wave_row(r: &mut Rng) -> WaveRow {
    let t = date(r);
    wave_row_at(r, t)
}

fn wave_row_at(r: &mut Rng, t: DateTime<Utc>) -> WaveRow {
    let h = num_mm(r, 0.0, 15.0, 1);
    let sh = num_mm(r, 0.0, 12.0, 1);
    let sp = num_mm(r, 2.0, 25.0, 1);
    let wh = num_mm(r, 0.0, 9.0, 1);
    let wp = num_mm(r, 2.0, 12.0, 1);
    let sd = dir_mm(r);
    let wd = dir_mm(r);
    let (st, steep) = match r.below(5) {
        0 => ("VERY_STEEP", Steepness::VerySteep),
        1 => ("STEEP", Steepness::Steep),
        2 => ("AVERAGE", Steepness::Average),
        3 => ("SWELL", Steepness::Swell),
        _ => ("N/A", Steepness::NA),
    };
    let ap = num_mm(r, 2.0, 15.0, 1);
    let md = dir_mm(r);
    let toks = [
        t.format("%Y").to_string(), t.format("%m").to_string(), t.format("%d").to_string(), t.format("%H").to_string(), t.format("%M").to_string(),
        h.0, sh.0, sp.0, wh.0, wp.0, sd.0, wd.0, st.to_string(), ap.0, md.0,
    ];
    let mut text = String::new();
    for (i, k) in toks.iter().enumerate() {
        if i > 0 {
            text.push_str(gap(r));
        }
        text.push_str(k);
    }
    if r.chance(0.2) {
        text.push_str("  ");
    }
    WaveRow { date: t, n: [h.1, sh.1, sp.1, wh.1, wp.1, ap.1], d: [sd.1, wd.1, md.1], steep, text }
}

fn wave_is(g: &WaveDataRecord, w: &WaveRow) -> R {
    ensure!(g.date == w.date, "date {} for a row of {}", g.date, w.date);
    same("wave height", &g.wave_height, w.n[0], Unit::Meters)?;
    same("swell height", &g.swell_wave_height, w.n[1], Unit::Meters)?;
    same("swell period", &g.swell_wave_period, w.n[2], Unit::Seconds)?;
    same("wind wave height", &g.wind_wave_height, w.n[3], Unit::Meters)?;
    same("wind wave period", &g.wind_wave_period, w.n[4], Unit::Seconds)?;
    same("average period", &g.average_wave_period, w.n[5], Unit::Seconds)?;
    same_dir("swell direction", &g.swell_wave_direction, w.d[0])?;
    same_dir("wind wave direction", &g.wind_wave_direction, w.d[1])?;
    same_dir("mean direction", &g.mean_wave_direction, w.d[2])?;
    ensure!(g.steepness == w.steep, "steepness {:?}, the feed says {:?}", g.steepness, w.steep);
    named!(
        g.wave_height => "wave height", g.swell_wave_height => "swell wave height", g.swell_wave_period => "swell period", g.wind_wave_height => "wind wave height", g.wind_wave_period => "wind period",
        g.swell_wave_direction => "swell wave direction", g.wind_wave_direction => "wind wave direction", g.average_wave_period => "average wave period", g.mean_wave_direction => "mean wave direction",
    );
    Ok(())
}

fn ft(v: Option<f64>) -> Option<f64> {
    v.map(|v| v / 0.3048)
}

fn near(what: &str, d: &DimensionalData<f64>, want: Option<f64>, unit: Unit) -> R {
    ensure!(d.unit == unit, "{what} is in {:?}, expected {unit:?}", d.unit);
    match (d.value, want) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) if close(a, b, 1e-3, 1e-9) => Ok(()),
        (a, b) => violation(format!("{what} is {a:?}, expected {b:?}")),
    }
}

fn wave_rows(c: &mut Case) -> R {
    let n = if c.rng.chance(0.001) { c.rng.usize(1000, 6000) } else if c.rng.chance(0.05) { 300 } else { c.rng.size(0, 12) };
    let mut rows: Vec<WaveRow> = vec![];
    for _ in 0..n {
        // a file may hold a time twice, and a row
        let w = match rows.last() {
            Some(w) if c.rng.chance(0.05) => w.clone(),
            Some(w) if c.rng.chance(0.05) => wave_row_at(&mut c.rng, w.date),
            _ => wave_row(&mut c.rng),
        };
        rows.push(w);
    }
    let mut text = String::new();
    header(&mut c.rng, &mut text);
    let nl = if c.rng.chance(0.1) { "\r\n" } else { "\n" };
    for (i, w) in rows.iter().enumerate() {
        text.push_str(&w.text);
        if i + 1 < n || c.rng.chance(0.8) {
            text.push_str(nl);
        }
    }
    c.describe(|| text.clone());
    let mut col = WaveDataRecordCollection::from_data(&text);
    let got: Vec<WaveDataRecord> = col.records().collect();
    ensure!(got.len() == n, "{} records from {n} rows", got.len());
    for (g, w) in got.iter().zip(&rows) {
        wave_is(g, w)?;
        c.count("missing values", w.n.iter().filter(|v| v.is_none()).count() as u64);
        c.distinct("months", (w.date.year() * 12 + w.date.month() as i32) as u64);
        let s = g.swell_data();
        let Ok(mut s) = s else { return violation("no swell data for a wave row") };
        same("summary height", &s.summary.wave_height, w.n[0], Unit::Meters)?;
        same("summary period", &s.summary.period, w.n[5], Unit::Seconds)?;
        same_dir("summary direction", &s.summary.direction, w.d[2])?;
        ensure!(s.components.len() == 2, "{} components for swell and wind waves", s.components.len());
        for (k, (i, j)) in [(0, (1, 2)), (1, (3, 4))] {
            same("component height", &s.components[k].wave_height, w.n[i], Unit::Meters)?;
            same("component period", &s.components[k].period, w.n[j], Unit::Seconds)?;
            same_dir("component direction", &s.components[k].direction, w.d[k])?;
        }
        s.to_units(&UnitSystem::English);
        near("summary height", &s.summary.wave_height, ft(w.n[0]), Unit::Feet)?;
        near("component height", &s.components[1].wave_height, ft(w.n[3]), Unit::Feet)?;
        c.saw("rows compared");
    }
    if n > 0 {
        c.nontrivial(hash_str(&text));
    }
    Ok(())
}

// ---- D02 -------------------------------------------------------------------------------

#[derive(Clone)]
struct SpecRow {
    date: DateTime<Utc>,
    sep: Option<f64>,
    v: Vec<f64>,
    f: Vec<f64>,
    text: String,
}

fn spec_row(r: &mut Rng, t: DateTime<Utc>, freq: &[String], sep: bool, vals: &[(String, f64)]) -> SpecRow {
    let mut text = t.format("%Y %m %d %H %M").to_string();
    let mut s = None;
    if sep {
        let (k, v) = if r.chance(0.5) { ("9.999".to_string(), 9.999) } else if r.chance(0.05) { ("0.000".to_string(), 0.0) } else { num(r, 0.05, 0.5, 3) };
        text.push_str(&format!(" {k}"));
        s = Some(v);
    }
    for (f, v) in freq.iter().zip(vals) {
        text.push_str(&format!("{}{} ({f})", gap(r), v.0));
    }
    if r.chance(0.3) {
        text.push(' ');
    }
    SpecRow { date: t, sep: s, v: vals.iter().map(|v| v.1).collect(), f: freq.iter().map(|f| f.parse().unwrap()).collect(), text }
}

fn freq_text(r: &mut Rng, n: usize) -> Vec<String> {
    let mut f = 0.02;
    (0..n)
        .map(|_| {
            f += *r.pick(&[0.005, 0.01, 0.02]);
            let f = format!("{f:.3}");
            match r.below(150) {
                0 => f.trim_start_matches('0').to_string(),
                1 => "0".to_string(),
                2 => "1".to_string(),
                3 => format!("{f}0"),
                _ => f,
            }
        })
        .collect()
}

fn spectral_rows(c: &mut Case) -> R {
    let r = &mut c.rng;
    let many = r.chance(0.003);
    let n = if many { r.usize(200, 1500) } else { r.size(1, 8) };
    let mut rows: Vec<SpecRow> = vec![];
    let sep = r.chance(0.5);
    let mut text = String::new();
    if r.chance(0.9) {
        text.push_str("#YY  MM DD hh mm Sep_Freq  < spec_1 (freq_1) spec_2 (freq_2) spec_3 (freq_3) ... >\n");
    }
    for _ in 0..n {
        // rows of one file may differ in length
        let nf = if many { r.usize(1, 4) } else { r.size(1, 64) };
        let freq = freq_text(r, nf);
        let vals: Vec<(String, f64)> = (0..nf)
            .map(|_| match r.below(12) {
                0..=3 => ("0.000".into(), 0.0),
                4..=7 => num(r, 0.0, 40.0, 3),
                // codes for missing values, and others to be kept as they are
                8 => {
                    let s = r.pick(&["999.0", "999.00", "999", "99.00", "9999", "9.999", "0.00", "-0.01", "360.0"]).to_string();
                    let v = s.parse().unwrap();
                    (s, v)
                }
                _ => num(r, 0.0, 360.0, 1),
            })
            .collect();
        let t = match rows.last() {
            Some(w) if r.chance(0.05) => w.date,
            _ => date(r),
        };
        let w: SpecRow = spec_row(r, t, &freq, sep, &vals);
        text.push_str(&w.text);
        text.push('\n');
        if r.chance(0.05) {
            text.push_str(&w.text);
            text.push('\n');
            rows.push(w.clone());
        }
        rows.push(w);
    }
    c.describe(|| text.clone());
    let mut col = SpectralWaveDataRecordCollection::from_data(&text);
    let got: Vec<SpectralWaveDataRecord> = col.records().collect();
    ensure!(got.len() == rows.len(), "{} records from {} rows", got.len(), rows.len());
    for (g, w) in got.iter().zip(&rows) {
        ensure!(g.date == w.date, "date {} for a row of {}", g.date, w.date);
        ensure!(g.separation_frequency == w.sep, "separation frequency {:?}, the feed says {:?}", g.separation_frequency, w.sep);
        ensure!(g.value == w.v, "values differ: {:?} for {:?}", g.value, w.v);
        ensure!(g.frequency == w.f, "frequencies differ: {:?} for {:?}", g.frequency, w.f);
        c.saw("rows compared");
    }
    c.nontrivial(hash_str(&text));
    Ok(())
}

fn record(t: DateTime<Utc>, f: &[f64], v: &[f64]) -> SpectralWaveDataRecord {
    SpectralWaveDataRecord { date: t, separation_frequency: None, value: v.to_vec(), frequency: f.to_vec() }
}

fn directional(c: &mut Case) -> R {
    let r = &mut c.rng;
    let nf = r.size(2, 64);
    let nth = *r.pick(&[4, 5, 8, 12, 24, 36, 72]);
    let f = mon::gen::frequencies(r, nf);
    let dirs: Vec<f64> = mon::gen::even_directions(r, nth);
    let mut e: Vec<f64> = (0..nf).map(|_| if r.chance(0.2) { 0.0 } else { r.log(1e-3, 60.0) }).collect();
    let mut a1: Vec<f64> = (0..nf).map(|_| r.f(0.0, 360.0).round()).collect();
    let mut a2: Vec<f64> = (0..nf).map(|k| if r.chance(0.5) { a1[k] } else { r.f(0.0, 360.0).round() }).collect();
    let wide = r.chance(0.5);
    let mut r1: Vec<f64> = (0..nf).map(|_| if wide { r.f(0.0, 0.2) } else { r.f(0.0, 1.0) }).collect();
    let mut r2: Vec<f64> = (0..nf).map(|_| if wide { r.f(0.0, 0.25) } else { r.f(0.0, 1.0) }).collect();
    let mut missing = vec![false; nf];
    for k in 0..nf {
        if r.chance(0.15) {
            missing[k] = true;
            match r.below(5) {
                0 => e[k] = 999.9,
                1 => a1[k] = 999.0,
                2 => a2[k] = 999.0,
                3 => r1[k] = 999.0,
                _ => r2[k] = 999.0,
            }
        }
    }
    let t = date(r);
    c.describe(|| format!("dirs {dirs:?} f {f:?} e {e:?} a1 {a1:?} a2 {a2:?} r1 {r1:?} r2 {r2:?}"));
    let g = DirectionalSpectralWaveDataRecord::from_data_records(
        &dirs, record(t, &f, &e), record(t + Duration::minutes(1), &f, &a1), record(t, &f, &a2), record(t, &f, &r1), record(t, &f, &r2),
    );
    let s = &g.spectra;
    ensure!(g.date == t, "date {} for {t}", g.date);
    ensure!(s.frequency == f, "frequencies changed");
    ensure!(s.direction_raw() == dirs, "directions changed");
    ensure!(s.dir_convention == DirectionConvention::From, "convention {:?}", s.dir_convention);
    ensure!(s.energy.len() == nf * nth, "{} energies for {nf} x {nth}", s.energy.len());
    let dth = 2.0 * PI / nth as f64;
    for k in 0..nf {
        let mut sum = 0.0;
        let mut clipped = false;
        for th in 0..nth {
            let got = s.energy[k + th * nf];
            if missing[k] {
                ensure!(got == 0.0, "frequency {k} has a missing coefficient but energy {got}");
                continue;
            }
            let d = |a: f64| dirs[th] - a * PI / 180.0;
            let v = e[k] / PI * (0.5 + r1[k] * d(a1[k]).cos() + r2[k] * (2.0 * d(a2[k])).cos());
            if v < 1e-9 {
                clipped = true;
            }
            ensure!(close(got, v.max(0.0), 1e-7, 1e-9 * (1.0 + e[k])), "bin {k},{th}: density {got}, the buoy's coefficients give {}", v.max(0.0));
            sum += got * dth;
            c.saw("bins compared");
        }
        if !missing[k] && !clipped && nth > 2 && nth != 4 {
            ensure!(close(sum, e[k], 1e-6, 1e-9), "frequency {k}: directions add up to {sum}, the buoy measured {}", e[k]);
            c.saw("frequencies conserving energy");
        }
        if missing[k] {
            c.saw("missing frequencies");
        }
    }
    c.nontrivial(hash_f64s(s.energy.iter()));
    Ok(())
}

// ---- D03 -------------------------------------------------------------------------------

struct Bull {
    text: String,
    name: String,
    lat: f64,
    lon: f64,
    run: DateTime<Utc>,
    rows: Vec<(DateTime<Utc>, f64, Vec<(f64, f64, i32)>)>,
}

fn bulletin(r: &mut Rng) -> Bull {
    let name = match r.below(4) {
        3 => mon::gen::phrase(r, 10, "()\"\u{1F30A}"),
        0 => r.int(10000, 99999).to_string(),
        1 => format!("TPC{}", r.int(10, 99)),
        _ => format!("NW-{}{}", (b'A' + r.below(26) as u8) as char, r.int(100, 999)),
    };
    let (la, lo) = (r.fs(0.0, 90.0), r.fs(0.0, 180.0));
    let (n, e) = (r.chance(0.5), r.chance(0.5));
    let run = {
        let d = match r.below(3) {
            0 => Utc.with_ymd_and_hms(r.int(1999, 2040) as i32, 12, r.int(15, 31) as u32, 0, 0, 0).unwrap(),
            1 => Utc.with_ymd_and_hms(r.int(1999, 2040) as i32, r.int(1, 12) as u32, r.int(10, 28) as u32, 0, 0, 0).unwrap(),
            _ => {
                let d = date(r);
                Utc.with_ymd_and_hms(d.year(), d.month(), d.day(), 0, 0, 0).unwrap()
            }
        };
        d + Duration::hours(if r.chance(0.8) { 6 * r.int(0, 3) } else { r.int(0, 23) })
    };
    let digits = if r.chance(0.8) { 2 } else { r.usize(0, 3) };
    let (la, lo) = (format!("{la:.digits$}"), format!("{lo:.digits$}"));
    let mut text = format!(
        "Location : {name:<10} ({la:>5}{}  {lo:>5}{})\nModel    : spectral resolution for points\nCycle    : {} {:>2} UTC\n\nDDHH HS SS PP DDD SS PP DDD SS PP DDD SS PP DDD SS PP DDD SS PP DDD\n-------------------------------------------------------------------\n",
        if n { 'N' } else { 'S' }, if e { 'E' } else { 'W' }, run.format("%Y%m%d"), run.hour()
    );
    let hours = if r.chance(0.1) { 384 } else { r.size(0, 40) };
    let first = if r.chance(0.5) { 0 } else { r.int(0, 340) };
    let step = *r.pick(&[1, 1, 3, 6]);
    let tenths = r.chance(0.1);
    let mut feet = |r: &mut Rng, top: i64| if tenths { r.int(0, 10 * top) as f64 / 10.0 } else { r.int(0, top) as f64 };
    let mut rows = vec![];
    for h in 0..hours {
        let t = run + Duration::hours((first + step * h as i64).min(384));
        let hs = feet(r, 40);
        let k = if r.chance(0.1) { 0 } else if r.chance(0.1) { r.usize(7, 10) } else { r.size(1, 6) };
        let sw: Vec<(f64, f64, i32)> = (0..k).map(|_| (feet(r, 30), r.int(2, 25) as f64, r.int(0, 360) as i32)).collect();
        let mut line = format!("{:02}{:02} {hs:2} ", t.day(), t.hour());
        for (a, b, d) in &sw {
            line.push_str(&format!("{a:2} {b:02} {d:03} "));
        }
        text.push_str(&format!("{line:<67}\n"));
        rows.push((t, hs, sw));
    }
    text.push_str("-------------------------------------------------------------------\nDD  = Day of Month\nHH  = Hour of Day\nHS  = Total Significant Wave Height (feet)\nSS  = Significant Wave Height of separate system (feet)\nPP  = Peak Period of separate system (whole seconds)\nDDD = Mean Direction of separate system (degrees,\"from\")\n");
    let (lat, lon): (f64, f64) = (la.parse().unwrap(), lo.parse().unwrap());
    Bull { text, name, lat: if n { lat } else { -lat }, lon: if e { lon } else { -lon }, run, rows }
}

fn bulletins(c: &mut Case) -> R {
    let b = bulletin(&mut c.rng);
    c.describe(|| b.text.clone());
    let mut col = ForecastCBulletinWaveRecordCollection::from_data(&b.text);
    let (meta, recs): (ForecastCBulletinWaveRecordMetadata, Vec<ForecastCBulletinWaveRecord>) = match col.records() {
        Ok((m, it)) => (m, it.collect()),
        Err(e) => return violation(format!("bulletin refused: {e}")),
    };
    ensure!(meta.location.name == b.name, "location {:?}, the bulletin says {:?}", meta.location.name, b.name);
    ensure!(meta.location.latitude == b.lat && meta.location.longitude == b.lon, "location {},{}, the bulletin says {},{}", meta.location.latitude, meta.location.longitude, b.lat, b.lon);
    ensure!(meta.model_run_date == b.run, "run {}, the bulletin says {}", meta.model_run_date, b.run);
    ensure!(recs.len() == b.rows.len(), "{} records from {} rows", recs.len(), b.rows.len());
    for (g, (t, hs, sw)) in recs.iter().zip(&b.rows) {
        ensure!(g.date == *t, "row for {t} is dated {}", g.date);
        near("total height", &g.significant_wave_height, Some(hs * 0.3048), Unit::Meters)?;
        named!(g.significant_wave_height => "significant wave height");
        ensure!(g.swell_components.len() == sw.len(), "{} swells for {:?}", g.swell_components.len(), sw);
        for (s, (h, p, d)) in g.swell_components.iter().zip(sw) {
            near("swell height", &s.wave_height, Some(h * 0.3048), Unit::Meters)?;
            same("swell period", &s.period, Some(*p), Unit::Seconds)?;
            same_dir("swell direction", &s.direction, Some((*d as f64, 0.0)))?;
            let m = h * 0.3048;
            let e = 1029.0 * 9.81 * 9.81 / (16.0 * PI) * m * m * p * p / 1000.0;
            let Some(ge) = &s.energy else { return violation("swell without energy") };
            named!(s.wave_height => "wave height", s.period => "period", s.direction => "direction", ge => "energy");
            ensure!(close(ge.get_value(), e, 2e-3, 1e-9), "energy {} kJ for {m} m at {p} s, expected {e}", ge.get_value());
            c.saw("swells compared");
        }
        match g.swell_data() {
            Ok(s) => {
                ensure!(!sw.is_empty(), "swell summary for a row without swells");
                near("summary height", &s.summary.wave_height, Some(hs * 0.3048), Unit::Meters)?;
                same("summary period", &s.summary.period, Some(sw[0].1), Unit::Seconds)?;
                same_dir("summary direction", &s.summary.direction, Some((sw[0].2 as f64, 0.0)))?;
                ensure!(s.components.len() == sw.len(), "{} components for {} swells", s.components.len(), sw.len());
                for (s, (_, p, _)) in s.components.iter().zip(sw) {
                    same("component period", &s.period, Some(*p), Unit::Seconds)?;
                }
            }
            Err(_) => {
                ensure!(sw.is_empty(), "no swell summary for {sw:?}");
                c.saw("rows without swells");
            }
        }
        if t.month() != b.run.month() {
            c.saw("rows in the next month");
        }
        if t.year() != b.run.year() {
            c.saw("rows in the next year");
        }
        c.saw("rows compared");
    }
    if !b.rows.is_empty() {
        c.nontrivial(hash_str(&b.text));
    }
    Ok(())
}

// ---- D04 -------------------------------------------------------------------------------

/// Fortran's E format: 0.ddd times a power of ten
fn fortran(v: f64) -> (String, f64) {
    let s = if v == 0.0 {
        "0.000E+00".to_string()
    } else {
        let mut e = v.abs().log10().floor() as i32 + 1;
        let mut m = (v.abs() / 10f64.powi(e) * 1000.0).round();
        if m >= 1000.0 {
            m = 100.0;
            e += 1;
        }
        format!("{}0.{:03}E{}{:02}", if v < 0.0 { "-" } else { "" }, m as i64, if e < 0 { '-' } else { '+' }, e.abs())
    };
    let v = s.parse().unwrap();
    (s, v)
}

fn columns(vals: &[String], per: usize, width: usize) -> String {
    vals.chunks(per).map(|c| c.iter().map(|v| format!("{v:>width$}")).collect::<String>() + "\n").collect()
}

struct Ww3 {
    text: String,
    f: Vec<f64>,
    /// nautical directions, towards, radians
    d: Vec<f64>,
    recs: Vec<(DateTime<Utc>, [f64; 7], Vec<f64>)>,
}

fn ww3(r: &mut Rng) -> Ww3 {
    ww3_in(r, 7)
}

/// With `per` energies on a line
fn ww3_in(r: &mut Rng, per: usize) -> Ww3 {
    let nf = if r.chance(0.2) { *r.pick(&[50, 50, 50, 64, 99]) } else { r.usize(3, 30) };
    let nd = if r.chance(0.02) { 90 } else { *r.pick(&[7, 8, 12, 14, 16, 24, 36, 36, 72]) };
    let f0 = r.f(0.03, 0.05);
    let x = r.f(1.05, 1.12);
    let fs: Vec<(String, f64)> = (0..nf).map(|i| fortran(f0 * x.powi(i as i32))).collect();
    let off = if r.chance(0.5) { 0.5 } else { 0.0 };
    // WW3 lists directions clockwise from north, in the order of its mathematical angles
    let ds: Vec<(String, f64)> = (0..nd)
        .map(|i| {
            let math = 2.0 * PI * (i as f64 + off) / nd as f64;
            fortran((2.5 * PI - math).rem_euclid(2.0 * PI))
        })
        .collect();
    let mut text = format!("'WAVEWATCH III SPECTRA'     {nf:2}    {nd:2}     1 'spectral resolution for points'\n");
    text.push_str(&columns(&fs.iter().map(|v| v.0.clone()).collect::<Vec<_>>(), 8, 10));
    text.push_str(&columns(&ds.iter().map(|v| v.0.clone()).collect::<Vec<_>>(), 7, 11));
    let n = r.size(0, 4);
    let t0 = {
        let d = date(r);
        Utc.with_ymd_and_hms(d.year(), d.month(), d.day(), d.hour(), if r.chance(0.8) { 30 * r.int(0, 1) } else { r.int(0, 59) } as u32, 0).unwrap()
    };
    // onwards in time, and now and then backwards or standing still
    let step = if r.chance(0.95) { r.int(1, 12) } else { r.int(-12, 0) };
    let name = match r.below(4) {
        3 => mon::gen::phrase(r, 10, "\"'\u{1F30A}\u{f1}\u{ce}"),
        0 => r.int(10000, 99999).to_string(),
        1 => format!("NW {}", r.int(1, 999)),
        _ => "A1234-6789".to_string(),
    };
    let packed = r.chance(0.6);
    let mut recs = vec![];
    for i in 0..n {
        let t = t0 + Duration::hours(step * i as i64);
        let mut p: Vec<(String, f64)> = vec![num(r, -80.0, 80.0, 2), num(r, -180.0, 180.0, 2), num(r, 1.0, 6000.0, 1), num(r, 0.0, 60.0, 2), num(r, 0.0, 360.0, 1), num(r, 0.0, 3.0, 2), num(r, 0.0, 360.0, 1)];
        for i in 0..7 {
            if r.chance(0.1) {
                p[i] = num(r, 0.0, 0.0, if i < 4 || i == 5 { 2 } else { 1 });
            }
        }
        let lone = r.chance(0.3);
        let at = r.below(nf * nd);
        let e: Vec<(String, f64)> = (0..nf * nd)
            .map(|i| {
                let v = if lone { if i == at { 30.0 } else { 0.0 } } else if r.chance(0.3) { 0.0 } else { r.log(1e-12, 50.0) };
                fortran(v)
            })
            .collect();
        text.push_str(&format!("{}\n", t.format("%Y%m%d %H%M%S")));
        // as the model writes it (2F7.2), or with room around the place
        let place = if packed { format!("{:>7}{:>7}", p[0].0, p[1].0) } else { format!("  {:>6} {:>7}", p[0].0, p[1].0) };
        text.push_str(&format!("'{name:<10}'{place}{:>10}{:>7}{:>6}{:>7}{:>6}\n", p[2].0, format!(" {}", p[3].0), format!(" {}", p[4].0), format!(" {}", p[5].0), format!(" {}", p[6].0)));
        text.push_str(&columns(&e.iter().map(|v| v.0.clone()).collect::<Vec<_>>(), per, 11));
        let mut pv = [0.0; 7];
        for (a, b) in pv.iter_mut().zip(&p) {
            *a = b.1;
        }
        recs.push((t, pv, e.iter().map(|v| v.1).collect()));
    }
    Ww3 { text, f: fs.iter().map(|v| v.1).collect(), d: ds.iter().map(|v| v.1).collect(), recs }
}

fn ww3_read(text: &str) -> Result<(ForecastSpectralWaveDataRecordMetadata, Vec<ForecastSpectralWaveDataRecord>), String> {
    let mut col = ForecastSpectralWaveDataRecordCollection::from_data(text);
    let r = match col.records() {
        Ok((m, it)) => Ok((m, it.collect())),
        Err(e) => Err(e.to_string()),
    };
    r
}

fn forecasts(c: &mut Case) -> R {
    let per = if c.rng.chance(0.7) { 7 } else { c.rng.usize(1, 12) };
    let w = ww3_in(&mut c.rng, per);
    c.describe(|| w.text.clone());
    let (meta, recs) = match ww3_read(&w.text) {
        Ok(v) => v,
        Err(e) => return violation(format!("spectra refused: {e}")),
    };
    let (nf, nd) = (w.f.len(), w.d.len());
    ensure!(meta.frequency == w.f, "frequencies {:?}, the file says {:?}", meta.frequency, w.f);
    ensure!(meta.direction.len() == nd && meta.point_count == 1, "{} directions, {} points", meta.direction.len(), meta.point_count);
    // as mathematical angles, to the nearest degree
    for (g, d) in meta.direction.iter().zip(&w.d) {
        let want = 90.0 - d.to_degrees();
        ensure!(ang(g.degrees as f64, want) <= 0.51, "direction {} for nautical {}", g.degrees, d.to_degrees());
    }
    ensure!(recs.len() == w.recs.len(), "{} records from {}", recs.len(), w.recs.len());
    for (g, (t, p, e)) in recs.iter().zip(&w.recs) {
        ensure!(g.date == *t, "record for {t} is dated {}", g.date);
        ensure!(g.reference_date == w.recs[0].0, "reference date {} in a file starting {}", g.reference_date, w.recs[0].0);
        ensure!(g.location.latitude == p[0] && g.location.longitude == p[1], "location {},{} for {},{}", g.location.latitude, g.location.longitude, p[0], p[1]);
        same("depth", &g.depth, Some(p[2]), Unit::Meters)?;
        same("wind speed", &g.wind_speed, Some(p[3]), Unit::MetersPerSecond)?;
        same_dir("wind direction", &g.wind_direction, Some((p[4], 0.51)))?;
        same("current speed", &g.current_speed, Some(p[5]), Unit::MetersPerSecond)?;
        same_dir("current direction", &g.current_direction, Some((p[6], 0.51)))?;
        named!(g.depth => "depth", g.wind_speed => "wind speed", g.wind_direction => "wind direction", g.current_speed => "current speed", g.current_direction => "current direction");
        let s = &g.spectra;
        ensure!(s.frequency == w.f && s.energy == *e, "the spectrum differs from the file");
        ensure!(s.direction_raw().len() == nd, "{} directions in the spectrum", s.direction_raw().len());
        c.saw("records compared");
        let at: Vec<usize> = (0..e.len()).filter(|&i| e[i] > 0.0).collect();
        if at.len() == 1 && nf > 2 {
            // one lone bin: the sea it means is known
            let Ok(sw) = g.swell_data() else { return violation("no swell data") };
            let (k, th) = (at[0] % nf, at[0] / nf);
            let from = w.d[th].to_degrees() + 180.0;
            let d = sw.summary.direction.get_value().degrees as f64;
            ensure!(ang(d, from) <= 2.1, "waves travelling towards {} come from {d}", w.d[th].to_degrees());
            ensure!(close(sw.summary.period.get_value(), 1.0 / w.f[k], 1e-9, 0.0), "peak period {} for frequency {}", sw.summary.period.get_value(), w.f[k]);
            let hs = sw.summary.wave_height.get_value();
            // height from the bin's density and width; widths by ratio, so a few percent
            if k > 0 && k + 1 < nf {
                let df = (w.f[k + 1] - w.f[k - 1]) / 2.0;
                let want = 4.0 * (30.0 * df * 2.0 * PI / nd as f64).sqrt();
                ensure!(close(hs, want, 0.09, 0.0), "height {hs} for one bin holding {want}");
            }
            c.saw("lone systems");
        }
        let mut m = g.clone();
        m.to_units(&UnitSystem::English);
        near("depth", &m.depth, ft(Some(p[2])), Unit::Feet)?;
        near("wind speed", &m.wind_speed, Some(p[3] * 3600.0 / 1609.344), Unit::MilesPerHour)?;
    }
    if !recs.is_empty() {
        c.nontrivial(hash_str(&w.text));
    }
    Ok(())
}

// ---- D05 -------------------------------------------------------------------------------

struct IdxRow {
    text: String,
    index: usize,
    offset: usize,
    date: DateTime<Utc>,
    f: [String; 3],
}

fn idx_row(r: &mut Rng, i: usize, off: usize, t: DateTime<Utc>) -> IdxRow {
    let var = r.pick(&["HTSGW", "WVHGT", "REFC", "UGRD", "VGRD", "SWPER", "var discipline=0 center=7 local_table=1 parmcat=16 parm=201", "DIRPW"]).to_string();
    let var = if r.chance(0.2) { mon::gen::phrase(r, 60, ":\"") } else { var };
    let level = r.pick(&["surface", "2 hybrid level", "entire atmosphere", "1 in sequence", "10 m above ground", "cloud top", "0.33-1 mb", "90-0 mb above ground", "PV=-2e-06 (Km^2/kg/s) surface"]).to_string();
    let level = if r.chance(0.2) { mon::gen::phrase(r, 60, ":\"") } else { level };
    let valid = match r.below(6) {
        0 => "anl".to_string(),
        2 => format!("0-{} day ave fcst", r.int(1, 16)),
        3 => format!("{}-{} hour acc fcst", if r.chance(0.5) { 0 } else { r.int(0, 9) }, r.int(10, 384)),
        4 => mon::gen::phrase(r, 60, ":\""),
        1 => format!("{} hour fcst", r.int(0, 384)),
        _ => format!("{} min fcst", r.int(1, 999)),
    };
    let end = *r.pick(&[":", "", ":ens mean:", ":ENS=+12", ":prob >0.1:prob fcst 3/30", ":ENS=low-res ctl:a:b:c:", ":1:2:3:4:5:6:7:8"]);
    IdxRow { text: format!("{i}:{off}:d={}:{var}:{level}:{valid}{end}", t.format("%Y%m%d%H")), index: i, offset: off, date: t, f: [var, level, valid] }
}

fn indexes(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if r.chance(0.002) { r.usize(300, 3000) } else { r.size(0, 30) };
    let t = {
        let d = date(r);
        Utc.with_ymd_and_hms(d.year(), d.month(), d.day(), d.hour(), 0, 0).unwrap()
    };
    let from = if r.chance(0.2) { r.log(1.0, 1e9) as usize } else { 0 };
    let mut off = 0usize;
    let rows: Vec<IdxRow> = (0..n)
        .map(|i| {
            // indexes put together from several have numbers and offsets in any order
            let number = if r.chance(0.05) { r.usize(0, n) } else { from + i + 1 };
            let at = if r.chance(0.05) { r.log(1.0, 5e9) as usize - 1 } else { off };
            let w = idx_row(r, number, at, t);
            off += r.log(1.0, 5e9) as usize;
            w
        })
        .collect();
    let text: String = rows.iter().map(|w| format!("{}\n", w.text)).collect();
    c.describe(|| text.clone());
    let mut col = GribIndexRecordCollection::from_data(&text);
    let got: Vec<GribIndexRecord> = col.records().collect();
    ensure!(got.len() == n, "{} records from {n} rows", got.len());
    for (g, w) in got.iter().zip(&rows) {
        ensure!(g.index == w.index && g.offset == w.offset, "message {} at {}, the index says {} at {}", g.index, g.offset, w.index, w.offset);
        ensure!(g.reference_date == w.date, "date {} for {}", g.reference_date, w.date);
        ensure!([&g.var, &g.level, &g.valid] == [&w.f[0], &w.f[1], &w.f[2]], "fields {:?}, the index says {:?}", (&g.var, &g.level, &g.valid), w.f);
        c.saw("rows compared");
    }
    if n > 0 {
        c.nontrivial(hash_str(&text));
    }
    Ok(())
}

// ---- D06 -------------------------------------------------------------------------------

fn tides(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if r.chance(0.002) { r.usize(400, 3000) } else { r.size(0, 40) };
    let mut want: Vec<(DateTime<Utc>, f64, Option<TidalEvent>)> = vec![];
    let mut items = vec![];
    for _ in 0..n {
        let t = match want.last() {
            Some((t, ..)) if r.chance(0.05) => *t,
            _ => date(r),
        };
        let d = r.usize(0, 5);
        let (s, v) = match r.below(8) {
            0 => num(r, -60.0, 80.0, d),
            1 => {
                let s = r.pick(&["0", "0.000", "-0.001", "99.000", "999", "-9.9"]).to_string();
                let v = s.parse().unwrap();
                (s, v)
            }
            _ => num(r, -4.0, 14.0, 3),
        };
        let ev = match r.below(3) {
            0 => Some(TidalEvent::High),
            1 => Some(TidalEvent::Low),
            _ => None,
        };
        let val = if r.chance(0.7) { format!("\"{s}\"") } else if r.chance(0.3) { format!("{}", v.round() as i64) } else { s.clone() };
        let v = if val.starts_with('"') { v } else { val.parse().unwrap() };
        let mut item = format!("{{\"t\":\"{}\", \"v\":{val}", t.format("%Y-%m-%d %H:%M"));
        if let Some(e) = &ev {
            item.push_str(&format!(", \"type\":\"{}\"", if *e == TidalEvent::High { "H" } else { "L" }));
        } else if r.chance(0.2) {
            item.push_str(", \"type\":null");
        }
        if r.chance(0.05) {
            item.push_str(", \"s\":\"0.010\", \"f\":\"0,0,0,0\"");
        }
        item.push('}');
        items.push(item);
        want.push((t, v, ev));
    }
    let text = format!("{{\"predictions\": [{}]}}", items.join(",\n"));
    c.describe(|| text.clone());
    let got = match TidalDataRecordCollection::from_json(&text) {
        Ok(g) => g,
        Err(e) => return violation(format!("tide predictions refused: {e}")),
    };
    ensure!(got.records.len() == n, "{} records from {n}", got.records.len());
    for (g, (t, v, e)) in got.records.iter().zip(&want) {
        ensure!(g.date == *t, "tide at {t} is dated {}", g.date);
        ensure!(close(g.value, *v, 1e-12, 0.0), "tide {} for {v}", g.value);
        ensure!(g.event == *e, "event {:?} for {e:?}", g.event);
        c.saw("tides compared");
    }
    if n > 0 {
        c.nontrivial(hash_str(&text));
    }
    Ok(())
}

fn stations(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if r.chance(0.003) { r.usize(300, 3000) } else { r.size(1, 25) };
    let mut want: Vec<(String, String, f64, f64, String)> = vec![];
    let mut items = vec![];
    for i in 0..n {
        let id = match r.below(8) {
            0 if i > 0 => want[r.below(i)].0.clone(),
            // ids that begin or end like another
            1 if i > 0 => format!("{}{}", want[r.below(i)].0, r.int(0, 9)),
            2 if i > 0 => format!("{}{}", r.int(1, 9), want[r.below(i)].0),
            3 => format!("{}{:04}", r.pick(&["TWC", "TEC", "tpt"]), r.int(0, 9999)),
            4 => format!("{:07}", r.int(0, 99999)),
            5 if i > 0 => format!("0{}", want[r.below(i)].0),
            _ => r.int(1000000, 9999999).to_string(),
        };
        let name = r.pick(&["NEWPORT", "Nonopapa, Niihau Island", "Pointe-\u{e0}-P\u{ee}tre", "Providence, State Pier no. 1", ""]).to_string();
        let name = if r.chance(0.3) { mon::gen::phrase(r, 60, "\"\\") } else { name };
        let east = if r.chance(0.2) { 360.0 } else { 180.0 };
        let (la, lo) = (num(r, -90.0, 90.0, 4).1, num(r, -180.0, east, 4).1);
        let st = r.pick(&["RI", "HI", "", "CA"]).to_string();
        items.push(format!("{{\"state\":\"{st}\",\"tidepredoffsets\":{{\"self\":\"x\"}},\"type\":\"R\",\"timemeridian\":0,\"reference_id\":\"{id}\",\"id\":\"{id}\",\"name\":\"{name}\",\"lat\":{la},\"lng\":{lo},\"products\":null,\"tideType\":\"\"}}"));
        want.push((id, name, la, lo, st));
    }
    // the count a list carries need not be that of its stations
    let count = if r.chance(0.2) { r.usize(0, n + 2) } else { n };
    let text = format!("{{\"count\": {count}, \"units\": null, \"stations\": [{}]}}", items.join(","));
    c.describe(|| text.clone());
    let g = TideStations::from_raw_data(&text);
    ensure!((g.station_count == n || g.station_count == count) && g.stations.len() == n, "{} stations, counted {}", g.stations.len(), g.station_count);
    for (s, (id, name, la, lo, st)) in g.stations.iter().zip(&want) {
        ensure!(s.id() == id && s.station_id == *id && s.name() == *name && s.state == *st, "station {} {:?} {:?}, the list says {id} {name:?} {st:?}", s.station_id, s.name, s.state);
        let l = s.location();
        ensure!(close(l.latitude, *la, 1e-12, 0.0) && close(l.longitude, *lo, 1e-12, 0.0) && l.name == *name, "station {id} at {},{}, the list says {la},{lo}", l.latitude, l.longitude);
        let f = serde_json::to_value(s.as_feature()).map_err(|e| Fail::Undecided(e.to_string()))?;
        let xy = &f["geometry"]["coordinates"];
        ensure!(f["geometry"]["type"] == "Point" && close(xy[0].as_f64().unwrap_or(f64::NAN), *lo, 1e-12, 0.0) && close(xy[1].as_f64().unwrap_or(f64::NAN), *la, 1e-12, 0.0), "feature of {id} at {xy}, the list says {la},{lo}");
        ensure!(f["properties"]["id"] == **id && f["properties"]["name"] == **name && f["properties"]["state"] == **st, "feature of {id} has {}", f["properties"]);
        c.saw("stations compared");
    }
    for _ in 0..4 {
        let r = &mut c.rng;
        let w = want[r.below(n)].0.clone();
        // ids of the list, parts of them, near ones, other fields
        let probe = match r.below(14) {
            12 => format!("0{w}"),
            13 => w.trim_start_matches('0').to_string(),
            0 => w[1..].to_string(),
            1 => w[..w.len() - 1].to_string(),
            2 => w.to_lowercase(),
            3 => w.to_uppercase(),
            4 => format!("{w}{}", r.pick(&["", "0", " "])),
            5 => r.pick(&["", "0000000", "NEWPORT", "RI"]).to_string(),
            6 => w.parse::<i64>().map_or(w.clone(), |k| (k + r.int(-1, 1)).to_string()),
            _ => w,
        };
        let first = want.iter().find(|w| w.0 == probe);
        match (g.find_station_by_id(&probe), first) {
            (None, None) => c.saw("absent stations"),
            (Some(s), Some(w)) => {
                ensure!(s.station_id == w.0 && want.iter().any(|x| x.0 == w.0 && x.1 == s.name && x.4 == s.state && close(s.latitude, x.2, 1e-12, 0.0)), "station {probe} found as {} at {}", s.station_id, s.latitude);
                c.saw("stations found");
            }
            (a, b) => return violation(format!("looking up {probe:?}: {:?}, the list has {b:?}", a.map(|s| s.station_id))),
        }
    }
    let again = TideStations::from_stations(g.stations.clone());
    ensure!(again.station_count == n && again.stations.len() == n, "{} stations counted as {}", n, again.station_count);
    c.nontrivial(hash_str(&text));
    Ok(())
}

// ---- D07 -------------------------------------------------------------------------------

fn forecast_json(r: &mut Rng) -> (String, Vec<Value>) {
    let n = r.size(0, 12);
    let mut t = date(r);
    let mut periods = vec![];
    for i in 0..n {
        let zone = if r.chance(0.2) { r.int(-23, 26) * 1800 } else { r.int(-11, 12) * 3600 };
        let stamp = |t: DateTime<Utc>| {
            let off = chrono::FixedOffset::east_opt(zone as i32).unwrap();
            t.with_timezone(&off).format("%Y-%m-%dT%H:%M:%S%:z").to_string()
        };
        let (speed, unit) = (if r.chance(0.1) { r.int(0, 250) } else { r.int(0, 60) }, *r.pick(&["mph", "mph", "kt", "m/s"]));
        let wind = match r.below(4) {
            0 => format!("{speed} to {} {unit}", speed + r.int(1, 40)),
            1 if r.chance(0.3) => format!("{speed}.5 {unit}"),
            _ => format!("{speed} {unit}"),
        };
        let end = t + match r.below(20) {
            0 => Duration::zero(),
            1 => Duration::seconds(r.int(-90000, 0)),
            k if k < 15 => Duration::hours(1),
            _ => Duration::seconds(r.int(1, 90000)),
        };
        let wmo = |r: &mut Rng, unit: &str, lo: f64, hi: f64| {
            let v = match r.below(6) {
                0 => Value::Null,
                1 | 2 => Value::from(r.f(lo, hi).round() as i64),
                _ => Value::from(r.f(lo, hi)),
            };
            serde_json::json!({"unitCode": unit, "value": v})
        };
        let (dir, _) = *r.pick(&COMPASS);
        let dir = if r.chance(0.1) { "" } else { dir };
        let (pop, dew, hum) = (wmo(r, "wmoUnit:percent", 0.0, 100.0), wmo(r, "wmoUnit:degC", -30.0, 30.0), wmo(r, "wmoUnit:percent", 0.0, 100.0));
        periods.push(serde_json::json!({
            "number": if r.chance(0.1) { r.usize(0, n) } else { i + 1 }, "name": *r.pick(&["", "", "Tonight", "This Afternoon", "Overnight", "Monday", "Monday Night", "Day of Light", "Night"]), "startTime": stamp(t), "endTime": stamp(end), "isDaytime": r.chance(0.5),
            "temperature": if r.chance(0.8) { Value::from(r.int(-80, 140)) } else { Value::from(r.f(-90.0, 140.0)) },
            "temperatureUnit": *r.pick(&["F", "F", "wmoUnit:degC", "K"]),
            "temperatureTrend": if r.chance(0.5) { Value::Null } else { Value::from("") },
            "probabilityOfPrecipitation": pop, "dewpoint": dew, "relativeHumidity": hum,
            "windSpeed": wind, "windDirection": dir,
            "icon": format!("https://api.weather.gov/icons/land/day/few,{i}?size=small&x={}", r.int(0, 9)), "shortForecast": mon::gen::phrase(r, 60, ""), "detailedForecast": if r.chance(0.1) { String::new() } else { format!("\"{}\"\n {}", mon::gen::phrase(r, 99, ""), r.int(0, 99)) },
        }));
        t = match r.below(20) {
            0 => t,
            1 => date(r),
            _ => end,
        };
    }
    let doc = serde_json::json!({"type": "Feature", "geometry": {"type": "Polygon", "coordinates": []}, "properties": {
        "units": "us", "forecastGenerator": "HourlyForecastGenerator", "generatedAt": "2024-09-14T18:15:07+00:00", "updateTime": "2024-09-14T16:53:19+00:00",
        "validTimes": "2024-09-14T10:00:00+00:00/P8DT6H", "elevation": {"unitCode": "wmoUnit:m", "value": 0}, "periods": periods.clone()}});
    (doc.to_string(), periods)
}

fn weather(c: &mut Case) -> R {
    let (text, periods) = forecast_json(&mut c.rng);
    c.describe(|| text.clone());
    let got = match NwsWeatherForecastDataRecordCollection::from_json(&text) {
        Ok(g) => g.records(),
        Err(e) => return violation(format!("forecast refused: {e}")),
    };
    ensure!(got.len() == periods.len(), "{} records from {} periods", got.len(), periods.len());
    for (g, p) in got.iter().zip(&periods) {
        let time = |k: &str| DateTime::parse_from_rfc3339(p[k].as_str().unwrap()).unwrap().with_timezone(&Utc);
        ensure!(g.start_time == time("startTime") && g.end_time == time("endTime"), "period {} to {}, the feed says {} to {}", g.start_time, g.end_time, p["startTime"], p["endTime"]);
        ensure!(Value::from(g.is_daytime) == p["isDaytime"], "daytime {}", g.is_daytime);
        let tu = match p["temperatureUnit"].as_str().unwrap() {
            "F" => Unit::Fahrenheit,
            "K" => Unit::Kelvin,
            _ => Unit::Celsius,
        };
        same("temperature", &g.temperature, p["temperature"].as_f64(), tu)?;
        same("dewpoint", &g.dewpoint, p["dewpoint"]["value"].as_f64(), Unit::Celsius)?;
        same("humidity", &g.humidity, p["relativeHumidity"]["value"].as_f64(), Unit::Percent)?;
        let w: Vec<&str> = p["windSpeed"].as_str().unwrap().split(' ').collect();
        let wu = match *w.last().unwrap() {
            "mph" => Unit::MilesPerHour,
            "kt" => Unit::Knots,
            _ => Unit::MetersPerSecond,
        };
        same("wind speed", &g.wind_speed, Some(w[0].parse().unwrap()), wu)?;
        let d = p["windDirection"].as_str().unwrap();
        same_dir("wind direction", &g.wind_direction, COMPASS.iter().find(|k| k.0 == d).map(|k| (k.1, 1.6)))?;
        named!(g.temperature => "temperature", g.dewpoint => "dewpoint", g.humidity => "humidity", g.wind_speed => "wind speed", g.wind_direction => "wind direction");
        ensure!(Value::from(g.icon.clone()) == p["icon"] && Value::from(g.short_forecast.clone()) == p["shortForecast"] && Value::from(g.detailed_forecast.clone()) == p["detailedForecast"], "texts differ: {:?} {:?} {:?}", g.icon, g.short_forecast, g.detailed_forecast);
        c.saw("periods compared");
        if w.len() > 2 {
            c.saw("wind ranges");
        }
        if p["dewpoint"]["value"].is_null() {
            c.saw("absent values");
        }
    }
    let r = &mut c.rng;
    let (office, x, y) = (*r.pick(&["BOX", "OKX", "HFO"]), r.usize(0, 400), r.usize(0, 400));
    let j = format!("{{\"id\": \"https://x\", \"properties\": {{\"gridId\": \"{office}\", \"gridX\": {x}, \"gridY\": {y}, \"forecast\": \"u\"}}}}");
    match NwsGridPointData::from_json(&j) {
        Ok(g) => ensure!(g.properties.grid_id == office && g.properties.grid_x == x && g.properties.grid_y == y, "grid point {:?} from {j}", g.properties),
        Err(e) => return violation(format!("grid point refused: {e}")),
    }
    if !periods.is_empty() {
        c.nontrivial(hash_str(&text));
    }
    Ok(())
}

// ---- D08 -------------------------------------------------------------------------------

fn junk(r: &mut Rng) -> String {
    r.pick(&["MM", "", "-", "--", "x", "\u{e9}\u{e9}", "\u{1F30A}", "1e400", "NaN", "inf", "-1", "99", "0", "13", "32", "60", "61", "24", "2023", "99999999999999999999", "d=2023", "d=2023051599", "12:00", "(", ")", "()", "(0.1", "0.1)", "1.5", "+", "2147483648", "0.0.0", "+5", "0x10", "31", "02"]).to_string()
}

/// Damages a row of separated tokens
fn damage(r: &mut Rng, row: &str, sep: char) -> String {
    let mut k: Vec<String> = row.split(sep).map(|s| s.to_string()).collect();
    for _ in 0..r.usize(1, 3) {
        match r.below(6) {
            0 => {
                let n = r.below(k.len() + 1);
                k.truncate(n);
            }
            1 | 2 => {
                if !k.is_empty() {
                    let i = r.below(k.len());
                    k[i] = junk(r);
                }
            }
            3 => {
                let i = r.below(k.len() + 1);
                k.insert(i, junk(r));
            }
            4 => {
                if !k.is_empty() {
                    let i = r.below(k.len());
                    k.remove(i);
                }
            }
            _ => {
                // the first fields: dates, indexes
                if !k.is_empty() {
                    let i = r.below(k.len().min(5));
                    k[i] = junk(r);
                }
            }
        }
    }
    k.join(&sep.to_string())
}

fn shown<T: std::fmt::Debug>(v: &[T]) -> Vec<String> {
    v.iter().map(|x| format!("{x:?}")).collect()
}

/// The whole text reads as its rows read one by one, and good rows are all there.
fn independent(c: &mut Case, head: &str, rows: &[(String, bool)], read: impl Fn(&str) -> Vec<String>) -> R {
    let text: String = head.to_string() + &rows.iter().map(|r| format!("{}\n", r.0)).collect::<String>();
    c.describe(|| text.clone());
    let all = read(&text);
    let mut want = vec![];
    for (row, good) in rows {
        let one = read(&format!("{head}{row}\n"));
        ensure!(one.len() <= 1, "one row reads as {} records: {row:?}", one.len());
        ensure!(!good || one.len() == 1, "a good row is lost: {row:?}");
        c.saw(if one.is_empty() { "rows refused" } else if *good { "good rows" } else { "damaged rows read" });
        want.extend(one);
    }
    ensure!(all == want, "the rows read together as {all:?}, one by one as {want:?}");
    if rows.iter().any(|r| !r.1) {
        c.nontrivial(hash_str(&text));
    }
    Ok(())
}

fn damaged(c: &mut Case) -> R {
    let kind = c.rng.below(5);
    let n = c.rng.size(1, 8);
    let mut rows: Vec<(String, bool)> = vec![];
    let bad = |r: &mut Rng, good: String, sep: char| -> (String, bool) {
        if r.chance(0.5) {
            (good, true)
        } else {
            (damage(r, &good, sep), false)
        }
    };
    match kind {
        0 => {
            for _ in 0..n {
                let w = wave_row(&mut c.rng).text;
                rows.push(bad(&mut c.rng, w, ' '));
            }
            independent(c, "#YY  MM DD hh mm\n", &rows, |t| shown(&WaveDataRecordCollection::from_data(t).records().collect::<Vec<_>>()))
        }
        1 => {
            for _ in 0..n {
                let nf = c.rng.usize(1, 6);
                let f = freq_text(&mut c.rng, nf);
                let v: Vec<(String, f64)> = (0..nf).map(|_| num(&mut c.rng, 0.0, 9.0, 3)).collect();
                let t = date(&mut c.rng);
                let sep = c.rng.chance(0.5);
                let w = spec_row(&mut c.rng, t, &f, sep, &v).text;
                rows.push(bad(&mut c.rng, w, ' '));
            }
            independent(c, "#YY  MM DD hh mm Sep_Freq\n", &rows, |t| shown(&SpectralWaveDataRecordCollection::from_data(t).records().collect::<Vec<_>>()))
        }
        2 => {
            for i in 0..n {
                let t = date(&mut c.rng);
                let w = idx_row(&mut c.rng, i, i * 1000, t).text;
                rows.push(bad(&mut c.rng, w, ':'));
            }
            independent(c, "", &rows, |t| shown(&GribIndexRecordCollection::from_data(t).records().collect::<Vec<_>>()))
        }
        3 => {
            let b = bulletin(&mut c.rng);
            let lines: Vec<&str> = b.text.lines().collect();
            let head: String = lines[..6].iter().map(|l| format!("{l}\n")).collect();
            for l in lines[6..].iter().filter(|l| l.starts_with(|c: char| c.is_ascii_digit())).take(n) {
                let l = l.trim_end().to_string();
                rows.push(bad(&mut c.rng, l, ' '));
            }
            independent(c, &head, &rows, |t| {
                let mut col = ForecastCBulletinWaveRecordCollection::from_data(t);
                let out = match col.records() {
                    Ok((_, it)) => {
                        let v: Vec<ForecastCBulletinWaveRecord> = it.collect();
                        for r in &v {
                            let _ = r.swell_data();
                        }
                        shown(&v)
                    }
                    Err(e) => vec![format!("refused: {e}"), String::new()],
                };
                out
            })
        }
        _ => {
            // rows handed over directly
            let mut k: Vec<String> = (0..c.rng.usize(0, 20)).map(|_| junk(&mut c.rng)).collect();
            if c.rng.chance(0.7) {
                let t = date(&mut c.rng);
                let d: Vec<String> = t.format("%Y %m %d %H %M").to_string().split(' ').map(|s| s.to_string()).collect();
                k = d.into_iter().chain(k).collect();
            }
            c.describe(|| format!("{k:?}"));
            let row: Vec<&str> = k.iter().map(|s| s.as_str()).collect();
            let a = WaveDataRecord::from_data_row(None, &row).is_ok();
            let b = SpectralWaveDataRecord::from_data_row(None, &row).is_ok();
            let d = GribIndexRecord::from_data_row(None, &row).is_ok();
            let meta = ForecastCBulletinWaveRecordMetadata { location: Location::new(1.0, 2.0, "x".into()), model_run_date: date(&mut c.rng) };
            let e = ForecastCBulletinWaveRecord::from_data_row(Some(&meta), &row).is_ok();
            let f = ForecastCBulletinWaveRecord::from_data_row(None, &row).is_ok();
            ensure!(!f, "a bulletin row is read without knowing the model run");
            c.count("rows refused", [a, b, d, e].iter().filter(|x| !**x).count() as u64);
            c.nontrivial(hash_str(&k.join(" ")));
            Ok(())
        }
    }
}

const NOT_A_NUMBER: [&str; 15] = ["MM", "x", "--", "12:00", "0.0.0", "0x10", "\u{e9}", "0.0-33", "1-2", "--1", "1,5", "1_0", "0.1f", "1e", "#1"];

/// A year, month, day, hour and minute of which one is unreadable or impossible
fn no_date(r: &mut Rng, k: &mut [String]) {
    let (i, v): (usize, String) = match r.below(7) {
        0 => (r.below(k.len()), r.pick(&NOT_A_NUMBER).to_string()),
        1 => (1, r.pick(&["0", "13", "00", "99"]).to_string()),
        2 => (2, r.pick(&["0", "32", "99"]).to_string()),
        3 => {
            k[1] = r.pick(&["02", "2", "04", "06", "09", "11"]).to_string();
            (2, "31".into())
        }
        4 => {
            k[0] = r.pick(&["2023", "1900", "2100", "2019"]).to_string();
            k[1] = "02".into();
            (2, "29".into())
        }
        5 => (3, r.pick(&["24", "25", "99"]).to_string()),
        _ => (k.len() - 1, r.pick(&["60", "61", "99"]).to_string()),
    };
    k[i] = v;
}

/// A field every record needs is missing, unreadable or impossible: no record, whatever the rest
fn unreadable(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.size(1, 6);
    let bad = r.below(n);
    let toks = |s: &str, sep: char| -> Vec<String> { s.split(sep).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect() };
    let mut lines: Vec<String> = vec![];
    let mut head = String::new();
    let kind = r.below(8);
    match kind {
        0 => {
            for i in 0..n {
                let mut k = toks(&wave_row(r).text, ' ');
                if i == bad {
                    if r.chance(0.7) {
                        no_date(r, &mut k[..5]);
                    } else {
                        k.truncate(r.below(15));
                    }
                }
                lines.push(k.join(" "));
            }
        }
        1 => {
            for i in 0..n {
                let nf = r.size(1, 8);
                let f = freq_text(r, nf);
                let v: Vec<(String, f64)> = (0..nf).map(|_| num(r, 0.0, 9.0, 3)).collect();
                let (t, sep) = (date(r), r.chance(0.5));
                let mut k = toks(&spec_row(r, t, &f, sep, &v).text, ' ');
                if i == bad {
                    let at = 5 + sep as usize + 2 * r.below(nf);
                    match r.below(4) {
                        0 => no_date(r, &mut k[..5]),
                        1 => k[at] = r.pick(&NOT_A_NUMBER).to_string(),
                        2 => k[at + 1] = format!("({})", r.pick(&NOT_A_NUMBER)),
                        _ => k.truncate(r.below(5)),
                    }
                }
                lines.push(k.join(" "));
            }
        }
        2 => {
            for i in 0..n {
                let t = date(r);
                let mut k = toks(&idx_row(r, i + 1, 1000 * i, t).text, ':');
                if i == bad {
                    match r.below(4) {
                        0 => k[0] = r.pick(&["x", "MM", "1.5.5", "-1", "1 2"]).to_string(),
                        1 => k[1] = r.pick(&["x", "MM", "0x10", "-1", "1.5"]).to_string(),
                        2 => k[2] = r.pick(&["d=2023130100", "d=2023023000", "d=2023010124", "2023010100", "d=", "d=20230101", "anl"]).to_string(),
                        _ => k.truncate(r.below(6)),
                    }
                }
                lines.push(k.join(":"));
            }
        }
        3 => {
            let b = loop {
                let b = bulletin(r);
                if b.rows.iter().any(|x| !x.2.is_empty()) {
                    break b;
                }
            };
            head = b.text.lines().take(6).map(|l| format!("{l}\n")).collect();
            let rows: Vec<&str> = b.text.lines().skip(6).take(b.rows.len()).collect();
            for i in 0..n {
                let at = loop {
                    let at = r.below(rows.len());
                    if i != bad || !b.rows[at].2.is_empty() {
                        break at;
                    }
                };
                let mut k = toks(rows[at], ' ');
                if i == bad {
                    let j = 2 + r.below(k.len() - 2);
                    match r.below(5) {
                        0 => k[0] = r.pick(&["", "x", "3", "3200", "0024", "0000", "ab00", "01xx", "0124", "9900"]).to_string(),
                        1 | 2 => k[j] = r.pick(&NOT_A_NUMBER).to_string(),
                        3 => {
                            k.remove(j);
                        }
                        _ => k.insert(j, "07".into()),
                    }
                    k.retain(|s| !s.is_empty());
                }
                lines.push(k.join(" "));
            }
        }
        4 => {
            for i in 0..n {
                let t = date(r);
                let mut when = t.format("%Y-%m-%d %H:%M").to_string();
                let mut v = format!("\"{}\"", num(r, -2.0, 5.0, 3).0);
                let mut item = None;
                if i == bad {
                    match r.below(4) {
                        0 => when = r.pick(&["2023-02-30 10:00", "2023-13-01 10:00", "2023-01-01 24:00", "2023-01-01 10:60", "2023-01-01", "", "x", "10:00"]).to_string(),
                        1 => v = r.pick(&["\"MM\"", "\"\"", "null", "true", "[1]", "\"1,5\"", "{}"]).to_string(),
                        2 => item = Some(format!("{{\"v\":{v}}}")),
                        _ => item = Some(format!("{{\"t\":\"{when}\"}}")),
                    }
                }
                lines.push(item.unwrap_or(format!("{{\"t\":\"{when}\",\"v\":{v}}}")));
            }
        }
        5 => {
            let (doc, periods) = forecast_json(r);
            if periods.is_empty() {
                return Ok(());
            }
            let mut doc: Value = serde_json::from_str(&doc).unwrap();
            let p = &mut doc["properties"]["periods"][r.below(periods.len())];
            match r.below(4) {
                0 => {
                    let k = *r.pick(&["startTime", "endTime", "temperature", "windSpeed", "dewpoint", "relativeHumidity", "isDaytime", "windDirection"]);
                    p.as_object_mut().unwrap().remove(k);
                }
                1 => p[*r.pick(&["startTime", "endTime"])] = Value::from(*r.pick(&["2023-02-30T10:00:00+00:00", "2023-01-01T25:00:00+00:00", "soon", "2023-13-01T10:00:00-05:00", "2023-01-01 10:00"])),
                2 => p[*r.pick(&["startTime", "endTime", "temperature"])] = Value::Null,
                _ => p["temperature"] = Value::from("warm"),
            }
            let text = doc.to_string();
            c.describe(|| text.clone());
            if let Ok(g) = NwsWeatherForecastDataRecordCollection::from_json(&text) {
                ensure!(g.records().len() < periods.len(), "a period lacking a required field becomes a record");
            }
            c.saw("unreadable rows refused");
            c.nontrivial(hash_str(&text));
            return Ok(());
        }
        _ => {
            // headers
            let text = if r.chance(0.5) {
                let w = loop {
                    let w = ww3(r);
                    if !w.recs.is_empty() {
                        break w;
                    }
                };
                let (nf, nd) = (w.f.len().div_ceil(8), w.d.len().div_ceil(7));
                let mut l: Vec<String> = w.text.lines().map(|s| s.to_string()).collect();
                match r.below(4) {
                    0 => l[0] = r.pick(&["", "'WAVEWATCH III SPECTRA'", "'WAVEWATCH III SPECTRA'     xx    36     1 'x'", "'SWAN'     50    36     1 'x'"]).to_string(),
                    1 | 2 => {
                        let i = 1 + r.below(nf + nd);
                        let mut k = toks(&l[i], ' ');
                        let j = r.below(k.len());
                        k[j] = r.pick(&NOT_A_NUMBER).to_string();
                        l[i] = k.join(" ");
                    }
                    _ => l.truncate(r.below(1 + nf + nd)),
                }
                l.join("\n")
            } else {
                let b = bulletin(r);
                let mut l: Vec<String> = b.text.lines().map(|s| s.to_string()).collect();
                match r.below(4) {
                    0 => l[0] = r.pick(&["", "Location : 44097", "Location : 44097      (41.00X  71.00W)", "Location : 44097      (x  y)", "44097 (41.00N  71.00W)"]).to_string(),
                    1 | 2 => l[2] = r.pick(&["", "Cycle    : 20231301  6 UTC", "Cycle    : 20230230  6 UTC", "Cycle    : 20230101 24 UTC", "Cycle    : 202301  6 UTC", "Cycle    :", "Cycle    : 20230101 UTC", "Cycle    : soon"]).to_string(),
                    _ => l.truncate(r.below(3)),
                }
                l.join("\n")
            };
            c.describe(|| text.clone());
            let mut col = ForecastCBulletinWaveRecordCollection::from_data(&text);
            let a = col.records().map_or(0, |(_, it)| it.count());
            let b = ww3_read(&text).map_or(0, |v| v.1.len());
            ensure!(a == 0 && b == 0, "{} records under an unreadable header", a + b);
            c.saw("unreadable headers refused");
            c.nontrivial(hash_str(&text));
            return Ok(());
        }
    }
    let good: Vec<String> = lines.iter().enumerate().filter(|(i, _)| *i != bad).map(|(_, l)| l.clone()).collect();
    let read = |l: &[String]| -> Vec<String> {
        let text = head.clone() + &l.iter().map(|l| format!("{l}\n")).collect::<String>();
        match kind {
            0 => shown(&WaveDataRecordCollection::from_data(&text).records().collect::<Vec<_>>()),
            1 => shown(&SpectralWaveDataRecordCollection::from_data(&text).records().collect::<Vec<_>>()),
            2 => shown(&GribIndexRecordCollection::from_data(&text).records().collect::<Vec<_>>()),
            3 => {
                let mut col = ForecastCBulletinWaveRecordCollection::from_data(&text);
                let v = col.records().map_or(vec![], |(_, it)| shown(&it.collect::<Vec<_>>()));
                v
            }
            _ => TidalDataRecordCollection::from_json(&format!("{{\"predictions\":[{}]}}", l.join(","))).map_or(vec![], |g| shown(&g.records)),
        }
    };
    c.describe(|| lines.join("\n"));
    let (with, without) = (read(&lines), read(&good));
    ensure!(without.len() == n - 1, "{} records from {} good rows", without.len(), n - 1);
    ensure!(with.len() < n, "a row lacking a required field becomes a record: {}", lines[bad]);
    ensure!(with == without || (kind == 4 && with.is_empty()), "with the row {:?} among them, the good rows read differently", lines[bad]);
    c.saw("unreadable rows refused");
    c.nontrivial(hash_str(&lines.join("\n")));
    Ok(())
}

fn mangle(r: &mut Rng, s: &str) -> String {
    let mut k: Vec<char> = s.chars().collect();
    for _ in 0..r.usize(1, 6) {
        if k.is_empty() {
            break;
        }
        let i = r.below(k.len());
        match r.below(5) {
            0 => k.truncate(i),
            1 => {
                k.remove(i);
            }
            2 => k[i] = *r.pick(&['0', '9', '-', '.', ' ', '\n', 'E', '\u{e9}', '\u{1F30A}', '\'', '(', '{', '"', ',', ':']),
            3 => k.insert(i, *r.pick(&['0', '9', '-', '.', ' ', '\n', 'x', '\u{e9}', '}', ']'])),
            _ => {
                let j = (i + r.usize(1, 40)).min(k.len());
                k.drain(i..j);
            }
        }
    }
    k.into_iter().collect()
}

fn mangled(c: &mut Case) -> R {
    match c.rng.below(6) {
        0 | 1 => {
            let w = ww3(&mut c.rng);
            let t = if c.rng.chance(0.2) { mangle(&mut c.rng, &w.text[..w.text.len().min(900)]) } else { mangle(&mut c.rng, &w.text) };
            c.describe(|| t.clone());
            match ww3_read(&t) {
                Ok((m, recs)) => {
                    for g in &recs {
                        let n = m.frequency.len() * m.direction.len();
                        ensure!(g.spectra.energy.len() == n && g.spectra.frequency.len() == m.frequency.len() && g.spectra.direction_raw().len() == m.direction.len(), "a record carries {} energies for a grid of {n}", g.spectra.energy.len());
                    }
                    c.saw("mangled files read in part");
                }
                Err(_) => c.saw("mangled files refused"),
            }
            c.nontrivial(hash_str(&t));
        }
        2 => {
            // a record cut short: later records are still there, the first ones unharmed
            let w = ww3(&mut c.rng);
            if w.recs.len() < 3 {
                return Ok(());
            }
            let nf_nd = w.f.len() * w.d.len();
            let rows = nf_nd.div_ceil(7);
            let head = 1 + w.f.len().div_ceil(8) + w.d.len().div_ceil(7);
            let mut lines: Vec<&str> = w.text.lines().collect();
            let cut = c.rng.below(w.recs.len());
            let at = head + cut * (rows + 2);
            // drop the record's date line or its point line, or one row of energies
            match c.rng.below(3) {
                0 => lines[at] = "bad line",
                1 => lines[at + 1] = "bad line",
                _ => lines[at + 2 + c.rng.below(rows)] = "0.100-100",
            }
            let t = lines.join("\n");
            c.describe(|| t.clone());
            let (_, got) = ww3_read(&t).map_err(|e| Fail::Violation { key: String::new(), msg: format!("one bad record refuses the file: {e}") })?;
            let mut want: Vec<&(DateTime<Utc>, [f64; 7], Vec<f64>)> = w.recs.iter().collect();
            want.remove(cut);
            ensure!(got.len() == want.len(), "{} records left of {} after one bad record", got.len(), w.recs.len());
            for (g, x) in got.iter().zip(want) {
                ensure!(g.date == x.0 && g.spectra.energy == x.2, "record for {} is damaged by another", x.0);
                c.saw("records surviving another's damage");
            }
            c.nontrivial(hash_str(&t));
        }
        3 => {
            let b = bulletin(&mut c.rng);
            let h: String = b.text.lines().take(6).map(|l| format!("{l}\n")).collect();
            let t = mangle(&mut c.rng, &h);
            c.describe(|| t.clone());
            let ok = t.parse::<ForecastCBulletinWaveRecordMetadata>().is_ok();
            let mut col = ForecastCBulletinWaveRecordCollection::from_data(&t);
            let ok2 = col.records().map(|(_, it)| it.count()).is_ok();
            ensure!(ok == ok2, "header accepted {ok} alone, {ok2} with its records");
            c.saw(if ok { "mangled headers read" } else { "mangled files refused" });
            c.nontrivial(hash_str(&t));
        }
        4 => {
            let (j, _) = forecast_json(&mut c.rng);
            let t = if c.rng.chance(0.5) { mangle(&mut c.rng, &j) } else { j.replace(*c.rng.pick(&[" mph", " kt", "to ", "windSpeed", "\"F\"", "percent"]), "") };
            c.describe(|| t.clone());
            match NwsWeatherForecastDataRecordCollection::from_json(&t) {
                Ok(g) => {
                    let _ = g.records().len();
                    c.saw("mangled files read in part");
                }
                Err(_) => c.saw("mangled files refused"),
            }
            c.nontrivial(hash_str(&t));
        }
        _ => {
            let t = date(&mut c.rng);
            let j = format!("{{\"predictions\": [{{\"t\":\"{}\", \"v\":\"{}\"}}]}}", t.format("%Y-%m-%d %H:%M"), junk(&mut c.rng));
            let t = mangle(&mut c.rng, &j);
            c.describe(|| t.clone());
            let ok = TidalDataRecordCollection::from_json(&t).is_ok();
            let _ = NwsGridPointData::from_json(&t).is_ok();
            c.saw(if ok { "mangled files read in part" } else { "mangled files refused" });
            c.nontrivial(hash_str(&t));
        }
    }
    Ok(())
}

// ---- D09 -------------------------------------------------------------------------------

fn json_close(a: &Value, b: &Value, at: &str) -> R {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            ensure!(close(x.as_f64().unwrap(), y.as_f64().unwrap(), 1e-12, 0.0), "{at}: {x} comes back as {y}");
            Ok(())
        }
        (Value::Array(x), Value::Array(y)) => {
            ensure!(x.len() == y.len(), "{at}: {} items come back as {}", x.len(), y.len());
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                json_close(p, q, &format!("{at}[{i}]"))?;
            }
            Ok(())
        }
        (Value::Object(x), Value::Object(y)) => {
            ensure!(x.len() == y.len(), "{at}: {} fields come back as {}", x.len(), y.len());
            for (k, p) in x {
                let Some(q) = y.get(k) else { return violation(format!("{at}.{k} is lost")) };
                json_close(p, q, &format!("{at}.{k}"))?;
            }
            Ok(())
        }
        _ => {
            ensure!(a == b, "{at}: {a} comes back as {b}");
            Ok(())
        }
    }
}

/// Text with its numbers taken out, and the numbers
fn skeleton(s: &str) -> (String, Vec<f64>) {
    let (mut text, mut nums) = (String::new(), vec![]);
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let starts = b[i].is_ascii_digit() || (b[i] == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit());
        if starts && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == b'.' || b[j] == b'e' || (b[j] == b'-' && b[j - 1] == b'e')) {
                j += 1;
            }
            if let Ok(v) = s[i..j].parse() {
                nums.push(v);
                text.push('#');
                i = j;
                continue;
            }
        }
        let w = s[i..].chars().next().unwrap();
        text.push(w);
        i += w.len_utf8();
    }
    (text, nums)
}

fn there_and_back<T: serde::Serialize + serde::de::DeserializeOwned + std::fmt::Debug>(c: &mut Case, what: &'static str, v: &T) -> R {
    let s = match serde_json::to_string(v) {
        Ok(s) => s,
        Err(e) => return violation(format!("{what} cannot be written: {e}")),
    };
    let back: T = match serde_json::from_str(&s) {
        Ok(b) => b,
        Err(e) => return violation(format!("{what} cannot be read back: {e}: {}", s.chars().take(200).collect::<String>())),
    };
    let a = serde_json::to_value(v).unwrap();
    let b = serde_json::to_value(&back).unwrap();
    json_close(&a, &b, what)?;
    // what the writing leaves out shows in the values themselves
    let ((ta, na), (tb, nb)) = (skeleton(&format!("{v:?}")), skeleton(&format!("{back:?}")));
    ensure!(ta == tb, "{what}: {v:?} comes back as {back:?}");
    if let Some(i) = kit::num::vclose(&na, &nb, 1e-12, 0.0) {
        return violation(format!("{what}: {} comes back as {}", na.get(i).copied().unwrap_or(f64::NAN), nb.get(i).copied().unwrap_or(f64::NAN)));
    }
    c.count("numbers read back", na.len() as u64);
    c.saw("values read back");
    c.distinct("types", hash_str(what));
    c.nontrivial(mix(hash_str(&s)));
    Ok(())
}

fn json(c: &mut Case) -> R {
    match c.rng.below(11) {
        8 => {
            let s = some_swell(&mut c.rng);
            there_and_back(c, "swell", &s)?;
            let n = c.rng.size(0, 6);
            let mut s = SwellSummary { summary: some_swell(&mut c.rng), components: (0..n).map(|_| some_swell(&mut c.rng)).collect() };
            there_and_back(c, "swell list", &s)?;
            let sys = c.rng.pick(&[UnitSystem::Metric, UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin]).clone();
            s.to_units(&sys);
            there_and_back(c, "converted swells", &s)?;
            // a spectrum's own swells
            let (nk, nth) = mon::gen::grid(&mut c.rng, 3, 4);
            let (sp, _) = mon::gen::any_spectra(&mut c.rng, nk, nth);
            there_and_back(c, "spectrum", &sp)?;
            let parts = sp.partition(100, None);
            if let Some(Ok(x)) = parts.ok().map(|p| sp.swell_data(Some(20.0), Some(8.0), Some(3.5), &p)) {
                let finite = |d: &DimensionalData<f64>| d.value.is_none_or(f64::is_finite);
                if x.components.iter().chain([&x.summary]).all(|s| finite(&s.wave_height) && finite(&s.period) && s.energy.as_ref().is_none_or(finite) && s.spectral_density.as_ref().is_none_or(finite)) {
                    there_and_back(c, "swells of a spectrum", &x)?;
                }
            }
        }
        9 => {
            let r = &mut c.rng;
            let u = r.pick(&UNITS).clone();
            let deg = r.int(0, 360) as i32;
            let st = r.pick(&[Steepness::VerySteep, Steepness::Steep, Steepness::Average, Steepness::Swell, Steepness::NA]).clone();
            let sys = r.pick(&[UnitSystem::Metric, UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin]).clone();
            let conv = r.pick(&[DirectionConvention::From, DirectionConvention::Towards, DirectionConvention::Met]).clone();
            let datum = r.pick(&[TideDatum::MHHW, TideDatum::MHW, TideDatum::MTL, TideDatum::MSL, TideDatum::MLW, TideDatum::MLLW]).clone();
            let iv = r.pick(&[DataInterval::Default, DataInterval::Hourly, DataInterval::HiLo]).clone();
            let dir: DimensionalData<Direction> = DimensionalData { value: if r.chance(0.2) { None } else { Some(Direction::from_degrees(deg)) }, variable_name: "d".into(), unit: Unit::Degrees };
            there_and_back(c, "unit", &u)?;
            there_and_back(c, "compass point", Direction::from_degrees(deg).cardinal_direction())?;
            there_and_back(c, "steepness", &st)?;
            there_and_back(c, "unit system", &sys)?;
            there_and_back(c, "direction convention", &conv)?;
            there_and_back(c, "datum", &datum)?;
            there_and_back(c, "interval", &iv)?;
            there_and_back(c, "measured direction", &dir)?;
        }
        0 => {
            let w = wave_row(&mut c.rng);
            let mut col = WaveDataRecordCollection::from_data(&w.text);
            let Some(mut g) = col.records().next() else { return violation("row lost") };
            if c.rng.chance(0.5) {
                g.to_units(&UnitSystem::English);
            }
            let s = serde_json::to_string(&g).unwrap();
            let b: WaveDataRecord = match serde_json::from_str(&s) {
                Ok(b) => b,
                Err(e) => return violation(format!("wave record cannot be read back: {e}")),
            };
            ensure!(b.date == g.date && b.steepness == g.steepness && b.wave_height.unit == g.wave_height.unit && b.wave_height.variable_name == g.wave_height.variable_name, "wave record changed: {s}");
            there_and_back(c, "wave record", &g)?;
            if let Ok(s) = g.swell_data() {
                there_and_back(c, "swell summary", &s)?;
            }
        }
        1 => {
            let nf = c.rng.size(1, 20);
            let f = freq_text(&mut c.rng, nf);
            let v: Vec<(String, f64)> = (0..nf).map(|_| num(&mut c.rng, 0.0, 9.0, 3)).collect();
            let t = date(&mut c.rng);
            let sep = c.rng.chance(0.5);
            let w = spec_row(&mut c.rng, t, &f, sep, &v);
            let mut col = SpectralWaveDataRecordCollection::from_data(&w.text);
            let Some(g) = col.records().next() else { return violation("row lost") };
            there_and_back(c, "spectral record", &g)?;
        }
        2 => {
            let (nk, nth) = mon::gen::grid(&mut c.rng, 3, 4);
            let (s, _) = mon::gen::any_spectra(&mut c.rng, nk, nth);
            let g = DirectionalSpectralWaveDataRecord { date: date(&mut c.rng), spectra: s };
            let text = serde_json::to_string(&g).unwrap();
            let b: DirectionalSpectralWaveDataRecord = match serde_json::from_str(&text) {
                Ok(b) => b,
                Err(e) => return violation(format!("spectrum cannot be read back: {e}")),
            };
            ensure!(b.date == g.date && b.spectra.dir_convention == g.spectra.dir_convention, "spectrum changed its date or convention");
            ensure!(kit::num::vclose(&b.spectra.energy, &g.spectra.energy, 1e-12, 0.0).is_none() && kit::num::vclose(&b.spectra.direction_raw(), &g.spectra.direction_raw(), 1e-12, 0.0).is_none() && kit::num::vclose(&b.spectra.frequency, &g.spectra.frequency, 1e-12, 0.0).is_none(), "spectrum changed");
            there_and_back(c, "directional record", &g)?;
        }
        3 => {
            let b = bulletin(&mut c.rng);
            let mut col = ForecastCBulletinWaveRecordCollection::from_data(&b.text);
            let Ok((m, it)) = col.records() else { return violation("bulletin refused") };
            there_and_back(c, "bulletin metadata", &m)?;
            for g in it.take(3) {
                there_and_back(c, "bulletin record", &g)?;
            }
        }
        4 => {
            let w = ww3(&mut c.rng);
            let Ok((m, recs)) = ww3_read(&w.text) else { return violation("spectra refused") };
            there_and_back(c, "spectral metadata", &m)?;
            for g in recs.iter().take(1) {
                there_and_back(c, "spectral forecast", g)?;
            }
        }
        5 => {
            let t = date(&mut c.rng);
            let w = idx_row(&mut c.rng, 3, 99, t);
            let mut col = GribIndexRecordCollection::from_data(&w.text);
            let Some(g) = col.records().next() else { return violation("row lost") };
            there_and_back(c, "grib index", &g)?;
        }
        6 => {
            let n = c.rng.size(1, 5);
            let mut items = vec![];
            for _ in 0..n {
                let t = date(&mut c.rng);
                items.push(format!("{{\"t\":\"{}\",\"v\":\"{}\"{}}}", t.format("%Y-%m-%d %H:%M"), num(&mut c.rng, -3.0, 9.0, 3).0, c.rng.pick(&["", ",\"type\":\"H\"", ",\"type\":\"L\""])));
            }
            let text = format!("{{\"predictions\":[{}]}}", items.join(","));
            let Ok(g) = TidalDataRecordCollection::from_json(&text) else { return violation("tides refused") };
            let s = serde_json::to_string(&g).unwrap();
            match TidalDataRecordCollection::from_json(&s) {
                Ok(b) => {
                    for (x, y) in g.records.iter().zip(&b.records) {
                        ensure!(x.date == y.date && close(x.value, y.value, 1e-12, 0.0) && x.event == y.event, "tide {x:?} comes back as {y:?}");
                    }
                }
                Err(e) => return violation(format!("tides cannot be read back: {e}: {s}")),
            }
            there_and_back(c, "tides", &g)?;
            let st = TideStation::new("8452660", &Location::new(num(&mut c.rng, -90.0, 90.0, 4).1, 3.0, "NEWPORT".into()), "RI");
            there_and_back(c, "tide stations", &TideStations::from_stations(vec![st]))?;
        }
        7 => {
            let (text, _) = forecast_json(&mut c.rng);
            let Ok(g) = NwsWeatherForecastDataRecordCollection::from_json(&text) else { return violation("forecast refused") };
            there_and_back(c, "forecast", &g)?;
            for p in g.records().iter().take(2) {
                there_and_back::<NwsWeatherForecastDataRecord>(c, "forecast record", p)?;
            }
        }
        _ => {
            let r = &mut c.rng;
            let l = Location { name: r.pick(&["", "Block \"Island\"", "\u{e9}"]).to_string(), latitude: r.f(-90.0, 90.0), longitude: r.f(-180.0, 360.0), elevation: r.f(-10.0, 4000.0) };
            let d = Direction::from_degrees(r.int(0, 360) as i32);
            let dd: DimensionalData<f64> = DimensionalData { value: if r.chance(0.2) { None } else { Some(r.f(-1e3, 1e3)) }, variable_name: "x".into(), unit: r.pick(&UNITS).clone() };
            let b: DimensionalData<f64> = match serde_json::from_str(&serde_json::to_string(&dd).unwrap()) {
                Ok(b) => b,
                Err(e) => return violation(format!("measurement cannot be read back: {e}")),
            };
            ensure!(b.unit == dd.unit && b.variable_name == dd.variable_name && b.value.is_some() == dd.value.is_some(), "measurement {dd:?} comes back as {b:?}");
            there_and_back(c, "location", &l)?;
            there_and_back(c, "direction", &d)?;
            there_and_back(c, "measurement", &dd)?;
            let t = date(&mut c.rng);
            if let Some(s) = surfrs::solar::calculate_solar_events(&Location::new(41.0, -71.0, "".into()), &t) {
                there_and_back(c, "solar events", &s)?;
            }
        }
    }
    Ok(())
}

const UNITS: [Unit; 20] = [
    Unit::Millimeters, Unit::Meters, Unit::MetersPerSecond, Unit::Celsius, Unit::Pascal, Unit::HectaPascal, Unit::Inches, Unit::Feet, Unit::MilesPerHour, Unit::Fahrenheit,
    Unit::InchesMercury, Unit::Knots, Unit::Kelvin, Unit::MetersSquaredPerHertz, Unit::NauticalMiles, Unit::Degrees, Unit::Seconds, Unit::Percent, Unit::KiloJoules, Unit::Unknown,
];

// ---- D12 -------------------------------------------------------------------------------

fn urls(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (a, mut b) = (date(r), date(r));
    if r.chance(0.4) {
        b = a + Duration::minutes(*r.pick(&[0, 1, 59, 60, 720, 1439, 1440, 1441, 2880, 10080, 43200, 44640, 525600, 527040]));
    }
    let id = match r.below(4) {
        0 => format!("{:07}", r.int(0, 99999)),
        1 => format!("{}{:04}", r.pick(&["TWC", "TEC", "tpt", "a"]), r.int(0, 9999)),
        _ => r.int(1000000, 9999999).to_string(),
    };
    let loc = Location::new(num(r, -90.0, 90.0, 4).1, num(r, -180.0, 180.0, 4).1, "x".into());
    let st = TideStation::new(&id, &loc, "RI");
    let (datum, dn) = match r.below(6) {
        0 => (TideDatum::MHHW, "MHHW"),
        1 => (TideDatum::MHW, "MHW"),
        2 => (TideDatum::MTL, "MTL"),
        3 => (TideDatum::MSL, "MSL"),
        4 => (TideDatum::MLW, "MLW"),
        _ => (TideDatum::MLLW, "MLLW"),
    };
    let (iv, ivn) = match r.below(3) {
        0 => (DataInterval::Default, ""),
        1 => (DataInterval::Hourly, "h"),
        _ => (DataInterval::HiLo, "hilo"),
    };
    let (u, un) = if r.chance(0.5) { (UnitSystem::Metric, "metric") } else { (UnitSystem::English, "english") };
    let list = TideStations::tide_prediction_stations_url();
    ensure!(
        list.starts_with("https://api.tidesandcurrents.noaa.gov/mdapi/prod/webapi/stations.json?") && list.split(['?', '&']).any(|k| k == "type=tidepredictions"),
        "the list of prediction stations is asked for at {list}"
    );
    let url = st.tidal_data_url(&a, &b, &datum, &iv, &u);
    c.describe(|| url.clone());
    let Some(q) = url.strip_prefix("https://api.tidesandcurrents.noaa.gov/api/prod/datagetter?") else { return violation(format!("tide request goes to {url}")) };
    let mut p = std::collections::BTreeMap::new();
    for kv in q.split('&') {
        let Some((k, v)) = kv.split_once('=') else { return violation(format!("tide request has a stray {kv:?}")) };
        ensure!(p.insert(k.to_string(), v.replace("%20", " ")).is_none(), "tide request gives {k} twice");
    }
    let want = [
        ("begin_date", a.format("%Y%m%d %H:%M").to_string()), ("end_date", b.format("%Y%m%d %H:%M").to_string()), ("station", id.clone()), ("product", "predictions".into()),
        ("datum", dn.into()), ("interval", ivn.into()), ("units", un.into()), ("time_zone", "gmt".into()), ("format", "json".into()),
    ];
    for (k, v) in &want {
        ensure!(p.get(*k) == Some(v), "tide request asks for {k}={:?}, wanted {v:?}", p.get(*k));
    }
    c.saw("tide requests");
    let r = &mut c.rng;
    let (x, y, o) = (r.usize(0, 999), r.usize(0, 999), *r.pick(&["BOX", "OKX"]));
    use surfrs::weather::*;
    let pts = create_points_url(&loc);
    let Some(ll) = pts.strip_prefix("https://api.weather.gov/points/") else { return violation(format!("points request {pts}")) };
    let v: Vec<f64> = ll.split(',').filter_map(|s| s.parse().ok()).collect();
    ensure!(v == [loc.latitude, loc.longitude], "points request for {v:?}, wanted {},{}", loc.latitude, loc.longitude);
    for (got, tail) in [(create_gridpoints_url(o, &x, &y), ""), (create_forecast_url(o, &x, &y), "/forecast"), (create_hourly_forecast_url(o, &x, &y), "/forecast/hourly")] {
        let want = format!("https://api.weather.gov/gridpoints/{o}/{x},{y}{tail}");
        ensure!(got == want, "weather request {got}, wanted {want}");
        c.saw("weather requests");
    }
    c.nontrivial(hash_str(&url));
    Ok(())
}

/// All compass names, written and read

// ---- U02 -------------------------------------------------------------------------------

/// What a unit measures: (unit, quantity, base units per unit, base units at zero)
fn scale(u: &str) -> Option<(&'static str, f64, f64)> {
    Some(match u {
        "Millimeters" => ("length", 0.001, 0.0),
        "Meters" => ("length", 1.0, 0.0),
        "Inches" => ("length", 0.0254, 0.0),
        "Feet" => ("length", 0.3048, 0.0),
        "NauticalMiles" => ("length", 1852.0, 0.0),
        "MetersPerSecond" => ("speed", 1.0, 0.0),
        "MilesPerHour" => ("speed", 0.44704, 0.0),
        "Knots" => ("speed", 1852.0 / 3600.0, 0.0),
        "Celsius" => ("temperature", 1.0, 273.15),
        "Fahrenheit" => ("temperature", 5.0 / 9.0, 459.67 * 5.0 / 9.0),
        "Kelvin" => ("temperature", 1.0, 0.0),
        "Pascal" => ("pressure", 1.0, 0.0),
        "HectaPascal" => ("pressure", 100.0, 0.0),
        "InchesMercury" => ("pressure", 3386.389, 0.0),
        _ => return None,
    })
}

/// The unit a quantity has in a unit system
fn unit_in(u: &str, sys: &UnitSystem) -> String {
    let m = |a: &str, b: &str| match sys {
        UnitSystem::Metric => a.to_string(),
        UnitSystem::English => b.to_string(),
        _ => u.to_string(),
    };
    match u {
        "Millimeters" | "Inches" => m("Millimeters", "Inches"),
        "Meters" | "Feet" => m("Meters", "Feet"),
        "HectaPascal" | "InchesMercury" => m("HectaPascal", "InchesMercury"),
        "MetersPerSecond" | "MilesPerHour" | "Knots" => {
            if *sys == UnitSystem::Knots { "Knots".into() } else { m("MetersPerSecond", "MilesPerHour") }
        }
        "Celsius" | "Fahrenheit" | "Kelvin" => {
            if *sys == UnitSystem::Kelvin { "Kelvin".into() } else { m("Celsius", "Fahrenheit") }
        }
        o => o.into(),
    }
}

/// How far apart two measurements of one quantity are, relative to `tol`
fn apart(a: f64, ua: &str, b: f64, ub: &str) -> Option<f64> {
    let ((qa, sa, za), (qb, sb, zb)) = (scale(ua)?, scale(ub)?);
    if qa != qb {
        return None;
    }
    let (x, y) = (a * sa + za, b * sb + zb);
    Some(if qa == "temperature" { (x - y).abs() / 0.01 } else { (x - y).abs() / (0.0015 * x.abs().max(y.abs()) + 1e-12) })
}

fn converted(c: &mut Case, a: &Value, b: &Value, sys: Option<&UnitSystem>, at: &str) -> R {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            ensure!(x.len() == y.len(), "{at}: converting changes the fields");
            if let (Some(Value::String(ua)), true) = (x.get("unit"), x.contains_key("value")) {
                let ub = y["unit"].as_str().unwrap_or("");
                if let Some(sys) = sys {
                    ensure!(ub == unit_in(ua, sys), "{at}: {ua} becomes {ub} in {sys}");
                } else {
                    ensure!(ub == ua, "{at}: {ua} comes back as {ub}");
                }
                ensure!(x["variable_name"] == y["variable_name"], "{at}: renamed to {}", y["variable_name"]);
                match (&x["value"], &y["value"]) {
                    (Value::Number(p), Value::Number(q)) if ua != ub || scale(ua).is_some() => {
                        let (p, q) = (p.as_f64().unwrap(), q.as_f64().unwrap());
                        if ua == ub && sys.is_some() {
                            ensure!(close(p, q, 1e-12, 0.0), "{at}: {p} {ua} becomes {q} without a change of unit");
                        } else {
                            let e = apart(p, ua, q, ub).unwrap_or(1e9);
                            ensure!(e <= 1.0, "{at}: {p} {ua} becomes {q} {ub}");
                            c.saw("measurements converted");
                        }
                    }
                    (p, q) => {
                        ensure!(p == q, "{at}: {p} {ua} becomes {q} {ub}");
                        if p.is_null() {
                            c.saw("missing measurements");
                        }
                    }
                }
                return Ok(());
            }
            for (k, p) in x {
                converted(c, p, y.get(k).unwrap_or(&Value::Null), sys, &format!("{at}.{k}"))?;
            }
            Ok(())
        }
        (Value::Array(x), Value::Array(y)) => {
            ensure!(x.len() == y.len(), "{at}: converting changes the number of items");
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                converted(c, p, q, sys, &format!("{at}[{i}]"))?;
            }
            Ok(())
        }
        _ => {
            ensure!(a == b, "{at}: converting changes {a} to {b}");
            Ok(())
        }
    }
}

/// Converts there, again, on to a third system and back, watching every measurement
fn convert<T: UnitConvertible + serde::Serialize + Clone>(c: &mut Case, what: &'static str, v: &T) -> R {
    let js = |v: &T| serde_json::to_value(v).unwrap();
    let systems = [UnitSystem::Metric, UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin];
    let mut now = v.clone();
    let mut trail = what.to_string();
    for _ in 0..c.rng.size(1, 4) {
        let sys = c.rng.pick(&systems).clone();
        let before = js(&now);
        now.to_units(&sys);
        trail = format!("{trail} to {sys}");
        converted(c, &before, &js(&now), Some(&sys), &trail)?;
        let once = js(&now);
        now.to_units(&sys);
        ensure!(once == js(&now), "{trail}: converting twice changes {once} to {}", js(&now));
    }
    // and there and back
    let mut back = v.clone();
    back.to_units(&UnitSystem::Metric);
    let metric = js(&back);
    back.to_units(&UnitSystem::English);
    back.to_units(&UnitSystem::Metric);
    converted(c, &metric, &js(&back), None, &format!("{what} to english and back"))?;
    c.distinct("types", hash_str(what));
    c.nontrivial(mix(hash_str(&once_text(&metric))));
    Ok(())
}

fn once_text(v: &Value) -> String {
    v.to_string()
}

fn some_swell(r: &mut Rng) -> Swell {
    let sys = if r.chance(0.5) { UnitSystem::Metric } else { UnitSystem::English };
    let d = Direction::from_degrees(r.int(0, 360) as i32);
    let mut s = Swell::new(&sys, r.f(0.0, 20.0), r.f(1.0, 30.0), d, None, None, None);
    if r.chance(0.6) {
        s = Swell::new(&sys, r.f(0.0, 20.0), r.f(1.0, 30.0), s.direction.get_value(), Some(r.f(0.0, 99.0)), Some(r.f(0.0, 1e4)), Some(r.usize(0, 9)));
    }
    if r.chance(0.1) {
        s.wave_height.value = None;
    }
    if r.chance(0.1) {
        s.period.value = None;
    }
    if r.chance(0.1) {
        s.direction.value = None;
    }
    s
}

fn conversions(c: &mut Case) -> R {
    match c.rng.below(6) {
        0 => {
            let w = wave_row(&mut c.rng);
            c.describe(|| w.text.clone());
            let mut col = WaveDataRecordCollection::from_data(&w.text);
            let Some(mut g) = col.records().next() else { return Ok(()) };
            convert(c, "wave record", &g)?;
            // the swell summary is that of the record, whatever its units
            let Ok(a) = g.swell_data() else { return Ok(()) };
            g.to_units(&UnitSystem::English);
            let Ok(b) = g.swell_data() else { return violation("no swell summary after a conversion") };
            let (a, b) = (serde_json::to_value(&a).unwrap(), serde_json::to_value(&b).unwrap());
            converted(c, &a, &b, Some(&UnitSystem::English), "wave record's summary")?;
        }
        1 => {
            let b = bulletin(&mut c.rng);
            c.describe(|| b.text.clone());
            let mut col = ForecastCBulletinWaveRecordCollection::from_data(&b.text);
            let Ok((_, it)) = col.records() else { return Ok(()) };
            for mut g in it.take(3) {
                convert(c, "bulletin record", &g)?;
                let Ok(a) = g.swell_data() else { continue };
                g.to_units(&UnitSystem::Metric);
                let Ok(b) = g.swell_data() else { return violation("no swell summary after a conversion") };
                let (a, b) = (serde_json::to_value(&a).unwrap(), serde_json::to_value(&b).unwrap());
                converted(c, &a, &b, Some(&UnitSystem::Metric), "bulletin's summary")?;
            }
        }
        2 => {
            let w = ww3(&mut c.rng);
            c.describe(|| w.text.clone());
            let Ok((_, recs)) = ww3_read(&w.text) else { return Ok(()) };
            for g in recs.iter().take(1) {
                convert(c, "spectral forecast", g)?;
            }
        }
        3 => {
            let s = some_swell(&mut c.rng);
            c.describe(|| format!("{s:?}"));
            convert(c, "swell", &s)?;
        }
        4 => {
            let summary = some_swell(&mut c.rng);
            let n = c.rng.size(0, 6);
            let s = SwellSummary { summary, components: (0..n).map(|_| some_swell(&mut c.rng)).collect() };
            c.describe(|| format!("{s:?}"));
            convert(c, "swell summary", &s)?;
        }
        _ => {
            let r = &mut c.rng;
            let v = match r.below(7) { 0 => None, 1 => Some(0.0), 2 => Some(r.f(-60.0, 60.0)), 3 => Some(r.log(1e3, 1e8)), _ => Some(r.f(0.0, 2000.0)) };
            let dd: DimensionalData<f64> = DimensionalData { value: v, variable_name: "x".into(), unit: r.pick(&UNITS).clone() };
            c.describe(|| format!("{dd:?}"));
            convert(c, "measurement", &dd)?;
            let d = DimensionalData { value: if c.rng.chance(0.3) { None } else { Some(Direction::from_degrees(c.rng.int(0, 360) as i32)) }, variable_name: "d".into(), unit: Unit::Degrees };
            convert(c, "direction", &d)?;
        }
    }
    Ok(())
}

/// One text of each feed, for monitors that need something to read
pub fn samples(r: &mut Rng) -> Vec<(&'static str, String)> {
    let waves: String = (0..r.usize(1, 6)).map(|_| wave_row(r).text + "\n").collect();
    let (sep, n) = (r.chance(0.5), r.usize(1, 4));
    let spectral: String = (0..n)
        .map(|_| {
            let nf = r.usize(1, 40);
            let freq = freq_text(r, nf);
            let vals: Vec<(String, f64)> = (0..nf).map(|_| num(r, 0.0, 40.0, 3)).collect();
            let t = date(r);
            spec_row(r, t, &freq, sep, &vals).text + "\n"
        })
        .collect();
    let bull = bulletin(r).text;
    let ww3 = ww3(r).text;
    let t = date(r);
    let index: String = (0..r.usize(1, 8)).map(|i| idx_row(r, i, i * 1000, t).text + "\n").collect();
    let tides: Vec<String> = (0..r.usize(1, 8)).map(|_| format!("{{\"t\":\"{}\",\"v\":\"{}\"}}", date(r).format("%Y-%m-%d %H:%M"), num(r, -4.0, 14.0, 3).0)).collect();
    let tides = format!("{{\"predictions\": [{}]}}", tides.join(","));
    let weather = forecast_json(r).0;
    vec![("waves", waves), ("spectral", spectral), ("bulletin", bull), ("ww3", ww3), ("index", index), ("tides", tides), ("weather", weather)]
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "D01",
            rule: "Generated NDBC .spec files (comments, ragged spacing, CRLF, MM values, compass and degree directions, month ends and leap days), each record compared field by field with what the row says. Non-trivial: at least one row.",
            monitors: vec![mon("wave_rows", 1500, wave_rows)],
            require: vec![("rows compared", 5000), ("missing values", 1000), ("months", 200)],
            assumptions: vec!["rows have NDBC's 15 columns; dates in UTC"],
        },
        Property {
            id: "D02",
            rule: "Generated .data_spec / .swdir rows with and without separation frequency, read back value by value; directional spectra built from five series compared bin by bin with the buoy's Fourier formula, and their directional sums with the measured density. Non-trivial: rows read.",
            monitors: vec![mon("spectral_rows", 1500, spectral_rows), mon("directional", 700, directional)],
            require: vec![("rows compared", 3000), ("bins compared", 100000), ("frequencies conserving energy", 1000), ("missing frequencies", 500)],
            assumptions: vec!["the five series list the same frequencies", "missing codes: 999.9 for energy, 999.0 for the others"],
        },
        Property {
            id: "D03",
            rule: "Generated WW3 point bulletins in NOAA's layout with runs at month and year ends, up to 384 hours and 0 to 6 systems; header, dates, units, energies and summaries compared with what was written. Non-trivial: at least one row.",
            monitors: vec![mon("bulletins", 1200, bulletins)],
            require: vec![("rows compared", 10000), ("rows in the next month", 500), ("rows in the next year", 200), ("rows without swells", 300), ("swells compared", 10000)],
            assumptions: vec!["forecasts reach at most 16 days beyond the run"],
        },
        Property {
            id: "D04",
            rule: "Generated WAVEWATCH III spectral files (Fortran number format, NOAA column layout, 1-4 times); every field compared with what was written, and files holding one lone system checked for the direction, period and height it must have. Non-trivial: at least one record.",
            monitors: vec![mon("forecasts", 500, forecasts)],
            require: vec![("records compared", 800), ("lone systems", 200)],
            assumptions: vec!["one output point per file, as NOAA publishes them; at most 99 frequencies and directions"],
        },
        Property {
            id: "D05",
            rule: "Generated GRIB index files with long and spaced fields and large offsets, compared field by field. Non-trivial: at least one row.",
            monitors: vec![mon("indexes", 1500, indexes)],
            require: vec![("rows compared", 5000)],
            assumptions: vec!["one message per line, whole-number indexes"],
        },
        Property {
            id: "D06",
            rule: "Generated tide predictions (string and number values, high/low/plain) and station lists with duplicates and non-ASCII names; every field, lookups and GeoJSON features compared. Non-trivial: at least one record.",
            monitors: vec![mon("tides", 1200, tides), mon("stations", 800, stations)],
            require: vec![("tides compared", 5000), ("stations compared", 3000), ("stations found", 200), ("absent stations", 100)],
            assumptions: vec!["well-formed JSON"],
        },
        Property {
            id: "D07",
            rule: "Generated NWS forecasts with zone offsets, wind ranges, absent values and several units, compared field by field. Non-trivial: at least one period.",
            monitors: vec![mon("weather", 1200, weather)],
            require: vec![("periods compared", 3000), ("wind ranges", 500), ("absent values", 300)],
            assumptions: vec!["well-formed JSON; a wind range is represented by its first value"],
        },
        Property {
            id: "D08",
            rule: "Damaged rows, headers and files of every feed: no panic, good rows keep their records, files read together as row by row, every spectrum delivered is complete, and no record comes of a row or header whose required field is missing, unreadable or an impossible date. Non-trivial: something was damaged.",
            monitors: vec![mon("damaged", 1500, damaged), mon("mangled", 800, mangled), mon("unreadable", 1500, unreadable)],
            require: vec![("unreadable rows refused", 1000), ("unreadable headers refused", 200), ("good rows", 2000), ("rows refused", 2000), ("damaged rows read", 100), ("mangled files refused", 300), ("records surviving another's damage", 100)],
            assumptions: vec!["no quote characters in the text feeds", "a spectral record whose rows are missing altogether may take the following record with it"],
        },
        Property {
            id: "D09",
            rule: "Every record type written to JSON and read back, compared field by field through their debug form, their serde form and named fields. Non-trivial: a value read back.",
            monitors: vec![mon("json", 1500, json)],
            require: vec![("values read back", 2000), ("numbers read back", 20000), ("types", 15)],
            assumptions: vec!["finite numbers; numbers compared to 1e-12"],
        },
        Property {
            id: "U02",
            rule: "Records parsed from generated feeds, swells, summaries and single measurements taken through random chains of unit systems; every measurement in them compared before and after as a physical quantity. Non-trivial: something was converted.",
            monitors: vec![mon("conversions", 2500, conversions)],
            require: vec![("measurements converted", 20000), ("missing measurements", 2000), ("types", 7)],
            assumptions: vec!["factors within 0.15%, temperatures within 0.01 degrees"],
        },
        Property {
            id: "D12",
            rule: "Request URLs for random stations, times, options, offices and places, taken apart and compared parameter by parameter. Non-trivial: every case.",
            monitors: vec![mon("urls", 2000, urls)],
            require: vec![("tide requests", 2000), ("weather requests", 6000)],
            assumptions: vec![],
        },
    ]
}

#[allow(dead_code)]
fn main() {
    kit::main(properties());
}
