//! D10 observation rows, D11 buoy stations, D13 addresses, D15 DODS answers: the parts of
//! the library that only build with stand-ins for its two missing dependencies.
use chrono::{DateTime, Duration, TimeZone, Utc};
use geojson::{Feature, FeatureCollection};
use kit::num::close;
use kit::rng::{hash_str, mix, Rng};
use kit::*;
use serde_json::Value;
use std::collections::HashMap;
use surfrs::buoy_station::{BuoyStation, BuoyStations};
use surfrs::data::latest_obs_data_record::{latest_obs_feature_collection, LatestObsDataRecord, LatestObsDataRecordCollection};
use surfrs::data::meteorological_data_record::{MeteorologicalDataRecord, MeteorologicalDataRecordCollection, StdmetDataRecordCollection};
use surfrs::data::parseable_data_record::ParseableDataRecord;
use surfrs::data::swden_wave_data_record::SwdenWaveDataRecordCollection;
use surfrs::dimensional_data::DimensionalData;
use surfrs::model::{GEFSWaveModel, GFSWaveModel, ModelDataSource, NOAAModel, NWPSModel};
use surfrs::station::Station;
use surfrs::swell::SwellProvider;
use surfrs::tools::dap::{format_dap_constraints, format_dods_url, DapConstraint};
use surfrs::units::{Direction, Unit, UnitConvertible, UnitSystem};

fn date(r: &mut Rng) -> DateTime<Utc> {
    if r.chance(0.3) {
        // the last or first minutes of a month
        let m = Utc.with_ymd_and_hms(r.int(1980, 2060) as i32, r.int(1, 12) as u32, 1, 0, 0, 0).unwrap();
        return m + Duration::minutes(r.int(-60, 60));
    }
    if r.chance(0.05) {
        // long before and long after
        return Utc.with_ymd_and_hms(*r.pick(&[1901, 1937, 1969, 2069, 2098, 2100]), 1, 1, 0, 0, 0).unwrap() + Duration::minutes(r.int(-60, 527_000));
    }
    Utc.with_ymd_and_hms(1975, 1, 1, 0, 0, 0).unwrap() + Duration::minutes(r.int(0, 40_000_000))
}

// ---- D10 -------------------------------------------------------------------------------

/// name, decimals, low, high, unit of the file; directions have no decimals
const WIND_DIR: usize = 0;
const WAVE_DIR: usize = 6;
const COLS: [(&str, usize, f64, f64, Unit); 14] = [
    ("wind direction", 0, 0.0, 360.0, Unit::Degrees),
    ("wind speed", 1, 0.0, 60.0, Unit::MetersPerSecond),
    ("wind gust speed", 1, 0.0, 80.0, Unit::MetersPerSecond),
    ("wave height", 1, 0.0, 18.0, Unit::Meters),
    ("dominant wave period", 0, 2.0, 25.0, Unit::Seconds),
    ("average wave period", 1, 2.0, 16.0, Unit::Seconds),
    ("mean wave direction", 0, 0.0, 360.0, Unit::Degrees),
    ("air pressure", 1, 900.0, 1060.0, Unit::HectaPascal),
    ("air temperature", 1, -40.0, 45.0, Unit::Celsius),
    ("water temperature", 1, -3.0, 35.0, Unit::Celsius),
    ("dewpoint temperature", 1, -40.0, 30.0, Unit::Celsius),
    ("visibility", 1, 0.0, 20.0, Unit::NauticalMiles),
    ("air pressure tendency", 1, -9.0, 9.0, Unit::HectaPascal),
    ("tide", 2, -6.0, 30.0, Unit::Feet),
];
/// What the measurements of a row are called, and what those of a DODS answer are
const NAMES: [&str; 14] = [
    COLS[0].0, COLS[1].0, COLS[2].0, COLS[3].0, COLS[4].0, COLS[5].0, COLS[6].0, COLS[7].0, COLS[8].0, COLS[9].0, COLS[10].0, COLS[11].0, COLS[12].0, COLS[13].0,
];
const STD_NAMES: [&str; 14] = [
    "wind direction", "wind speed", "wind gust", "wave height", "dominant wave period", "mean wave period", "mean wave direction", "air pressure", "air temperature", "water temperature",
    "dewpoint temperature", "visibility", "air pressure tendency", "water level",
];
/// Where a file's columns stand in COLS
const MET: [usize; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
const OBS: [usize; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 12, 8, 9, 10, 11, 13];

#[derive(Clone)]
struct Row {
    date: DateTime<Utc>,
    station: String,
    lat: f64,
    lon: f64,
    v: [Option<f64>; 14],
    text: String,
}

fn row(r: &mut Rng, obs: bool) -> Row {
    let t = date(r);
    row_at(r, obs, t)
}

fn row_at(r: &mut Rng, obs: bool, t: DateTime<Utc>) -> Row {
    let mut v = [None; 14];
    let station = if r.chance(0.5) { format!("{}", r.int(10000, 62999)) } else { (0..5).map(|_| *r.pick(&['A', 'B', 'K', 'Q', 'Z', '0', '7', '9'])).collect() };
    let (lat, lon) = (format!("{:.3}", r.fs(-90.0, 90.0)), format!("{:.3}", r.fs(-180.0, 180.0)));
    let mut toks = vec![];
    if obs {
        toks.extend([station.clone(), lat.clone(), lon.clone()]);
    }
    toks.extend(["%Y", "%m", "%d", "%H", "%M"].map(|f| t.format(f).to_string()));
    for i in if obs { OBS } else { MET } {
        let (_, d, lo, hi, _) = COLS[i];
        let text = if r.chance(0.2) {
            "MM".to_string()
        } else if d > 0 && r.chance(0.06) {
            r.pick(&["0.0", "99.0", "999.0", "9999.0", "99.00", "0", "-0.1", "1e1", ".5", "5."]).to_string()
        } else {
            let s = format!("{:.*}", d, r.fs(lo, hi));
            if i == 12 && !s.starts_with('-') { format!("+{s}") } else { s }
        };
        v[i] = text.parse().ok();
        toks.push(text);
    }
    let mut text = String::new();
    for (i, k) in toks.iter().enumerate() {
        if i > 0 {
            text.push_str(*r.pick(&[" ", "  ", "    "]));
        }
        text.push_str(k);
    }
    if r.chance(0.2) {
        text.push(' ');
    }
    Row { date: t, station, lat: lat.parse().unwrap(), lon: lon.parse().unwrap(), v, text }
}

fn unit_in(u: &Unit, system: Option<UnitSystem>) -> (Unit, fn(f64) -> f64) {
    match (u, system) {
        (Unit::Feet, Some(UnitSystem::Metric)) => (Unit::Meters, |v| v * 0.3048),
        (Unit::Meters, Some(UnitSystem::English)) => (Unit::Feet, |v| v / 0.3048),
        (Unit::MetersPerSecond, Some(UnitSystem::English)) => (Unit::MilesPerHour, |v| v * 2.236936),
        (Unit::Celsius, Some(UnitSystem::English)) => (Unit::Fahrenheit, |v| v * 1.8 + 32.0),
        (Unit::HectaPascal, Some(UnitSystem::English)) => (Unit::InchesMercury, |v| v / 33.8638),
        (u, _) => (u.clone(), |v| v),
    }
}

fn same(i: usize, d: &DimensionalData<f64>, want: Option<f64>, system: Option<UnitSystem>) -> R {
    let what = COLS[i].0;
    let (unit, conv) = unit_in(&COLS[i].4, system);
    ensure!(d.unit == unit, "{what} is in {:?}, expected {unit:?}", d.unit);
    match (d.value, want.map(conv)) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) if close(a, b, if unit == COLS[i].4 { 1e-12 } else { 1e-3 }, 1e-9) => Ok(()),
        (a, b) => violation(format!("{what} is {a:?}, the feed says {b:?}")),
    }
}

fn same_dir(i: usize, d: &DimensionalData<Direction>, want: Option<f64>) -> R {
    let got = d.value.as_ref().map(|v| v.degrees as f64);
    ensure!(d.unit == Unit::Degrees && got == want, "{} is {got:?} {:?}, the feed says {want:?}", COLS[i].0, d.unit);
    Ok(())
}

/// The same checks for both kinds of record, which have the same fields
macro_rules! check_record {
    ($g:expr, $w:expr, $sys:expr, $names:expr) => {{
        let (g, w) = ($g, $w);
        let got = [
            &g.wind_direction.variable_name, &g.wind_speed.variable_name, &g.wind_gust_speed.variable_name, &g.wave_height.variable_name, &g.dominant_wave_period.variable_name,
            &g.average_wave_period.variable_name, &g.mean_wave_direction.variable_name, &g.air_pressure.variable_name, &g.air_temperature.variable_name, &g.water_temperature.variable_name,
            &g.dewpoint_temperature.variable_name, &g.visibility.variable_name, &g.air_pressure_tendency.variable_name, &g.tide.variable_name,
        ];
        for (i, n) in got.iter().enumerate() {
            ensure!(**n == $names[i], "the {} is named {n:?}", $names[i]);
        }
        ensure!(g.date == w.date, "date {} for a row of {}", g.date, w.date);
        same_dir(WIND_DIR, &g.wind_direction, w.v[0])?;
        same_dir(WAVE_DIR, &g.mean_wave_direction, w.v[6])?;
        for (i, d) in [
            (1, &g.wind_speed), (2, &g.wind_gust_speed), (3, &g.wave_height), (4, &g.dominant_wave_period), (5, &g.average_wave_period),
            (7, &g.air_pressure), (8, &g.air_temperature), (9, &g.water_temperature), (10, &g.dewpoint_temperature), (11, &g.visibility),
            (12, &g.air_pressure_tendency), (13, &g.tide),
        ] {
            same(i, d, w.v[i], $sys)?;
        }
        let Ok(s) = g.swell_data() else { return violation("no swell data for an observation") };
        ensure!(s.components.is_empty(), "{} components of an observation", s.components.len());
        same(3, &s.summary.wave_height, w.v[3], $sys)?;
        same(4, &s.summary.period, w.v[4], $sys)?;
        same_dir(6, &s.summary.direction, w.v[6])?;
    }};
}

fn met_maps(g: &MeteorologicalDataRecord, w: &Row) -> R {
    let numbers: HashMap<String, DimensionalData<f64>> = g.clone().into();
    let strings: HashMap<String, Option<String>> = g.clone().into();
    let when = numbers.get("date").and_then(|d| d.value);
    ensure!(when == Some(w.date.timestamp() as f64), "the date of {} is {when:?} in the map", w.date);
    for (i, c) in COLS.iter().enumerate() {
        if i == 12 {
            continue; // the pressure tendency is not part of the maps
        }
        let Some(d) = numbers.get(c.0) else { return violation(format!("the map has no {}", c.0)) };
        same(i, d, w.v[i], Some(UnitSystem::Metric))?;
        let Some(s) = strings.get(c.0) else { return violation(format!("the map of texts has no {}", c.0)) };
        ensure!(s.is_some() == w.v[i].is_some(), "the text of {} is {s:?} for {:?}", c.0, w.v[i]);
        if let (Some(s), Some(v)) = (s, w.v[i]) {
            let (_, conv) = unit_in(&c.4, Some(UnitSystem::Metric));
            let shown: f64 = s.chars().take_while(|c| c.is_ascii_digit() || *c == '.' || *c == '-').collect::<String>().parse().unwrap_or(f64::NAN);
            ensure!((shown - conv(v)).abs() <= 0.0501 + 1e-3 * v.abs(), "{} {v} is shown as {s:?}", c.0);
        }
    }
    Ok(())
}

/// Rows that are no observation: short, without a date, with letters in it
fn bad_row(r: &mut Rng, obs: bool) -> String {
    let w = row(r, obs);
    let mut t: Vec<String> = w.text.split_whitespace().map(String::from).collect();
    let first = if obs { 3 } else { 0 };
    match r.below(5) {
        0 => t.truncate(r.usize(1, t.len() - 1)),
        1 => t[first + 1] = "13".into(),
        2 => t[first + 2] = "32".into(),
        3 => t[first + r.below(5)] = r.pick(&["MM", "x", "1.5"]).to_string(),
        _ => t[first + 3] = "24".into(),
    }
    t.join(" ")
}

fn rows(c: &mut Case, obs: bool) -> R {
    let r = &mut c.rng;
    let n = if r.chance(0.001) { r.usize(1000, 4000) } else if r.chance(0.03) { 300 } else { r.size(0, 12) };
    let mut good: Vec<Row> = vec![];
    for _ in 0..n {
        // a time may come twice, and a whole row
        let w = match good.last() {
            Some(w) if r.chance(0.05) => w.clone(),
            Some(w) if r.chance(0.1) => row_at(r, obs, w.date),
            _ => row(r, obs),
        };
        good.push(w);
    }
    let bad = r.chance(0.3);
    let nl = if r.chance(0.1) { "\r\n" } else { "\n" };
    let mut text = String::new();
    if r.chance(0.9) {
        text.push_str("#YY  MM DD hh mm WDIR WSPD GST  WVHT   DPD\n#yr  mo dy hr mn degT m/s  m/s     m   sec\n");
    }
    let mut skipped = 0;
    for (i, w) in good.iter().enumerate() {
        if bad && r.chance(0.4) {
            text.push_str(&bad_row(r, obs));
            text.push_str(nl);
            skipped += 1;
        }
        text.push_str(&w.text);
        if i + 1 < n || r.chance(0.8) {
            text.push_str(nl);
        }
    }
    c.describe(|| text.clone());
    if obs {
        let mut col = LatestObsDataRecordCollection::from_data(&text);
        let got: Vec<LatestObsDataRecord> = col.records().collect();
        ensure!(got.len() == n, "{} records from {n} observations", got.len());
        for (g, w) in got.iter().zip(&good) {
            ensure!(g.station_id == w.station && g.latitude == w.lat && g.longitude == w.lon, "station {} at {} {}, the feed says {} at {} {}", g.station_id, g.latitude, g.longitude, w.station, w.lat, w.lon);
            let s = g.station();
            ensure!(s.id() == w.station && s.latitude == w.lat && s.longitude == w.lon, "the observation's station is {s:?}");
            check_record!(g, w, Some(UnitSystem::Metric), NAMES);
            let mut e = g.clone();
            e.to_units(&UnitSystem::English);
            let tide = w.v[13];
            let mut h = Row { date: w.date, station: String::new(), lat: 0.0, lon: 0.0, v: w.v, text: String::new() };
            h.v[13] = tide;
            check_record!(&e, &h, Some(UnitSystem::English), NAMES);
        }
    } else {
        let mut col = MeteorologicalDataRecordCollection::from_data(&text);
        let got: Vec<MeteorologicalDataRecord> = col.records().collect();
        ensure!(got.len() == n, "{} records from {n} observations", got.len());
        for (g, w) in got.iter().zip(&good) {
            check_record!(g, w, Some(UnitSystem::Metric), NAMES);
            met_maps(g, w)?;
            let mut e = g.clone();
            e.to_units(&UnitSystem::English);
            check_record!(&e, w, Some(UnitSystem::English), NAMES);
            let cells: Vec<&str> = w.text.split_whitespace().collect();
            let Ok(raw) = MeteorologicalDataRecord::from_data_row(None, &cells) else { return violation("a row is refused") };
            check_record!(&raw, w, None, NAMES);
        }
    }
    c.count("observations compared", n as u64);
    c.count("malformed rows passed over", skipped);
    c.count("missing values", good.iter().map(|w| w.v.iter().filter(|v| v.is_none()).count() as u64).sum());
    if n > 0 {
        c.nontrivial(hash_str(&text));
    }
    Ok(())
}

fn met_rows(c: &mut Case) -> R {
    rows(c, false)
}

fn obs_rows(c: &mut Case) -> R {
    rows(c, true)
}

fn with_observations(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.size(0, 10);
    let mut stations: Vec<BuoyStation> = (0..n).map(|i| BuoyStation::new(match r.below(4) { 0 => format!("{:05}{i}", r.int(0, 99)), 1 => format!("{}{}{i}", r.pick(&["abc", "WXYZ", "tpl", "A0"]), r.int(0, 9)), _ => format!("{}{i}", r.int(1000, 9999)) }, r.fs(-90.0, 90.0), r.fs(-180.0, 180.0))).collect();
    let mut seen: Vec<Row> = vec![];
    // and one whose id begins or ends like another's
    if n > 0 && r.chance(0.4) {
        let id = stations[r.below(n)].station_id.clone();
        let id = match r.below(5) { 0 => format!("0{id}"), 1 => format!("{id}0"), 4 => if id != id.to_lowercase() { id.to_lowercase() } else { id.to_uppercase() }, 2 => id[1..].to_string(), _ => id[..id.len() - 1].to_string() };
        if !stations.iter().any(|s| s.station_id == id) {
            stations.push(BuoyStation::new(id, r.fs(-90.0, 90.0), r.fs(-180.0, 180.0)));
        }
    }
    for s in &stations {
        if r.chance(0.6) {
            let mut w = row(r, true);
            let rest: Vec<&str> = w.text.split_whitespace().skip(1).collect();
            w.text = format!("{} {}", s.station_id, rest.join(" "));
            w.station = s.station_id.clone();
            seen.push(w);
        }
    }
    // observations of stations that are not on the list
    for _ in 0..r.below(3) {
        let w = row(r, true);
        if !stations.iter().any(|s| s.station_id == w.station) {
            seen.push(w);
        }
    }
    r.shuffle(&mut seen);
    r.shuffle(&mut stations);
    let n = stations.len();
    let text: String = seen.iter().map(|w| w.text.clone() + "\n").collect();
    c.describe(|| format!("stations {:?}\n{text}", stations.iter().map(|s| &s.station_id).collect::<Vec<_>>()));
    let mut col = LatestObsDataRecordCollection::from_data(&text);
    let records: Vec<LatestObsDataRecord> = col.records().collect();
    let f: FeatureCollection = latest_obs_feature_collection(&stations, &records);
    ensure!(f.features.len() == n, "{} features for {n} stations", f.features.len());
    for (g, s) in f.features.iter().zip(&stations) {
        ensure!(g.property("id").and_then(|v| v.as_str()) == Some(s.station_id.as_str()), "feature {:?} in the place of station {}", g.property("id"), s.station_id);
        let got = g.property("latest_observations");
        let Some(w) = seen.iter().find(|w| w.station == s.station_id) else {
            ensure!(got.is_none(), "station {} has another station's observations", s.station_id);
            c.saw("stations without observations");
            continue;
        };
        let Some(got) = got.and_then(|v| v.as_object()) else { return violation(format!("station {} lacks its observations", s.station_id)) };
        c.saw("stations with observations");
        let when = got.get("date").and_then(|v| v.as_str()).and_then(|v| v.parse::<DateTime<Utc>>().ok());
        ensure!(when == Some(w.date), "observations of {} are dated {when:?}", w.date);
        let mut count = 1;
        for (i, col) in COLS.iter().enumerate() {
            let key = col.0.replace(' ', "_");
            let (_, conv) = unit_in(&col.4, Some(UnitSystem::Metric));
            let want = w.v[i].map(conv);
            let v = got.get(&key).map(|v| if i == 0 || i == 6 { v["value"]["degrees"].as_f64() } else { v["value"].as_f64() });
            match (v, want) {
                (None, None) => continue,
                (Some(Some(a)), Some(b)) if close(a, b, 1e-3, 1e-9) => count += 1,
                (v, want) => return violation(format!("station {} has {key} {v:?}, observed was {want:?}", s.station_id)),
            }
        }
        ensure!(got.len() == count, "{} entries for {count} observed quantities: {got:?}", got.len());
    }
    if !seen.is_empty() && n > 0 {
        c.nontrivial(hash_str(&text));
    }
    Ok(())
}

// ---- D11 -------------------------------------------------------------------------------

const TYPES: [(&str, &str); 8] = [
    ("buoy", "Buoy"), ("fixed", "Fixed"), ("oilrig", "Oil Rig"), ("dart", "Dart"), ("tao", "Tao"), ("usv", "USV"), ("virtual", "Virtual"), ("other", "Other"),
];

struct Place {
    id: String,
    lat: f64,
    lon: f64,
    elev: f64,
    name: String,
    words: Option<Vec<String>>, // what the name has to show
    owner: String,
    program: String,
    kind: usize,
    flags: [bool; 4],
    xml: String,
}

fn escape(s: &str, r: &mut Rng) -> String {
    let mut s = s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;");
    if r.chance(0.5) {
        s = s.replace('\'', "&apos;");
    }
    s
}

const WORDS: [&str; 16] = ["Block", "Island,", "RI", "Cape", "Cod", "St.", "John's", "Noyo", "60", "NM", "\"Ursa\"", "A&M", "Señal", "E.", "42b", "TLP"];

fn station_name(r: &mut Rng) -> (String, Vec<String>) {
    let some = |r: &mut Rng| -> Vec<String> { (0..r.usize(1, 4)).map(|_| r.pick(&WORDS).to_string()).collect() };
    let mut words = some(r);
    if words.len() == 1 && words[0].parse::<i64>().is_ok() {
        words.push("Bay".into());
    }
    let mut raw = words.join(" ");
    if r.chance(0.2) {
        // a second part after a dash
        let mut more = some(r);
        if more.len() == 1 && more[0].parse::<i64>().is_ok() {
            more.push("Canyon".into());
        }
        raw.push_str(*r.pick(&[" - ", "- ", " -  "]));
        raw.push_str(&more.join(" "));
        words.extend(more);
    }
    let mut noted = false;
    if r.chance(0.15) {
        // a note between the words
        let i = raw.find(' ').filter(|_| raw.matches(' ').count() == 1 && !raw.contains('-'));
        if let Some(i) = i {
            let note = *r.pick(&["(154)", "(U of Wash)", "(22301),", "(old site);", "(A)"]);
            raw = format!("{} {note} {}", &raw[..i], &raw[i + 1..]);
            noted = true;
        }
    }
    let number = if noted { 9 } else { r.below(6) };
    match number {
        0 => raw = format!("{} - {raw}", r.int(1000, 9_999_999)),
        1 => raw = format!("{raw} - {}", r.int(1000, 9_999_999)),
        _ => {}
    }
    match if number == 1 || noted { 4 } else { r.below(5) } {
        0 => raw = format!("{raw}  ({})", r.int(1, 500)),
        1 => raw = format!("{raw} (U of Wash) "),
        2 => raw = format!(" {raw} (SUN2)"),
        _ => {}
    }
    (raw, words)
}

fn place(r: &mut Rng, id: String) -> Place {
    let num = |r: &mut Rng, lo: f64, hi: f64| -> (String, f64) {
        let d = r.below(4);
        let s = format!("{:.*}", d, r.f(lo, hi));
        let v = s.parse().unwrap();
        (s, v)
    };
    let (lat, lon, el) = (num(r, -90.0, 90.0), num(r, -180.0, 180.0), num(r, -50.0, 3000.0));
    let (name, words) = if r.chance(0.05) { (String::new(), vec![]) } else { station_name(r) };
    let owner = r.pick(&["NDBC", "U.S.C.G. Marine Reporting Stations", "Dalhousie & Co <x>", "", "O'Neill"]).to_string();
    let program = r.pick(&["IOOS Partners", "NDBC Meteorological/Ocean", "NOS/CO-OPS"]).to_string();
    let kind = r.below(TYPES.len());
    let mut attrs = vec![
        format!("lat=\"{}\"", lat.0),
        format!("lon=\"{}\"", lon.0),
        format!("name=\"{}\"", escape(&name, r)),
        format!("owner=\"{}\"", escape(&owner, r)),
        format!("pgm=\"{program}\""),
        format!("type=\"{}\"", TYPES[kind].0),
    ];
    let mut elev = 0.0;
    if r.chance(0.6) {
        attrs.push(format!("elev=\"{}\"", el.0));
        elev = el.1;
    }
    let mut flags = [false; 4];
    for (i, k) in ["met", "currents", "waterquality", "dart"].iter().enumerate() {
        match r.below(6) {
            0 => {}
            1 | 2 => {
                flags[i] = true;
                attrs.push(format!("{k}=\"y\""));
            }
            _ => attrs.push(format!("{k}=\"n\"")),
        }
    }
    if r.chance(0.3) {
        r.shuffle(&mut attrs);
    }
    let quote = if r.chance(0.05) && !attrs.iter().any(|a| a.contains('\'')) { '\'' } else { '"' };
    let xml = format!("<station id=\"{id}\" {}/>", attrs.join(" ")).replace('"', &quote.to_string());
    Place { id, lat: lat.1, lon: lon.1, elev, name, words: Some(words), owner, program, kind, flags, xml }
}

fn fits(s: &BuoyStation, w: &Place) -> R {
    ensure!(s.station_id == w.id && s.id() == w.id, "station {} for {}", s.station_id, w.id);
    ensure!(s.latitude == w.lat && s.longitude == w.lon && s.elevation == w.elev, "{} lies at {} {} {}, listed at {} {} {}", w.id, s.latitude, s.longitude, s.elevation, w.lat, w.lon, w.elev);
    ensure!(s.raw_name == w.name && s.owner == w.owner && s.program == w.program, "{} is {:?} {:?} {:?}, listed as {:?} {:?} {:?}", w.id, s.raw_name, s.owner, s.program, w.name, w.owner, w.program);
    ensure!(s.buoy_type.to_string() == TYPES[w.kind].1, "{} is a {}, listed as {}", w.id, s.buoy_type, TYPES[w.kind].0);
    let flags = [s.has_meteorological_data, s.has_currents_data, s.has_water_quality_data, s.has_tsnuami_data];
    ensure!(flags == w.flags, "{} has met, currents, water quality, tsunami data {flags:?}, listed as {:?}", w.id, w.flags);
    ensure!(s.is_active() == w.flags.contains(&true), "{} active: {}, with data {:?}", w.id, s.is_active(), w.flags);
    let name = s.name();
    if let Some(words) = &w.words {
        let shown: Vec<&str> = name.split_whitespace().filter(|s| !matches!(*s, "-" | "," | ";")).collect();
        ensure!(shown == *words && name.trim() == name, "{:?} is called {name:?}", w.name);
    }
    let l = s.location();
    ensure!(l.latitude == w.lat && l.longitude == w.lon && l.name == name, "{} is located at {l:?}", w.id);
    Ok(())
}

fn feature_is(f: &Feature, s: &BuoyStation) -> R {
    let point = f.geometry.as_ref().map(|g| g.value.clone());
    ensure!(point == Some(geojson::Value::Point(vec![s.longitude, s.latitude])), "{} is drawn at {point:?}, lies at longitude {} latitude {}", s.station_id, s.longitude, s.latitude);
    let want = [("id", Value::from(s.station_id.clone())), ("name", Value::from(s.name())), ("isActive", Value::from(s.is_active())), ("type", Value::from(s.buoy_type.to_string()))];
    for (k, v) in want {
        ensure!(f.property(k) == Some(&v), "feature of {} has {k} {:?}, expected {v}", s.station_id, f.property(k));
    }
    Ok(())
}

fn stations(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if r.chance(0.03) { 400 } else { r.size(1, 12) };
    let mut ids: Vec<String> = (0..n).map(|i| format!("{}{i}", r.pick(&["44", "tpc", "KAC", "0y2w"]))).collect();
    ids.dedup();
    let places: Vec<Place> = ids.into_iter().map(|id| place(r, id)).collect();
    let count = if r.chance(0.5) { n as i64 } else { r.int(0, 2000) };
    let mut xml = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<stations created=\"2018-08-14T19:35:01UTC\" count=\"{count}\">\n");
    if r.chance(0.5) {
        xml.push_str("<!--Site Elevation (elev attribute), when present, is reported in meters above mean sea level.-->\n");
    }
    for p in &places {
        xml.push_str(&format!("  {}\n", p.xml));
    }
    xml.push_str("</stations>\n");
    c.describe(|| xml.clone());
    let got = BuoyStations::from_raw_data(&xml);
    ensure!(got.station_count == count as usize, "count {} listed as {count}", got.station_count);
    ensure!(got.stations.len() == n, "{} stations of {n}", got.stations.len());
    for (s, w) in got.stations.iter().zip(&places) {
        fits(s, w)?;
        c.count("flags set", w.flags.iter().filter(|f| **f).count() as u64);
        feature_is(&s.as_feature(), s)?;
        c.saw("stations");
    }
    // found by id, the first of equals, and nothing else
    let w = c.rng.pick(&places);
    let found = got.find_station(&w.id);
    ensure!(found.is_some(), "station {} is not found", w.id);
    fits(&found.unwrap(), places.iter().find(|p| p.id == w.id).unwrap())?;
    for other in [format!("{}x", w.id), w.id[..w.id.len() - 1].to_string(), String::new(), w.id.to_uppercase() + "_", w.id.to_uppercase(), w.id.to_lowercase(), format!(" {}", w.id), format!("0{}", w.id)] {
        if places.iter().all(|p| p.id != other) {
            ensure!(got.find_station(&other).is_none(), "a station is found for {other:?}");
            c.saw("stations not listed");
        }
    }
    // as JSON and back
    let text = serde_json::to_string(&got).map_err(|e| Fail::Undecided(e.to_string()))?;
    let back: BuoyStations = match serde_json::from_str(&text) {
        Ok(b) => b,
        Err(e) => return violation(format!("stations written as JSON are not read back: {e}")),
    };
    ensure!(back.stations.len() == n && back.station_count == got.station_count, "{} stations read back from {n}", back.stations.len());
    for (s, w) in back.stations.iter().zip(&places) {
        let mut s = s.clone();
        for (a, b) in [(&mut s.latitude, w.lat), (&mut s.longitude, w.lon), (&mut s.elevation, w.elev)] {
            ensure!((*a - b).abs() <= 1e-9 * b.abs().max(1.0), "{} is read back as {a} for {b}", w.id);
            *a = b;
        }
        fits(&s, w)?;
    }
    let all: FeatureCollection = got.clone().into();
    ensure!(all.features.len() == n, "{} features of {n} stations", all.features.len());
    for (f, s) in all.features.iter().zip(&got.stations) {
        feature_is(f, s)?;
    }
    let listed = BuoyStations::from(got.stations.clone());
    ensure!(listed.station_count == n && listed.stations == got.stations, "a list of {n} stations counts {}", listed.station_count);
    c.nontrivial(hash_str(&xml));
    Ok(())
}

// ---- D13 -------------------------------------------------------------------------------

fn pad(v: i64, n: usize) -> String {
    let s = v.to_string();
    "0".repeat(n.saturating_sub(s.len())) + &s
}

/// Year, month, day, hour from the seconds since 1970, by the civil calendar's arithmetic
fn civil(secs: i64) -> (String, String) {
    let (days, rest) = (secs.div_euclid(86400), secs.rem_euclid(86400));
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + (m <= 2) as i64;
    (format!("{y}{}{}", pad(m, 2), pad(d, 2)), pad(rest / 3600, 2))
}

fn run_of(t: DateTime<Utc>, age: i64) -> DateTime<Utc> {
    let s = (t.timestamp() - age * 3600).div_euclid(6 * 3600) * 6 * 3600;
    DateTime::from_timestamp(s, 0).unwrap()
}

const SOURCES: [ModelDataSource; 3] = [ModelDataSource::NODDAWS, ModelDataSource::NODDGCP, ModelDataSource::NOMADS];

fn gfs_root(s: &ModelDataSource) -> &'static str {
    match s {
        ModelDataSource::NODDAWS => "https://noaa-gfs-bdp-pds.s3.amazonaws.com",
        ModelDataSource::NOMADS => "https://nomads.ncep.noaa.gov/pub/data/nccf/com/gfs/prod",
        ModelDataSource::NODDGCP => "https://storage.googleapis.com/global-forecast-system",
    }
}

fn eq(what: &str, got: impl AsRef<str>, want: impl AsRef<str>) -> R {
    ensure!(got.as_ref() == want.as_ref(), "{what} is at {}, expected {}", got.as_ref(), want.as_ref());
    Ok(())
}

fn buoy_addresses(c: &mut Case) -> R {
    let r = &mut c.rng;
    let id = if r.chance(0.5) { r.int(10000, 62999).to_string() } else { r.pick(&["tpc55", "KACV4", "0y2w3"]).to_string() };
    let b = BuoyStation::new(id.clone(), 0.0, 0.0);
    let t = date(r) + Duration::seconds(r.int(0, 59));
    let src = r.pick(&SOURCES).clone();
    let cons = constraints(r, 3);
    let text = cons.iter().map(|c| written(c)).collect::<Vec<_>>().join(",");
    c.describe(|| format!("{id} {t} {src:?} {text}"));
    for (url, ext) in [
        (b.meteorological_data_url(), "txt"), (b.wave_data_url(), "spec"), (b.spectral_wave_data_url(), "data_spec"), (b.mean_wave_direction_spectral_data_url(), "swdir"),
        (b.principal_wave_direction_spectral_data_url(), "swdir2"), (b.r1_spectral_data_url(), "swr1"), (b.r2_spectral_data_url(), "swr2"),
    ] {
        eq(ext, url, format!("https://www.ndbc.noaa.gov/data/realtime2/{id}.{ext}"))?;
    }
    eq("list of stations", BuoyStations::active_stations_url(), "https://www.ndbc.noaa.gov/activestations.xml")?;
    eq("all latest", BuoyStations::latest_obs_url(), "https://www.ndbc.noaa.gov/data/latest_obs/latest_obs.txt")?;
    eq("latest", b.latest_obs_data_url(), format!("https://ndbc.noaa.gov/data/latest_obs/{id}.txt"))?;
    for (kind, letter, root, das, dds, dods) in [
        ("stdmet", "h", b.stdmet_dap_url_root(), b.stdmet_das_url(), b.stdmet_dds_url(), b.stdmet_dods_url(&cons)),
        ("swden", "w", b.swden_dap_url_root(), b.swden_das_url(), b.swden_dds_url(), b.swden_dods_url(&cons)),
    ] {
        let want = format!("https://dods.ndbc.noaa.gov/thredds/dodsC/data/{kind}/{id}/{id}{letter}9999.nc");
        eq("root", root, &want)?;
        eq("das", das, format!("{want}.das"))?;
        eq("dds", dds, format!("{want}.dds"))?;
        eq("dods", dods, format!("{want}.dods?{text}"))?;
    }
    let (day, hour) = civil(t.timestamp());
    let dir = format!("gfs.{day}/{hour}/wave/station/bulls.t{hour}z");
    eq("bulletins", b.gfswave_data_url_prefix(&t), &dir)?;
    eq("bulletin", b.gfswave_bulletin_data_prefix(&t), format!("{dir}/gfswave.{id}.cbull"))?;
    eq("spectra", b.gfswave_spectral_data_prefix(&t), format!("{dir}/gfswave.{id}.spec"))?;
    let root = gfs_root(&src);
    eq("bulletin", b.gfswave_bulletin_data_url(&src, &t), format!("{root}/{dir}/gfswave.{id}.cbull"))?;
    eq("spectra", b.gfswave_spectral_data_url(&src, &t), format!("{root}/{dir}/gfswave.{id}.spec"))?;
    eq("listing", BuoyStation::gfswave_lsl_url(&src, &t), format!("{root}/gfs.{day}/{hour}/wave/station/ls-l"))?;
    eq("stations", BuoyStations::gfswave_stations_root_url(&src, &t), format!("{root}/{dir}/"))?;
    eq("source", BuoyStations::gfswave_source_path(&src), root)?;
    c.count("addresses", 22);
    c.nontrivial(hash_str(&format!("{id}{t}{text}")));
    Ok(())
}

fn model_addresses(c: &mut Case) -> R {
    let r = &mut c.rng;
    let t = date(r) + Duration::seconds(r.int(0, 59));
    let h = if r.chance(0.5) { r.usize(0, 384) } else { *r.pick(&[0, 9, 10, 99, 100, 120, 999]) };
    let src = r.pick(&SOURCES).clone();
    let run = run_of(t, 5);
    let (day, hour) = civil(run.timestamp());
    c.describe(|| format!("{t} hour {h} {src:?}"));
    let f = pad(h as i64, 3);
    let gfs = [(GFSWaveModel::atlantic(), "atlocn.0p16"), (GFSWaveModel::west_coast(), "wcoast.0p16"), (GFSWaveModel::east_pacific(), "epacif.0p16"), (GFSWaveModel::global_16(), "global.0p16"), (GFSWaveModel::global_25(), "global.0p25")];
    for (m, id) in &gfs {
        let want = format!("{}/gfs.{day}/{hour}/wave/gridded/gfswave.t{hour}z.{id}.f{f}.grib2", gfs_root(&src));
        ensure!(m.id() == *id, "model {} is called {}", id, m.id());
        eq("model output", m.create_url(&src, h, Some(t)), &want)?;
        eq("index", m.create_idx_url(&src, h, Some(t)), format!("{want}.idx"))?;
        ensure!(m.closest_model_run_date(&t) == run, "the run before {t} is {run}, computed {}", m.closest_model_run_date(&t));
        c.saw("model addresses");
    }
    let gefs_root = match src {
        ModelDataSource::NODDAWS => "https://noaa-gefs-pds.s3.amazonaws.com",
        ModelDataSource::NOMADS => "https://nomads.ncep.noaa.gov/pub/data/nccf/com/gefs/prod",
        ModelDataSource::NODDGCP => "",
    };
    for (m, id) in [(GEFSWaveModel::global_25_mean(), "mean.global.0p25"), (GEFSWaveModel::global_25_spread(), "spread.global.0p25")] {
        if gefs_root.is_empty() {
            break; // the ensemble is not there
        }
        let want = format!("{gefs_root}/gefs.{day}/{hour}/wave/gridded/gefs.wave.t{hour}z.{id}.f{f}.grib2");
        eq("ensemble output", m.create_url(&src, h, Some(t)), &want)?;
        eq("index", m.create_idx_url(&src, h, Some(t)), format!("{want}.idx"))?;
        c.saw("model addresses");
    }
    let want = format!("https://nomads.ncep.noaa.gov/pub/data/nccf/com/nwps/prod/er.{day}/box/{hour}/CG1/box_nwps_CG1_{day}_{hour}00.grib2");
    eq("nearshore output", NWPSModel::boston().create_url(&src, h, Some(t)), want)?;
    // sources by name
    let name = r_case(&mut c.rng, &[("aws", 0), ("noddaws", 0), ("amazon s3", 0), ("gcp", 1), ("noddgcs", 1), ("google cloud", 1), ("nomads", 2), ("noaa", 2)]);
    match ModelDataSource::try_from(name.0.as_str()) {
        Ok(s) => ensure!(s == SOURCES[name.1], "{:?} names {s:?}", name.0),
        Err(_) => return violation(format!("{:?} names no source", name.0)),
    }
    for (s, k) in [("the nodd-gcp mirror", 1usize), ("my_gcs", 1), ("on google", 1), ("via amazon", 0), ("NODD AWS", 0), ("ftp.nomads", 2), ("from noaa", 2)] {
        let got = ModelDataSource::try_from(s).ok();
        let ok = matches!((&got, k), (Some(ModelDataSource::NODDAWS), 0) | (Some(ModelDataSource::NODDGCP), 1) | (Some(ModelDataSource::NOMADS), 2));
        ensure!(ok, "{s:?} names {:?}", got.map(|_| "another source"));
    }
    for s in ["", "unknown", "azure", "s3"] {
        ensure!(ModelDataSource::try_from(s).is_err(), "{s:?} names a source");
    }
    c.nontrivial(mix(t.timestamp() as u64 ^ mix(h as u64)));
    Ok(())
}

fn r_case(r: &mut Rng, names: &[(&str, usize)]) -> (String, usize) {
    let (s, i) = *r.pick(names);
    (s.chars().map(|c| if r.chance(0.5) { c.to_ascii_uppercase() } else { c }).collect(), i)
}

fn constraint(r: &mut Rng) -> DapConstraint {
    let var = r.pick(&["wind", "time", "spectral_wave_density", "a", "wave_spectrum_r1", ""]).to_string();
    let n = r.below(5);
    let big = r.chance(0.1);
    let v = |r: &mut Rng| if big { r.u64() as usize } else { r.usize(0, 20000) };
    DapConstraint::new(var, (0..n).map(|_| (v(r), v(r), v(r))).collect())
}

fn constraints(r: &mut Rng, n: usize) -> Vec<DapConstraint> {
    (0..r.usize(0, n)).map(|_| constraint(r)).collect()
}

fn written(c: &DapConstraint) -> String {
    let mut s = c.var.clone();
    for (a, b, e) in &c.ranges {
        s += &("[".to_string() + &a.to_string() + ":" + &b.to_string() + ":" + &e.to_string() + "]");
    }
    s
}

fn dap(c: &mut Case) -> R {
    let r = &mut c.rng;
    let list = constraints(r, 6);
    let want: Vec<String> = list.iter().map(written).collect();
    c.describe(|| want.join(","));
    for (k, w) in list.iter().zip(&want) {
        eq("constraint", k.to_string(), w)?;
        match w.parse::<DapConstraint>() {
            Ok(p) => ensure!(p.var == k.var && p.ranges == k.ranges, "{w} is read as {p:?}"),
            Err(e) => return violation(format!("{w} is refused: {e}")),
        }
        c.saw("constraints");
        c.count("ranges", k.ranges.len() as u64);
    }
    eq("constraints", format_dap_constraints(&list), want.join(","))?;
    eq("query", format_dods_url("https://x/y.nc", &list), format!("https://x/y.nc.dods?{}", want.join(",")))?;
    // anything else is refused
    let bad = ["a[", "a[]", "a[1]", "a[1:2]", "a[1:2:3:4]", "a[x:1:2]", "a[-1:1:2]", "a[1:1:2][", "a[1:1:2]b[", "a[1.5:1:2]", "a[1:1:99999999999999999999]"];
    let b = *c.rng.pick(&bad);
    ensure!(b.parse::<DapConstraint>().is_err(), "{b} is read as {:?}", b.parse::<DapConstraint>());
    c.saw("refused constraints");
    c.nontrivial(hash_str(&want.join(",")));
    Ok(())
}

// ---- D15 -------------------------------------------------------------------------------

enum Col {
    I(Vec<i32>),
    F(Vec<f32>),
}

impl Col {
    fn f64s(&self) -> Vec<f64> {
        match self {
            Col::I(v) => v.iter().map(|v| *v as f64).collect(),
            Col::F(v) => v.iter().map(|v| *v as f64).collect(),
        }
    }
    fn kind(&self) -> &'static str {
        if matches!(self, Col::I(_)) { "Int32" } else { "Float32" }
    }
    fn bytes(&self, out: &mut Vec<u8>) {
        let n = match self {
            Col::I(v) => v.len(),
            Col::F(v) => v.len(),
        } as u32;
        out.extend(n.to_be_bytes());
        out.extend(n.to_be_bytes());
        match self {
            Col::I(v) => v.iter().for_each(|v| out.extend(v.to_be_bytes())),
            Col::F(v) => v.iter().for_each(|v| out.extend(v.to_be_bytes())),
        }
    }
}

/// A DAP2 answer with one grid per variable
fn answer(vars: &[(&str, Col)], dims: &[(&str, Col)]) -> Vec<u8> {
    let len = |c: &Col| c.f64s().len();
    let shape: String = dims.iter().map(|(n, c)| format!("[{n} = {}]", len(c))).collect();
    let mut head = String::from("Dataset {\n");
    for (n, c) in vars {
        head += &format!("    Grid {{\n     ARRAY:\n        {} {n}{shape};\n     MAPS:\n", c.kind());
        for (d, c) in dims {
            head += &format!("        {} {d}[{d} = {}];\n", c.kind(), len(c));
        }
        head += &format!("    }} {n};\n");
    }
    head += "} data/swden/44097/44097w9999.nc;\n\nData:\n";
    let mut out = head.into_bytes();
    for (_, c) in vars {
        c.bytes(&mut out);
        for (_, d) in dims {
            d.bytes(&mut out);
        }
    }
    out
}

fn times(r: &mut Rng, n: usize) -> Vec<i32> {
    let mut t = r.int(0, 2_000_000_000) as i32;
    (0..n)
        .map(|_| {
            // now and then a time twice in a row
            t += if r.chance(0.08) { 0 } else { r.int(60, 7200) as i32 };
            t
        })
        .collect()
}

fn floats(r: &mut Rng, n: usize, hi: f64, missing: f32) -> Col {
    Col::F((0..n).map(|_| if r.chance(0.15) { missing } else { (r.f(0.0, hi) * 100.0).round() as f32 / 100.0 }).collect())
}

/// Values with missing ones and ones that only come close to the missing code
fn near_floats(r: &mut Rng, n: usize, lo: f64, hi: f64, missing: f32) -> Col {
    let near = [missing - 1.0, missing - 0.5, missing - 0.1, missing + 0.1, missing + 0.5, missing + 1.0, 0.0, 9.0, 99.0, 999.0, 9999.0, 99.9, 999.9];
    Col::F(
        (0..n)
            .map(|_| match r.below(8) {
                0 => missing,
                1 => *r.pick(&near),
                _ => (r.f(lo, hi) * 100.0).round() as f32 / 100.0,
            })
            .collect(),
    )
}

fn ints(r: &mut Rng, n: usize, missing: i32) -> Col {
    Col::I((0..n).map(|_| if r.chance(0.15) { missing } else { r.int(0, 360) as i32 }).collect())
}

fn spectra(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (nt, nf) = if r.chance(0.003) { (r.usize(260, 800), r.usize(1, 8)) } else { (r.size(0, 12), r.size(1, 64)) };
    let n = nt * nf;
    let t = times(r, nt);
    let mut f = 0.02f32;
    let freq: Vec<f32> = (0..nf)
        .map(|_| {
            f += *r.pick(&[0.005f32, 0.01, 0.02]);
            f
        })
        .collect();
    let mut vars = vec![
        ("spectral_wave_density", floats(r, n, 40.0, 999.0)),
        ("mean_wave_dir", ints(r, n, 999)),
        ("principal_wave_dir", ints(r, n, 999)),
        ("wave_spectrum_r1", floats(r, n, 1.0, 999.0)),
        ("wave_spectrum_r2", floats(r, n, 1.0, 999.0)),
    ];
    let want: Vec<Vec<f64>> = vars.iter().map(|v| v.1.f64s()).collect();
    if r.chance(0.3) {
        r.shuffle(&mut vars);
    }
    let dims = [("time", Col::I(t.clone())), ("frequency", Col::F(freq.clone())), ("latitude", Col::F(vec![40.9])), ("longitude", Col::F(vec![-71.1]))];
    let bytes = answer(&vars, &dims);
    c.describe(|| format!("{nt} times {nf} frequencies\n{want:?}"));
    let col = SwdenWaveDataRecordCollection::from_data(&bytes);
    let got: Vec<_> = col.records().take(nt + 5).collect();
    ensure!(got.len() == nt, "{} spectra of {nt}", got.len());
    let freq: Vec<f64> = freq.iter().map(|v| *v as f64).collect();
    for (i, g) in got.iter().enumerate() {
        ensure!(g.date.timestamp() == t[i] as i64, "spectrum {i} is dated {}, the answer says {}", g.date.timestamp(), t[i]);
        ensure!(g.frequency == freq, "frequencies {:?} for {freq:?}", g.frequency);
        let parts = [&g.energy_spectra, &g.mean_wave_direction, &g.primary_wave_direction, &g.first_polar_coefficient, &g.second_polar_coefficient];
        for (k, p) in parts.iter().enumerate() {
            ensure!(***p == want[k][i * nf..(i + 1) * nf], "variable {k} at time {i} is {p:?}, the answer says {:?}", &want[k][i * nf..(i + 1) * nf]);
        }
        c.saw("spectra compared");
    }
    // the same records, read again and side by side
    let again = col.records().zip(col.records()).all(|(a, b)| a.date == b.date && a.energy_spectra == b.energy_spectra);
    ensure!(again && col.records().count() == nt, "reading the answer again gives other records");
    if nt > 0 {
        c.nontrivial(hash_str(&format!("{want:?}")));
    }
    Ok(())
}

/// name in the answer, its missing value, the column in COLS
const STD: [(&str, f64, usize); 13] = [
    ("wind_dir", 999.0, 0), ("wind_spd", 99.0, 1), ("gust", 99.0, 2), ("wave_height", 99.0, 3), ("dominant_wpd", 99.0, 4), ("average_wpd", 99.0, 5), ("mean_wave_dir", 999.0, 6),
    ("air_pressure", 9999.0, 7), ("air_temperature", 999.0, 8), ("sea_surface_temperature", 999.0, 9), ("dewpt_temperature", 999.0, 10), ("visibility", 99.0, 11), ("water_level", 99.0, 13),
];

fn standard(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if r.chance(0.003) { r.usize(260, 3000) } else { r.size(0, 30) };
    let t = times(r, n);
    let mut vars = vec![];
    for (name, missing, col) in STD {
        vars.push((name, if missing == 999.0 && (col == 0 || col == 6) { ints(r, n, 999) } else { near_floats(r, n, COLS[col].2, COLS[col].3, missing as f32) }));
    }
    let want: Vec<Vec<Option<f64>>> = vars.iter().enumerate().map(|(k, v)| v.1.f64s().into_iter().map(|v| (v != STD[k].1).then_some(v)).collect()).collect();
    if r.chance(0.3) {
        r.shuffle(&mut vars);
    }
    let dims = [("time", Col::I(t.clone())), ("latitude", Col::F(vec![40.5])), ("longitude", Col::F(vec![-69.2]))];
    let bytes = answer(&vars, &dims);
    c.describe(|| format!("{want:?}"));
    let col = StdmetDataRecordCollection::from_data(&bytes);
    let got: Vec<_> = col.records().collect();
    ensure!(got.len() == n, "{} observations of {n}", got.len());
    for (i, g) in got.iter().enumerate() {
        let mut v = [None; 14];
        for (k, s) in STD.iter().enumerate() {
            v[s.2] = want[k][i];
        }
        let w = Row { date: DateTime::from_timestamp(t[i] as i64, 0).unwrap(), station: String::new(), lat: 0.0, lon: 0.0, v, text: String::new() };
        check_record!(g, &w, None, STD_NAMES);
        c.saw("observations compared");
        c.count("missing values", w.v.iter().filter(|v| v.is_none()).count() as u64);
    }
    if n > 0 {
        c.nontrivial(hash_str(&format!("{want:?}")));
    }
    Ok(())
}

/// The recorded answers in the repository, against the text form of the same answers
fn recorded(c: &mut Case) -> R {
    let dir = std::env::var("MON_REPO").unwrap_or("/repo".into()) + "/mock";
    let (name, main) = [("44097w9999.swden.nc", "spectral_wave_density"), ("44008h9999.stdmet.nc", "gust")][(c.index % 2) as usize];
    let (Ok(bytes), Ok(text)) = (std::fs::read(format!("{dir}/{name}.dods")), std::fs::read_to_string(format!("{dir}/{name}.txt"))) else {
        return Ok(()); // not there any more
    };
    // lines `name.name[i][j]..., v, v` or `name.dim[n]` followed by the values
    let mut rows: HashMap<String, Vec<f64>> = HashMap::new();
    let mut current = String::new();
    for l in text.lines() {
        let cells: Vec<&str> = l.split(',').map(str::trim).collect();
        if l.starts_with('[') {
            rows.entry(current.clone()).or_default().extend(cells[1..].iter().filter_map(|v| v.parse::<f32>().ok()).map(|v| v as f64));
        } else if l.contains('[') && !l.contains('=') {
            current = l.split('[').next().unwrap().to_string();
        } else if cells.iter().all(|v| v.parse::<f64>().is_ok()) {
            rows.entry(current.clone()).or_default().extend(cells.iter().filter_map(|v| v.parse::<f64>().ok()));
        }
    }
    let col = |v: &str| rows.get(&format!("{v}.{v}")).or_else(|| rows.get(v)).cloned().unwrap_or_default();
    c.describe(|| format!("{name}: {:?}", rows.iter().map(|(k, v)| (k.clone(), v.len())).collect::<Vec<_>>()));
    let want = col(main);
    if want.is_empty() {
        return Err(Fail::Undecided(format!("{name}.txt has no {main}")));
    }
    if main == "gust" {
        let data = StdmetDataRecordCollection::from_data(&bytes);
        let got: Vec<f64> = data.records().map(|r| r.wind_gust_speed.value.unwrap_or(99.0)).collect();
        ensure!(got == want, "recorded gusts are {got:?}, the text says {want:?}");
        let wind: Vec<f64> = data.records().map(|r| r.wind_direction.value.map(|v| v.degrees as f64).unwrap_or(999.0)).collect();
        ensure!(wind == col("wind_dir"), "recorded wind directions are {wind:?}, the text says {:?}", col("wind_dir"));
    } else {
        let data = SwdenWaveDataRecordCollection::from_data(&bytes);
        let got: Vec<f64> = data.records().flat_map(|r| r.energy_spectra).collect();
        ensure!(got == want, "recorded densities are {got:?}, the text says {want:?}");
        let dirs: Vec<f64> = data.records().flat_map(|r| r.mean_wave_direction).collect();
        ensure!(dirs == col("mean_wave_dir"), "recorded directions differ");
    }
    c.saw("recorded answers");
    c.nontrivial(c.index % 2);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "D10",
            rule: "Generated realtime and latest-observation files (missing values, spacings, line endings, malformed rows between good ones) compared with what was written; map, swell and feature forms of the records. Non-trivial: files with rows.",
            monitors: vec![mon("met_rows", 700, met_rows), mon("obs_rows", 700, obs_rows), mon("with_observations", 1500, with_observations)],
            require: vec![("observations compared", 8000), ("missing values", 8000), ("malformed rows passed over", 800), ("stations with observations", 1500), ("stations without observations", 1000)],
            assumptions: vec!["columns of the two NDBC layouts; the pressure tendency is not part of the map forms; runs with stand-ins for gribberish and readap"],
        },
        Property {
            id: "D11",
            rule: "Generated station lists (attribute orders and omissions, escapes, numbers, brackets and dashes in names) compared with what was written, after JSON too, as features, and found by id. Non-trivial: every list.",
            monitors: vec![mon("stations", 1500, stations)],
            require: vec![("stations", 8000), ("flags set", 5000), ("stations not listed", 2000)],
            assumptions: vec!["well-formed lists; names without dashes inside words; runs with stand-ins for gribberish and readap"],
        },
        Property {
            id: "D13",
            rule: "Addresses for random stations, times, sources and constraints against the published patterns with calendar arithmetic of the monitor's own; constraints written, read back and refused. Non-trivial: every case.",
            monitors: vec![mon("buoy_addresses", 1500, buoy_addresses), mon("model_addresses", 1500, model_addresses), mon("dap", 1500, dap)],
            require: vec![("addresses", 30000), ("model addresses", 9000), ("constraints", 2000), ("ranges", 4000), ("refused constraints", 1500)],
            assumptions: vec!["times after 1970; the ensemble is not on Google's cloud; runs with stand-ins for gribberish and readap"],
        },
        Property {
            id: "D15",
            rule: "Generated DAP2 answers (any number of times and frequencies, missing values, orders of variables) compared value by value, and the repository's recorded answers against their text form. Non-trivial: answers with values.",
            monitors: vec![mon("spectra", 800, spectra), mon("standard", 1500, standard), mon("recorded", 4, recorded)],
            require: vec![("spectra compared", 3000), ("observations compared", 10000), ("missing values", 10000)],
            assumptions: vec!["the answer is decoded by a stand-in for readap; values and missing codes as NDBC publishes them"],
        },
    ]
}

#[allow(dead_code)]
fn main() {
    kit::main(properties());
}
