//! C01: the same input gives the same answer: again, in any order, after whatever else was
//! asked, on many threads at once, and in a process that was asked nothing else.
use chrono::{DateTime, Duration, TimeZone, Utc};
use kit::rng::{hash_str, mix, Rng};
use kit::*;
use mon::gen;
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};
use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord;
use surfrs::data::forecast_cbulletin_wave_data_record::ForecastCBulletinWaveRecordCollection;
use surfrs::data::forecast_spectral_wave_data_record::ForecastSpectralWaveDataRecordCollection;
use surfrs::data::grib_index_record::GribIndexRecordCollection;
use surfrs::data::nws_weather_forecast_data_record::NwsWeatherForecastDataRecordCollection;
use surfrs::data::spectral_wave_data_record::{SpectralWaveDataRecord, SpectralWaveDataRecordCollection};
use surfrs::data::tidal_data_record::TidalDataRecordCollection;
use surfrs::data::wave_data_record::WaveDataRecordCollection;
use surfrs::location::Location;
use surfrs::solar::calculate_solar_events;
use surfrs::spectra::{Spectra, SpectralAxis};
use surfrs::swell::{Swell, SwellProvider};
use surfrs::tools::waves::*;
use surfrs::dimensional_data::DimensionalData;
use surfrs::tools::{analysis, date as dates, interpolation, linspace, math, vector};
use surfrs::units::cardinal_direction::CardinalDirection;
use surfrs::units::direction::Direction;
use surfrs::units::{Unit, UnitConvertible, UnitSystem};

#[allow(dead_code)]
#[path = "feeds.rs"]
mod feeds;

/// The clock the whole process reads. A fresh process is given another one, so an answer
/// that depends on the time of day shows.
mod clock {
    use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
    pub static SHIFT: AtomicI64 = AtomicI64::new(0);
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    #[no_mangle]
    pub extern "C" fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32 {
        unsafe {
            let r = syscall(228, id as i64, t) as i32;
            if r == 0 && id == 0 {
                (*t)[0] += SHIFT.load(Relaxed);
            }
            r
        }
    }
}

struct Input {
    spectra: Vec<Spectra>,
    start: DateTime<Utc>,
    depth: Option<f64>,
    wind: Option<(f64, f64)>,
    texts: Vec<(&'static str, String)>,
    seed: u64,
    small: bool,
}

fn bits(v: &[f64]) -> String {
    v.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(",")
}

/// The same spectrum with the inside of an axis moved, the ends and the number of values kept
fn inner(r: &mut Rng, s: &Spectra) -> Spectra {
    let mut s = s.clone();
    let i = r.usize(1, s.nk() - 2);
    let to = s.frequency[i + 1];
    s.frequency[i] += (to - s.frequency[i]) * r.f(0.05, 0.6);
    s
}

/// A few inputs that are alike in one way and differ in another, made from the seed alone
fn family(seed: u64) -> Vec<Input> {
    let r = &mut Rng::new(seed);
    let small = r.chance(0.7);
    let (nk, nth) = if small { (r.usize(3, 14), r.usize(4, 16)) } else { gen::grid(r, 4, 4) };
    let base = gen::any_spectra(r, nk, nth).0;
    let mut made: Vec<Vec<Spectra>> = vec![vec![base.clone()]];
    for _ in 0..r.usize(1, 2) {
        let s = match r.below(6) {
            // the same sea on axes with the same ends and another inside
            5 => inner(r, &base),
            // the same number of bins, the other way round
            0 if nth >= 4 && nk >= 4 => gen::any_spectra(r, nth, nk).0,
            // the same shape, another sea
            1 => gen::any_spectra(r, nk, nth).0,
            // the same grid, another sea
            2 => {
                let (e, _) = gen::energy(r, nk, nth);
                {
                    let mut s = base.clone();
                    s.energy = e;
                    s
                }
            }
            // the same but for one bin
            3 => {
                let mut s = base.clone();
                let i = r.below(s.energy.len());
                s.energy[i] += 0.3 + s.energy[i];
                s
            }
            // the same sea, other directions and convention
            _ => Spectra::new(base.frequency.clone(), gen::any_directions(r, nth), base.energy.clone(), gen::convention(r)),
        };
        made.push(vec![s]);
    }
    for v in made.iter_mut() {
        let more = if r.chance(0.15) { r.usize(5, 11) } else { r.usize(0, 2) };
        for _ in 0..more {
            v.push(if r.chance(0.5) {
                let (k, t) = (r.usize(3, 14), r.usize(4, 16));
                gen::any_spectra(r, k, t).0
            } else {
                let mut s = v[0].clone();
                let shift = r.usize(1, s.energy.len() / 2);
                s.energy.rotate_left(shift);
                s
            });
        }
    }
    let depth = if r.chance(0.5) { Some(r.log(2.0, 4000.0)) } else { None };
    let texts = feeds::samples(r);
    // the same text but for a digit, or another text
    let text = |r: &mut Rng| {
        if r.chance(0.4) {
            return feeds::samples(r);
        }
        let mut t = texts.clone();
        for (_, t) in t.iter_mut() {
            // anywhere, or on a line of the head
            let line = r.usize(1, 10);
            let head = t.lines().take(line).last().map(|l| (l.as_ptr() as usize - t.as_ptr() as usize, l.len())).unwrap();
            let (from, len) = if r.chance(0.6) { head } else { (0, t.len()) };
            let digits: Vec<usize> = t.bytes().enumerate().skip(from).take(len).filter(|b| b.1.is_ascii_digit()).map(|b| b.0).collect();
            if !digits.is_empty() && r.chance(0.8) {
                let at = *r.pick(&digits);
                t.replace_range(at..at + 1, &r.below(10).to_string());
            }
        }
        t
    };
    made.into_iter()
        .map(|spectra| Input {
            spectra,
            start: Utc.timestamp_opt(r.int(0, 2_000_000_000), 0).unwrap(),
            depth: if r.chance(0.7) { depth } else { Some(r.log(2.0, 4000.0)) },
            wind: if r.chance(0.5) { Some((r.f(0.0, 30.0), r.f(0.0, 6.28))) } else { None },
            texts: text(r),
            seed: r.u64(),
            small,
        })
        .collect()
}

fn swells(x: &Input, s: &Spectra) -> (String, Vec<Swell>) {
    let Ok(p) = s.partition(60, None) else { return ("no partition".into(), vec![]) };
    match s.swell_data(x.depth, x.wind.map(|w| w.0), x.wind.map(|w| w.1), &p) {
        Ok(d) => {
            let mut f = d.probable_false_components();
            f.sort();
            let kept = serde_json::to_string(&d.filtered_components()).unwrap();
            (format!("{}{f:?}{kept}", serde_json::to_string(&d).unwrap()), d.components)
        }
        Err(e) => (format!("{e}"), vec![]),
    }
}

fn scalars(seed: u64) -> String {
    let r = &mut Rng::new(seed);
    let mut v = vec![];
    for _ in 0..6 {
        let (t, d) = (r.f(2.0, 25.0), r.log(0.5, 5000.0));
        let om = 6.283185307179586 / t;
        v.push(ldis(t, d).unwrap_or(-1.0));
        let (a, b) = wavenu3(om, d);
        v.extend([a, b, wavenuma(om, d), celerity(1.0 / t, Some(d)), wavelength(1.0 / t, None), wave_energy(d, t)]);
        v.extend([shoaling_coefficient(celerity(1.0 / t, None) * t, d), dfp_wind_sea(t, t, 1.0, 1.0), dfp_swell_sea(t, d)]);
        let (a, b) = refraction_coefficient(wavelength(1.0 / t, None), d, r.f(0.0, 1.0));
        v.extend([a, b]);
    }
    let mut text = bits(&v);
    let p: Vec<Location> = (0..2).map(|i| Location::new(r.f(-89.0, 89.0), r.f(-180.0, 360.0), format!("{i}"))).collect();
    text += &bits(&[p[0].distance(&p[1], &UnitSystem::Metric), p[0].distance(&p[1], &UnitSystem::English), p[0].absolute_longitude(), p[0].relative_longitude()]);
    let t = Utc.timestamp_opt(r.int(0, 2_000_000_000), 0).unwrap();
    text += &format!("{:?}", calculate_solar_events(&p[0], &t).map(|e| (e.sunrise, e.sunset)));
    text += &format!("{}{}{}{}", dates::closest_gfs_model_stations_datetime(&t), dates::closest_gfs_model_gridded_datetime(&t), dates::closest_hourly_model_datetime(&t), dates::round_to_nearest_multiple_hour(&t, 3));
    let n = r.usize(4, 20);
    let data: Vec<f64> = (0..n).map(|_| r.f(-5.0, 5.0)).collect();
    let x: Vec<f64> = (0..n).map(|i| i as f64 * 0.7).collect();
    text += &format!("{:?}{:?}{:?}", analysis::detect_peaks(&data, 0.5), vector::argsort_partial(&data), vector::bin(&data, &-5.0, &5.0, &20));
    text += &bits(&interpolation::PchipInterpolator::new(&x, &data).interpolate_many(&[0.1, 0.9, 2.0]));
    for i in 0..n {
        text += &format!("{:?}", analysis::nearest_neighbors(n, 4, i));
    }
    text
}

fn text<'a>(x: &'a Input, k: &str) -> &'a str {
    &x.texts.iter().find(|t| t.0 == k).unwrap().1
}

const JOBS: usize = 20;

/// One job, its answer as text down to the last bit
fn job(x: &Input, j: usize) -> String {
    let s = &x.spectra[0];
    match j {
        0 => format!("{:?}", s.partition(100, None).map_err(|_| ())),
        1 => format!("{:?}", s.partition(40, Some(0.8)).map_err(|_| ())),
        2 => swells(x, s).0,
        3 => {
            let mut t = bits(&s.oned(SpectralAxis::Frequency)) + &bits(&s.oned(SpectralAxis::Direction)) + &bits(&s.mean_wave_direction_f());
            for m in 0..3 {
                t += &bits(&s.mom_f(m));
                for (a, b) in s.mom_d(m) {
                    t += &bits(&[a, b]);
                }
            }
            t
        }
        4 => {
            let o = x.spectra.last().unwrap();
            bits(&s.interpolate_to_grid(&o.frequency, &o.direction_deg()).energy)
        }
        5 => bits(&s.project_cartesian(&s.energy, if x.small { 24 } else { 60 }, Some(25.0), None)),
        6 => match s.contoured() {
            Ok(g) => g.to_string(),
            Err(_) => "no contours".into(),
        },
        7 => {
            let steps: Vec<(DateTime<Utc>, Vec<Swell>)> =
                x.spectra.iter().enumerate().map(|(i, s)| (x.start + Duration::hours(i as i64), swells(x, s).1)).collect();
            serde_json::to_string(&track_partitions(&steps, 30.0, 3e6)).unwrap()
        }
        8 => {
            let mut c = WaveDataRecordCollection::from_data(text(x, "waves"));
            let rows: Vec<String> = c
                .records()
                .map(|mut r| {
                    let was = format!("{r:?}{:?}", r.swell_data().map(|s| serde_json::to_string(&s).unwrap()).ok());
                    r.to_units(&UnitSystem::English);
                    was + &serde_json::to_string(&r).unwrap()
                })
                .collect();
            rows.concat()
        }
        9 => {
            let mut c = SpectralWaveDataRecordCollection::from_data(text(x, "spectral"));
            c.records().map(|r| format!("{r:?}")).collect()
        }
        10 => {
            let mut c = ForecastCBulletinWaveRecordCollection::from_data(text(x, "bulletin"));
            let r = match c.records() {
                Ok((m, it)) => format!("{m:?}") + &it.map(|r| format!("{r:?}{:?}", r.swell_data().map(|s| serde_json::to_string(&s).unwrap()).ok())).collect::<String>(),
                Err(e) => e.to_string(),
            };
            r
        }
        11 => {
            let mut c = ForecastSpectralWaveDataRecordCollection::from_data(text(x, "ww3"));
            let r = match c.records() {
                Ok((m, it)) => format!("{m:?}") + &it.map(|r| format!("{r:?}")).collect::<String>(),
                Err(e) => e.to_string(),
            };
            r
        }
        12 => {
            let mut c = GribIndexRecordCollection::from_data(text(x, "index"));
            c.records().map(|r| format!("{r:?}")).collect()
        }
        13 => format!("{:?}", TidalDataRecordCollection::from_json(text(x, "tides")).map(|t| t.records).map_err(|e| e.to_string())),
        14 => format!("{:?}", NwsWeatherForecastDataRecordCollection::from_json(text(x, "weather")).map(|t| t.records()).map_err(|e| e.to_string())),
        15 => scalars(x.seed),
        16 => {
            let r = &mut Rng::new(x.seed ^ 7);
            let f = &s.frequency;
            let n = f.len();
            let mut rec = |lo: f64, hi: f64| SpectralWaveDataRecord { date: x.start, separation_frequency: None, value: (0..n).map(|_| r.f(lo, hi)).collect(), frequency: f.clone() };
            let g = DirectionalSpectralWaveDataRecord::from_data_records(&s.direction_raw(), rec(0.0, 9.0), rec(0.0, 360.0), rec(0.0, 360.0), rec(0.0, 0.5), rec(0.0, 0.5));
            bits(&g.spectra.energy) + &swells(x, &g.spectra).0
        }
        17 => serde_json::to_string(s).unwrap(),
        18 => {
            let (a, b) = s.energy_range();
            bits(&[a, b]) + &bits(&s.direction_deg()) + &bits(&s.dth()) + &bits(&s.dk())
        }
        _ => {
            let r = &mut Rng::new(x.seed ^ 9);
            let mut t = String::new();
            for i in 0..s.energy.len().min(60) {
                t += &format!("{:?}", analysis::nearest_neighbors(s.frequency.len(), s.nth(), i));
            }
            for _ in 0..4 {
                t += &format!("{:?}", break_wave(r.f(4.0, 20.0), r.f(0.0, 89.0), r.f(0.2, 8.0), r.f(0.005, 0.1), r.f(3.0, 60.0)).ok());
            }
            t
        }
    }
}

/// Few arguments of each kind, some next to each other, some the same but in another form
struct Pool {
    seed: u64,
    num: Vec<(f64, f64)>,
    series: Vec<Vec<f64>>,
    places: Vec<Location>,
    times: Vec<DateTime<Utc>>,
    seas: Vec<Spectra>,
    swells: Vec<Swell>,
    words: Vec<String>,
}

fn pool(seed: u64) -> Pool {
    let r = &mut Rng::new(seed);
    // in the first place between 0 and 1 and in the second any size
    let mut num: Vec<(f64, f64)> = (0..r.usize(2, 3)).map(|_| (r.f(0.01, 0.99), if r.chance(0.4) { r.int(0, 400) as f64 } else { r.log(0.01, 3000.0) })).collect();
    for _ in 0..r.usize(1, 3) {
        let (a, b) = *r.pick(&num);
        num.push(match r.below(5) {
            0 => (a * (1.0 + f64::EPSILON), b * (1.0 + f64::EPSILON)),
            1 => ((a * 100.0).round() / 100.0, b.round()),
            2 => (1.0 - a, b + 360.0),
            3 => (a, -b),
            _ => (a + 1e-6, b + 1e-6),
        });
    }
    let mut series: Vec<Vec<f64>> = (0..2)
        .map(|_| {
            let n = r.usize(4, 12);
            (0..n).map(|_| if r.chance(0.3) { r.int(0, 9) as f64 } else { r.f(-9.0, 9.0) }).collect()
        })
        .collect();
    let mut o = series[0].clone();
    let n = o.len();
    match r.below(3) {
        0 => o.reverse(),
        1 => o[n / 2] += 0.1,
        _ => o[n - 1] = -o[n - 1],
    }
    series.push(o);
    let mut places: Vec<Location> = (0..2).map(|i| Location::new(r.f(-80.0, 80.0), r.f(-180.0, 180.0), format!("{i}"))).collect();
    let (a, b) = (places[0].latitude, places[0].longitude);
    places.push(Location::new(a, b + *r.pick(&[360.0, 0.01, 0.002, -0.0003]), "2".into()));
    places.push(Location::new(a + *r.pick(&[0.01, 0.002, -0.0003]), b, "3".into()));
    let mut times = vec![Utc.timestamp_opt(r.int(0, 2_000_000_000), 0).unwrap()];
    for _ in 0..2 {
        let t = *r.pick(&times);
        times.push(t + Duration::seconds(*r.pick(&[1, 59, 3600, 21600, 86400, 86400 * 365, -86400])));
    }
    let (nk, nth) = (r.usize(4, 9), r.usize(4, 9));
    let a = gen::any_spectra(r, nk, nth).0;
    let mut b = a.clone();
    match r.below(5) {
        0 => b.energy.rotate_left(nk),
        3 => b = inner(r, &a),
        4 => {
            b = inner(r, &a);
            b.energy[nk * nth / 2] += 0.5;
        }
        1 => b.energy[nk * nth / 2] += 0.5,
        _ => b = gen::any_spectra(r, nth, nk).0,
    }
    let mut swells: Vec<Swell> = (0..3)
        .map(|_| Swell::new(&UnitSystem::Metric, r.f(0.2, 6.0), r.f(4.0, 20.0), Direction::from_degrees(r.int(0, 360) as i32), None, None, None))
        .collect();
    let mut o = swells[0].clone();
    match r.below(3) {
        0 => o.period.value = o.period.value.map(|v| v + 0.01),
        1 => o.wave_height.value = o.wave_height.value.map(|v| v * 2.0),
        _ => {
            o.to_units(&UnitSystem::English);
        }
    }
    swells.push(o);
    let mut words: Vec<String> = (0..3)
        .map(|_| match r.below(3) {
            0 => r.pick(&["N", "SSW", "wnw", "MM", "", "1.5", "99.0", "STEEP", "VERY_STEEP", "m", "feet"]).to_string(),
            _ => format!("{}", (r.f(-50.0, 400.0) * 10.0).round() / 10.0),
        })
        .collect();
    words.push(format!(" {}", words[0]));
    Pool { seed, num, series, places, times, seas: vec![a, b], swells, words }
}

const CALLS: usize = 48;
const VARIANTS: usize = 5;
const UNITS: [Unit; 14] = [
    Unit::Millimeters, Unit::Meters, Unit::MetersPerSecond, Unit::Celsius, Unit::Pascal, Unit::HectaPascal, Unit::Inches, Unit::Feet, Unit::MilesPerHour, Unit::Fahrenheit, Unit::InchesMercury,
    Unit::Knots, Unit::Kelvin, Unit::NauticalMiles,
];

/// One call of one function, its answer down to the last bit
fn one(p: &Pool, f: usize, variant: usize) -> String {
    let r = &mut Rng::new(p.seed ^ mix((f * VARIANTS + variant) as u64 + 1));
    let n: Vec<(f64, f64)> = (0..5).map(|_| *r.pick(&p.num)).collect();
    let (u, v) = (n[0].0, n[1].0);
    let (a, b) = (n[2].1, n[3].1);
    let t = 2.0 + 20.0 * u;
    let depth = b.abs() + 0.5;
    let s = r.pick(&p.seas);
    let x = r.pick(&p.series);
    let (l, m) = (r.pick(&p.places), r.pick(&p.places));
    let at = *r.pick(&p.times);
    let w = r.pick(&p.swells);
    let word = r.pick(&p.words);
    let sys = if r.chance(0.5) { UnitSystem::Metric } else { UnitSystem::English };
    let (ua, ub) = (r.pick(&UNITS).clone(), r.pick(&UNITS).clone());
    let asc: Vec<f64> = x.iter().scan(0.0, |t, v| { *t += v.abs() + 0.1; Some(*t) }).collect();
    let freq = s.frequency[0] + v * (s.frequency[s.nk() - 1] - s.frequency[0]);
    let bits = |v: &[f64]| bits(v);
    match f {
        0 => format!("{:?}", break_wave(t, v * 80.0, u * 6.0 + 0.2, 0.005 + 0.1 * v, depth).map(|(a, b)| bits(&[a, b])).ok()),
        1 => format!("{:?}", ldis(t, depth).map(|v| bits(&[v])).ok()),
        2 => { let (x, y) = wavenu3(6.28 / t, depth); bits(&[x, y]) }
        3 => bits(&[wavenuma(6.28 / t, depth)]),
        4 => bits(&[celerity(1.0 / t, if u < 0.5 { None } else { Some(depth) })]),
        5 => bits(&[wavelength(1.0 / t, if u < 0.5 { None } else { Some(depth) })]),
        6 => { let (x, y) = refraction_coefficient(t * 10.0, depth, v); bits(&[x, y]) }
        7 => bits(&[shoaling_coefficient(t * 10.0, depth)]),
        8 => bits(&[wave_energy(depth, t), zero_spectral_moment(a, v), second_spectral_moment(a, v, u), steepness_coefficient(a.abs() + 1.0, depth)]),
        9 => bits(&[dfp_wind_sea(depth, t, 1.0 + v, u), dfp_swell_sea(v, depth * 1e3)]),
        10 => format!("{:?}", estimate_breaking_wave_height(w, a, 0.02 + 0.01 * v, depth).map(|a| bits(&[a])).ok()),
        11 => bits(&[l.distance(m, &sys)]),
        12 => bits(&[l.relative_latitude(), l.relative_longitude(), l.absolute_latitude(), l.absolute_longitude()]),
        13 => format!("{}", l.within_bbox(&(m.longitude - 10.0, m.latitude - 20.0, m.longitude + a, m.latitude + depth))),
        14 => format!("{:?}", calculate_solar_events(l, &at).map(|e| (e.sunrise, e.sunset))),
        15 => format!("{}{}", dates::closest_gfs_model_stations_datetime(&at), dates::closest_gfs_model_gridded_datetime(&at)),
        16 => format!("{}{}", dates::closest_hourly_model_datetime(&at), dates::round_to_nearest_multiple_hour(&at, *r.pick(&[1, 2, 3, 6, 12]))),
        17 => format!("{:?}", dates::gfs_model_fmrc_datetimes((at, at + Duration::hours((u * 60.0) as i64)))),
        18 => bits(&[ua.convert(a, &ub)]),
        19 => format!("{:?}{}{}", ua.convert_system(&sys), ua.abbreviation(), ua.name()),
        20 => {
            let mut d: DimensionalData<f64> = DimensionalData { value: Some(a), variable_name: "x".into(), unit: ua };
            d.to_units(&sys);
            format!("{d}{:?}", d.value.map(f64::to_bits))
        }
        21 => {
            let d: DimensionalData<f64> = DimensionalData::from_raw_data(word, "x".into(), ua);
            format!("{d:?}{}", d.try_string().unwrap_or_default())
        }
        22 => {
            let d: DimensionalData<Direction> = DimensionalData::from_raw_data(word, "x".into(), Unit::Degrees);
            format!("{d:?}")
        }
        23 => format!("{:?}{:?}{:?}", word.parse::<Direction>().map_err(|_| ()), Unit::from(word.as_str()), word.parse::<CardinalDirection>().map_err(|_| ())),
        24 => {
            let mut d = Direction::from_degrees(a as i32);
            let i = d.invert();
            let o = d.is_opposite(&Direction::from_degrees(b as i32));
            let t = format!("{d}{:?}{}{i:?}{o}", d.cardinal_direction(), d.radian());
            d.flip();
            t + &format!("{d:?}{:?}", Direction::from_radians(v * 7.0))
        }
        25 => format!("{:?}", CardinalDirection::from_degrees(&(a as i32))),
        26 => bits(&[analysis::lerp(&a, &b, &u, &0.0, &1.0), analysis::bilerp(&a, &b, &n[4].1, &depth, &u, &0.0, &1.0, &v, &0.0, &1.0)]),
        27 => format!("{:?}", analysis::detect_peaks(x, v * 4.0)),
        28 => format!("{:?}", analysis::nearest_neighbors(4, 5, (u * 20.0) as usize)),
        29 => {
            let g: Vec<f64> = (0..20).map(|i| x[i * 3 % x.len()]).collect();
            format!("{:?}", analysis::watershed(&g, 4, 5, 30, None).map_err(|_| ()))
        }
        30 => bits(&linspace::linspace(a, b, 3 + (u * 5.0) as usize).collect::<Vec<f64>>()),
        31 => bits(&interpolation::PchipInterpolator::new(&asc, x).interpolate_many(&[u * 5.0, asc[1], 20.0 * v])),
        32 => {
            let around: Vec<f64> = (0..x.len()).map(|i| 360.0 * i as f64 / x.len() as f64).collect();
            bits(&[interpolation::circular_pchip_interpolate(&around, x, a)])
        }
        33 => format!("{:?}{:?}", vector::argsort_partial(x), bits(&vector::diff_abs(x))),
        34 => { let (x, y) = vector::min_max(x); bits(&[x, y]) }
        35 => {
            let q = vector::bin(x, &-9.0, &9.0, &(10 + (u * 200.0) as u8));
            bits(&vector::unbin(&q, &-9.0, &9.0, &200)) + &format!("{q:?}")
        }
        36 => { let (x, y) = math::scalar_from_uv(a, b); format!("{}{y}", x.to_bits()) }
        37 => bits(&[s.ik(freq), s.ith(v * 6.2)]),
        38 => format!("{:?}{:?}", s.closest_k(freq), s.closest_th(v * 6.2)),
        39 => bits(&[s.interp_energy(freq, v * 6.2)]),
        40 => format!("{:?}", s.partition(30, if u < 0.5 { None } else { Some(0.7) }).map_err(|_| ())),
        41 => {
            let labels: Vec<i32> = (0..s.energy.len()).map(|i| 1 + (i % 3) as i32).collect();
            format!("{:?}", s.swell_data(if u < 0.5 { None } else { Some(depth) }, Some(a.abs() % 30.0), Some(v * 6.0), &(labels, 3)).map(|d| serde_json::to_string(&d).unwrap()).ok())
        }
        42 => bits(&s.oned(if u < 0.5 { SpectralAxis::Frequency } else { SpectralAxis::Direction })) + &bits(&s.mean_wave_direction_f()),
        43 => bits(&s.interpolate_to_grid(&[s.frequency[0], freq.max(s.frequency[0] + 1e-3)], &[v * 100.0, 100.0 + u * 200.0]).energy),
        44 => bits(&s.project_cartesian(&s.energy, 8, Some(10.0 + u * 20.0), None)),
        45 => format!("{:?}", w.to_string()) + &serde_json::to_string(w).unwrap(),
        46 => {
            let steps: Vec<(DateTime<Utc>, Vec<Swell>)> = (0..if u < 0.5 { 3 } else { 9 })
                .map(|i| {
                    let mut all = vec![p.swells[(i as usize + variant) % 4].clone(), w.clone()];
                    for (j, x) in all.iter_mut().enumerate() {
                        x.partition = Some(j * variant);
                    }
                    (at + Duration::hours(i), all)
                })
                .collect();
            serde_json::to_string(&track_partitions(&steps, 10.0 + v * 40.0, depth * 1e4)).unwrap()
        }
        _ => {
            let text = format!("1:{}:d={}:HTSGW:surface:{} hour fcst:\n", a as i64, at.format("%Y%m%d%H"), (u * 99.0) as i64);
            let mut c = GribIndexRecordCollection::from_data(&text);
            let rows: String = c.records().map(|r| format!("{r:?}")).collect();
            rows
        }
    }
}

/// Single calls of the public functions with few different arguments, thick and fast
fn calls(c: &mut Case) -> R {
    let seed = c.rng.u64();
    let p = Arc::new(pool(seed));
    let few: Vec<usize> = (0..c.rng.usize(1, 4)).map(|_| c.rng.below(CALLS)).collect();
    let n = c.rng.usize(60, 240);
    let mut keys: Vec<(usize, usize)> = vec![];
    for i in 0..n {
        let k = if i > 0 && c.rng.chance(0.25) {
            keys[i - 1]
        } else if c.rng.chance(0.7) {
            (*c.rng.pick(&few), c.rng.below(VARIANTS))
        } else {
            (c.rng.below(CALLS), c.rng.below(VARIANTS))
        };
        keys.push(k);
    }
    c.describe(|| format!("{keys:?} on {:?} {:?} {:?} {:?} {:?}", p.num, p.series, p.places, p.times, p.words));
    // a call that ends in a panic has that for an answer
    let ask = |p: &Pool, (f, v): (usize, usize)| may_panic(|| one(p, f, v)).unwrap_or("panic".into());
    let mut first = std::collections::BTreeMap::new();
    for k in &keys {
        let got = ask(&p, *k);
        c.saw("single calls");
        c.distinct("functions", k.0 as u64);
        if let Some(want) = first.get(k) {
            c.saw("single calls repeated");
            ensure!(got == *want, "call {k:?} answers {want} first, then {got}");
        } else {
            first.insert(*k, got);
        }
    }
    let threads = 3;
    let gate = Arc::new(Barrier::new(threads));
    let handles: Vec<_> = (0..threads)
        .map(|_| {
            let (p, gate, mut keys) = (p.clone(), gate.clone(), keys.clone());
            c.rng.shuffle(&mut keys);
            std::thread::spawn(move || {
                gate.wait();
                keys.into_iter().map(|k| (k, may_panic(|| one(&p, k.0, k.1)).unwrap_or("panic".into()))).collect::<Vec<_>>()
            })
        })
        .collect();
    for h in handles {
        let Ok(answers) = h.join() else { return Err(Fail::Undecided("a thread is lost".into())) };
        for (k, got) in answers {
            ensure!(got == first[&k], "call {k:?} answers {}, and beside other threads {got}", first[&k]);
            c.saw("single calls on threads");
        }
    }
    if c.index % 4 == 0 {
        // the other way round, in a process of its own
        let order: Vec<(usize, usize)> = first.keys().rev().copied().collect();
        let exe = std::env::current_exe().expect("exe");
        let out = Command::new(&exe)
            .env("MON_CALLS", format!("{seed:x}:{}", order.iter().map(|k| format!("{},{}", k.0, k.1)).collect::<Vec<_>>().join(":")))
            .env("MON_SHIFT", c.rng.int(-300_000_000, 300_000_000).to_string())
            .stdin(Stdio::null())
            .stderr(Stdio::null())
            .output();
        let Ok(out) = out else { return Err(Fail::Undecided("no fresh process to be had".into())) };
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let got: Vec<&str> = text.split('\u{1}').collect();
        if got.len() != order.len() + 1 {
            return Err(Fail::Undecided(format!("a fresh process ended with {:?}", out.status)));
        }
        for (k, g) in order.iter().zip(got) {
            ensure!(g == first[k], "call {k:?} answers {}, and in a process of its own {g}", first[k]);
            c.saw("single calls in fresh processes");
        }
    }
    c.nontrivial(mix(seed));
    Ok(())
}

fn reject(what: &str, x: usize, j: usize, a: &str, b: &str) -> R {
    violation(format!("job {j} on input {x} answers {} first, then {} {what}", cut(a, b), cut(b, a)))
}

fn repeat(c: &mut Case) -> R {
    let seed = c.rng.u64();
    let xs = Arc::new(family(seed));
    let n = xs.len();
    c.describe(|| xs.iter().map(|x| gen::show(&x.spectra[0])).collect::<Vec<_>>().join("; "));
    let given: Vec<String> = xs.iter().map(|x| format!("{:?}", x.spectra)).collect();
    let all = n * JOBS;
    let shuffled = |r: &mut Rng| {
        let mut o: Vec<usize> = (0..all).collect();
        r.shuffle(&mut o);
        o
    };
    let mut want = vec![String::new(); all];
    for k in shuffled(&mut c.rng) {
        want[k] = job(&xs[k / JOBS], k % JOBS);
    }
    // again, in another order
    for k in shuffled(&mut c.rng) {
        let got = job(&xs[k / JOBS], k % JOBS);
        if got != want[k] {
            return reject("in another order", k / JOBS, k % JOBS, &want[k], &got);
        }
        c.saw("answers repeated");
    }
    // all at once on several threads sharing the inputs, each in its own order
    let threads = 4;
    let gate = Arc::new(Barrier::new(threads));
    let handles: Vec<_> = (0..threads)
        .map(|_| {
            let (xs, gate) = (xs.clone(), gate.clone());
            let mut order = shuffled(&mut c.rng);
            order.truncate(all * 2 / 3);
            std::thread::spawn(move || {
                gate.wait();
                order.into_iter().map(|k| (k, job(&xs[k / JOBS], k % JOBS))).collect::<Vec<_>>()
            })
        })
        .collect();
    for h in handles {
        let Ok(answers) = h.join() else { return violation("a thread panicked on an input that is fine on its own") };
        for (k, got) in answers {
            if got != want[k] {
                return reject("beside other threads", k / JOBS, k % JOBS, &want[k], &got);
            }
            c.saw("answers on threads");
        }
    }
    // and each by itself in a process that was asked nothing before, at another time and place
    let exe = std::env::current_exe().expect("exe");
    for _ in 0..3 {
        let k = c.rng.below(all);
        let out = Command::new(&exe)
            .env("MON_SOLO", format!("{seed:x}:{}:{}", k / JOBS, k % JOBS))
            .env("MON_SHIFT", c.rng.int(-300_000_000, 300_000_000).to_string())
            .env("TZ", *c.rng.pick(&["America/New_York", "Asia/Kolkata", "UTC", "Pacific/Auckland"]))
            .env("LANG", "de_DE.UTF-8")
            .current_dir("/")
            .stdin(Stdio::null())
            .stderr(Stdio::null())
            .output();
        let Ok(out) = out else { return Err(Fail::Undecided("no fresh process to be had".into())) };
        let Some(got) = String::from_utf8_lossy(&out.stdout).strip_suffix("\nsolo").map(str::to_string) else {
            ensure!(out.status.code() != Some(101), "job {} on input {} answers here, and panics in a process of its own", k % JOBS, k / JOBS);
            return Err(Fail::Undecided(format!("a fresh process ended with {:?}", out.status)));
        };
        if got != want[k] {
            return reject("in a process of its own", k / JOBS, k % JOBS, &want[k], &got);
        }
        c.saw("answers of fresh processes");
    }
    for (x, g) in xs.iter().zip(&given) {
        ensure!(format!("{:?}", x.spectra) == *g, "the input is changed");
    }
    for (k, w) in want.iter().enumerate() {
        c.distinct("answers", hash_str(w) ^ mix(k as u64));
    }
    c.nontrivial(hash_str(&given.concat()));
    Ok(())
}

/// The part of `a` around its first difference from `b`
fn cut(a: &str, b: &str) -> String {
    let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let lo = at.saturating_sub(40);
    a.chars().skip(lo).take(120).collect()
}

fn main() {
    if let Ok(shift) = std::env::var("MON_SHIFT") {
        clock::SHIFT.store(shift.parse().unwrap(), std::sync::atomic::Ordering::Relaxed);
    }
    if let Ok(k) = std::env::var("MON_CALLS") {
        let k: Vec<&str> = k.split(':').collect();
        let p = pool(u64::from_str_radix(k[0], 16).unwrap());
        for k in &k[1..] {
            let (f, v) = k.split_once(',').unwrap();
            print!("{}\u{1}", may_panic(|| one(&p, f.parse().unwrap(), v.parse().unwrap())).unwrap_or("panic".into()));
        }
        std::process::exit(0);
    }
    if let Ok(solo) = std::env::var("MON_SOLO") {
        let p: Vec<&str> = solo.split(':').collect();
        let xs = family(u64::from_str_radix(p[0], 16).unwrap());
        print!("{}\nsolo", job(&xs[p[1].parse::<usize>().unwrap()], p[2].parse().unwrap()));
        std::process::exit(0);
    }
    kit::main(vec![Property {
        id: "C01",
        rule: "Twenty jobs over the spectral pipeline, the feed readers and the scalar functions run on two or three related inputs (same shape, transposed shape, one bin changed, other directions): in shuffled order, again in another, then on four threads behind a barrier in an order each; three answers per case are compared with those of a fresh process with another clock, time zone and working directory. Besides, single calls of 48 functions with few, similar arguments run thick and fast in random order, then on three threads, then in the reverse order in a fresh process. Answers are compared bit by bit, and the inputs with themselves. Non-trivial: every input.",
        monitors: vec![mon("repeat", 25, repeat), mon("calls", 160, calls)],
        require: vec![("answers repeated", 2000), ("answers on threads", 4000), ("answers", 1000), ("answers of fresh processes", 150), ("single calls repeated", 10000), ("single calls on threads", 50000), ("single calls in fresh processes", 2000), ("functions", 48)],
        assumptions: vec!["A job's answer in a fresh process stands for the answer without history."],
    }]);
}
