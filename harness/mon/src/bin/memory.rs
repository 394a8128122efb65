//! M01: no input makes the library touch memory it does not own, or keeps a call from
//! ending. Built with AddressSanitizer, then with MemorySanitizer; wrong answers and panics are left to the other
//! properties.
use chrono::{Duration, TimeZone, Utc};
use kit::rng::{hash_str, Rng};
use kit::*;
use mon::gen;
use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord;
use surfrs::data::spectral_wave_data_record::SpectralWaveDataRecord;
use surfrs::dimensional_data::DimensionalData;
use surfrs::location::*;
use surfrs::solar::calculate_solar_events;
use surfrs::spectra::{Spectra, SpectralAxis};
use surfrs::swell::{Swell, SwellSummary};
use surfrs::tools::contour::compute_latlng_gridded_contours;
use surfrs::tools::waves::*;
use surfrs::tools::{analysis, date as dates, interpolation, linspace, math, vector};
use surfrs::units::direction::Direction;
use surfrs::units::{Unit, UnitConvertible, UnitSystem};

macro_rules! others {
    ($($n:ident $f:literal),*) => { $(#[allow(dead_code)] #[path = $f] mod $n;)* };
}
others!(feeds "feeds.rs", grid "grid.rs", num "num.rs", partition "partition.rs", place "place.rs", swell "swell.rs", units "units.rs", waves "waves.rs");

/// Any float at all
fn wild(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.0,
        4 => -0.0,
        5 => f64::MAX,
        6 => f64::MIN_POSITIVE / 8.0,
        7 => r.int(-3, 400) as f64,
        8 => -r.log(1e-9, 1e12),
        9 => f64::from_bits(r.u64()),
        _ => r.log(1e-6, 1e6),
    }
}

/// Mostly sensible numbers with a wild one now and then
fn mixed(r: &mut Rng, n: usize) -> Vec<f64> {
    let p = *r.pick(&[0.0, 0.02, 0.3, 1.0]);
    (0..n).map(|_| if r.chance(p) { wild(r) } else { r.f(0.0, 30.0) }).collect()
}

/// Looks at everything it is given and keeps nothing
struct Sink;
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        std::hint::black_box(s);
        Ok(())
    }
}

/// Runs one call; a refusal by panic is as good as an answer here. An answer is written out
/// in full, so that every number in it decides something: a value that nobody ever stored is
/// then seen by MemorySanitizer.
fn call<T: std::fmt::Debug>(c: &mut Case, f: impl FnOnce() -> T) -> Option<T> {
    let r = may_panic(f);
    if let Ok(v) = &r {
        let _ = std::fmt::Write::write_fmt(&mut Sink, format_args!("{v:?}"));
    }
    c.saw(if r.is_ok() { "hostile calls answered" } else { "hostile calls refused" });
    r.ok()
}

fn sea(r: &mut Rng) -> Spectra {
    let (nk, nth) = (r.size(0, 20), r.size(0, 24));
    match r.below(5) {
        // ordinary axes, hostile energy
        0 | 1 => {
            let (nk, nth) = (nk.max(2), nth.max(3));
            let (mut s, _) = gen::any_spectra(r, nk, nth);
            for _ in 0..r.usize(1, 5) {
                let i = r.below(s.energy.len());
                s.energy[i] = wild(r);
            }
            s
        }
        // energy of another size than the axes say
        2 if r.chance(0.5) => {
            // ordinary axes, energy missing or left over
            let (nk, nth) = (nk.max(2), nth.max(3));
            let (mut s, _) = gen::any_spectra(r, nk, nth);
            let n = s.energy.len();
            let short = if r.chance(0.5) { n - r.usize(1, 3) } else { r.usize(0, n + 5) };
            s.energy.resize(short, 0.5);
            s
        }
        2 => {
            let (f, d) = (mixed(r, nk), mixed(r, nth));
            let n = r.usize(0, 600);
            Spectra::new(f, d, mixed(r, n), gen::convention(r))
        }
        _ => {
            let (f, d, e) = (mixed(r, nk), mixed(r, nth), mixed(r, nk * nth));
            Spectra::new(f, d, e, gen::convention(r))
        }
    }
}

fn spectra(c: &mut Case) -> R {
    let r = &mut c.rng;
    let s = sea(r);
    let o = sea(r);
    let (levels, blur) = (*r.pick(&[0, 1, 2, 3, 40, 100, 200, 254, 255, 256, 300]), if r.chance(0.3) { Some(wild(r) as f32 % 9.0) } else { None });
    // as many labels as there is energy, as there are bins, or some others
    let labelled = match r.below(6) {
        0 => s.energy.len() + 3,
        1 | 2 => s.nk() * s.nth(),
        _ => s.energy.len(),
    };
    let parts = r.usize(0, 9);
    let highest = if r.chance(0.5) { parts as i64 } else { 6 };
    let labels: Vec<i32> = (0..labelled).map(|_| r.int(-1, highest) as i32).collect();
    let limit = if r.chance(0.5) { Some(r.usize(0, 9)) } else { None };
    let (a, b, w) = (wild(r), wild(r), [wild(r), wild(r), wild(r)]);
    let (size, fill) = (r.size(0, 50), if r.chance(0.5) { Some(wild(r)) } else { None });
    let opt = |r: &mut Rng, v: f64| if r.chance(0.6) { Some(v) } else { None };
    let (d, ws, wd) = (opt(r, w[0]), opt(r, w[1]), opt(r, w[2]));
    let idx = (r.usize(0, 40), r.usize(0, 40));
    c.describe(|| format!("{s:?} {levels} {blur:?}"));
    let p = call(c, || s.partition(levels, blur));
    if let Some(Ok(p)) = p {
        call(c, || s.swell_data(d, ws, wd, &p).map(|x| (x.probable_false_components(), x.filtered_components())).ok());
    }
    call(c, || s.swell_data(d, ws, wd, &(labels.clone(), parts)).map(|x| (x.probable_false_components(), x.filtered_components())).ok());
    call(c, || Spectra::split_from_components(&s, &(labels.clone(), parts), limit));
    call(c, || (s.oned(SpectralAxis::Frequency), s.oned(SpectralAxis::Direction)));
    call(c, || (s.mom_f(-1), s.mom_f(0), s.mom_f(2), s.mom_d(1)));
    call(c, || (s.mean_wave_direction_f(), s.energy_range(), s.dk(), s.dth(), s.period(), s.direction_deg()));
    call(c, || (s.ik(a), s.ith(b)));
    call(c, || (s.closest_k(a), s.closest_th(b)));
    call(c, || s.interp_energy(a, b));
    call(c, || s.energy_at(idx.0, idx.1));
    call(c, || s.interpolate_to_grid(&o.frequency, &o.direction_raw()));
    call(c, || s.project_cartesian(&s.energy, size, fill, opt_of(a)));
    call(c, || s.project_cartesian(&o.energy, size, fill, None));
    call(c, || s.contoured().ok().map(|g| g.to_string()));
    c.nontrivial(hash_str(&format!("{s:?}")));
    Ok(())
}

fn opt_of(a: f64) -> Option<f64> {
    if a.abs() < 9.0 { Some(a) } else { None }
}

fn some_swell(r: &mut Rng, usual: bool) -> Swell {
    let d = Direction::from_degrees(if usual { r.int(0, 360) as i32 } else { r.u64() as i32 });
    let id = if r.chance(0.8) { Some(if usual { r.usize(0, 9) } else { r.u64() as usize }) } else { None };
    let mut s = Swell::new(&UnitSystem::Metric, wild(r), if usual { r.f(2.0, 20.0) } else { wild(r) }, d, None, None, id);
    if r.chance(0.1) {
        s.wave_height.value = None;
    }
    s
}

fn scalars(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (a, b, d, e, f) = (wild(r), wild(r), wild(r), wild(r), wild(r));
    let n = r.size(0, 60);
    let m = if r.chance(0.8) { n } else { r.size(0, 60) };
    let (x, y) = (mixed(r, n), mixed(r, m));
    let mut asc = mixed(r, n);
    asc.sort_by(f64::total_cmp);
    c.describe(|| format!("{a} {b} {d} {e} {f} {x:?} {y:?}"));
    call(c, || (ldis(a, b).ok(), wavenu3(a, b), wavenuma(a, b), celerity(a, Some(b)), wavelength(a, Some(b)), wave_energy(a, b)));
    call(c, || (break_wave(a, b, d, e, f).ok(), refraction_coefficient(a, b, d), shoaling_coefficient(a, b)));
    call(c, || (zero_spectral_moment(a, b), second_spectral_moment(a, b, d), steepness_coefficient(a, b), dfp_wind_sea(a, b, d, e), dfp_swell_sea(a, b)));
    call(c, || (math::scalar_from_uv(a, b), math::f_eq(a, b), math::is_some_missing(a, b)));
    call(c, || (normalize_latitude(a), normalize_longitude(a), absolute_longitude(a)));
    let (p, q) = (Location::new(a, b, "p".into()), Location::new(d, e, "q".into()));
    call(c, || (p.distance(&q, &UnitSystem::Metric), p.within_bbox(&(a, b, d, e)), p.absolute_longitude(), p.relative_latitude()));
    let t = Utc.timestamp_opt(c.rng.int(-8_000_000_000_000, 8_000_000_000_000), 0).single();
    let small = c.rng.int(0, 4_000_000);
    let k = c.rng.usize(0, 40) as u32;
    if let Some(t) = t {
        call(c, || calculate_solar_events(&p, &t));
        call(c, || dates::closest_gfs_model_gridded_datetime(&t));
        call(c, || dates::closest_gfs_model_stations_datetime(&t));
        call(c, || dates::closest_hourly_model_datetime(&t));
        call(c, || dates::round_to_nearest_multiple_hour(&t, k));
        call(c, || dates::gfs_model_fmrc_datetimes((t, t + Duration::seconds(small))));
    }
    call(c, || analysis::lerp(&a, &b, &d, &e, &f));
    call(c, || analysis::detect_peaks(&x, a));
    call(c, || vector::argsort_partial(&x));
    call(c, || (vector::diff_abs(&x), vector::diff(&x), vector::min_max(&x)));
    call(c, || vector::bin(&x, &a, &b, &(n as u8)));
    call(c, || linspace::linspace(a, b, n).rev().collect::<Vec<f64>>());
    for (k, v) in [(&x, &y), (&asc, &y)] {
        call(c, || interpolation::PchipInterpolator::new(k, v).interpolate_many(&[a, b, d]));
        call(c, || interpolation::circular_pchip_interpolate(k, v, a));
    }
    let (w, h, i) = (c.rng.size(0, 9), c.rng.size(0, 9), c.rng.size(0, 90));
    call(c, || analysis::nearest_neighbors(w, h, i));
    let data = mixed(&mut c.rng, w * h + if i > 80 { 2 } else { 0 });
    let levels = *c.rng.pick(&[0, 1, 2, 50, 255, 256]);
    call(c, || analysis::watershed(&data, w, h, levels, None).ok());
    let steps = if c.rng.chance(0.5) { Some(c.rng.size(0, 9)) } else { None };
    let (east, hi) = (if c.rng.chance(0.5) { 360.0 * (1.0 - 1.0 / (w as f64)) } else { b }, opt_of(f));
    call(c, || compute_latlng_gridded_contours(data.clone(), w, h, 0.0, east, d, e, opt_of(a), hi, steps, Some(|i: &usize, v: &f64| format!("{i}{v}"))).ok());
    c.nontrivial(hash_str(&format!("{a}{b}{x:?}{data:?}")));
    Ok(())
}

fn swells(c: &mut Case) -> R {
    let usual = c.rng.chance(0.5);
    let n = c.rng.size(0, 8);
    let t = Utc.timestamp_opt(c.rng.int(0, 2_000_000_000), 0).unwrap();
    let steps: Vec<_> = (0..n)
        .map(|i| {
            let m = c.rng.size(0, 6);
            let back = if usual { i as i64 } else { c.rng.int(-9, 9) };
            (t + Duration::hours(back), (0..m).map(|_| some_swell(&mut c.rng, usual)).collect::<Vec<_>>())
        })
        .collect();
    c.describe(|| format!("{steps:?}"));
    let (a, b) = (wild(&mut c.rng), wild(&mut c.rng));
    call(c, || track_partitions(&steps, a, b));
    call(c, || track_partitions(&steps, 30.0, 3e6));
    for (_, s) in &steps {
        if let Some(first) = s.first() {
            let mut sum = SwellSummary { summary: first.clone(), components: s.clone() };
            call(c, || (sum.probable_false_components(), sum.filtered_components(), sum.to_units(&UnitSystem::English).clone()));
            call(c, || estimate_breaking_wave_height(first, a, 0.02, b).ok());
        }
    }
    let nf = c.rng.size(0, 30);
    let f = mixed(&mut c.rng, nf);
    let dirs = {
        let n = c.rng.size(0, 20);
        mixed(&mut c.rng, n)
    };
    let rec = |r: &mut Rng| {
        let m = if r.chance(0.8) { nf } else { r.size(0, 30) };
        SpectralWaveDataRecord { date: t, separation_frequency: None, value: mixed(r, m), frequency: f.clone() }
    };
    let (e, a1, a2, r1, r2) = (rec(&mut c.rng), rec(&mut c.rng), rec(&mut c.rng), rec(&mut c.rng), rec(&mut c.rng));
    call(c, || DirectionalSpectralWaveDataRecord::from_data_records(&dirs, e, a1, a2, r1, r2).spectra.energy);
    let mut dd = DimensionalData { value: Some(a), variable_name: "x".into(), unit: Unit::Celsius };
    call(c, || format!("{}", dd.to_units(&UnitSystem::English)));
    c.nontrivial(hash_str(&format!("{steps:?}{f:?}")));
    Ok(())
}

fn properties() -> Vec<Property> {
    let mut monitors = vec![mon("hostile_spectra", 400, spectra), mon("hostile_scalars", 600, scalars), mon("hostile_swells", 500, swells)];
    for p in [feeds::properties(), grid::properties(), num::properties(), partition::properties(), place::properties(), swell::properties(), units::properties(), waves::properties()] {
        for m in p.into_iter().flat_map(|p| p.monitors) {
            monitors.push(Monitor { quick: (m.quick / 250).max(1), space: None, ..m });
        }
    }
    vec![Property {
        id: "M01",
        rule: "The workloads of all other properties, at a fraction of their size, and hostile ones: any float (NaN, infinities, denormals, random bits), axes and energies of unfit sizes, any labels, any ids, out-of-range indexes, in every public numeric function. One build is instrumented by AddressSanitizer, with Rust's own checks of unsafe preconditions on, a second by MemorySanitizer, standard library included; a case that kills the process or burns 60 s of CPU time is a violation, a panic or an error is not. Non-trivial: every hostile input and those of the other properties.",
        monitors,
        require: vec![("hostile calls answered", 20000), ("hostile calls refused", 500)],
        assumptions: vec!["Accesses outside of allocations and after their release are seen by AddressSanitizer; uninitialised memory is seen by MemorySanitizer once a branch, an index or the text of an answer depends on it."],
    }]
}

fn main() {
    kit::crash_only();
    kit::main(properties())
}
