//! U01 conversion factors, U03 compass directions, U04 measurements as text.
use kit::num::{ang, close};
use kit::rng::{hash_f64s, hash_str, mix};
use kit::*;
use surfrs::dimensional_data::DimensionalData;
use surfrs::swell::Swell;
use surfrs::tools::math::is_some_missing;
use surfrs::units::direction::DirectionConvention;
use surfrs::units::{CardinalDirection, Direction, Steepness, Unit, UnitSystem};

// ---- U01 -------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Q {
    Length,
    Speed,
    Temperature,
    Pressure,
    Other,
}

/// (unit, quantity, base units per unit, base units at zero)
fn table() -> Vec<(Unit, Q, f64, f64)> {
    use Q::*;
    vec![
        (Unit::Millimeters, Length, 0.001, 0.0),
        (Unit::Meters, Length, 1.0, 0.0),
        (Unit::Inches, Length, 0.0254, 0.0),
        (Unit::Feet, Length, 0.3048, 0.0),
        (Unit::MetersPerSecond, Speed, 1.0, 0.0),
        (Unit::MilesPerHour, Speed, 0.44704, 0.0),
        (Unit::Knots, Speed, 1852.0 / 3600.0, 0.0),
        (Unit::Celsius, Temperature, 1.0, 273.15),
        (Unit::Fahrenheit, Temperature, 5.0 / 9.0, 459.67 * 5.0 / 9.0),
        (Unit::Kelvin, Temperature, 1.0, 0.0),
        (Unit::Pascal, Pressure, 1.0, 0.0),
        (Unit::HectaPascal, Pressure, 100.0, 0.0),
        (Unit::InchesMercury, Pressure, 3386.389, 0.0),
        (Unit::MetersSquaredPerHertz, Other, 1.0, 0.0),
        (Unit::NauticalMiles, Other, 1.0, 0.0),
        (Unit::Degrees, Other, 1.0, 0.0),
        (Unit::Seconds, Other, 1.0, 0.0),
        (Unit::Percent, Other, 1.0, 0.0),
        (Unit::KiloJoules, Other, 1.0, 0.0),
        (Unit::Unknown, Other, 1.0, 0.0),
    ]
}

/// The pairs the library converts between: neighbours within a system or across systems.
fn related(a: &Unit, b: &Unit) -> bool {
    let pairs = [
        (Unit::Millimeters, Unit::Meters),
        (Unit::Millimeters, Unit::Inches),
        (Unit::Meters, Unit::Feet),
        (Unit::Inches, Unit::Feet),
        (Unit::MetersPerSecond, Unit::MilesPerHour),
        (Unit::MetersPerSecond, Unit::Knots),
        (Unit::MilesPerHour, Unit::Knots),
        (Unit::Celsius, Unit::Fahrenheit),
        (Unit::Celsius, Unit::Kelvin),
        (Unit::Fahrenheit, Unit::Kelvin),
        (Unit::Pascal, Unit::HectaPascal),
        (Unit::HectaPascal, Unit::InchesMercury),
    ];
    pairs.iter().any(|(x, y)| (x == a && y == b) || (x == b && y == a))
}

/// Pairs whose factor is a decimal by definition
fn exact(a: &Unit, b: &Unit) -> bool {
    let small = [Unit::Millimeters, Unit::Inches];
    (small.contains(a) || small.contains(b) || *a == Unit::Pascal || *b == Unit::Pascal) && a != b
}

/// How near a factor has to be: those of the knot are published to three digits
fn within(a: &Unit, b: &Unit) -> f64 {
    if exact(a, b) {
        1e-12
    } else if *a == Unit::Knots || *b == Unit::Knots {
        0.0011
    } else {
        0.0001
    }
}

const SYSTEMS: [UnitSystem; 4] = [UnitSystem::Metric, UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin];

fn factors(c: &mut Case) -> R {
    let t = table();
    let value = match c.rng.below(8) {
        0 => 0.0,
        1 => c.rng.f(-500.0, 0.0),
        2 => c.rng.int(-100, 2000) as f64,
        3 => c.rng.log(1e-4, 1e6),
        4 => -40.0,
        _ => c.rng.f(0.0, 1500.0),
    };
    c.describe(|| format!("{value}"));
    for (a, qa, sa, za) in &t {
        let same = a.convert(value, a);
        ensure!(same == value, "{value} {a} in {a} is {same}");
        for (b, qb, sb, zb) in &t {
            if !related(a, b) {
                continue;
            }
            ensure!(qa == qb, "harness: table");
            let got = a.convert(value, b);
            let want = (value * sa + za - zb) / sb;
            let ok = if *qa == Q::Temperature { (got - want).abs() < 1e-9 * (1.0 + value.abs()) } else { close(got, want, within(a, b), 1e-12) };
            ensure!(ok, "{value} {a} is {want} {b}, converted to {got}");
            if *qa != Q::Temperature && want != 0.0 {
                c.max("relative error of a conversion", ((got - want) / want).abs());
            }
            let back = b.convert(got, a);
            let ok = if *qa == Q::Temperature { (back - value).abs() < 1e-9 * (1.0 + value.abs()) } else { close(back, value, within(a, b), 1e-12) };
            ensure!(ok, "{value} {a} to {b} and back is {back}");
            c.saw("conversions");
        }
        // the unit a system uses measures the same thing and is one the unit converts to
        for s in &SYSTEMS {
            let u = a.convert_system(s);
            let want = expected(a, s);
            ensure!(u == want, "{a} in the {s} system is {u}, expected {want}");
            ensure!(u.convert_system(s) == u, "{a} in the {s} system is {u}, then {}", u.convert_system(s));
            if u != *a {
                ensure!(related(a, &u), "{a} in the {s} system is {u}, another quantity");
                c.saw("system changes");
            }
        }
    }
    // miles and pounds to the cubic foot
    let (m, e) = (UnitSystem::Metric, UnitSystem::English);
    let (rm, re) = (m.earths_radius(), e.earths_radius() * 1.609344);
    ensure!(close(rm, 6371.0, 2e-3, 0.0) && close(re, 6371.0, 2e-3, 0.0), "the earth's radius is {rm} km or {re} km");
    let (dm, de) = (m.density_of_seawater(), e.density_of_seawater() * 0.45359237 / 0.3048f64.powi(3));
    ensure!(close(dm, 1027.0, 5e-3, 0.0) && close(de, dm, 5e-3, 0.0), "sea water weighs {dm} or {de} kilograms to the cubic metre");
    c.nontrivial(hash_f64s(&[value]));
    Ok(())
}

fn expected(u: &Unit, s: &UnitSystem) -> Unit {
    let kinds = [
        (Unit::Millimeters, Unit::Inches),
        (Unit::Meters, Unit::Feet),
        (Unit::MetersPerSecond, Unit::MilesPerHour),
        (Unit::Celsius, Unit::Fahrenheit),
        (Unit::HectaPascal, Unit::InchesMercury),
    ];
    if *s == UnitSystem::Knots {
        return if matches!(u, Unit::MetersPerSecond | Unit::MilesPerHour) { Unit::Knots } else { u.clone() };
    }
    if *s == UnitSystem::Kelvin {
        return if matches!(u, Unit::Celsius | Unit::Fahrenheit) { Unit::Kelvin } else { u.clone() };
    }
    let metric = *s == UnitSystem::Metric;
    let base = match u {
        Unit::Knots => Unit::MetersPerSecond,
        Unit::Kelvin => Unit::Celsius,
        o => o.clone(),
    };
    for (m, e) in kinds {
        if base == m || base == e {
            return if metric { m } else { e };
        }
    }
    u.clone()
}

// ---- U03 -------------------------------------------------------------------------------

const COMPASS: [&str; 16] = ["n", "nne", "ne", "ene", "e", "ese", "se", "sse", "s", "ssw", "sw", "wsw", "w", "wnw", "nw", "nnw"];

fn sector(deg: f64) -> &'static str {
    COMPASS[((deg / 22.5 + 0.5).floor() as usize) % 16]
}

fn compass(c: &mut Case) -> R {
    let d = c.index as i32; // 0..=360
    let dir = Direction::from_degrees(d);
    c.describe(|| format!("{d} degrees"));
    let name = sector(d as f64);
    ensure!(dir.degrees == d, "{d} degrees is held as {}", dir.degrees);
    ensure!(dir.cardinal_direction().to_string() == name, "{d} degrees is called {:?}, expected {name}", dir.cardinal_direction().to_string());
    ensure!(CardinalDirection::from_degrees(&d).to_string() == name, "{d} degrees names {}", CardinalDirection::from_degrees(&d));
    let text = dir.to_string();
    ensure!(text == format!("{d}° {name}"), "{d} degrees is shown as {text:?}");
    ensure!(close(dir.radian(), (d as f64) * std::f64::consts::PI / 180.0, 1e-12, 1e-12), "{d} degrees is {} radians", dir.radian());
    // the rest of a direction beyond the circle is turned back into it
    let far = Direction::from_degrees(d + 360 * c.rng.int(1, 3) as i32);
    let mut turned = far.clone();
    turned.flip();
    for t in [far.invert(), turned] {
        ensure!((0..=360).contains(&t.degrees) && ang(t.degrees as f64, d as f64 + 180.0) < 1e-9, "the opposite of {} is {}", far.degrees, t.degrees);
    }
    let inv = dir.invert();
    ensure!((0..=360).contains(&inv.degrees) && ang(inv.degrees as f64, d as f64 + 180.0) < 1e-9, "the opposite of {d} is {}", inv.degrees);
    ensure!(inv.cardinal_direction().to_string() == sector(inv.degrees as f64), "the opposite of {d} is called {}", inv.cardinal_direction());
    let mut fl = dir.clone();
    fl.flip();
    ensure!(fl.degrees == inv.degrees && fl.cardinal_direction() == inv.cardinal_direction(), "flipping {d} gives {} {}", fl.degrees, fl.cardinal_direction());
    fl.flip();
    ensure!(ang(fl.degrees as f64, d as f64) < 1e-9, "flipping {d} twice gives {}", fl.degrees);
    // from any angle in radians: the nearest whole degree, named for it
    for _ in 0..20 {
        let x = (d as f64 + c.rng.f(-0.499, 0.499)).clamp(0.0, 360.0);
        let g = Direction::from_radians(x.to_radians());
        ensure!(ang(g.degrees as f64, x) <= 0.5 + 1e-9, "{x} degrees in radians is read as {}", g.degrees);
        ensure!(g.cardinal_direction().to_string() == sector(g.degrees as f64), "{x} degrees in radians is called {}", g.cardinal_direction());
        // and beyond the circle, either way
        let x = x + 360.0 * c.rng.int(-2, 2) as f64;
        let g = Direction::from_radians(x.to_radians());
        ensure!(ang(g.degrees as f64, x) <= 0.5 + 1e-9, "{x} degrees in radians is read as {}", g.degrees);
        c.saw("radians");
    }
    let back = Direction::from_radians(dir.radian());
    ensure!(back.degrees == d, "{d} degrees to radians and back is {}", back.degrees);
    // degrees as text
    let Ok(p) = d.to_string().parse::<Direction>() else { return violation(format!("{d} is not read as a direction")) };
    ensure!(p.degrees == d && p.cardinal_direction().to_string() == name, "{d} is read as {} {}", p.degrees, p.cardinal_direction());
    // opposites
    for e in 0..=360 {
        let off = ang(d as f64, e as f64);
        let o = dir.is_opposite(&Direction::from_degrees(e));
        ensure!(o == (off >= 170.0), "{d} and {e} degrees, {off} apart, opposite: {o}");
        c.saw("pairs");
    }
    c.nontrivial(mix(d as u64));
    Ok(())
}

fn names(c: &mut Case) -> R {
    let i = c.index as usize % 16;
    let n = COMPASS[i];
    let text: String = n.chars().map(|ch| if c.rng.chance(0.5) { ch.to_ascii_uppercase() } else { ch }).collect();
    c.describe(|| text.clone());
    let Ok(k) = text.parse::<CardinalDirection>() else { return violation(format!("{text} is not a compass name")) };
    ensure!(k.to_string() == n, "{text} is read as {k}");
    let deg = k.to_degrees();
    ensure!(ang(deg as f64, i as f64 * 22.5) <= 0.5, "{text} lies at {deg} degrees");
    ensure!(CardinalDirection::from_degrees(&deg) == k, "{text} at {deg} degrees is called {}", CardinalDirection::from_degrees(&deg));
    let Ok(d) = text.parse::<Direction>() else { return violation(format!("{text} is not a direction")) };
    ensure!(d.degrees == deg && d.cardinal_direction() == &k, "{text} is read as {} {}", d.degrees, d.cardinal_direction());
    let f = Direction::from_cardinal_direction(k.clone());
    ensure!(f.degrees == deg && f.cardinal_direction() == &k, "{text} makes {} {}", f.degrees, f.cardinal_direction());
    // anything else is refused
    let junk = match c.rng.below(6) {
        0 => "".to_string(),
        1 => format!("{text}{text}{text}"),
        2 => "MM".into(),
        3 => format!("{text}x"),
        4 => format!("{:.1}", c.rng.f(0.0, 360.0)),
        _ => "north".into(),
    };
    ensure!(junk.parse::<CardinalDirection>().is_err(), "{junk:?} is read as a compass name");
    ensure!(junk.parse::<Direction>().is_err(), "{junk:?} is read as a direction");
    c.saw("names");
    c.nontrivial(hash_str(&text));
    Ok(())
}

fn conventions(c: &mut Case) -> R {
    let x = if c.rng.chance(0.3) { c.rng.int(0, 359) as f64 } else { c.rng.f(0.0, 360.0) };
    c.describe(|| format!("{x}"));
    for (k, want) in [
        (DirectionConvention::From, x),
        (DirectionConvention::Towards, x + 180.0),
        // counterclockwise from east, towards
        (DirectionConvention::Met, 270.0 - x),
    ] {
        let g = k.normalize(x);
        ensure!((0.0..=360.0).contains(&g), "{x} degrees {k:?} is {g}");
        ensure!(ang(g, want) < 1e-9, "{x} degrees {k:?} comes from {want}, computed {g}");
        c.saw("normalized");
    }
    c.nontrivial(hash_f64s(&[x]));
    Ok(())
}

// ---- U04 -------------------------------------------------------------------------------

const LABELS: [(Unit, &str); 20] = [
    (Unit::Millimeters, "mm"),
    (Unit::Meters, "m"),
    (Unit::MetersPerSecond, "m/s"),
    (Unit::Celsius, "°C"),
    (Unit::Pascal, "pa"),
    (Unit::HectaPascal, "hpa"),
    (Unit::Inches, "in"),
    (Unit::Feet, "ft"),
    (Unit::MilesPerHour, "mph"),
    (Unit::Fahrenheit, "°F"),
    (Unit::InchesMercury, "in Hg"),
    (Unit::Knots, "kt"),
    (Unit::Kelvin, "K"),
    (Unit::MetersSquaredPerHertz, "m²/Hz"),
    (Unit::NauticalMiles, "nmi"),
    (Unit::Degrees, "°"),
    (Unit::Seconds, "s"),
    (Unit::Percent, "%"),
    (Unit::KiloJoules, "kJ"),
    (Unit::Unknown, ""),
];

/// Ways feeds and people spell units
const SPELLINGS: [(&str, Unit); 67] = [
    ("mm", Unit::Millimeters),
    ("millimeter", Unit::Millimeters),
    ("millimeters", Unit::Millimeters),
    ("m", Unit::Meters),
    ("meter", Unit::Meters),
    ("meters", Unit::Meters),
    ("wmoUnit:m", Unit::Meters),
    ("m/s", Unit::MetersPerSecond),
    ("mps", Unit::MetersPerSecond),
    ("ms-1", Unit::MetersPerSecond),
    ("meterPerSecond", Unit::MetersPerSecond),
    ("metersPerSecond", Unit::MetersPerSecond),
    ("°C", Unit::Celsius),
    ("degCelsius", Unit::Celsius),
    ("degreeCelsius", Unit::Celsius),
    ("degreesCelsius", Unit::Celsius),
    ("wmoUnit:degC", Unit::Celsius),
    ("pa", Unit::Pascal),
    ("pascal", Unit::Pascal),
    ("pascals", Unit::Pascal),
    ("hPa", Unit::HectaPascal),
    ("hectaPascal", Unit::HectaPascal),
    ("hectaPascals", Unit::HectaPascal),
    ("in", Unit::Inches),
    ("inch", Unit::Inches),
    ("inches", Unit::Inches),
    ("ft", Unit::Feet),
    ("foot", Unit::Feet),
    ("feet", Unit::Feet),
    ("mph", Unit::MilesPerHour),
    ("m/h", Unit::MilesPerHour),
    ("mh-1", Unit::MilesPerHour),
    ("milesPerHour", Unit::MilesPerHour),
    ("F", Unit::Fahrenheit),
    ("°F", Unit::Fahrenheit),
    ("degFahrenheit", Unit::Fahrenheit),
    ("degreeFahrenheit", Unit::Fahrenheit),
    ("degreesFahrenheit", Unit::Fahrenheit),
    ("inHg", Unit::InchesMercury),
    ("inches mercury", Unit::InchesMercury),
    ("kt", Unit::Knots),
    ("kts", Unit::Knots),
    ("knot", Unit::Knots),
    ("knots", Unit::Knots),
    ("K", Unit::Kelvin),
    ("kelvin", Unit::Kelvin),
    ("m^2/Hz", Unit::MetersSquaredPerHertz),
    ("m2Hz-1", Unit::MetersSquaredPerHertz),
    ("metersSquaredPerHertz", Unit::MetersSquaredPerHertz),
    ("nmi", Unit::NauticalMiles),
    ("nauticalMile", Unit::NauticalMiles),
    ("nauticalMiles", Unit::NauticalMiles),
    ("°", Unit::Degrees),
    ("deg", Unit::Degrees),
    ("degs", Unit::Degrees),
    ("degree", Unit::Degrees),
    ("degrees", Unit::Degrees),
    ("s", Unit::Seconds),
    ("second", Unit::Seconds),
    ("seconds", Unit::Seconds),
    ("%", Unit::Percent),
    ("percent", Unit::Percent),
    ("percentage", Unit::Percent),
    ("wmoUnit:percent", Unit::Percent),
    ("kJ", Unit::KiloJoules),
    ("kiloJoule", Unit::KiloJoules),
    ("kiloJoules", Unit::KiloJoules),
];

/// The units' full names
const NAMES: [(Unit, &str); 20] = [
    (Unit::Millimeters, "millimeters"),
    (Unit::Meters, "meters"),
    (Unit::MetersPerSecond, "meters per second"),
    (Unit::Celsius, "degrees celsius"),
    (Unit::Pascal, "pascal"),
    (Unit::HectaPascal, "hecta pascal"),
    (Unit::Inches, "inches"),
    (Unit::Feet, "feet"),
    (Unit::MilesPerHour, "miles per hour"),
    (Unit::Fahrenheit, "degrees fahrenheit"),
    (Unit::InchesMercury, "inches mercury"),
    (Unit::Knots, "knots"),
    (Unit::Kelvin, "kelvin"),
    (Unit::MetersSquaredPerHertz, "meters squared per hertz"),
    (Unit::NauticalMiles, "nautical miles"),
    (Unit::Degrees, "degrees"),
    (Unit::Seconds, "seconds"),
    (Unit::Percent, "percent"),
    (Unit::KiloJoules, "kilojoules"),
    (Unit::Unknown, "unknown"),
];

fn spellings(c: &mut Case) -> R {
    let (s, u) = &SPELLINGS[c.index as usize % SPELLINGS.len()];
    let text: String = s.chars().map(|ch| if c.rng.chance(0.3) && ch.is_ascii() { ch.to_ascii_uppercase() } else { ch }).collect();
    let pad = *c.rng.pick(&["", " ", "\t"]);
    let text = format!("{pad}{text}{pad}");
    c.describe(|| text.clone());
    let g = Unit::from(text.as_str());
    ensure!(g == *u, "{text:?} is read as {g:?}, expected {u:?}");
    let (u, name) = &NAMES[c.index as usize % NAMES.len()];
    ensure!(u.name().to_lowercase().replace([' ', '-'], "") == name.replace(' ', ""), "{u:?} is named {:?}", u.name());
    let junk = *c.rng.pick(&["", "furlongs", "mm/h", "?", "kgm-2"]);
    ensure!(Unit::from(junk) == Unit::Unknown, "{junk:?} is read as {:?}", Unit::from(junk));
    c.saw("spellings");
    c.distinct("spellings", hash_str(s));
    c.nontrivial(hash_str(&text));
    Ok(())
}

fn measurements(c: &mut Case) -> R {
    let (u, label) = LABELS[c.rng.below(20) as usize].clone();
    ensure!(u.abbreviation() == label && u.to_string() == label, "{u:?} is labelled {:?}", u.abbreviation());
    // a number as text
    let v = match c.rng.below(5) {
        0 => 0.0,
        1 => c.rng.int(-999, 9999) as f64,
        2 => c.rng.log(1e-6, 1e9),
        _ => (c.rng.f(-100.0, 1100.0) * 1000.0).round() / 1000.0,
    };
    let text = if v.fract() == 0.0 && c.rng.chance(0.5) { format!("{}", v as i64) } else { format!("{v}") };
    c.describe(|| format!("{text} {u:?}"));
    let d = DimensionalData::<f64>::from_raw_data(&text, "thing".into(), u.clone());
    ensure!(d.value == Some(v) && d.unit == u && d.variable_name == "thing", "{text} {u:?} is read as {d:?}");
    ensure!(d.get_value() == v && d.get_value_opt() == Some(v), "{text} has the value {}", d.get_value());
    ensure!(d.unit_label() == label, "{u:?} measurement is labelled {:?}", d.unit_label());
    let shown = d.to_string();
    let want = if u == Unit::Degrees { format!("{v:.1}") } else { format!("{v:.1} {label}") };
    ensure!(shown.trim_end() == want.trim_end(), "{text} {u:?} is shown as {shown:?}, expected {want:?}");
    ensure!(d.try_string().map(|s| s.trim_end().to_string()) == Some(want.trim_end().into()), "{text} {u:?} as a string: {:?}", d.try_string());
    let js = serde_json::to_value(&d).unwrap();
    ensure!(js["unit_label"] == label && close(js["value"].as_f64().unwrap_or(f64::NAN), v, 1e-15, 0.0) && js["variable_name"] == "thing", "{text} {u:?} is written as {js}");
    let f = DimensionalData::<f32>::from_raw_data(&text, "thing".into(), u.clone());
    ensure!(f.value == Some(v as f32) || f.value == text.parse().ok(), "{text} {u:?} is read as {f:?}");
    // something else as text
    let junk = match c.rng.below(7) {
        0 => "MM".to_string(),
        6 => {
            let mark = *c.rng.pick(&["*", "#", "?", "%", "f", "M", "(", ",", "_"]);
            if c.rng.chance(0.5) { format!("{text}{mark}") } else { format!("{mark}{text}") }
        }
        1 => "".into(),
        2 => format!("{text}x"),
        3 => "--".into(),
        4 => format!("{text} {text}"),
        _ => "1,5".into(),
    };
    let m = DimensionalData::<f64>::from_raw_data(&junk, "thing".into(), u.clone());
    ensure!(m.value.is_none() && m.unit == u, "{junk:?} is read as {m:?}");
    ensure!(m.get_value().is_nan() && m.get_value_opt().is_none() && m.try_string().is_none() && m.to_string() == "N/A", "a missing value is shown as {m} and valued {}", m.get_value());
    let js = serde_json::to_value(&m).unwrap();
    ensure!(js["value"].is_null(), "a missing value is written as {js}");
    let mf = DimensionalData::<f32>::from_raw_data(&junk, "thing".into(), u.clone());
    ensure!(mf.value.is_none() && mf.get_value().is_nan() && mf.get_value_opt().is_none(), "{junk:?} is read as {mf:?}");
    // directions
    let deg = c.rng.int(0, 360) as i32;
    let dd = DimensionalData::<Direction>::from_raw_data(&deg.to_string(), "way".into(), Unit::Degrees);
    ensure!(dd.get_value().degrees == deg, "{deg} is read as {dd:?}");
    let fd: DimensionalData<f64> = dd.into();
    ensure!(fd.value == Some(deg as f64) && fd.unit == Unit::Degrees && fd.variable_name == "way", "a direction of {deg} becomes {fd:?}");
    let md = DimensionalData::<Direction>::from_raw_data("MM", "way".into(), Unit::Degrees);
    ensure!(md.value.is_none() && md.get_value_opt().is_none(), "MM is read as {md:?}");
    ensure!(*md.get_value().cardinal_direction() == CardinalDirection::Invalid, "a missing direction is {}", md.get_value());
    let fd: DimensionalData<f64> = md.into();
    ensure!(fd.value.is_none(), "a missing direction becomes {fd:?}");
    // a swell, in words
    let (h, t) = (c.rng.f(0.0, 30.0), c.rng.f(0.0, 30.0));
    let (sys, label) = if c.rng.chance(0.5) { (UnitSystem::Metric, "m") } else { (UnitSystem::English, "ft") };
    let to = Direction::from_degrees(deg);
    let sw = Swell::new(&sys, h, t, to.clone(), None, None, None);
    ensure!(sw.to_string() == format!("{h:.1} {label} @ {t:.1} s {to}"), "a swell of {h} {label}, {t} s and {to} is shown as {sw}");
    // missing codes
    let code = *c.rng.pick(&[999.0, 99.0, 9999.0, 999.9]);
    ensure!(is_some_missing(code, code).is_none(), "the missing code {code} is a value");
    let off = code + *c.rng.pick(&[0.01, -0.01, 1.0, -900.0]);
    ensure!(is_some_missing(off, code) == Some(off), "{off} is taken for the missing code {code}");
    c.saw("measurements");
    c.nontrivial(hash_f64s(&[v, deg as f64]));
    Ok(())
}

fn steepnesses(c: &mut Case) -> R {
    let all = [("VERY_STEEP", Steepness::VerySteep), ("STEEP", Steepness::Steep), ("AVERAGE", Steepness::Average), ("SWELL", Steepness::Swell), ("NA", Steepness::NA)];
    let (t, s) = &all[c.index as usize % 5];
    c.describe(|| t.to_string());
    ensure!(s.to_string() == *t && s.as_str() == *t, "{s:?} is shown as {s}");
    ensure!(t.parse::<Steepness>().ok().as_ref() == Some(s), "{t} is not read as {s:?}");
    ensure!("N/A?".parse::<Steepness>().is_err() && "".parse::<Steepness>().is_err(), "junk is read as a steepness");
    c.saw("steepnesses");
    c.nontrivial(hash_str(t));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "U01",
            rule: "Every related pair of units at random values, against the defining SI factors; every unit in every system, against the expected unit. Non-trivial: every value.",
            monitors: vec![mon("factors", 1500, factors)],
            require: vec![("conversions", 100000), ("system changes", 50000)],
            assumptions: vec!["factors that are no decimals by definition within 0.01%, those of knots within 0.11%"],
        },
        Property {
            id: "U03",
            rule: "Every whole degree 0..360 and all pairs of them, radians around each, all compass names in mixed case, and conventions at random angles. Non-trivial: every case.",
            monitors: vec![all("compass", 361, compass), mon("names", 400, names), mon("conventions", 2000, conventions)],
            require: vec![("pairs", 361 * 361), ("radians", 7000), ("names", 400), ("normalized", 3000)],
            assumptions: vec!["angles from 0 to 360 degrees"],
        },
        Property {
            id: "U04",
            rule: "Random numbers, junk and missing markers read as measurements in every unit, shown, labelled and written; every unit spelling and steepness word. Non-trivial: every case.",
            monitors: vec![mon("measurements", 4000, measurements), mon("spellings", 600, spellings), all("steepnesses", 5, steepnesses)],
            require: vec![("measurements", 4000), ("spellings", 40), ("steepnesses", 5)],
            assumptions: vec![],
        },
    ]
}

#[allow(dead_code)]
fn main() {
    kit::main(properties());
}
