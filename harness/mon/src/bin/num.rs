//! N01 interpolation and linspace, N02 vectors, N03 peaks and neighbours.
use kit::rng::{hash_f64s, mix, Rng};
use kit::*;
use std::collections::BTreeSet;
use surfrs::tools::analysis::{bilerp, detect_peaks, lerp, nearest_neighbors};
use surfrs::tools::linspace::linspace;
use surfrs::tools::vector::*;

fn spaced(c: &mut Case) -> R {
    let n = match c.rng.below(5) { 0 => 0, 1 => 1, 2 => 2, _ if c.rng.chance(0.004) => c.rng.usize(4000, 70000), _ => c.rng.usize(3, 400) };
    let (mut a, mut b) = (c.rng.f(-1e3, 1e3), if c.rng.chance(0.1) { 0.0 } else { c.rng.f(-1e3, 1e3) });
    // of any size
    let size = if c.rng.chance(0.3) { c.rng.log(1e-18, 1e18) } else { 1.0 };
    a *= size;
    b *= size;
    c.describe(|| format!("{n} from {a} to {b}"));
    let v: Vec<f64> = linspace(a, b, n).collect();
    ensure!(v.len() == n && linspace(a, b, n).len() == n, "{} of {n} values", v.len());
    let tol = 1e-11 * (a.abs() + b.abs());
    for (i, x) in v.iter().enumerate() {
        let want = if n == 1 { a } else { a + (b - a) * i as f64 / (n - 1) as f64 };
        ensure!((x - want).abs() <= tol, "value {i} of {n} from {a} to {b} is {want}, computed {x}");
    }
    let mut back: Vec<f64> = linspace(a, b, n).rev().collect();
    back.reverse();
    ensure!(back == v, "{n} values from {a} to {b} differ when taken from the end");
    // from both ends at once
    let mut it = linspace(a, b, n);
    let (mut head, mut tail) = (vec![], vec![]);
    loop {
        let left = it.len();
        ensure!(left + head.len() + tail.len() == n, "{left} values left after {}", head.len() + tail.len());
        let x = if c.rng.chance(0.5) { it.next().map(|x| head.push(x)) } else { it.next_back().map(|x| tail.push(x)) };
        if x.is_none() {
            break;
        }
    }
    tail.reverse();
    head.extend(tail);
    ensure!(head == v, "{n} values from {a} to {b} differ when taken from both ends");
    let w: Vec<f32> = linspace(a as f32, b as f32, n).collect();
    ensure!(w.len() == n && w.iter().zip(&v).all(|(x, y)| (*x as f64 - y).abs() <= 1e-3 * (a.abs() + b.abs())), "single precision differs");
    c.count("values", n as u64);
    c.nontrivial(hash_f64s(&[a, b, n as f64]));
    Ok(())
}

fn lines(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (a, b) = (r.f(-1e3, 1e3), r.f(-1e3, 1e3));
    let x0 = r.f(-100.0, 100.0);
    let x1 = x0 + if r.chance(0.5) { r.log(0.01, 100.0) } else { -r.log(0.01, 100.0) };
    let t = match r.below(5) { 0 => 0.0, 1 => 1.0, 2 => r.f(-0.5, 1.5), _ => r.f(0.0, 1.0) };
    let x = x0 + (x1 - x0) * t;
    c.describe(|| format!("{a} at {x0}, {b} at {x1}, wanted at {x}"));
    let t = (x - x0) / (x1 - x0);
    let got = lerp(&a, &b, &x, &x0, &x1);
    let tol = 1e-10 * (a.abs() + b.abs() + 1.0);
    ensure!((got - (a + (b - a) * t)).abs() <= tol, "{a} at {x0}, {b} at {x1}: at {x} {}, computed {got}", a + (b - a) * t);
    let r = &mut c.rng;
    let (d, e) = (r.f(-1e3, 1e3), r.f(-1e3, 1e3));
    let y0 = r.f(-100.0, 100.0);
    let y1 = y0 + r.log(0.01, 100.0);
    let s = match r.below(4) { 0 => 0.0, 1 => 1.0, _ => r.f(0.0, 1.0) };
    let y = y0 + (y1 - y0) * s;
    let s = (y - y0) / (y1 - y0);
    // a x0y0, b x1y0, d x0y1, e x1y1
    let want = (a * (1.0 - t) + b * t) * (1.0 - s) + (d * (1.0 - t) + e * t) * s;
    let got = bilerp(&a, &b, &d, &e, &x, &x0, &x1, &y, &y0, &y1);
    let tol = 1e-9 * (a.abs() + b.abs() + d.abs() + e.abs() + 1.0);
    ensure!((got - want).abs() <= tol, "{a} {b} {d} {e} over ({x0}, {y0}) to ({x1}, {y1}): at ({x}, {y}) {want}, computed {got}");
    c.saw("points");
    c.nontrivial(hash_f64s(&[a, b, d, e, x, y]));
    Ok(())
}

fn values(r: &mut Rng, n: usize) -> Vec<f64> {
    match r.below(4) {
        0 => (0..n).map(|_| r.int(-5, 5) as f64).collect(),
        1 => {
            let mut v: Vec<f64> = (0..n).map(|_| r.f(-10.0, 10.0)).collect();
            v.sort_by(f64::total_cmp);
            if r.chance(0.5) {
                v.reverse();
            }
            v
        }
        2 => vec![r.f(-3.0, 3.0); n],
        _ => (0..n).map(|_| r.f(-1e3, 1e3)).collect(),
    }
}

fn sorting(c: &mut Case) -> R {
    let n = c.rng.size(0, 120);
    let v = values(&mut c.rng, n);
    c.describe(|| format!("{v:?}"));
    let mut want: Vec<usize> = (0..n).collect();
    want.sort_by(|&i, &j| v[i].partial_cmp(&v[j]).unwrap().then(i.cmp(&j)));
    let got = argsort_partial(&v);
    ensure!(got == want, "{v:?} sorts as {want:?}, computed {got:?}");
    let w: Vec<i64> = v.iter().map(|x| *x as i64).collect();
    want.sort_by_key(|&i| (w[i], i));
    let got = argsort(&w);
    ensure!(got == want, "{w:?} sorts as {want:?}, computed {got:?}");
    if n >= 2 {
        let d = diff(&v);
        let e = diff_abs(&v);
        ensure!(d.len() == n && e.len() == n, "{n} values have {} differences", d.len());
        for i in 0..n {
            let x = v[i.max(1)] - v[i.max(1) - 1];
            ensure!(d[i] == x && e[i] == x.abs(), "difference {i} of {v:?} is {x}, computed {} and {}", d[i], e[i]);
        }
    }
    // with gaps
    let mut g = v.clone();
    let mut holes = 0;
    for x in g.iter_mut() {
        if c.rng.chance(0.2) {
            *x = f64::NAN;
            holes += 1;
        } else if c.rng.chance(0.02) {
            *x = *c.rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::MAX, f64::MIN_POSITIVE]);
        }
    }
    let lo = g.iter().copied().filter(|x| !x.is_nan()).fold(f64::INFINITY, f64::min);
    let hi = g.iter().copied().filter(|x| !x.is_nan()).fold(f64::NEG_INFINITY, f64::max);
    ensure!(min_max(&g) == (lo, hi), "{g:?} reaches from {lo} to {hi}, computed {:?}", min_max(&g));
    let fill = *c.rng.pick(&[-9999.0, 0.0, 1e6]);
    let mut filled = g.clone();
    ensure!(min_max_fill(&mut filled, fill) == (lo, hi), "{g:?} reaches from {lo} to {hi} while filling");
    for (a, b) in g.iter().zip(&filled) {
        ensure!(*b == if a.is_nan() { fill } else { *a }, "{a} is filled as {b}");
    }
    c.count("gaps", holes);
    c.count("values", n as u64);
    if n > 1 {
        c.nontrivial(hash_f64s(&v));
    }
    Ok(())
}

fn packing(c: &mut Case) -> R {
    let n = c.rng.size(1, 100);
    let (mut lo, mut hi) = (c.rng.f(-100.0, 100.0), c.rng.log(1e-3, 1e4));
    // in short binary fractions the ends come out exactly, however the formula is arranged
    let short = c.rng.chance(0.5);
    if short {
        lo = (lo * 64.0).round() / 64.0;
        hi = (hi * 64.0).round().max(1.0) / 64.0;
    }
    hi += lo;
    let k = match c.rng.below(3) { 0 => 255u8, 1 => 1, _ => c.rng.usize(2, 254) as u8 };
    let v: Vec<f64> = (0..n).map(|_| match c.rng.below(6) { 0 => lo, 1 => hi, _ => c.rng.f(lo, hi) }).collect();
    c.describe(|| format!("{lo}..{hi} in {k}: {v:?}"));
    let b = bin(&v, &lo, &hi, &k);
    let u = unbin(&b, &lo, &hi, &k);
    ensure!(b.len() == n && u.len() == n, "{n} values pack to {} and unpack to {}", b.len(), u.len());
    let step = (hi - lo) / k as f64;
    for i in 0..n {
        ensure!(b[i] <= k, "{} of {lo}..{hi} packs to {} of {k}", v[i], b[i]);
        ensure!((u[i] - v[i]).abs() <= step * (1.0 + 1e-9), "{} packs to {} and unpacks to {}, steps of {step}", v[i], b[i], u[i]);
        if v[i] == lo || v[i] == hi {
            let kept = (u[i] - v[i]).abs() <= 1e-9 * (lo.abs() + hi.abs());
            ensure!(kept || !short, "the end {} unpacks to {}", v[i], u[i]);
            c.saw(if short { "ends" } else { "rounded ends" });
        }
        for j in 0..n {
            ensure!(v[i] > v[j] || b[i] <= b[j], "{} packs above {}", v[i], v[j]);
        }
    }
    // what was unpacked packs the same or one bin off by rounding
    let again = bin(&u, &lo, &hi, &k);
    for i in 0..n {
        ensure!((again[i] as i32 - b[i] as i32).abs() <= 1, "bin {} repacks to {}", b[i], again[i]);
    }
    c.count("values", n as u64);
    c.nontrivial(hash_f64s(&v));
    Ok(())
}

fn peaks(c: &mut Case) -> R {
    let n = c.rng.size(0, 150);
    let mut v = values(&mut c.rng, n);
    if c.rng.chance(0.5) {
        let (a, b) = (c.rng.f(0.02, 0.6), c.rng.f(0.1, 2.0));
        for (i, x) in v.iter_mut().enumerate() {
            *x = (i as f64 * a).sin() * 5.0 + (i as f64 * b).cos() + 0.01 * *x;
        }
    }
    let delta = match c.rng.below(4) { 0 => 0.0, 1 => c.rng.int(1, 4) as f64, 2 => c.rng.log(1e-3, 0.1), _ => c.rng.f(0.1, 5.0) };
    c.describe(|| format!("{v:?} by {delta}"));
    let (mins, maxs) = detect_peaks(&v, delta);
    // reference: the turning points of the series that ignores swings of at most delta
    let (mut wmin, mut wmax) = (vec![], vec![]);
    let mut at = 0usize;
    let mut up = true;
    let mut i = 0;
    while i < n {
        if up {
            if v[i] > v[at] || i == at {
                at = i;
            } else if v[i] < v[at] - delta {
                wmax.push(at);
                at = i;
                up = false;
            }
        } else if v[i] < v[at] {
            at = i;
        } else if v[i] > v[at] + delta {
            wmin.push(at);
            at = i;
            up = true;
        }
        i += 1;
    }
    ensure!(maxs == wmax, "maxima of {v:?} by {delta} at {wmax:?}, found {maxs:?}");
    ensure!(mins == wmin, "minima of {v:?} by {delta} at {wmin:?}, found {mins:?}");
    // what that means, whatever the procedure: they alternate, starting with a maximum, each
    // the extreme of its stretch and more than delta from its neighbours
    let mut all: Vec<(usize, bool)> = maxs.iter().map(|i| (*i, true)).chain(mins.iter().map(|i| (*i, false))).collect();
    all.sort();
    for w in all.windows(2) {
        let ((i, m), (j, k)) = (w[0], w[1]);
        ensure!(m != k, "two {} in a row at {i} and {j}", if m { "maxima" } else { "minima" });
        ensure!((v[i] - v[j]).abs() > delta, "extremes at {i} and {j} differ by {}", v[i] - v[j]);
        ensure!(v[i..=j].iter().all(|x| *x <= v[i].max(v[j]) && *x >= v[i].min(v[j])), "a value between {i} and {j} lies beyond them");
    }
    c.count("peaks", maxs.len() as u64);
    c.count("troughs", mins.len() as u64);
    if !maxs.is_empty() {
        c.nontrivial(hash_f64s(&v));
    }
    Ok(())
}

fn neighbours(c: &mut Case) -> R {
    let (w, h) = (c.rng.size(1, 24), c.rng.size(3, 40));
    let i = c.rng.usize(0, w * h - 1);
    c.describe(|| format!("{i} of {w} x {h}"));
    let got = nearest_neighbors(w, h, i);
    let set: BTreeSet<usize> = got.iter().copied().collect();
    ensure!(set.len() == got.len(), "neighbours of {i} in {w} x {h} repeat: {got:?}");
    let (x, y) = ((i % w) as i64, (i / w) as i64);
    let mut want = BTreeSet::new();
    for dy in -1..=1i64 {
        for dx in -1..=1i64 {
            let (nx, ny) = (x + dx, (y + dy).rem_euclid(h as i64));
            // directions wrap, frequencies do not
            if (dx, dy) != (0, 0) && nx >= 0 && nx < w as i64 {
                want.insert((ny * w as i64 + nx) as usize);
            }
        }
    }
    ensure!(set == want, "neighbours of {i} in {w} x {h} are {want:?}, found {set:?}");
    c.saw("cells");
    if y == 0 || y == h as i64 - 1 {
        c.saw("cells on the seam");
    }
    if x == 0 || x == w as i64 - 1 {
        c.saw("cells on the edge");
    }
    c.nontrivial(mix((w * 1_000_000 + h * 10_000 + i) as u64));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "N01",
            rule: "Even sequences of 0 to 400 values taken from either end and both, and linear and bilinear interpolation inside and outside random boxes. Non-trivial: every case.",
            monitors: vec![mon("spaced", 1500, spaced), mon("lines", 4000, lines)],
            require: vec![("values", 100000), ("points", 4000)],
            assumptions: vec!["boxes of non-zero size"],
        },
        Property {
            id: "N02",
            rule: "Orders, differences, ranges with gaps, and packing to bytes over random, tied, sorted and constant series. Non-trivial: two values or more.",
            monitors: vec![mon("sorting", 2500, sorting), mon("packing", 1500, packing)],
            require: vec![("values", 100000), ("gaps", 10000), ("ends", 5000)],
            assumptions: vec!["series to sort without NaN; values to pack within their range"],
        },
        Property {
            id: "N03",
            rule: "Peaks of random, wavy, tied and monotone series against a reference, and their defining conditions; neighbour cells on random grids. Non-trivial: a peak, or every cell.",
            monitors: vec![mon("peaks", 4000, peaks), mon("neighbours", 6000, neighbours)],
            require: vec![("peaks", 10000), ("troughs", 5000), ("cells on the seam", 300), ("cells on the edge", 500)],
            assumptions: vec!["series without NaN"],
        },
    ]
}

#[allow(dead_code)]
fn main() {
    kit::main(properties());
}
