//! S01 partitioning, S02 splitting by partition.
use kit::rng::{hash_f64s, mix};
use kit::*;
use mon::gen;
use std::collections::HashSet;
use surfrs::spectra::Spectra;
use surfrs::tools::analysis::{nearest_neighbors, watershed};

/// The 8 neighbours of a bin: frequency (i) does not wrap, direction (j) does.
fn around(nk: usize, nth: usize, idx: usize) -> Vec<usize> {
    let (i, j) = ((idx % nk) as i64, (idx / nk) as i64);
    let mut v = vec![];
    for dj in -1..=1i64 {
        for di in -1..=1i64 {
            if (di, dj) == (0, 0) {
                continue;
            }
            let (a, b) = (i + di, (j + dj).rem_euclid(nth as i64));
            if a < 0 || a >= nk as i64 {
                continue;
            }
            let k = (b * nk as i64 + a) as usize;
            if k != idx && !v.contains(&k) {
                v.push(k);
            }
        }
    }
    v
}

/// Level of every bin (1 = strongest); None when some bin sits on a rounding boundary.
fn levels(e: &[f64], steps: usize) -> Option<Vec<u32>> {
    let max = e.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let min = e.iter().cloned().fold(f64::INFINITY, f64::min);
    if max == min {
        return Some(vec![1; e.len()]);
    }
    e.iter()
        .map(|v| {
            let x = 1.0 + (max - v) / (max - min) * (steps as f64 - 1.0);
            if ((x - x.floor()) - 0.5).abs() < 1e-7 {
                return None;
            }
            Some((x.round() as u32).clamp(1, steps as u32))
        })
        .collect()
}

/// Levels of the smoothed energy: a Gaussian blur of its picture in 256 shades
fn smoothed_levels(e: &[f64], nk: usize, nth: usize, steps: usize, blur: f32) -> Option<Vec<u32>> {
    let max = e.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let min = e.iter().cloned().fold(f64::INFINITY, f64::min);
    if max == min {
        return None;
    }
    let mut shades = vec![];
    for v in e {
        let x = (v - min) / (max - min) * 255.0;
        if (x - x.round()).abs() < 1e-7 && *v != min && *v != max {
            return None;
        }
        shades.push(x as u8);
    }
    let img = image::GrayImage::from_raw(nk as u32, nth as u32, shades)?;
    let img = image::imageops::blur(&img, blur);
    img.as_raw()
        .iter()
        .map(|v| {
            let x = 1.0 + (255.0 - *v as f64) / 255.0 * (steps as f64 - 1.0);
            if ((x - x.floor()) - 0.5).abs() < 1e-7 {
                return None;
            }
            Some((x.round() as u32).clamp(1, steps as u32))
        })
        .collect()
}

fn flood(start: usize, nb: &[Vec<usize>], mut ok: impl FnMut(usize) -> bool, seen: &mut [bool]) -> Vec<usize> {
    let mut out = vec![start];
    seen[start] = true;
    let mut k = 0;
    while k < out.len() {
        for &q in &nb[out[k]] {
            if !seen[q] && ok(q) {
                seen[q] = true;
                out.push(q);
            }
        }
        k += 1;
    }
    out
}

fn check_labels(c: &mut Case, imo: &[i32], count: usize, nb: &[Vec<usize>]) -> R {
    ensure!(imo.len() == nb.len(), "{} labels for {} bins", imo.len(), nb.len());
    ensure!(count >= 1, "count {count}");
    let n = count - 1;
    let used: HashSet<i32> = imo.iter().cloned().collect();
    for (i, &l) in imo.iter().enumerate() {
        ensure!(l >= 1 && l as usize <= n, "bin {i} has label {l}, outside 1..={n}");
    }
    ensure!(used.len() == n, "{} labels used, {} basins reported", used.len(), n);
    let mut seen = vec![false; imo.len()];
    let mut done = HashSet::new();
    for i in 0..imo.len() {
        if seen[i] {
            continue;
        }
        ensure!(done.insert(imo[i]), "basin {} is not connected (bin {i} is cut off)", imo[i]);
        flood(i, nb, |q| imo[q] == imo[i], &mut seen);
    }
    c.count("bins labelled", imo.len() as u64);
    c.count("basins", n as u64);
    Ok(())
}

/// One basin per regional maximum of the levels, every bin that climbs to one maximum only is in
/// its basin, and the bins where basins meet are in one they may be in; the number of bins of
/// the second kind
fn basins(c: &mut Case, e: &[f64], lv: &[u32], imo: &[i32], count: usize, nb: &[Vec<usize>]) -> Result<u64, Fail> {
    // regional maxima: connected plateaus without a stronger neighbour
    let mut seen = vec![false; lv.len()];
    let mut peaks: Vec<Vec<usize>> = vec![];
    for i in 0..lv.len() {
        if !seen[i] {
            let p = flood(i, &nb, |q| lv[q] == lv[i], &mut seen);
            if p.iter().all(|&x| nb[x].iter().all(|&q| lv[q] >= lv[i])) {
                peaks.push(p);
            }
        }
    }
    ensure!(peaks.len() == count - 1, "{} regional maxima but {} basins", peaks.len(), count - 1);
    // one basin per maximum
    let mut label_of = vec![];
    for p in &peaks {
        ensure!(p.iter().all(|&x| imo[x] == imo[p[0]]), "a regional maximum is split between basins");
        label_of.push(imo[p[0]]);
    }
    let distinct: HashSet<_> = label_of.iter().collect();
    ensure!(distinct.len() == peaks.len(), "two regional maxima share a basin");
    // numbered from the strongest peak down
    let mut by: Vec<(i32, u32)> = label_of.iter().zip(&peaks).map(|(l, p)| (*l, lv[p[0]])).collect();
    by.sort();
    for w in by.windows(2) {
        ensure!(w[0].1 <= w[1].1, "basin {} (level {}) is numbered before stronger basin {} (level {})", w[0].0, w[0].1, w[1].0, w[1].1);
    }
    // which peaks each bin can climb to, in order of level
    let mut order: Vec<usize> = (0..lv.len()).collect();
    order.sort_by_key(|&i| lv[i]);
    let mut reach: Vec<Vec<usize>> = vec![vec![]; lv.len()];
    let mut peak_id = vec![usize::MAX; lv.len()];
    for (k, p) in peaks.iter().enumerate() {
        for &x in p {
            peak_id[x] = k;
        }
    }
    let mut seen = vec![false; lv.len()];
    let mut unique = 0;
    for &i in &order {
        if seen[i] {
            continue;
        }
        let plateau = flood(i, &nb, |q| lv[q] == lv[i], &mut seen);
        let mut set: Vec<usize> = vec![];
        for &x in &plateau {
            if peak_id[x] != usize::MAX {
                set.push(peak_id[x]);
            }
            for &q in &nb[x] {
                if lv[q] < lv[x] {
                    set.extend(&reach[q]);
                }
            }
        }
        set.sort();
        set.dedup();
        if set.len() == 1 {
            for &x in &plateau {
                unique += 1;
                ensure!(imo[x] == label_of[set[0]], "bin {x} only climbs to the peak of basin {} but is in basin {}", label_of[set[0]], imo[x]);
            }
        }
        for &x in &plateau {
            reach[x] = set.clone();
        }
    }
    meeting(c, e, lv, imo, nb, &peak_id, &label_of)?;
    Ok(unique)
}

/// What flooding from the maxima down can make of a bin, in whichever order its neighbours are
/// looked at: one of these basins, or (meets) a watershed that is settled by energy afterwards
#[derive(Clone, Default)]
struct Fate {
    basins: Vec<usize>,
    meets: bool,
}

fn meeting(c: &mut Case, e: &[f64], lv: &[u32], imo: &[i32], nb: &[Vec<usize>], peak_id: &[usize], label_of: &[i32]) -> R {
    let n = lv.len();
    let mut fate: Vec<Option<Fate>> = vec![None; n];
    let mut distinct: Vec<u32> = lv.to_vec();
    distinct.sort();
    distinct.dedup();
    for h in distinct {
        let here: Vec<usize> = (0..n).filter(|&i| lv[i] == h).collect();
        // by steps from what is flooded already
        let mut ring: Vec<usize> = here.iter().cloned().filter(|&i| nb[i].iter().any(|&q| fate[q].is_some())).collect();
        while !ring.is_empty() {
            let next: Vec<Fate> = ring
                .iter()
                .map(|&i| {
                    let from: Vec<&Fate> = nb[i].iter().filter_map(|&q| fate[q].as_ref()).collect();
                    let mut all: Vec<usize> = from.iter().flat_map(|f| f.basins.clone()).collect();
                    let touches = all.len();
                    all.sort();
                    all.dedup();
                    let sure = from.iter().any(|f| !f.meets && f.basins.len() == 1);
                    match all.len() {
                        0 => Fate { basins: vec![], meets: true },
                        1 => Fate { basins: all, meets: !sure },
                        // one bin of each of two basins, whatever else
                        2 if touches == 2 && from.iter().all(|f| f.basins.is_empty() || !f.meets) => Fate { basins: vec![], meets: true },
                        _ => Fate { basins: all, meets: true },
                    }
                })
                .collect();
            let mut out: Vec<usize> = vec![];
            for (&i, f) in ring.iter().zip(next) {
                fate[i] = Some(f);
            }
            for &i in &ring {
                for &q in &nb[i] {
                    if lv[q] == h && fate[q].is_none() && !out.contains(&q) {
                        out.push(q);
                    }
                }
            }
            ring = out;
        }
        for &i in &here {
            if fate[i].is_none() {
                fate[i] = Some(Fate { basins: vec![peak_id[i]], meets: false });
            }
        }
    }
    let fate: Vec<Fate> = fate.into_iter().map(|f| f.unwrap()).collect();
    for i in 0..n {
        let f = &fate[i];
        let may: Vec<i32> = f.basins.iter().map(|&b| label_of[b]).collect();
        if !f.meets {
            ensure!(may.contains(&imo[i]), "bin {i} is reached by the basins {may:?} and is in {}", imo[i]);
            c.count(if may.len() == 1 { "bins reached by one basin first" } else { "bins reached by some basins" }, 1);
        } else if f.basins.is_empty() {
            // a watershed for certain: the neighbour closest in energy, if that is none
            let mut by: Vec<(f64, usize)> = nb[i].iter().map(|&q| ((e[i] - e[q]).abs(), q)).collect();
            by.sort_by(|a, b| a.0.total_cmp(&b.0));
            let near: Vec<usize> = by.iter().take_while(|x| x.0 <= by[0].0 + 1e-9 * (e[i].abs() + 1e-300)).map(|x| x.1).collect();
            if near.iter().all(|&q| !fate[q].meets) {
                ensure!(near.iter().any(|&q| imo[q] == imo[i]), "bin {i} lies where basins meet, is closest in energy to bins {near:?} and is in basin {}, not theirs", imo[i]);
                c.saw("bins settled by energy");
            }
        }
    }
    Ok(())
}

fn part(c: &mut Case) -> R {
    let vast = c.rng.chance(0.0006);
    let (nk, nth) = if vast { (c.rng.usize(200, 300), c.rng.usize(200, 300)) } else { gen::grid(&mut c.rng, 1, 3) };
    let (mut e, mut style) = gen::energy(&mut c.rng, nk, nth);
    if vast {
        c.saw("vast grids");
        while style != "swells" {
            (e, style) = gen::energy(&mut c.rng, nk, nth);
        }
    }
    let steps = match c.rng.below(6) {
        0 => c.rng.usize(1, 8),
        1 => 255,
        2 => c.rng.usize(200, 255),
        3 => 100,
        _ => c.rng.usize(9, 200),
    };
    c.describe(|| format!("{style} {nk}x{nth} levels={steps} energy={e:?}"));
    let via_spectra = c.rng.chance(0.5);
    let got = if via_spectra {
        let f = gen::frequencies(&mut c.rng, nk);
        let d = gen::even_directions(&mut c.rng, nth);
        let conv = gen::convention(&mut c.rng);
        Spectra::new(f, d, e.clone(), conv).partition(steps, None)
    } else {
        watershed(&e, nk, nth, steps, None)
    };
    let Ok((imo, count)) = got else { return violation("partitioning refused valid data") };
    let nb: Vec<_> = (0..nk * nth).map(|i| around(nk, nth, i)).collect();
    check_labels(c, &imo, count, &nb)?;
    let Some(lv) = levels(&e, steps) else {
        c.saw("cases with a bin on a level boundary");
        return Ok(());
    };
    let unique = basins(c, &e, &lv, &imo, count, &nb)?;
    c.count("bins with one uphill peak", unique);
    c.count("bins between basins", e.len() as u64 - unique);
    c.distinct("basin counts", (count - 1) as u64);
    if count > 2 {
        c.nontrivial(mix(hash_f64s(&e) ^ steps as u64));
    }
    Ok(())
}

fn blurred(c: &mut Case) -> R {
    let (nk, nth) = gen::grid(&mut c.rng, 2, 3);
    let (e, style) = gen::energy(&mut c.rng, nk, nth);
    let steps = c.rng.usize(2, 255);
    let blur = if c.rng.chance(0.2) { c.rng.f(2.5, 6.0) } else { c.rng.f(0.3, 2.5) } as f32;
    c.describe(|| format!("{style} {nk}x{nth} levels={steps} blur={blur} energy={e:?}"));
    let got = if c.rng.chance(0.5) {
        let f = gen::frequencies(&mut c.rng, nk);
        let d = gen::even_directions(&mut c.rng, nth);
        Spectra::new(f, d, e.clone(), gen::convention(&mut c.rng)).partition(steps, Some(blur))
    } else {
        watershed(&e, nk, nth, steps, Some(blur))
    };
    let Ok((imo, count)) = got else { return violation("partitioning refused valid data") };
    let nb: Vec<_> = (0..nk * nth).map(|i| around(nk, nth, i)).collect();
    check_labels(c, &imo, count, &nb)?;
    if let Some(lv) = smoothed_levels(&e, nk, nth, steps, blur) {
        let unique = basins(c, &e, &lv, &imo, count, &nb)?;
        c.count("bins with one uphill peak", unique);
        c.saw("smoothed partitions with levels");
    }
    c.saw("smoothed partitions");
    if count > 2 {
        c.nontrivial(mix(hash_f64s(&e) ^ blur.to_bits() as u64));
    }
    Ok(())
}

fn reject(c: &mut Case) -> R {
    let (nk, nth) = gen::grid(&mut c.rng, 1, 1);
    let n = c.rng.below(2 * nk * nth + 3);
    let e: Vec<f64> = (0..n).map(|_| c.rng.unit()).collect();
    c.describe(|| format!("{nk}x{nth} given {n} values"));
    if n == nk * nth {
        return Ok(());
    }
    let blur = if c.rng.chance(0.3) { Some(0.8) } else { None };
    ensure!(watershed(&e, nk, nth, 50, blur).is_err(), "{n} values accepted for a {nk}x{nth} grid");
    c.saw("wrong lengths refused");
    Ok(())
}

fn neighbours(c: &mut Case) -> R {
    let (w, h) = (c.rng.usize(1, 9), c.rng.usize(3, 9));
    let i = c.rng.below(w * h);
    c.describe(|| format!("{w}x{h} index {i}"));
    let mut got = nearest_neighbors(w, h, i);
    let mut want = around(w, h, i);
    got.sort();
    want.sort();
    ensure!(got == want, "neighbours of {i} in {w}x{h}: {got:?}, expected {want:?}");
    c.saw("neighbourhoods");
    c.nontrivial(mix((w * 1000 + h * 100) as u64 * 1000 + i as u64));
    Ok(())
}

fn split(c: &mut Case) -> R {
    let (nk, nth) = gen::grid(&mut c.rng, 2, 3);
    let (s, style) = gen::any_spectra(&mut c.rng, nk, nth);
    let steps = c.rng.usize(2, 255);
    let blur = if c.rng.chance(0.3) { Some(c.rng.f(0.3, 1.5) as f32) } else { None };
    let own = c.rng.chance(0.3);
    let parts = if own {
        // a hand-made partition map, label 0 included
        let n = c.rng.usize(1, 5);
        ((0..nk * nth).map(|_| c.rng.below(n) as i32).collect::<Vec<_>>(), n)
    } else {
        match s.partition(steps, blur) {
            Ok(p) => p,
            Err(_) => return violation("partitioning refused valid data"),
        }
    };
    let limit = match c.rng.below(3) {
        0 => Some(c.rng.below(parts.1 + 2)),
        _ => None,
    };
    c.describe(|| format!("{style} limit={limit:?} map={:?} {}", parts, gen::show(&s)));
    let out = Spectra::split_from_components(&s, &parts, limit);
    let k = limit.unwrap_or(parts.1);
    ensure!(out.len() == k, "{} spectra returned, {k} expected", out.len());
    for (id, o) in out.iter().enumerate() {
        ensure!(o.frequency == s.frequency && o.direction_raw() == s.direction_raw() && o.dir_convention == s.dir_convention, "grid or convention changed in component {id}");
        ensure!(o.energy.len() == s.energy.len(), "component {id} has {} bins", o.energy.len());
        for i in 0..o.energy.len() {
            let want = if parts.0[i] == id as i32 { s.energy[i] } else { 0.0 };
            ensure!(o.energy[i] == want, "component {id} bin {i}: {} instead of {want}", o.energy[i]);
        }
        let one = Spectra::from_component(&s, &parts, id as i32);
        ensure!(one.energy == o.energy && one.frequency == s.frequency && one.direction_raw() == s.direction_raw() && one.dir_convention == s.dir_convention, "the component taken alone differs from the split");
    }
    if limit.is_none() {
        for i in 0..s.energy.len() {
            let sum: f64 = out.iter().map(|o| o.energy[i]).sum();
            ensure!(sum == s.energy[i], "bin {i}: components add up to {sum}, spectrum has {}", s.energy[i]);
        }
        c.saw("complete splits");
    }
    c.count("component spectra", out.len() as u64);
    if out.len() > 2 {
        c.nontrivial(mix(hash_f64s(&s.energy) ^ k as u64));
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "S01",
            rule: "Random spectra (swell mixtures, noise, sparse, plateaus, constant, spikes, checkerboards) on 1..50 x 3..48 grids with 1..255 levels, with and without smoothing; the labels are checked against regional maxima and uphill paths computed independently on the quantised spectrum. Non-trivial: at least two basins (or a distinct neighbourhood).",
            monitors: vec![mon("part", 6000, part), mon("blurred", 1500, blurred), mon("reject", 500, reject), mon("neighbours", 3000, neighbours)],
            require: vec![("bins with one uphill peak", 10000), ("bins between basins", 10000), ("bins reached by one basin first", 10000), ("bins settled by energy", 1000), ("smoothed partitions", 100), ("wrong lengths refused", 100), ("basin counts", 10)],
            assumptions: vec!["energy is finite and non-negative, at least three directions", "bins within 1e-7 of a level boundary make a case skip the level-dependent clauses"],
        },
        Property {
            id: "S02",
            rule: "Spectra split by their own partitioning or by arbitrary label maps, with and without a limit; every bin of every component compared. Non-trivial: more than two components.",
            monitors: vec![mon("split", 4000, split)],
            require: vec![("complete splits", 500), ("component spectra", 2000)],
            assumptions: vec![],
        },
    ]
}

#[allow(dead_code)]
fn main() {
    kit::main(properties());
}
