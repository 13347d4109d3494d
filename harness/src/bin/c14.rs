//! C14: the fast disk is exact and ordered, or reports the pentagon.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::algos::gridDiskDistancesUnsafe;
use h3_rs::error::Error;

struct C;
fn every(h: u64, cell: &Cell, top: u32, o: &mut Obs) -> Verdict {
    o.nontrivial = true;
    let mut a = Around::new(cell, top);
    for k in 0..=top {
        o.calls += 1;
        let got = gridDiskDistancesUnsafe(h, k);
        if a.pents[k as usize] > 0 {
            if got != Err(Error::Pentagon) {
                return Err(format!("{} pentagons within {k} steps of {h:#x}, yet the fast disk gives {} cells / {:?}", a.pents[k as usize], got.as_ref().map_or(0, |v| v.len()), got.err()));
            }
            o.hit(if k > 0 && a.pents[k as usize - 1] == 0 { 2 } else { 3 });
            continue;
        }
        let v = got.map_err(|e| format!("no pentagon within {k} steps of {h:#x}, yet the fast disk reports {e:?}"))?;
        if v.first() != Some(&(h, 0)) {
            return Err(format!("the fast disk of {h:#x} does not start with it: {:x?}", v.first()));
        }
        if let Some(w) = v.windows(2).find(|w| w[1].1 < w[0].1) {
            return Err(format!("fast disk of {h:#x}, k = {k}: distance {} after {}", w[1].1, w[0].1));
        }
        let n = a.check(v.iter().map(|x| (x.0, Some(x.1))), 0, k).map_err(|e| format!("fast disk of {h:#x}, k = {k}: {e}"))?;
        o.hit(8);
        o.add(1, n);
        if k < top && a.pents[k as usize + 1] > 0 {
            o.hit(5);
        }
    }
    if top >= 120 {
        o.hit(9);
    }
    if o.want_note {
        o.note = format!("k = 0..={top}, pentagons within {top}: {}", a.pents[top as usize]);
    }
    Ok(())
}
/// Large disks against the rings of the flat lattice; `p` is 1 + a base
/// pentagon n steps away by construction, or 0.
fn wide(h: u64, cell: &Cell, k: u32, p: u64, n: u64, o: &mut Obs) -> Verdict {
    let m = model();
    if k as f64 + 1.0 >= m.clear(cell, p.checked_sub(1).map(|b| b as u8)) {
        return Err("harness: a pentagon may be within k".into());
    }
    o.nontrivial = true;
    o.calls += 1;
    let got = gridDiskDistancesUnsafe(h, k);
    if p > 0 && n <= k as u64 {
        o.hit(12);
        return match got {
            Err(Error::Pentagon) => Ok(()),
            got => Err(format!("a pentagon is {n} steps from {h:#x}, yet the fast disk k = {k} gives {} cells / {:?}", got.as_ref().map_or(0, |v| v.len()), got.err())),
        };
    }
    let v = got.map_err(|e| format!("no pentagon within {k} steps of {h:#x}, yet the fast disk reports {e:?}"))?;
    if v.len() as u64 != 3 * k as u64 * (k as u64 + 1) + 1 || v[0] != (h, 0) {
        return Err(format!("the fast disk of {h:#x}, k = {k}, has {} cells, the first is {:x?}", v.len(), v[0]));
    }
    let mut at = 1;
    for d in 1..=k {
        let part = &v[at..at + 6 * d as usize];
        at += part.len();
        if let Some(x) = part.iter().find(|x| x.1 != d) {
            return Err(format!("the fast disk of {h:#x}, k = {k}, gives {:#x} the distance {} where {d} is due", x.0, x.1));
        }
        let mut part: Vec<u64> = part.iter().map(|x| x.0).collect();
        let mut want = m.flat_ring(cell, d);
        part.sort_unstable();
        want.sort_unstable();
        if part != want {
            let wrong = part.iter().find(|x| want.binary_search(x).is_err());
            return Err(format!("the fast disk of {h:#x}, k = {k}: of the cells said to be at distance {d} some are not or are repeated, such as {wrong:x?}"));
        }
    }
    o.hit(11);
    o.add(1, v.len() as u64);
    Ok(())
}
impl Check for C {
    const ID: &'static str = "C14";
    const KINDS: &'static [&'static str] = &["disk", "every k", "any k", "wide"];
    const COUNTERS: &'static [&'static str] = &[
        "exact disks", "cells compared", "refused: pentagon at the rim (distance k)", "refused: pentagon inside", "refused: pentagon origin",
        "exact although a pentagon is at distance k+1", "disks across an icosahedron edge", "k 11 and more", "disks of a sweep over every k", "largest k of a sweep, at least 120",
        "k beyond the size of the globe", "wide disks", "wide disks refused: a pentagon at the rim",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
    const RULE: &'static str = "a case is (cell, k): if no pentagon is within k steps (breadth-first search in the reference grid) the fast disk must \
        return exactly the disk, origin first, by non-decreasing distance; otherwise it must report a pentagon; cells and k are biased so that a \
        pentagon is just inside, on, or just outside the rim; `every k` (cell, K) does so for each k in 0..=K; \
        `any k` (cell of a coarse resolution or near a pentagon, any k beyond that) must report a pentagon; `wide` (cell, k, 1 + a base pentagon or 0, its distance by construction): against the rings of the unfolded lattice; non-trivial when k > 0";
    const ASSUMPTIONS: &'static [&'static str] = &["k is small enough for the result to fit in memory"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let (h, k) = (c.a[0], c.a[1] as u32);
        let cell = Cell::parse(h).ok_or("harness: not a cell")?;
        if c.kind == 1 {
            return every(h, &cell, k, o);
        }
        if c.kind == 2 {
            o.nontrivial = true;
            o.calls += 1;
            o.hit(10);
            return match gridDiskDistancesUnsafe(h, k) {
                Err(Error::Pentagon) => Ok(()),
                got => Err(format!("all disks of {h:#x} beyond k = 500 hold a pentagon, yet the fast disk k = {k} gives {} cells / {:?}", got.as_ref().map_or(0, |v| v.len()), got.err())),
            };
        }
        if c.kind == 3 {
            return wide(h, &cell, k, c.a[2], c.a[3], o);
        }
        o.calls += 1;
        o.nontrivial = k > 0;
        let want = ball(&cell, k + 1);
        let near = want.iter().filter(|x| is_pent_index(x.0)).map(|x| x.1).min().unwrap_or(u32::MAX);
        let got = gridDiskDistancesUnsafe(h, k);
        if near <= k {
            if got != Err(Error::Pentagon) {
                return Err(format!("a pentagon is {near} steps from {h:#x}, yet the fast disk k = {k} gives {} cells / {:?}", got.as_ref().map_or(0, |v| v.len()), got.err()));
            }
            o.hit(if near == 0 {
                4
            } else if near == k {
                2
            } else {
                3
            });
            if o.want_note {
                o.note = format!("pentagon at distance {near}, refused");
            }
            return Ok(());
        }
        let v = match got {
            Ok(v) => v,
            Err(e) => return Err(format!("no pentagon within {k} steps of {h:#x}, yet the fast disk reports {e:?}")),
        };
        let mut map: FastMap<u32> = FastMap::default();
        for (x, d) in &want {
            if *d <= k {
                map.insert(*x, *d);
            }
        }
        if v.first() != Some(&(h, 0)) {
            return Err(format!("the fast disk of {h:#x} does not start with it: {:x?}", v.first()));
        }
        let mut last = 0;
        for (x, d) in &v {
            if *d < last {
                return Err(format!("fast disk of {h:#x}, k = {k}: distance {d} after {last}"));
            }
            last = *d;
            match map.remove(x) {
                Some(w) if w == *d => {}
                Some(w) => return Err(format!("fast disk of {h:#x}, k = {k}: {x:#x} is at distance {w}, reported {d}")),
                None => return Err(format!("fast disk of {h:#x}, k = {k}: {x:#x} is not in it, or listed twice")),
            }
        }
        if !map.is_empty() {
            return Err(format!("fast disk of {h:#x}, k = {k}: {} cells are missing", map.len()));
        }
        o.hit(0);
        o.add(1, v.len() as u64);
        if near == k + 1 {
            o.hit(5);
        }
        if k > 10 {
            o.hit(7);
        }
        let m = model();
        if k > 0 {
            let f = m.locate(&cell).face;
            if v.iter().rev().step_by(k as usize).take(6).any(|x| Cell::parse(x.0).map_or(false, |c| m.locate(&c).face != f)) {
                o.hit(6);
            }
        }
        if o.want_note {
            o.note = format!("{} cells in order", v.len());
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 + t.n(1200, 8192) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i < 122 {
            for r in 0..=2 {
                for_cells(i as u8, r, |c| {
                    for k in 0..=4 {
                        ex.case(0, &[c.pack(), k]);
                    }
                });
            }
            let er = if ex.tier == Tier::Thorough { 4 } else { 3 };
            for r in 3..=er {
                for_cells(i as u8, r, |c| {
                    ex.case(0, &[c.pack(), 1 + (c.d[1] as u64 + c.d[2] as u64 * 3 + c.d[3] as u64) % 9]);
                });
            }
            for _ in 0..ex.tier.n(40, 400) {
                let fine = ex.rng.below(16) as usize;
                let c = match ex.rng.below(2) {
                    0 => any_cell_at(&mut ex.rng, fine % 6),
                    _ => near_pentagon(&mut ex.rng, fine, 60),
                };
                let k = any_large(&mut ex.rng);
                ex.case(2, &[c.pack(), k]);
            }
            return;
        }
        if i == 122 {
            let cells = dictionary_cells();
            for c in &cells {
                for k in 0..6 {
                    ex.case(0, &[c.pack(), k]);
                }
            }
            for d in dictionary() {
                if *d < 60 {
                    let c = any_cell(&mut ex.rng);
                    ex.case(0, &[c.pack(), *d]);
                }
            }
        }
        for _ in 0..80 {
            let r = any_res(&mut ex.rng);
            let k = match ex.rng.below(16) {
                0 => 10 + ex.rng.below(16),
                1 | 2 => 5 + ex.rng.below(6),
                _ => ex.rng.below(5),
            };
            let c = match ex.rng.below(3) {
                0 => {
                    // a straight walk away from a pentagon: distance just around k
                    let p = Cell::new(ex.rng.pick(&PENTS), r);
                    let n = (k + ex.rng.below(4)).saturating_sub(1);
                    away(&mut ex.rng, &p, n)
                }
                _ => any_cell_at(&mut ex.rng, r),
            };
            ex.case(0, &[c.pack(), k]);
        }
        if i % 4 == 0 {
            // every k, with the nearest pentagon at a chosen distance, or none
            let far = ex.tier.n(140, 300);
            let r = 5 + ex.rng.below(11) as usize;
            let d = ex.rng.below(far - 8);
            let p = Cell::new(ex.rng.pick(&PENTS), r);
            let c = away(&mut ex.rng, &p, d);
            let k = d + 4 + ex.rng.below(4);
            ex.case(1, &[c.pack(), k]);
            if i % 32 == 0 {
                let r = 6 + ex.rng.below(10) as usize;
                let c = any_cell_at(&mut ex.rng, r);
                ex.case(1, &[c.pack(), far]);
            }
            if i % 16 == 0 {
                // the nearest pentagon n steps away: just beyond the disk, or at its rim
                let big = i % 128 == 0;
                let r = if big { 9 } else { 7 } + ex.rng.below(7) as usize;
                let (p, t, q) = (ex.rng.pick(&PENTS), ex.rng.below(6) as i32, ex.rng.unit());
                let n = 10f64.powf(if big { 3.0 } else { 1.5 } + ex.rng.unit() * if big { 0.5 } else { 1.0 }) as u64;
                let n = n.min(7u64.pow(r as u32 / 2)).min(ex.tier.n(1600, 3000));
                if let Some(c) = model().from_pentagon(p, r, t, n, (q * n as f64) as u64) {
                    ex.case(3, &[c.pack(), n, 1 + p as u64, n]);
                    ex.case(3, &[c.pack(), n - 1, 1 + p as u64, n]);
                }
                if big {
                    let c = uniform(&mut ex.rng, r);
                    let k = (model().clear(&c, None) - 1.5).min(ex.tier.n(1600, 3000) as f64);
                    if k > 2.0 {
                        ex.case(3, &[c.pack(), k as u64, 0, 0]);
                    }
                }
            }
            if i % 128 == 0 {
                let r = 9 + ex.rng.below(7) as usize;
                let c = uniform(&mut ex.rng, r);
                let k = ex.tier.n(300, 900) + ex.rng.below(200);
                ex.case(0, &[c.pack(), k]);
            }
        }
        if i % 16 == 0 {
            let r = any_res(&mut ex.rng);
            let k = 25 + ex.rng.below(ex.tier.n(20, 80));
            let c = any_cell_at(&mut ex.rng, r);
            ex.case(0, &[c.pack(), k]);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
