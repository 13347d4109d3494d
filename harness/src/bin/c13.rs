//! C13: a disk is exactly the cells within k steps, with their distances.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::algos::gridDiskDistances;

struct C;
fn every(h: u64, cell: &Cell, top: u32, step: u32, o: &mut Obs) -> Verdict {
    o.nontrivial = true;
    let mut a = Around::new(cell, top);
    let mut k = top % step;
    while k <= top {
        o.calls += 1;
        let v = gridDiskDistances(h, k).map_err(|e| format!("the disk of {h:#x}, k = {k}, is an error: {e:?}"))?;
        let n = a.check(v.iter().map(|x| (x.0, Some(x.1))), 0, k).map_err(|e| format!("disk of {h:#x}, k = {k}: {e}"))?;
        o.hit(10);
        o.add(0, n);
        k += step;
    }
    if a.pents[top as usize] > 0 {
        o.hit(11);
    }
    if top >= 120 {
        o.hit(12);
    }
    if o.want_note {
        o.note = format!("k = 0..={top}, pentagons within {top}: {}", a.pents[top as usize]);
    }
    Ok(())
}
/// Large disks away from pentagons, against the rings of the flat lattice.
fn wide(h: u64, cell: &Cell, k: u32, p: u64, o: &mut Obs) -> Verdict {
    let m = model();
    if k as f64 + 1.0 >= m.clear(cell, p.checked_sub(1).map(|b| b as u8)) {
        return Err("harness: a pentagon may be within k".into());
    }
    o.nontrivial = true;
    o.calls += 1;
    let mut v = gridDiskDistances(h, k).map_err(|e| format!("the disk of {h:#x}, k = {k}, is an error: {e:?}"))?;
    v.sort_unstable_by_key(|x| (x.1, x.0));
    let mut at = 0;
    for d in 0..=k {
        let mut want = if d == 0 { vec![h] } else { m.flat_ring(cell, d) };
        want.sort_unstable();
        for w in want {
            if v.get(at) != Some(&(w, d)) {
                return Err(format!("the disk of {h:#x}, k = {k}, of {} cells, should have {w:#x} at distance {d}; found {:x?} instead", v.len(), v.get(at)));
            }
            at += 1;
        }
    }
    if at != v.len() {
        return Err(format!("the disk of {h:#x}, k = {k}, has {} cells too many", v.len() - at));
    }
    o.hit(if p > 0 { 15 } else { 14 });
    o.add(0, v.len() as u64);
    Ok(())
}
impl Check for C {
    const ID: &'static str = "C13";
    const KINDS: &'static [&'static str] = &["disk", "every k", "any k", "wide"];
    const COUNTERS: &'static [&'static str] = &[
        "cells compared", "disks without a pentagon", "disks with one pentagon", "disks with several pentagons", "pentagon origins",
        "disks that cover the whole globe", "k = 0", "k 1-3", "k 4-10", "k 11 and more", "disks of a sweep over every k", "sweeps that meet a pentagon", "largest k of a sweep, at least 120",
        "k beyond the size of the globe", "wide disks", "wide disks that just miss a pentagon",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
    const RULE: &'static str = "a case is (cell, k): the returned (cell, distance) pairs against a breadth-first search in the reference grid, as a \
        multiset; all cells of resolutions 0..=2 with small k, resolution 0-1 disks up to the whole globe, random cells of all resolutions biased \
        to pentagons, base cell borders and icosahedron edges; `every k` (cell, K) does so for each k in 0..=K; \
        `any k` (cell of a coarse resolution, any 32-bit k) must list the whole globe; `wide` (cell, k, 1 + a base pentagon more than k steps away by construction, or 0): against the rings of the unfolded lattice; non-trivial when k > 0";
    const ASSUMPTIONS: &'static [&'static str] = &["k is small enough for the result to fit in memory"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let (h, k) = (c.a[0], c.a[1] as u32);
        let cell = Cell::parse(h).ok_or("harness: not a cell")?;
        if c.kind == 1 {
            return every(h, &cell, k, c.a[2] as u32, o);
        }
        if c.kind == 3 {
            return wide(h, &cell, k, c.a[2], o);
        }
        if c.kind == 2 {
            o.hit(13);
        }
        o.calls += 1;
        o.nontrivial = k > 0;
        let got = match gridDiskDistances(h, k) {
            Ok(v) => v,
            Err(e) => return Err(format!("the disk of {h:#x}, k = {k}, is an error: {e:?}")),
        };
        let want = ball(&cell, k);
        let mut map: FastMap<u32> = FastMap::default();
        for (x, d) in &want {
            map.insert(*x, *d);
        }
        for (x, d) in &got {
            match map.remove(x) {
                Some(w) if w == *d => {}
                Some(w) => return Err(format!("disk of {h:#x}, k = {k}: {x:#x} is at distance {w}, reported {d}")),
                None if want.iter().any(|y| y.0 == *x) => return Err(format!("disk of {h:#x}, k = {k}: {x:#x} is listed twice")),
                None => return Err(format!("disk of {h:#x}, k = {k}: {x:#x} is not within {k} steps")),
            }
        }
        if let Some((x, d)) = map.iter().next() {
            return Err(format!("disk of {h:#x}, k = {k}: {} cells are missing, such as {x:#x} at distance {d}", map.len()));
        }
        let p = want.iter().filter(|x| is_pent_index(x.0)).count();
        o.add(0, want.len() as u64);
        o.hit(match p {
            0 => 1,
            1 => 2,
            _ => 3,
        });
        if cell.is_pentagon() {
            o.hit(4);
        }
        if want.len() as u64 == num_cells(cell.res as usize) {
            o.hit(5);
        }
        o.hit(match k {
            0 => 6,
            1..=3 => 7,
            4..=10 => 8,
            _ => 9,
        });
        if o.want_note {
            o.note = format!("{} cells, {p} pentagons", want.len());
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 + t.n(2000, 6000) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i < 122 {
            let t = ex.tier == Tier::Thorough;
            for k in 0..if t { 24 } else { 14 } {
                ex.case(0, &[Cell::new(i as u8, 0).pack(), k]);
            }
            for r in 1..=2 {
                for_cells(i as u8, r, |c| {
                    for k in 0..=3 {
                        ex.case(0, &[c.pack(), k]);
                    }
                });
            }
            if t {
                for_cells(i as u8, 3, |c| {
                    for k in 1..=4 {
                        ex.case(0, &[c.pack(), k]);
                    }
                });
                for_cells(i as u8, 1, |c| ex.case(0, &[c.pack(), 8 + (c.d[1] as u64 + i as u64) % 40]));
            }
            let c = uniform(&mut ex.rng, 1);
            let k = 4 + ex.rng.below(30);
            ex.case(0, &[c.pack(), k]);
            for _ in 0..ex.tier.n(12, 60) {
                let r = match ex.rng.below(12) {
                    0 => ex.tier.n(3, 4),
                    x => x % 3,
                } as usize;
                let c = any_cell_at(&mut ex.rng, r);
                let k = any_large(&mut ex.rng);
                ex.case(2, &[c.pack(), k]);
            }
            return;
        }
        if i % 64 == 0 {
            let r = 9 + ex.rng.below(7) as usize;
            let c = uniform(&mut ex.rng, r);
            let k = (model().clear(&c, None) - 1.5).min(ex.tier.n(1200, 2500) as f64 * ex.rng.unit());
            if k > 2.0 {
                ex.case(3, &[c.pack(), k as u64, 0]);
            }
            let (p, t, q) = (ex.rng.pick(&PENTS), ex.rng.below(6) as i32, ex.rng.unit());
            let n = (10f64.powf(1.5 + 1.6 * ex.rng.unit()) as u64).min(7u64.pow(r as u32 / 2));
            if let Some(c) = model().from_pentagon(p, r, t, n, (q * n as f64) as u64) {
                ex.case(3, &[c.pack(), n - 1, 1 + p as u64]);
            }
        }
        if i == 122 {
            let cells = dictionary_cells();
            for c in &cells {
                for k in 0..6 {
                    ex.case(0, &[c.pack(), k]);
                }
            }
            for d in dictionary() {
                if *d < 60 {
                    let c = any_cell(&mut ex.rng);
                    ex.case(0, &[c.pack(), *d]);
                }
            }
        }
        for _ in 0..60 {
            let r = any_res(&mut ex.rng);
            let k = match ex.rng.below(16) {
                0 => 10 + ex.rng.below(8),
                1 | 2 => 5 + ex.rng.below(6),
                _ => ex.rng.below(5),
            };
            let c = match ex.rng.below(3) {
                0 => near_pentagon(&mut ex.rng, r, k + 2),
                _ => any_cell_at(&mut ex.rng, r),
            };
            ex.case(0, &[c.pack(), k]);
        }
        if i % 8 == 0 {
            // every k with no pentagon near, or one at a chosen distance
            let far = ex.tier.n(140, 300);
            let r = 11 + ex.rng.below(5) as usize;
            let c = uniform(&mut ex.rng, r);
            let st = 1 + ex.rng.below(3);
            ex.case(1, &[c.pack(), far, st]);
            let r = 3 + ex.rng.below(13) as usize;
            let d = ex.rng.below(ex.tier.n(22, 45));
            let p = Cell::new(ex.rng.pick(&PENTS), r);
            let c = away(&mut ex.rng, &p, d);
            let k = d + 4 + ex.rng.below(4);
            ex.case(1, &[c.pack(), k, 1]);
            if i % 128 == 0 {
                // so fine that no pentagon is near: the fallback takes minutes there
                let r = 13 + ex.rng.below(3) as usize;
                let c = uniform(&mut ex.rng, r);
                let k = ex.tier.n(300, 900) + ex.rng.below(200);
                ex.case(0, &[c.pack(), k]);
            }
        }
        if i % 32 == 1 {
            // the fallback with a large k
            let r = 4 + ex.rng.below(12) as usize;
            let k = 35 + ex.rng.below(ex.tier.n(45, 60));
            let n = ex.rng.below(k + 1);
            let c = near_pentagon(&mut ex.rng, r, n);
            ex.case(0, &[c.pack(), k]);
        }
        if i % 16 == 0 {
            let r = any_res(&mut ex.rng);
            let k = 18 + ex.rng.below(ex.tier.n(16, 50));
            let c = if ex.rng.chance(1, 2) { near_pentagon(&mut ex.rng, r, k) } else { any_cell_at(&mut ex.rng, r) };
            ex.case(0, &[c.pack(), k]);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
