//! C15: a ring is exactly the cells at distance k, or reports the pentagon.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::algos::gridRingUnsafe;
use h3_rs::error::Error;

struct C;
fn every(h: u64, cell: &Cell, top: u32, o: &mut Obs) -> Verdict {
    o.nontrivial = true;
    let mut a = Around::new(cell, top);
    for k in 0..=top {
        let pents = a.pents[k as usize];
        o.calls += 1;
        match gridRingUnsafe(h, k) {
            Ok(v) => {
                let n = a.check(v.iter().map(|x| (*x, None)), k, k).map_err(|e| format!("ring of {h:#x}, k = {k} ({pents} pentagons within): {} cells, {e}", v.len()))?;
                o.hit(8);
                o.add(1, n);
                if k < top && pents == 0 && a.pents[k as usize + 1] > 0 {
                    o.hit(5);
                }
            }
            Err(e) => {
                if e != Error::Pentagon || pents == 0 {
                    return Err(format!("the ring of {h:#x}, k = {k}, is an error, {e:?}, with {pents} pentagons within"));
                }
                o.hit(if k > 0 && a.pents[k as usize - 1] == 0 { 2 } else { 3 });
            }
        }
    }
    if top >= 250 {
        o.hit(9);
    }
    if o.want_note {
        o.note = format!("k = 0..={top}, pentagons within {top}: {}", a.pents[top as usize]);
    }
    Ok(())
}
/// least k for which a pentagon lies strictly inside, wherever the origin: no cell is farther than
/// 2.31 * 7^(r/2) steps from the nearest one
fn inside(r: u8) -> u64 {
    (2.5 * 7f64.powf(r as f64 / 2.0)).ceil() as u64 + 1
}
/// A ring around pentagons is shorter than 6 k, and longer than nothing.
fn huge(h: u64, cell: &Cell, k: u32, o: &mut Obs) -> Verdict {
    o.nontrivial = true;
    o.calls += 1;
    if (k as u64) < inside(cell.res) {
        return Err("harness: k is not huge".into());
    }
    match gridRingUnsafe(h, k) {
        Err(Error::Pentagon) => {
            o.hit(10);
            if cell.res >= 8 {
                o.hit(11);
            }
            Ok(())
        }
        Err(e) => Err(format!("the ring of {h:#x}, k = {k}, is an error, {e:?}")),
        Ok(v) if v.len() as u64 >= 6 * k as u64 => Err(format!(
            "the ring of {h:#x}, k = {k}, encloses pentagons and is returned with {} cells, such as {:#x}; there are fewer at that distance",
            v.len(),
            v[0]
        )),
        Ok(mut v) => {
            let n = v.len();
            v.sort_unstable();
            v.dedup();
            if v.len() != n || v.iter().any(|x| Cell::parse(*x).map_or(true, |c| c.res != cell.res)) {
                return Err(format!("the ring of {h:#x}, k = {k}, repeats cells or lists values that are no cells of its resolution"));
            }
            Ok(())
        }
    }
}
/// A ring with no pentagon anywhere near is that of the flat lattice.
/// The pentagon `but` is more than k steps away by construction.
fn wide(h: u64, cell: &Cell, k: u32, but: Option<u8>, o: &mut Obs) -> Verdict {
    if k as f64 + 1.0 >= model().clear(cell, but) {
        return Err("harness: a pentagon may be within k".into());
    }
    o.nontrivial = true;
    o.calls += 1;
    let mut v = gridRingUnsafe(h, k).map_err(|e| format!("the ring of {h:#x}, k = {k}, is an error, {e:?}; no pentagon is within {k} steps"))?;
    let mut want = model().flat_ring(cell, k);
    v.sort_unstable();
    want.sort_unstable();
    if v != want {
        let wrong = v.iter().find(|x| want.binary_search(x).is_err());
        let missing = want.iter().find(|x| v.binary_search(x).is_err());
        return Err(format!("the ring of {h:#x}, k = {k}, has {} cells, not at distance {k} for instance {wrong:x?}; missing for instance {missing:x?}", v.len()));
    }
    o.hit(12);
    o.add(1, v.len() as u64);
    if k >= 1 << 16 {
        o.hit(13);
    }
    if but.is_some() {
        o.hit(14);
    }
    Ok(())
}
impl Check for C {
    const ID: &'static str = "C15";
    const KINDS: &'static [&'static str] = &["ring", "every k", "huge", "wide"];
    const COUNTERS: &'static [&'static str] = &[
        "exact rings", "cells compared", "refused: pentagon on the ring", "refused: pentagon strictly inside", "refused: pentagon origin",
        "exact although a pentagon is at distance k+1", "k 11 and more", "six or more pentagons inside, refused", "rings of a sweep over every k", "largest k of a sweep, at least 250",
        "huge rings, refused", "huge rings, by resolution 8 and finer", "wide rings", "wide rings of 65,536 and more", "wide rings that just miss a pentagon",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];
    const RULE: &'static str = "a case is (cell, k): if no pentagon is within k steps (breadth-first search in the reference grid) the ring must be \
        returned; whenever a ring is returned it must be exactly the cells at distance k, each once; a refusal must be the pentagon error and only \
        with a pentagon within k; all cells of resolutions 0-1 with k up to 40, random cells of all resolutions with k biased to put a pentagon \
        around the rim; `every k` (cell, K) does so for each k in 0..=K; `huge` (cell, k): so large that pentagons lie inside wherever the cell is (6 k cells would be too many for a ring around a pentagon); `wide` (cell, k, 1 + a base pentagon more than k steps away by construction, or 0): away from pentagons, against the ring of the unfolded lattice; non-trivial when k > 0";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "k is small enough for the result to fit in memory",
    ];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let (h, k) = (c.a[0], c.a[1] as u32);
        let cell = Cell::parse(h).ok_or("harness: not a cell")?;
        if c.kind == 1 {
            return every(h, &cell, k, o);
        }
        if c.kind == 2 {
            return huge(h, &cell, k, o);
        }
        if c.kind == 3 {
            return wide(h, &cell, k, c.a[2].checked_sub(1).map(|b| b as u8), o);
        }
        o.nontrivial = k > 0;
        let want = ball(&cell, k + 1);
        let mut near = u32::MAX;
        let mut pents = 0;
        for x in &want {
            if is_pent_index(x.0) {
                near = near.min(x.1);
                pents += (x.1 <= k) as u32;
            }
        }
        o.calls += 1;
        let v = match gridRingUnsafe(h, k) {
            Ok(v) => v,
            Err(e) => {
                if e != Error::Pentagon || near > k {
                    return Err(format!("the ring of {h:#x}, k = {k}, is an error, {e:?}; the nearest pentagon is {near} steps away"));
                }
                o.hit(if near == 0 {
                    4
                } else if near == k {
                    2
                } else {
                    3
                });
                if pents >= 6 {
                    o.hit(7);
                }
                if o.want_note {
                    o.note = format!("pentagon at distance {near}, refused");
                }
                return Ok(());
            }
        };
        o.sig = digest(v.iter().copied());
        let mut map: FastMap<()> = FastMap::default();
        let mut n = 0;
        for (x, d) in &want {
            if *d == k {
                map.insert(*x, ());
                n += 1;
            }
        }
        let mut wrong = 0;
        let mut ex = 0;
        for x in &v {
            if map.remove(x).is_none() {
                wrong += 1;
                ex = *x;
            }
        }
        if wrong > 0 || !map.is_empty() {
            return Err(format!(
                "ring of {h:#x}, k = {k} ({pents} pentagons within): {} cells returned without error, {wrong} repeated or not at distance {k} (such as {ex:#x}), {} of {n} missing",
                v.len(),
                map.len()
            ));
        }
        o.hit(0);
        o.add(1, v.len() as u64);
        if near == k + 1 {
            o.hit(5);
        }
        if k > 10 {
            o.hit(6);
        }
        if o.want_note {
            o.note = format!("{} cells, exactly the ring", v.len());
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 + t.n(800, 8192) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i < 122 {
            for r in 0..=1 {
                for_cells(i as u8, r, |c| {
                    for k in 0..=40 {
                        ex.case(0, &[c.pack(), k]);
                    }
                });
            }
            for r in 2..=if ex.tier == Tier::Thorough { 4 } else { 3 } {
                for_cells(i as u8, r, |c| {
                    ex.case(0, &[c.pack(), (c.d[1] as u64 * 5 + c.d[2] as u64 * 3 + c.d[r] as u64) % 12]);
                });
            }
            // around the globe, where the rotations of six and more pentagons may cancel
            for r in 2..=3 {
                for_cells(i as u8, r, |c| {
                    let lo = inside(r as u8);
                    for _ in 0..if r == 2 { 12 } else { 4 } {
                        let k = lo + ex.rng.below(3 * lo);
                        ex.case(2, &[c.pack(), k]);
                    }
                    if c.d[r] == 3 {
                        let k = any_large(&mut ex.rng);
                        ex.case(2, &[c.pack(), k]);
                    }
                });
            }
            return;
        }
        if i == 122 {
            let cells = dictionary_cells();
            for c in &cells {
                for k in 0..6 {
                    ex.case(0, &[c.pack(), k]);
                }
            }
            for d in dictionary() {
                if *d < 60 {
                    let r = 2 + ex.rng.below(14) as usize;
                    let c = any_cell_at(&mut ex.rng, r);
                    ex.case(0, &[c.pack(), *d]);
                }
            }
        }
        for _ in 0..80 {
            let r = 2 + ex.rng.below(14) as usize;
            let k = match ex.rng.below(16) {
                0 => 10 + ex.rng.below(16),
                1 | 2 => 5 + ex.rng.below(6),
                _ => ex.rng.below(5),
            };
            let c = match ex.rng.below(3) {
                0 => near_pentagon(&mut ex.rng, r, 2 * k + 3),
                _ => any_cell_at(&mut ex.rng, r),
            };
            ex.case(0, &[c.pack(), k]);
        }
        if i % 4 == 0 {
            let far = ex.tier.n(260, 700);
            let r = 7 + ex.rng.below(9) as usize;
            let d = ex.rng.below(far - 8);
            let p = Cell::new(ex.rng.pick(&PENTS), r);
            let c = away(&mut ex.rng, &p, d);
            let k = d + 4 + ex.rng.below(4);
            ex.case(1, &[c.pack(), k]);
            if i % 16 == 0 {
                let r = 7 + ex.rng.below(9) as usize;
                let c = any_cell_at(&mut ex.rng, r);
                ex.case(1, &[c.pack(), far]);
            }
            if i % 8 == 0 {
                let r = 6 + ex.rng.below(10) as usize;
                let c = uniform(&mut ex.rng, r);
                let most = (model().clear(&c, None) - 1.5).min(ex.tier.n(130_000, 1_200_000) as f64);
                let k = if ex.rng.chance(1, 3) { most } else { most.powf(0.5 + 0.5 * ex.rng.unit()) };
                if most > 2.0 {
                    ex.case(3, &[c.pack(), k as u64, 0]);
                }
                let r = 7 + ex.rng.below(9) as usize;
                let (p, t, q) = (ex.rng.pick(&PENTS), ex.rng.below(6) as i32, ex.rng.unit());
                let n = (10f64.powf(1.5 + 3.2 * ex.rng.unit()) as u64).min(7u64.pow(r as u32 / 2));
                if let Some(c) = model().from_pentagon(p, r, t, n, (q * n as f64) as u64) {
                    ex.case(3, &[c.pack(), n - 1, 1 + p as u64]);
                }
            }
            if i % 128 == 0 {
                let r = 9 + ex.rng.below(7) as usize;
                let c = uniform(&mut ex.rng, r);
                let k = ex.tier.n(500, 1200) + ex.rng.below(300);
                ex.case(0, &[c.pack(), k]);
            }
        }
        for _ in 0..20 {
            let r = 4 + ex.rng.below(if i % 8 == 0 { 8 } else { 5 }) as usize;
            let lo = inside(r as u8);
            let k = lo + ex.rng.below(2 * lo);
            let c = any_cell_at(&mut ex.rng, r);
            ex.case(2, &[c.pack(), k]);
        }
        if i % 16 == 0 {
            let r = 4 + ex.rng.below(12) as usize;
            let k = 25 + ex.rng.below(ex.tier.n(20, 80));
            let c = any_cell_at(&mut ex.rng, r);
            ex.case(0, &[c.pack(), k]);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
