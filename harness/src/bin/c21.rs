//! C21: the base cells and their descendants are the whole globe, once.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::base_cells::{getRes0Cells, res0CellCount};
use h3_rs::h3_index::{cellToChildrenSize, isPentagon, isValidCell, latLngToCell};
use h3_rs::iterators::IterCellsChildren;
use h3_rs::lat_lng::LatLng;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const EX: [usize; 2] = [7, 9];
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU64 = AtomicU64::new(0);
struct C {
    /// per resolution: cells walked, pentagons met, base cells walked
    walked: [AtomicU64; 16],
    pents: [AtomicU64; 16],
    bases: [AtomicU64; 16],
}
impl Check for C {
    const ID: &'static str = "C21";
    const KINDS: &'static [&'static str] = &["base", "sum", "walk", "inside", "prefix"];
    const COUNTERS: &'static [&'static str] = &["base cells in order", "sums over the base cells", "cells walked", "pentagons walked", "points found below a base cell", "cells of prefixes"];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5];
    const RULE: &'static str = "`base`: the list of base cells has the announced length, 122, and entry i is base cell i; `sum` (resolution): the numbers of children \
        of the listed base cells add up to 2 + 120 * 7^r; `walk` (base cell, resolution): walking the children of the base cell meets strictly increasing, \
        valid, pairwise different cells of that base cell and resolution, as many as exist and with one pentagon exactly below a pentagon; at the end the walks of a \
        resolution must add up to the whole globe with 12 pentagons; `inside` (point, resolution): the cell of the point lies among the descendants of the listed \
        base cell it names; `prefix` (base cell, resolution, length): the walk at a resolution too fine to finish starts with strictly increasing cells of the base \
        cell, the first being its centre child, each the successor of the last among the descendants; non-trivial above resolution 0";
    const ASSUMPTIONS: &'static [&'static str] = &["the walks stop at resolution 6 (quick) or 9 (thorough); finer resolutions are covered by sums and points"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let list = match getRes0Cells() {
            Ok(v) => v,
            Err(e) => return Err(format!("the list of base cells is an error: {e:?}")),
        };
        o.calls += 1;
        match c.kind {
            0 => {
                if res0CellCount() != 122 || list.len() != 122 {
                    return Err(format!("{} base cells announced, {} listed", res0CellCount(), list.len()));
                }
                for (i, h) in list.iter().enumerate() {
                    let w = Cell::new(i as u8, 0);
                    if *h != w.pack() || !isValidCell(*h) || isPentagon(*h) != w.is_pentagon() {
                        return Err(format!("entry {i} of the list of base cells is {h:#x}"));
                    }
                    o.hit(0);
                }
            }
            1 => {
                let r = c.a[0] as usize;
                o.nontrivial = r > 0;
                let mut s = 0i128;
                for h in &list {
                    match cellToChildrenSize(*h, r as i32) {
                        Ok(n) => s += n as i128,
                        Err(e) => return Err(format!("number of children of {h:#x} at {r}: {e:?}")),
                    }
                }
                if s != num_cells(r) as i128 {
                    return Err(format!("the base cells have {s} descendants of resolution {r}, not {}", num_cells(r)));
                }
                o.calls += 122;
                o.hit(1);
                if o.want_note {
                    o.note = format!("{s}");
                }
            }
            2 => {
                let (b, r) = (c.a[0] as usize, c.a[1] as usize);
                o.nontrivial = r > 0;
                let (mut n, mut p, mut last) = (0u64, 0u64, 0u64);
                let max = 7u64.pow(r as u32);
                for x in IterCellsChildren::from_parent(list[b], r as i32) {
                    let Some(y) = Cell::parse(x) else { return Err(format!("{x:#x}, met below base cell {b}, is not a cell")) };
                    if y.bc as usize != b || y.res as usize != r || x <= last {
                        return Err(format!("{x:#x} met after {last:#x} below base cell {b} at resolution {r}"));
                    }
                    last = x;
                    n += 1;
                    p += isPentagon(x) as u64;
                    if n > max {
                        break;
                    }
                }
                let pent = model().pent[b];
                let want = if pent { 1 + 5 * (max - 1) / 6 } else { max };
                if n != want || p != pent as u64 {
                    return Err(format!("below base cell {b} there are {n} cells of resolution {r} and {p} pentagons, not {want} and {}", pent as u64));
                }
                o.calls += 2 * n;
                o.add(2, n);
                o.add(3, p);
                self.walked[r].fetch_add(n, Relaxed);
                self.pents[r].fetch_add(p, Relaxed);
                self.bases[r].fetch_add(1, Relaxed);
                if o.want_note {
                    o.note = format!("{n} cells");
                }
            }
            4 => {
                let (b, r, n) = (c.a[0] as usize, c.a[1] as usize, c.a[2]);
                o.nontrivial = r > 0;
                let mut want = Cell::new(b as u8, r);
                let mut it = IterCellsChildren::from_parent(list[b], r as i32);
                for i in 0..n {
                    let x = it.next();
                    if x != Some(want.pack()) {
                        return Err(format!("entry {i} of the walk below base cell {b} at resolution {r} is {x:x?}, not {:#x}", want.pack()));
                    }
                    // the next one: count up in base 7, past the deleted digit
                    let mut q = r;
                    while q > 0 && want.d[q] == 6 {
                        want.d[q] = 0;
                        q -= 1;
                    }
                    if q == 0 {
                        break;
                    }
                    want.d[q] += 1;
                    if model().pent[b] && want.lead() == 1 {
                        want.d[q] = 2;
                    }
                }
                o.calls += n;
                o.add(5, n);
            }
            _ => {
                let g = LatLng { lat: b2f(c.a[0]), lng: b2f(c.a[1]) };
                let r = c.a[2] as i32;
                o.nontrivial = r > 0;
                o.calls += 1;
                let x = match latLngToCell(&g, r) {
                    Ok(x) => x,
                    Err(e) => return Err(format!("{}, {} lies in no cell of resolution {r}: {e:?}", g.lat, g.lng)),
                };
                let Some(y) = Cell::parse(x) else { return Err(format!("{}, {} lies in {x:#x}, which is no cell", g.lat, g.lng)) };
                // the walk from the base cell reaches it: prune to the branch that holds it
                let mut h = list[y.bc as usize];
                for q in 1..=r {
                    let mut w = y;
                    for t in q as usize + 1..=15 {
                        w.d[t] = 0;
                    }
                    w.res = q as u8;
                    let Some(z) = IterCellsChildren::from_parent(h, q).find(|z| *z == w.pack()) else {
                        return Err(format!("{x:#x}, the cell of {}, {}, is not reached from its base cell: {:#x} is no child of {h:#x}", g.lat, g.lng, w.pack()));
                    };
                    h = z;
                    o.calls += 1;
                }
                if h != x {
                    return Err(format!("{x:#x} is not reached from its base cell but {h:#x}"));
                }
                o.hit(4);
                if o.want_note {
                    o.note = format!("{x:#x}");
                }
            }
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        1 + 122 * (EX[t as usize] + 1) + t.n(2048, 8192) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let er = EX[ex.tier as usize];
        let (w, i) = split(i, &[1, 122 * (er + 1), usize::MAX / 2]);
        match w {
            0 => {
                ex.case(0, &[]);
                for r in 0..16 {
                    ex.case(1, &[r]);
                }
            }
            1 if i < 122 => {
                // the finest walks, as far as they go
                ex.case(2, &[i as u64, er as u64]);
                for r in er + 1..16 {
                    let n = ex.tier.n(200_000, 2_000_000);
                    ex.case(4, &[i as u64, r as u64, n]);
                }
            }
            1 => ex.case(2, &[(i % 122) as u64, (er - i / 122) as u64]),
            _ => {
                for _ in 0..2500 {
                    let r = any_res(&mut ex.rng);
                    let (a, b) = any_point(&mut ex.rng, r);
                    ex.case(3, &[f2b(a), f2b(b), r as u64]);
                }
            }
        }
    }
    fn finish(&self, t: Tier, _seed: u64) -> Verdict {
        for r in 0..=EX[t as usize] {
            let (n, p, b) = (self.walked[r].load(Relaxed), self.pents[r].load(Relaxed), self.bases[r].load(Relaxed));
            if n != num_cells(r) || p != 12 || b != 122 {
                return Err(format!("the walks of resolution {r} met {n} cells and {p} pentagons below {b} base cells, not {} and 12", num_cells(r)));
            }
        }
        Ok(())
    }
    fn exhaustive_note(&self) -> &'static str {
        "every cell of resolutions 0..=7 (quick) or 0..=9 (thorough); sums at all 16 resolutions"
    }
}
fn main() {
    h3mon::mon::main(C { walked: [Z; 16], pents: [Z; 16], bases: [Z; 16] })
}
