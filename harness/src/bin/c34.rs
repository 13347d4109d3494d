//! C34: valid cells in, valid cells and edges out, at the resolution asked for.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::algos::*;
use h3_rs::base_cells::getRes0Cells;
use h3_rs::directed_edge::*;
use h3_rs::h3_index::*;
use h3_rs::iterators::IterCellsChildren;
use h3_rs::lat_lng::LatLng;

struct C;
/// x is a valid cell of resolution r, by its bits, and isValidCell says so
fn good(x: u64, r: usize, what: &str, h: u64) -> Verdict {
    match Cell::parse(x) {
        Some(y) if y.res as usize == r && isValidCell(x) && getResolution(x) == r as i32 => Ok(()),
        _ => Err(format!("{what} of {h:#x} gives {x:#x}, which is not a valid cell of resolution {r}")),
    }
}
impl Check for C {
    const ID: &'static str = "C34";
    const KINDS: &'static [&'static str] = &["cell", "family", "disk", "point"];
    const COUNTERS: &'static [&'static str] = &[
        "results judged", "encoded points", "neighbours", "edges", "children", "positions", "cells of disks", "cells of rings", "rotations", "pentagons", "resolution 15",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
    const RULE: &'static str = "every index returned for valid arguments is judged by its bits: `cell` (cell): neighbours in all directions under every carried rotation, edges with their ends, \
        rotations, re-encoded centre; `family` (cell, resolution, position): children and positions; `disk` (cell, k): disks and rings; `point`: encodings at 16 resolutions; \
        every case is non-trivial";
    const ASSUMPTIONS: &'static [&'static str] = &["pentagonal rotations are judged on cells of pentagon base cells, the others on cells of hexagon base cells"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        o.nontrivial = true;
        let h = c.a[0];
        if c.kind == 3 {
            let g = LatLng { lat: b2f(c.a[0]), lng: b2f(c.a[1]) };
            for r in 0..16 {
                o.calls += 1;
                o.hit(0);
                o.hit(1);
                let x = latLngToCell(&g, r).map_err(|e| format!("({:?}, {:?}) does not encode at resolution {r}: {e:?}", g.lat, g.lng))?;
                good(x, r as usize, &format!("encoding ({:?}, {:?})", g.lat, g.lng), 0)?;
            }
            return Ok(());
        }
        let cell = Cell::parse(h).ok_or("harness: not a cell")?;
        let res = cell.res as usize;
        if cell.is_pentagon() {
            o.hit(9);
        }
        if res == 15 {
            o.hit(10);
        }
        let mut n = 0;
        match c.kind {
            0 => {
                for d in 0..7u64 {
                    let dir = H3_GET_INDEX_DIGIT(d, 15);
                    for rot in 0..6 {
                        let mut t = rot;
                        if let Ok(x) = h3NeighborRotations(h, dir, &mut t) {
                            good(x, res, &format!("stepping in direction {d} after {rot} rotations"), h)?;
                            if !(0..6).contains(&t) {
                                return Err(format!("stepping in direction {d} after {rot} rotations from {h:#x} carries {t} rotations"));
                            }
                            n += 1;
                        }
                        o.calls += 1;
                    }
                }
                o.add(2, n);
                for e in originToDirectedEdges(h) {
                    if e == 0 && cell.is_pentagon() {
                        continue;
                    }
                    o.calls += 4;
                    o.hit(3);
                    if !isValidDirectedEdge(e) {
                        return Err(format!("{e:#x}, listed among the edges of {h:#x}, is not a valid edge"));
                    }
                    let a = getDirectedEdgeOrigin(e).map_err(|x| format!("the origin of {e:#x}: {x:?}"))?;
                    let b = getDirectedEdgeDestination(e).map_err(|x| format!("the destination of {e:#x}: {x:?}"))?;
                    good(a, res, "the origin of an edge", h)?;
                    good(b, res, "the destination of an edge", h)?;
                    match cellsToDirectedEdge(b, h) {
                        Ok(q) if isValidDirectedEdge(q) => {}
                        q => return Err(format!("the edge back from {b:#x} to {h:#x} is {q:x?}")),
                    }
                    n += 4;
                }
                let turned = if model().pent[cell.bc as usize] { [_h3RotatePent60ccw(h), _h3RotatePent60cw(h)] } else { [_h3Rotate60ccw(h), _h3Rotate60cw(h)] };
                for x in turned {
                    good(x, res, "a rotation", h)?;
                    o.hit(8);
                    n += 1;
                }
                let g = cellToLatLng(h).map_err(|e| format!("{h:#x} does not decode: {e:?}"))?;
                good(latLngToCell(&g, res as i32).map_err(|e| format!("the centre of {h:#x} does not encode: {e:?}"))?, res, "the encoded centre", h)?;
                o.hit(1);
                o.calls += 4;
            }
            1 => {
                let (r, w) = (c.a[1] as usize, c.a[2]);
                let size = cellToChildrenSize(h, r as i32).map_err(|e| format!("the number of children of {h:#x} at {r}: {e:?}"))?;
                let p = if size > 0 { (w % size as u64) as i64 } else { 0 };
                for p in [0, p, size - 1] {
                    let x = childPosToCell(p, h, r as i32).map_err(|e| format!("child {p} of {h:#x} at {r}: {e:?}"))?;
                    good(x, r, &format!("child {p}"), h)?;
                    o.hit(5);
                    n += 1;
                }
                let all = r - res <= 3;
                if all {
                    for x in cellToChildren(h, r as i32).map_err(|e| format!("children of {h:#x} at {r}: {e:?}"))? {
                        good(x, r, "listing the children", h)?;
                        o.hit(4);
                        n += 1;
                    }
                }
                for x in IterCellsChildren::from_parent(h, r as i32).take(if all { usize::MAX } else { 400 }) {
                    good(x, r, "iterating over the children", h)?;
                    o.hit(4);
                    n += 1;
                }
                o.calls += n;
            }
            _ => {
                let k = c.a[1] as u32;
                for (x, _) in gridDiskDistances(h, k).map_err(|e| format!("the disk of {k} around {h:#x}: {e:?}"))? {
                    good(x, res, &format!("a disk of {k}"), h)?;
                    n += 1;
                }
                for (x, _) in gridDiskDistancesUnsafe(h, k).unwrap_or_default() {
                    good(x, res, &format!("a fast disk of {k}"), h)?;
                    n += 1;
                }
                o.add(6, n);
                for x in gridRingUnsafe(h, k).unwrap_or_default() {
                    good(x, res, &format!("a ring of {k}"), h)?;
                    o.hit(7);
                    n += 1;
                }
                o.calls += 3;
            }
        }
        o.add(0, n);
        if o.want_note {
            o.note = format!("{n} results are valid");
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 + t.n(1000, 8000) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i < 122 {
            for r in 0..=4usize {
                for_cells(i as u8, r, |c| {
                    ex.case(0, &[c.pack()]);
                    let q = r as u64 + ex.rng.below(3);
                    let w = ex.rng.next();
                    ex.case(1, &[c.pack(), q, w]);
                    if r < 4 {
                        let k = ex.rng.below(4);
                        ex.case(2, &[c.pack(), k]);
                    }
                });
            }
            return;
        }
        for _ in 0..2500 {
            let c = any_cell(&mut ex.rng);
            ex.case(0, &[c.pack()]);
        }
        for _ in 0..1200 {
            let c = any_cell(&mut ex.rng);
            let q = c.res as u64 + ex.rng.below(16 - c.res as u64);
            let w = ex.rng.next();
            ex.case(1, &[c.pack(), q, w]);
        }
        for _ in 0..120 {
            let r = any_res(&mut ex.rng);
            let c = if ex.rng.chance(1, 3) { near_pentagon(&mut ex.rng, r, 9) } else { any_cell_at(&mut ex.rng, r) };
            let k = if ex.rng.chance(1, 10) { ex.rng.below(14) } else { ex.rng.below(6) };
            ex.case(2, &[c.pack(), k]);
        }
        for _ in 0..600 {
            let r = any_res(&mut ex.rng);
            let (a, b) = any_point(&mut ex.rng, r);
            ex.case(3, &[f2b(a), f2b(b)]);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
