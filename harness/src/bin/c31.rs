//! C31: the work a call does is bounded by the size of its result.
use h3mon::gen::*;
use h3mon::mon::*;
use h3_rs::algos::*;
use h3_rs::base_cells::*;
use h3_rs::directed_edge::*;
use h3_rs::h3_index::*;
use h3_rs::iterators::IterCellsChildren;
use h3_rs::lat_lng::*;

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// processor time of this thread, in nanoseconds
fn cpu() -> u64 {
    let mut t = Timespec { s: 0, ns: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.ns as u64
}
/// the least of several measurements: (nanoseconds, result)
fn timed<T>(limit: u64, mut f: impl FnMut() -> T) -> (u64, T) {
    let mut best = u64::MAX;
    let mut n = 0;
    loop {
        let t = cpu();
        let x = f();
        best = best.min(cpu() - t);
        n += 1;
        if best <= limit || n == 4 || best > 20 * limit {
            return (best, x);
        }
    }
}

/// nanoseconds allowed for a call whose result has no size
const CALL: u64 = 5_000_000;
/// and per entry of a result
const ENTRY: u64 = 2_000;

struct C;
impl Check for C {
    const ID: &'static str = "C31";
    const KINDS: &'static [&'static str] = &["scalar", "floats", "children", "iterate", "skip", "disk", "ring", "pentagon disk"];
    const COUNTERS: &'static [&'static str] = &[
        "calls without a list", "children lists", "children listed", "iterator steps", "iterators over more than 10^12 children", "disks without pentagons",
        "their cells", "rings", "their cells (rings)", "disks refused by the fast search", "small disks around pentagons", "microseconds, summed",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
    const RULE: &'static str = "the processor time of each call, least of up to four attempts, is at most 5 ms where no list is returned, whatever the arguments, and at most \
        5 ms plus 2 us per entry of the list, step of the iterator, or cell of a disk or ring (typically 0.01 to 0.3 us are used); disks through the fallback search are only \
        timed up to k = 3; every case is non-trivial";
    const ASSUMPTIONS: &'static [&'static str] = &["limits are far above the cost on any current machine; processor time of the thread is measured, so other load does not count"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        o.nontrivial = true;
        let (ns, limit, what): (u64, u64, String);
        match c.kind {
            0 => {
                let (r, pos, w) = (c.a[1] as i64 as i32, c.a[2] as i64, c.a[3]);
                // one call at a time, so that the slow one can be named
                let mut bad = None;
                let mut total = 0;
                let mut one = |name: &str, f: &mut dyn FnMut() -> u64| {
                    let (t, _) = timed(CALL, || f());
                    total += t;
                    if t > CALL && bad.is_none() {
                        bad = Some((name.to_string(), t));
                    }
                };
                let d = H3_GET_INDEX_DIGIT(w % 7, 15);
                one("cellToLatLng", &mut || cellToLatLng(h).map_or(0, |p| f2b(p.lat)));
                one("isValidCell", &mut || isValidCell(h) as u64);
                one("isPentagon", &mut || isPentagon(h) as u64);
                one("isValidDirectedEdge", &mut || isValidDirectedEdge(h) as u64);
                one("cellToChildrenSize", &mut || cellToChildrenSize(h, r).unwrap_or(0) as u64);
                one("childPosToCell", &mut || childPosToCell(pos, h, r).unwrap_or(0));
                one("validateChildPos", &mut || validateChildPos(pos, h, r).is_ok() as u64);
                one("h3NeighborRotations", &mut || {
                    let mut rot = (w >> 32) as i32;
                    h3NeighborRotations(h, d, &mut rot).unwrap_or(0)
                });
                one("directionForNeighbor", &mut || directionForNeighbor(h, w) as u64);
                one("cellsToDirectedEdge", &mut || cellsToDirectedEdge(h, w).unwrap_or(0));
                one("directedEdgeToCells", &mut || if (h >> 56 & 7) < 7 { directedEdgeToCells(h).map_or(0, |e| e.1) } else { 0 });
                one("originToDirectedEdges", &mut || originToDirectedEdges(h)[5]);
                one("maxGridDiskSize", &mut || maxGridDiskSize(w as u32) as u64);
                one("rotations", &mut || _h3Rotate60ccw(h) ^ _h3Rotate60cw(h) ^ _h3RotatePent60ccw(h) ^ _h3RotatePent60cw(h));
                one("getRes0Cells", &mut || getRes0Cells().map_or(0, |v| v.len() as u64));
                one("from_parent", &mut || IterCellsChildren::from_parent(h, r).next().unwrap_or(0));
                one("predicates", &mut || _isBaseCellPentagon(r) as u64 + isResolutionClassIII(r) as u64 + _hasChildAtRes(h, r) as u64 + _h3LeadingNonZeroDigit(h) as u64);
                o.calls += 22;
                o.add(0, 22);
                o.add(11, total / 1000);
                if let Some((name, t)) = bad {
                    return Err(format!("{name}({h:#x}, resolution {r}, position {pos}, word {w:#x}) took {} us", t / 1000));
                }
                return Ok(());
            }
            1 => {
                let v: Vec<f64> = c.a[..4].iter().map(|x| b2f(*x)).collect();
                let r = c.a[4] as i64 as i32;
                let (p, q) = (LatLng { lat: v[0], lng: v[1] }, LatLng { lat: v[2], lng: v[3] });
                let t = timed(CALL, || {
                    let mut s = LatLng { lat: 0.0, lng: 0.0 };
                    setGeoDegs(&mut s, v[0], v[1]);
                    latLngToCell(&p, r).unwrap_or(0)
                        ^ f2b(constrainLat(v[0]))
                        ^ f2b(constrainLng(v[1]))
                        ^ f2b(_posAngleRads(v[2]))
                        ^ f2b(_geoAzimuthRads(&p, &q))
                        ^ f2b(_geoAzDistanceRads(&p, v[2], v[3]).lng)
                        ^ f2b(s.lat)
                });
                o.calls += 7;
                o.add(0, 7);
                (ns, limit, what) = (t.0, CALL, format!("helpers of {v:?} and encoding at {r}"));
            }
            2 => {
                let r = c.a[1] as i32;
                let n = cellToChildrenSize(h, r).map_err(|e| format!("children of {h:#x} at {r}: {e:?}"))? as u64;
                limit = CALL + n * ENTRY;
                let t = timed(limit, || cellToChildren(h, r).map_or(0, |v| v.len() as u64));
                o.calls += 1;
                o.hit(1);
                o.add(2, t.1);
                (ns, what) = (t.0, format!("listing the {n} children of {h:#x} at resolution {r}"));
            }
            3 => {
                let (r, n) = (c.a[1] as i32, c.a[2]);
                limit = CALL + n * ENTRY;
                let t = timed(limit, || IterCellsChildren::from_parent(h, r).take(n as usize).fold(0u64, |a, x| a ^ x));
                o.calls += n;
                o.add(3, n);
                if cellToChildrenSize(h, r).unwrap_or(0) > 1_000_000_000_000 {
                    o.hit(4);
                }
                (ns, what) = (t.0, format!("{n} steps through the children of {h:#x} at resolution {r}"));
            }
            4 => {
                // every single step is short, also the ones that carry
                let (r, n) = (c.a[1] as i32, c.a[2]);
                let mut it = IterCellsChildren::from_parent(h, r);
                let mut worst = 0;
                for _ in 0..n {
                    let t = cpu();
                    if it.next().is_none() {
                        break;
                    }
                    worst = worst.max(cpu() - t);
                }
                // a single measurement may include an interrupt: only a slow one is repeated
                if worst > 8 * CALL {
                    let mut again = u64::MAX;
                    for _ in 0..3 {
                        let mut w = 0;
                        let mut it = IterCellsChildren::from_parent(h, r);
                        for _ in 0..n {
                            let t = cpu();
                            if it.next().is_none() {
                                break;
                            }
                            w = w.max(cpu() - t);
                        }
                        again = again.min(w);
                    }
                    worst = again;
                }
                o.calls += n;
                o.add(3, n);
                (ns, limit, what) = (worst, 8 * CALL, format!("one of the first {n} steps through the children of {h:#x} at resolution {r}"));
            }
            5 => {
                let k = c.a[1] as u32;
                let n = maxGridDiskSize(k) as u64;
                limit = CALL + n * ENTRY;
                let t = timed(limit, || gridDiskDistancesUnsafe(h, k).map_or(0, |v| v.len() as u64));
                o.calls += 1;
                if t.1 > 0 {
                    // no pentagon: the general search answers at once, too
                    let u = timed(limit, || gridDiskDistances(h, k).map_or(0, |v| v.len() as u64));
                    o.calls += 1;
                    o.hit(5);
                    o.add(6, n);
                    (ns, what) = (t.0.max(u.0), format!("a disk of {n} cells around {h:#x}"));
                } else {
                    o.hit(9);
                    (ns, what) = (t.0, format!("refusing a disk of {n} cells around {h:#x}"));
                }
            }
            6 => {
                let k = c.a[1] as u32;
                limit = CALL + 8 * k as u64 * ENTRY;
                let t = timed(limit, || gridRingUnsafe(h, k).map_or(0, |v| v.len() as u64));
                o.calls += 1;
                o.hit(7);
                o.add(8, t.1);
                (ns, what) = (t.0, format!("the ring at {k} around {h:#x}"));
            }
            _ => {
                let k = c.a[1] as u32;
                limit = 2 * CALL;
                let t = timed(limit, || gridDiskDistances(h, k).map_or(0, |v| v.len() as u64));
                o.calls += 1;
                o.hit(10);
                (ns, what) = (t.0, format!("the disk at {k} around {h:#x}"));
            }
        }
        o.add(11, ns / 1000);
        if ns > limit {
            return Err(format!("{what} took {} us, more than {}", ns / 1000, limit / 1000));
        }
        if o.want_note {
            o.note = format!("{} us, limit {} us", ns / 1000, limit / 1000);
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(1200, 4800) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let float = |rng: &mut Rng| -> u64 {
            f2b(match rng.below(6) {
                0 => rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 5e-324, 0.0, -0.0]),
                1 => 10f64.powf(rng.sym() * 308.0) * rng.pick(&[1.0, -1.0]),
                2 => f64::from_bits(rng.next()),
                3 => 10f64.powf(rng.unit() * 20.0) * rng.pick(&[1.0, -1.0]),
                _ => rng.sym() * 7.0,
            })
        };
        if i == 0 {
            for d in dictionary() {
                for r in [-1, 0, 7, 15, 16] {
                    let w = ex.rng.next();
                    ex.case(0, &[*d, r as u64, *d, w]);
                    ex.case(0, &[w, r as u64, *d, *d]);
                }
            }
        }
        for _ in 0..600 {
            let c = any_cell(&mut ex.rng);
            let h = match ex.rng.below(4) {
                0 => hostile(&mut ex.rng),
                1 => c.pack() ^ 3 << 59 | (1 + ex.rng.below(6)) << 56,
                _ => c.pack(),
            };
            let r = match ex.rng.below(8) {
                0 => ex.rng.next() as i32 as i64,
                1 => -1,
                _ => ex.rng.below(16) as i64,
            };
            let pos = match ex.rng.below(4) {
                0 => ex.rng.next(),
                1 => ex.rng.below(50),
                _ => {
                    let bits = 1 + ex.rng.below(44);
                    ex.rng.below(1 << bits)
                }
            };
            let w = match ex.rng.below(3) {
                0 => step(&mut ex.rng, &c).pack(),
                1 => hostile(&mut ex.rng),
                _ => ex.rng.next(),
            };
            ex.case(0, &[h, r as u64, pos, w]);
            let (a, b, x, y) = (float(&mut ex.rng), float(&mut ex.rng), float(&mut ex.rng), float(&mut ex.rng));
            ex.case(1, &[a, b, x, y, r as u64]);
        }
        for _ in 0..12 {
            let c = any_cell(&mut ex.rng);
            let r = c.res as u64 + ex.rng.below((16 - c.res as u64).min(6));
            ex.case(2, &[c.pack(), r]);
            let r = c.res as u64 + ex.rng.below(16 - c.res as u64);
            let n = 1 + ex.rng.below(100_000);
            ex.case(3, &[c.pack(), r, n]);
            let r = any_res(&mut ex.rng);
            let c = near_pentagon(&mut ex.rng, r, 5);
            let k = ex.rng.below(4);
            ex.case(7, &[c.pack(), k]);
        }
        for _ in 0..3 {
            let r = ex.rng.below(3) as usize;
            let c = any_cell_at(&mut ex.rng, r);
            let n = ex.tier.n(300_000, 2_000_000);
            ex.case(3, &[c.pack(), 15, n]);
            ex.case(4, &[c.pack(), 15, 20_000]);
            let r = ex.rng.below(16) as usize;
            let c = any_cell_at(&mut ex.rng, r);
            let k = ex.rng.below(100);
            ex.case(5, &[c.pack(), k]);
            let r = 8 + ex.rng.below(8) as usize;
            let c = uniform(&mut ex.rng, r);
            let k = 100 + ex.rng.below(ex.tier.n(200, 1000));
            ex.case(5, &[c.pack(), k]);
            let k = 500 + ex.rng.below(3_000);
            ex.case(6, &[c.pack(), k]);
            if i >= 64 {
                let k = 10_000 + ex.rng.below(ex.tier.n(20_000, 100_000));
                ex.case(6, &[c.pack(), k]);
            }
        }
        if i >= 64 && i % 4 == 0 {
            // long lists: work that grows faster than they do shows
            let r = 12 + ex.rng.below(4) as usize;
            let c = uniform(&mut ex.rng, r);
            let k = 200_000 + ex.rng.below(200_000);
            ex.case(6, &[c.pack(), k]);
            let r = 12 + ex.rng.below(4) as usize;
            let c = uniform(&mut ex.rng, r);
            let k = 600 + ex.rng.below(200);
            ex.case(5, &[c.pack(), k]);
            let r = ex.rng.below(8) as usize;
            let c = any_cell_at(&mut ex.rng, r);
            ex.case(2, &[c.pack(), r as u64 + 8]);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
