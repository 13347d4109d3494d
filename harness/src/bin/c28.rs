//! C28: memory use is bounded by the size of the result.
use h3mon::gen::*;
use h3mon::mon::*;
use h3_rs::algos::*;
use h3_rs::base_cells::getRes0Cells;
use h3_rs::directed_edge::*;
use h3_rs::h3_index::*;
use h3_rs::iterators::IterCellsChildren;
use h3_rs::lat_lng::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell as Reg;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

/// A counting allocator: what the current thread holds, and the most it held.
struct Counting;
thread_local! {
    static LIVE: Reg<i64> = const { Reg::new(0) };
    static PEAK: Reg<i64> = const { Reg::new(0) };
    static COUNT: Reg<u64> = const { Reg::new(0) };
}
fn note(d: i64) {
    let _ = LIVE.try_with(|l| {
        let n = l.get() + d;
        l.set(n);
        if d > 0 {
            let _ = PEAK.try_with(|p| p.set(p.get().max(n)));
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        }
    });
}
fn too_much(n: usize) -> bool {
    LIVE.try_with(|l| l.get().saturating_add(n as i64) > REFUSE).unwrap_or(false)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if too_much(l.size()) {
            return std::ptr::null_mut();
        }
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if too_much(l.size()) {
            return std::ptr::null_mut();
        }
        note(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if too_much(n) {
            return std::ptr::null_mut();
        }
        // old and new exist together while the contents move
        note(n as i64);
        note(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// (most bytes held above the start, bytes still held after the result is dropped, allocations)
fn measure<T>(f: impl FnOnce() -> T, look: impl FnOnce(&T) -> u64) -> (i64, i64, u64, u64) {
    let l0 = LIVE.with(|l| l.get());
    let c0 = COUNT.with(|c| c.get());
    PEAK.with(|p| p.set(l0));
    let x = f();
    let (peak, c) = (PEAK.with(|p| p.get()) - l0, COUNT.with(|c| c.get()) - c0);
    let n = look(&x);
    drop(x);
    (peak, LIVE.with(|l| l.get()) - l0, c, n)
}

const FREE: i64 = 1 << 20;
/// bytes that may stay allocated after a result is dropped (lazily built constants)
const KEPT: i64 = 128 << 10;
/// what all measured calls of the run left behind
static KEPT_ALL: AtomicI64 = AtomicI64::new(0);
/// past this much on one thread memory is refused, so that a runaway call dies alone
const REFUSE: i64 = 2 << 30;
/// bytes allowed per element of the promised size
const PER: i64 = 256;

struct C;
impl Check for C {
    const ID: &'static str = "C28";
    const KINDS: &'static [&'static str] = &["scalar", "children", "iterate", "disk", "fast disk", "ring", "repeat", "small stack"];
    const COUNTERS: &'static [&'static str] = &[
        "calls that return no list", "of which allocated anything", "children lists", "children listed", "iterator steps", "disks", "disks through the fallback",
        "rings", "calls in repetitions", "bytes held at most, in KiB, summed", "lists of more than a million children",
        "threads with a small stack", "calls on a small stack",
    ];
    const REQUIRED: &'static [usize] = &[0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
    const RULE: &'static str = "a counting allocator watches each call: calls that return no list hold at most 1 MiB at any time, whatever their arguments; a children list, \
        disk or ring holds at most 256 bytes per element of its promised size plus 1 MiB; stepping the children iterator holds at most 1 MiB however many children \
        there are; nothing more than 128 KiB is still held after results are dropped, also after thousands of different calls, nor 2 MiB by all calls of the run together; `small stack`: the same calls, iterators, fast disks and rings run in \
        threads of 128 KiB of stack; every case is non-trivial";
    const ASSUMPTIONS: &'static [&'static str] = &["allocations are attributed to the calling thread"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        o.nontrivial = true;
        let (peak, kept, n_, allowed, what);
        match c.kind {
            0 => {
                let r = c.a[1] as i64 as i32;
                let g = LatLng { lat: b2f(c.a[2]), lng: b2f(c.a[3]) };
                let m = measure(|| scalars(h, r, &g, c.a[4]), |x| *x);
                o.calls += 20;
                o.add(0, 20);
                o.add(1, m.2);
                (peak, kept, n_, allowed, what) = (m.0, m.1, 0, FREE, "calls that return no list");
            }
            1 => {
                let r = c.a[1] as i32;
                let want = cellToChildrenSize(h, r).map_err(|e| format!("children of {h:#x} at {r}: {e:?}"))?;
                let m = measure(|| cellToChildren(h, r), |x| x.as_ref().map_or(0, |v| v.len() as u64));
                o.calls += 1;
                o.hit(2);
                o.add(3, m.3);
                if m.3 > 1_000_000 {
                    o.hit(10);
                }
                (peak, kept, n_, allowed, what) = (m.0, m.1, m.3, PER * want + FREE, "cellToChildren");
            }
            2 => {
                let (r, k) = (c.a[1] as i32, c.a[2] as usize);
                let m = measure(|| IterCellsChildren::from_parent(h, r).take(k).fold(0u64, |a, x| a.wrapping_add(x | 1)).min(1) * k as u64, |x| *x);
                o.calls += k as u64;
                o.add(4, k as u64);
                (peak, kept, n_, allowed, what) = (m.0, m.1, 0, FREE, "stepping the children iterator");
            }
            3 | 4 => {
                let k = c.a[1] as u32;
                let size = maxGridDiskSize(k) as i64;
                let m = if c.kind == 3 {
                    measure(|| gridDiskDistances(h, k), |x| x.as_ref().map_or(0, |v| v.len() as u64))
                } else {
                    measure(|| gridDiskDistancesUnsafe(h, k), |x| x.as_ref().map_or(0, |v| v.len() as u64))
                };
                o.calls += 1;
                o.hit(5);
                if c.kind == 3 && m.3 < size as u64 {
                    o.hit(6);
                }
                (peak, kept, n_, allowed, what) = (m.0, m.1, m.3, PER * size + FREE, "a disk");
            }
            5 => {
                let k = c.a[1] as u32;
                let m = measure(|| gridRingUnsafe(h, k), |x| x.as_ref().map_or(0, |v| v.len() as u64));
                o.calls += 1;
                o.hit(7);
                (peak, kept, n_, allowed, what) = (m.0, m.1, m.3, PER * 6 * k.max(1) as i64 + FREE, "a ring");
            }
            7 => {
                // a call that needs more stack than this kills the process, which the parent notices
                let n = c.a[1];
                let t = std::thread::Builder::new().stack_size(128 << 10).spawn(move || {
                    let mut rng = Rng::new(h, 7);
                    let mut s = 0u64;
                    for _ in 0..n {
                        let x = if rng.chance(1, 3) { hostile(&mut rng) } else { structured_cell(&mut rng) };
                        let g = LatLng { lat: rng.sym() * 2.0, lng: rng.sym() * 4.0 };
                        let g = if rng.chance(1, 8) { LatLng { lat: f64::from_bits(rng.next()), lng: f64::from_bits(rng.next()) } } else { g };
                        let (r, w) = (rng.below(18) as i32 - 1, rng.next());
                        s ^= scalars(x, r, &g, w);
                        let k = rng.below(30) as u32;
                        s ^= gridDiskDistancesUnsafe(x, k).map_or(0, |v| v.len() as u64);
                        s ^= gridRingUnsafe(x, 10 * k).map_or(0, |v| v.len() as u64);
                        s ^= IterCellsChildren::from_parent(x, r).take(2000).fold(0, |a, y| a ^ y);
                        s ^= getRes0Cells().map_or(0, |v| v.len() as u64);
                    }
                    // long lists and walks, which a recursion would not survive
                    let x = structured_cell(&mut rng);
                    s ^= gridRingUnsafe(x, 2000 + rng.below(30_000) as u32).map_or(0, |v| v.len() as u64);
                    s ^= gridDiskDistancesUnsafe(x, 300).map_or(0, |v| v.len() as u64);
                    let r = (H3_GET_RESOLUTION(x) + 6).min(15);
                    s ^= cellToChildren(x, r).map_or(0, |v| v.len() as u64);
                    s ^= IterCellsChildren::from_parent(x, 15).take(50_000).fold(0, |a, y| a ^ y);
                    s ^= IterCellsChildren::from_parent(x, 15).nth(20_000).unwrap_or(0);
                    s ^= IterCellsChildren::from_parent(x, r).count() as u64;
                    s ^= IterCellsChildren::from_parent(x, r).last().unwrap_or(0);
                    s
                });
                let t = t.map_err(|e| format!("harness: no thread: {e}"))?;
                if t.join().is_err() {
                    return Err("a call panicked on a small stack".into());
                }
                o.calls += 24 * n + 7;
                o.hit(11);
                o.add(12, 24 * n + 7);
                (peak, kept, n_, allowed, what) = (0, 0, 0, FREE, "calls on a small stack");
            }
            _ => {
                let k = c.a[1];
                let mut rng = Rng::new(h, 28);
                // the inputs are made, and dropped, outside the measured call
                let mut kept_all = 0;
                let mut top = 0;
                for _ in 0..k {
                    let x = any_cell(&mut rng).pack();
                    let p = any_point(&mut rng, 15);
                    let g = LatLng { lat: p.0, lng: p.1 };
                    let r = rng.below(16) as i32;
                    let m = measure(
                        || {
                            scalars(x, r, &g, rng.next());
                            let a = gridDiskDistances(x, 1);
                            let b = gridRingUnsafe(x, 1);
                            (a, b, getRes0Cells())
                        },
                        |_| 0,
                    );
                    kept_all += m.1;
                    top = top.max(m.0);
                }
                o.calls += 23 * k;
                o.add(8, 23 * k);
                (peak, kept, n_, allowed, what) = (top, kept_all, 0, FREE, "many calls");
            }
        }
        o.add(9, peak as u64 >> 10);
        if peak > allowed {
            return Err(format!("{what} held {peak} bytes, more than {allowed}, for a result of {n_} entries"));
        }
        KEPT_ALL.fetch_add(kept, Relaxed);
        if kept > KEPT {
            return Err(format!("{what} left {kept} bytes allocated after the result was dropped"));
        }
        if o.want_note {
            o.note = format!("held at most {peak} bytes, allowed {allowed}, kept {kept}; {n_} entries");
        }
        Ok(())
    }
    fn finish(&self, _t: Tier, _s: u64) -> Verdict {
        let k = KEPT_ALL.load(Relaxed);
        if k > 2 << 20 {
            return Err(format!("all calls together left {k} bytes allocated after their results were dropped"));
        }
        Ok(())
    }
    fn extra(&self) -> Vec<(String, String)> {
        vec![("bytes_left_by_all_calls".into(), KEPT_ALL.load(Relaxed).to_string())]
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(900, 4096) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        for _ in 0..800 {
            let h = if ex.rng.chance(1, 3) { hostile(&mut ex.rng) } else { any_cell(&mut ex.rng).pack() };
            let r = ex.rng.below(18) as i64 - 1;
            let p = any_point(&mut ex.rng, 15);
            let w = ex.rng.next();
            ex.case(0, &[h, r as u64, f2b(p.0), f2b(p.1), w]);
        }
        for _ in 0..40 {
            let c = any_cell(&mut ex.rng);
            let top = (c.res as u64 + 6).min(15);
            let r = c.res as u64 + ex.rng.below(top - c.res as u64 + 1);
            ex.case(1, &[c.pack(), r]);
            let r = c.res as u64 + ex.rng.below(16 - c.res as u64);
            let n = 1 + ex.rng.below(3000);
            ex.case(2, &[c.pack(), r, n]);
        }
        for _ in 0..60 {
            let r = any_res(&mut ex.rng);
            let c = if ex.rng.chance(1, 2) { near_pentagon(&mut ex.rng, r, 6) } else { any_cell_at(&mut ex.rng, r) };
            let k = if ex.rng.chance(1, 8) { ex.rng.below(24) } else { ex.rng.below(8) };
            ex.case(3, &[c.pack(), k]);
            ex.case(4, &[c.pack(), k]);
            let c = any_cell_at(&mut ex.rng, r);
            let k = ex.rng.below(60);
            ex.case(5, &[c.pack(), k]);
        }
        let w = ex.rng.next();
        ex.case(7, &[w, 300]);
        if i % 8 == 0 {
            // bigger than what is allowed without a result
            let r = ex.rng.below(6) as usize;
            let c = any_cell_at(&mut ex.rng, r);
            ex.case(1, &[c.pack(), r as u64 + 8]);
            let c = any_cell_at(&mut ex.rng, r);
            ex.case(2, &[c.pack(), 15, 2_000_000]);
            let c = uniform(&mut ex.rng, 12);
            let k = 300 + ex.rng.below(300);
            ex.case(3, &[c.pack(), k]);
            ex.case(4, &[c.pack(), k]);
            ex.case(5, &[c.pack(), 200 * k]);
            let w = ex.rng.next();
            ex.case(6, &[w, if i % 64 == 0 { 200_000 } else { 30_000 }]);
        }
    }
}

/// a cell, made without needing much stack
fn structured_cell(rng: &mut Rng) -> u64 {
    let r = rng.below(16);
    let bc = if rng.chance(1, 2) { rng.pick(&PENTS) as u64 } else { rng.below(122) };
    let mut h = 1u64 << 59 | r << 52 | bc << 45;
    let lead = rng.below(16);
    for q in 1..=15 {
        let d = if q > r { 7 } else if q < lead { 0 } else if q == lead { 2 + rng.below(5) } else { rng.below(7) };
        h |= d << (3 * (15 - q));
    }
    h
}
/// one call of everything that returns no list
fn scalars(h: u64, r: i32, g: &LatLng, w: u64) -> u64 {
    let mut s = 0u64;
    let mut add = |x: u64| s = s.wrapping_mul(31).wrapping_add(x);
    add(latLngToCell(g, r).unwrap_or(0));
    add(cellToLatLng(h).map_or(0, |p| f2b(p.lat)));
    add(isValidCell(h) as u64);
    add(isPentagon(h) as u64);
    add(isValidDirectedEdge(h) as u64);
    add(getResolution(h) as u64);
    add(cellToChildrenSize(h, r).unwrap_or(0) as u64);
    add(childPosToCell((w >> 8) as i64, h, r).unwrap_or(0));
    // a position that exists, of the same and of the widest gap
    for q in [r, 15] {
        if let Ok(n) = cellToChildrenSize(h, q) {
            if n > 0 {
                add(childPosToCell((w % n as u64) as i64, h, q).unwrap_or(0));
                add(childPosToCell(n - 1, h, q).unwrap_or(0));
            }
        }
    }
    add(validateChildPos((w >> 8) as i64, h, r).is_ok() as u64);
    let mut rot = (w % 6) as i32;
    let d = H3_GET_INDEX_DIGIT(1 + w % 6, 15);
    let n = h3NeighborRotations(h, d, &mut rot).unwrap_or(0);
    add(n);
    add(directionForNeighbor(h, n) as u64);
    add(cellsToDirectedEdge(h, n).unwrap_or(0));
    add(directedEdgeToCells(w).map_or(0, |e| e.0));
    add(originToDirectedEdges(h)[5]);
    add(maxGridDiskSize(w as u32) as u64);
    add(_h3Rotate60ccw(h) ^ _h3Rotate60cw(h));
    add(_h3RotatePent60ccw(h) ^ _h3RotatePent60cw(h));
    add(f2b(constrainLat(g.lat)) ^ f2b(constrainLng(g.lng)));
    add(f2b(_geoAzDistanceRads(g, 1.0, 0.5).lat));
    add(geoAlmostEqual(g, &LatLng { lat: 0.0, lng: 0.0 }) as u64);
    s
}
fn main() {
    h3mon::mon::main(C)
}
