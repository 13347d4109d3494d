//! C32: valid arguments are always answered, impossible ones always refused, each with its documented error.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::algos::*;
use h3_rs::directed_edge::*;
use h3_rs::error::Error;
use h3_rs::h3_index::*;
use h3_rs::lat_lng::LatLng;

struct C;
fn is<T: std::fmt::Debug>(what: String, got: Result<T, Error>, want: Option<Error>) -> Verdict {
    match (got, want) {
        (Ok(_), None) => Ok(()),
        (Err(e), Some(w)) if e == w => Ok(()),
        (Ok(_), Some(w)) => Err(format!("{what} is answered, and should be refused as {w:?}")),
        (Err(e), None) => Err(format!("{what} is refused as {e:?}, and should be answered")),
        (Err(e), Some(w)) => Err(format!("{what} is refused as {e:?}, and should be as {w:?}")),
    }
}
impl Check for C {
    const ID: &'static str = "C32";
    const KINDS: &'static [&'static str] = &["cell", "no base cell", "bad digit", "position", "point", "edge"];
    const COUNTERS: &'static [&'static str] = &[
        "calls answered for cells", "pentagons", "indexes without a base cell refused", "indexes with an invalid last digit refused", "positions answered", "positions refused",
        "resolutions refused", "points answered", "points refused", "edges answered", "words refused as edges", "disks answered around pentagons",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
    const RULE: &'static str = "`cell`: for a valid cell every query is answered: centre, each existing neighbour, general disks, counts, first and last positions, edges; \
        `no base cell`: base cells 122 to 127 are refused by every query that needs one; `bad digit`: a step from an index whose own digit is 7 is refused; `position`, `point`, \
        `edge`: numbers outside the documented domain are refused with the documented error, all others answered; every case is non-trivial";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        o.nontrivial = true;
        let dir = |d: u64| H3_GET_INDEX_DIGIT(d, 15);
        let step = |h: u64, d: u64, rot: i32| {
            let mut rot = rot;
            h3NeighborRotations(h, dir(d), &mut rot)
        };
        match c.kind {
            0 => {
                let cell = Cell::parse(h).ok_or("harness: not a cell")?;
                let (k, r, rot) = (c.a[1] as u32, c.a[2] as i32, c.a[3] as i32);
                let pent = cell.is_pentagon();
                is(format!("cellToLatLng({h:#x})"), cellToLatLng(h), None)?;
                for d in 0..8u64 {
                    // turned onto the deleted direction, or along it from the start
                    let turned = if d == 0 || d == 7 { d as u8 } else { rot_digit(d as u8, rot) };
                    let want = match d {
                        7 => Some(Error::Failed),
                        _ if pent && turned == 1 && cell.res > 0 => Some(Error::Pentagon),
                        _ => None,
                    };
                    is(format!("h3NeighborRotations({h:#x}, direction {d}, {rot} rotations)"), step(h, d, rot), want)?;
                }
                is(format!("gridDiskDistances({h:#x}, {k})"), gridDiskDistances(h, k), None)?;
                is(format!("gridRingUnsafe({h:#x}, 0)"), gridRingUnsafe(h, 0), None)?;
                if pent {
                    is(format!("gridDiskDistancesUnsafe({h:#x}, {k})"), gridDiskDistancesUnsafe(h, k), Some(Error::Pentagon))?;
                    is(format!("gridRingUnsafe({h:#x}, {})", k + 1), gridRingUnsafe(h, k + 1), Some(Error::Pentagon))?;
                    o.hit(1);
                    if k > 0 {
                        o.hit(11);
                    }
                } else {
                    is(format!("gridDiskDistancesUnsafe({h:#x}, 0)"), gridDiskDistancesUnsafe(h, 0), None)?;
                }
                is(format!("cellToChildrenSize({h:#x}, {r})"), cellToChildrenSize(h, r), None)?;
                for (i, e) in originToDirectedEdges(h).iter().enumerate() {
                    if pent && i == 0 {
                        if *e != 0 {
                            return Err(format!("the pentagon {h:#x} has an edge {e:#x} in its deleted direction"));
                        }
                        continue;
                    }
                    is(format!("getDirectedEdgeOrigin({e:#x})"), getDirectedEdgeOrigin(*e), None)?;
                    is(format!("getDirectedEdgeDestination({e:#x})"), getDirectedEdgeDestination(*e), None)?;
                    is(format!("directedEdgeToCells({e:#x})"), directedEdgeToCells(*e), None)?;
                    let n = getDirectedEdgeDestination(*e).unwrap_or(0);
                    is(format!("cellsToDirectedEdge({h:#x}, {n:#x})"), cellsToDirectedEdge(h, n), None)?;
                }
                is(format!("cellsToDirectedEdge({h:#x}, {h:#x})"), cellsToDirectedEdge(h, h), Some(Error::NotNeighbors))?;
                o.calls += 30;
                o.add(0, 30);
            }
            1 => {
                // any index with a base cell number of 122 or more
                let e = h & !(15 << 59) & !(7 << 56) | 2 << 59 | (1 + c.a[1] % 6) << 56;
                is(format!("cellToLatLng({h:#x})"), cellToLatLng(h), Some(Error::CellInvalid))?;
                for d in 0..7 {
                    is(format!("h3NeighborRotations({h:#x}, direction {d})"), step(h, d, 0), Some(Error::CellInvalid))?;
                }
                for k in 1..4 {
                    is(format!("gridDiskDistances({h:#x}, {k})"), gridDiskDistances(h, k), Some(Error::CellInvalid))?;
                    is(format!("gridDiskDistancesUnsafe({h:#x}, {k})"), gridDiskDistancesUnsafe(h, k), Some(Error::CellInvalid))?;
                    is(format!("gridRingUnsafe({h:#x}, {k})"), gridRingUnsafe(h, k), Some(Error::CellInvalid))?;
                }
                is(format!("cellsToDirectedEdge({h:#x}, {:#x})", c.a[2]), cellsToDirectedEdge(h, c.a[2]), Some(Error::NotNeighbors))?;
                is(format!("getDirectedEdgeDestination({e:#x})"), getDirectedEdgeDestination(e), Some(Error::CellInvalid))?;
                is(format!("directedEdgeToCells({e:#x})"), directedEdgeToCells(e), Some(Error::CellInvalid))?;
                for x in [h, e] {
                    if isValidCell(x) || isValidDirectedEdge(x) || isPentagon(x) {
                        return Err(format!("{x:#x} has no such base cell, but passes for valid or a pentagon"));
                    }
                }
                o.calls += 25;
                o.hit(2);
            }
            2 => {
                for d in 0..7 {
                    is(format!("h3NeighborRotations({h:#x}, direction {d})"), step(h, d, 0), Some(Error::CellInvalid))?;
                }
                is(format!("gridRingUnsafe({h:#x}, 1)"), gridRingUnsafe(h, 1), Some(Error::CellInvalid))?;
                is(format!("gridDiskDistances({h:#x}, 1)"), gridDiskDistances(h, 1), Some(Error::CellInvalid))?;
                is(format!("gridDiskDistancesUnsafe({h:#x}, 1)"), gridDiskDistancesUnsafe(h, 1), Some(Error::CellInvalid))?;
                if isValidCell(h) {
                    return Err(format!("{h:#x} has digit 7 at its own resolution, but passes for valid"));
                }
                o.calls += 11;
                o.hit(3);
            }
            3 => {
                let cell = Cell::parse(h).ok_or("harness: not a cell")?;
                let (r, pos) = (c.a[1] as i64 as i32, c.a[2] as i64);
                let n = (cell.res as i32..16).contains(&r).then(|| {
                    let p = 7i64.pow((r - cell.res as i32) as u32);
                    if cell.is_pentagon() { 1 + 5 * (p - 1) / 6 } else { p }
                });
                let size = if n.is_none() { Some(Error::ResDomain) } else { None };
                let domain = n.filter(|n| !(0..*n).contains(&pos)).map(|_| Error::Domain);
                is(format!("cellToChildrenSize({h:#x}, {r})"), cellToChildrenSize(h, r), size)?;
                let refused = match n {
                    None => Some(Error::ResDomain),
                    Some(_) => domain,
                };
                is(format!("validateChildPos({pos}, {h:#x}, {r})"), validateChildPos(pos, h, r), refused)?;
                let refused = match n {
                    None if (0..16).contains(&r) => Some(Error::ResMismatch),
                    None => Some(Error::ResDomain),
                    Some(n) => Some(Error::Domain).filter(|_| !(0..n).contains(&pos)),
                };
                o.hit(if n.is_none() { 6 } else if refused.is_some() { 5 } else { 4 });
                is(format!("childPosToCell({pos}, {h:#x}, {r})"), childPosToCell(pos, h, r), refused)?;
                o.calls += 3;
            }
            4 => {
                let g = LatLng { lat: b2f(h), lng: b2f(c.a[1]) };
                let r = c.a[2] as i64 as i32;
                let want = if !(0..16).contains(&r) {
                    Some(Error::ResDomain)
                } else if !g.lat.is_finite() || !g.lng.is_finite() {
                    Some(Error::LatLngDomain)
                } else {
                    None
                };
                o.hit(if want.is_some() { 8 } else { 7 });
                is(format!("latLngToCell(({:?}, {:?}), {r})", g.lat, g.lng), latLngToCell(&g, r), want)?;
                o.calls += 1;
            }
            _ => {
                // any word: the mode decides whether it is an edge at all
                let edge = h >> 59 & 15 == 2;
                let d = h >> 56 & 7;
                let want = || Some(Error::DirectedEdgeInvalid).filter(|_| !edge);
                is(format!("getDirectedEdgeOrigin({h:#x})"), getDirectedEdgeOrigin(h), want())?;
                if !edge {
                    is(format!("getDirectedEdgeDestination({h:#x})"), getDirectedEdgeDestination(h), want())?;
                    is(format!("directedEdgeToCells({h:#x})"), directedEdgeToCells(h), want())?;
                    o.hit(10);
                } else if d == 7 {
                    if getDirectedEdgeDestination(h).is_ok() || directedEdgeToCells(h).is_ok() {
                        return Err(format!("{h:#x} names no direction, but leads somewhere"));
                    }
                    o.hit(10);
                } else {
                    o.hit(9);
                }
                o.calls += 3;
            }
        }
        if o.want_note {
            o.note = "answered or refused as it should be".into();
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(1400, 8192) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i < 16 {
            // every pentagon of one resolution, and every base cell number there
            let r = i;
            for p in PENTS {
                for k in 0..4 {
                    for rot in 0..6 {
                        for cr in r..16 {
                            ex.case(0, &[Cell::new(p, r).pack(), k, cr as u64, rot]);
                        }
                    }
                }
            }
            for b in 0..122 {
                for rot in 0..6 {
                    ex.case(0, &[Cell::new(b, r).pack(), 1, 15, rot]);
                }
            }
            for b in 122..128u64 {
                for mode in 0..32u64 {
                    let t = ex.rng.next() & ((1 << 45) - 1);
                    let h = mode << 59 | (r as u64) << 52 | b << 45 | if ex.rng.chance(1, 2) { t & !(0x1249249249249 & ((1 << 45) - 1)) } else { 0 };
                    let h = good_digits(h);
                    let w = ex.rng.next();
                    ex.case(1, &[h, w, w]);
                }
            }
        }
        if i == 16 {
            for d in dictionary() {
                if let Some(c) = Cell::parse(*d) {
                    ex.case(0, &[*d, 1, 15, 0]);
                    let _ = c;
                }
                ex.case(5, &[*d]);
            }
        }
        for _ in 0..1500 {
            let c = any_cell(&mut ex.rng);
            let c = if ex.rng.chance(1, 8) { Cell::new(ex.rng.pick(&PENTS), c.res as usize) } else { c };
            let h = c.pack();
            let k = if ex.rng.chance(1, 20) { ex.rng.below(7) } else { ex.rng.below(4) };
            let r = c.res as u64 + ex.rng.below(16 - c.res as u64);
            let rot = ex.rng.below(6);
            ex.case(0, &[h, k, r, rot]);

            let b = 122 + ex.rng.below(6);
            let w = ex.rng.next();
            let x = good_digits(h & !(127 << 45) | b << 45);
            ex.case(1, &[x, w, h]);
            if c.res > 0 {
                ex.case(2, &[h | 7 << (3 * (15 - c.res as u64))]);
            }
            for _ in 0..4 {
                let r = match ex.rng.below(10) {
                    0 => ex.rng.next() as i32 as i64,
                    1 => -1,
                    2 => 16,
                    3 => ex.rng.pick(&[i32::MIN, i32::MAX, 255, 256, 257, 271, -240]) as i64,
                    _ => ex.rng.below(16) as i64,
                };
                let n = 7u64.pow((r - c.res as i64).clamp(0, 15) as u32);
                let m = 1 + 5 * (n - 1) / 6;
                let pos = match ex.rng.below(7) {
                    0 => n.wrapping_add(ex.rng.below(5)).wrapping_sub(2),
                    1 => m.wrapping_add(ex.rng.below(5)).wrapping_sub(2),
                    2 => ex.rng.next(),
                    3 => (-1i64 - ex.rng.below(9) as i64) as u64,
                    4 => ex.rng.pick(&[i64::MIN, i64::MAX, 1 << 32, -(1 << 32)]) as u64 + ex.rng.below(3),
                    _ => ex.rng.below(n),
                };
                ex.case(3, &[h, r as u64, pos]);
                let p = any_point(&mut ex.rng, 15);
                let mut g = [f2b(p.0), f2b(p.1)];
                let j = ex.rng.below(2) as usize;
                match ex.rng.below(6) {
                    0 => g[j] = f2b(ex.rng.pick(&[f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY])),
                    1 => g[j] = 0x7ff << 52 | ex.rng.next() >> 12 | ex.rng.below(2) << 63,
                    2 => g[j] = f2b(ex.rng.sym() * f64::MAX),
                    3 => g[j] = ex.rng.next(),
                    _ => {}
                }
                ex.case(4, &[g[0], g[1], r as u64]);
            }
            let w = hostile(&mut ex.rng);
            ex.case(5, &[w]);
            let w = h ^ 3 << 59 | ex.rng.below(8) << 56;
            ex.case(5, &[w]);
        }
    }
    fn exhaustive_note(&self) -> &'static str {
        "all pentagons with all child resolutions and rotations; all base cells and base cell numbers without a cell at all resolutions"
    }
}
/// digits 0 to 6 up to the resolution
fn good_digits(mut h: u64) -> u64 {
    for q in 1..=(h >> 52 & 15) {
        if h >> (3 * (15 - q)) & 7 == 7 {
            h &= !(1 << (3 * (15 - q)));
        }
    }
    h
}
fn main() {
    h3mon::mon::main(C)
}
