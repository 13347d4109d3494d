//! C19: every function returns, with a value or an error, on every input.
use h3mon::gen::*;
use h3mon::mon::*;
use h3_rs::algos::*;
use h3_rs::base_cells::{_baseCellIsCwOffset, _faceIjkToBaseCell, _faceIjkToBaseCellCCWrot60, _isBaseCellPentagon, _isBaseCellPolarPentagon};
use h3_rs::directed_edge::*;
use h3_rs::error::Error;
use h3_rs::h3_index::*;
use h3_rs::iterators::IterCellsChildren;
use h3_rs::lat_lng::*;
use h3_rs::vec2d::{_v2dMag, Vec2d};
use h3_rs::vec3d::{_geoToVec3d, _pointSquareDist, Vec3d};

struct C;
/// a child list longer than this would only be a test of memory
const MAX_GAP: i32 = 5;

impl Check for C {
    const ID: &'static str = "C19";
    const KINDS: &'static [&'static str] = &["index", "children", "childpos", "encode", "disk", "ring", "neighbour", "pair", "digits", "geo", "ints", "any k", "fields", "address"];
    const COUNTERS: &'static [&'static str] = &[
        "centre: value", "centre: error", "children: some", "children: none", "child position: value", "child position: error", "encode: value",
        "encode: error", "disk: value", "disk: error", "fast disk: value", "fast disk: error", "ring: value", "ring: error", "neighbour: value",
        "neighbour: error", "edge: value", "edge: error", "inputs that are not cells", "inputs with no such base cell", "inputs with a digit 7 inside",
        "non-finite numbers", "searches of any k answered", "searches of any k refused",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23];
    const RULE: &'static str = "each kind calls a group of public functions with arbitrary arguments (nearly valid and random 64-bit values, extreme and random \
        integers, every class of floating-point number) in a build that traps arithmetic overflow, out-of-range shifts and indexing; the monitor requires \
        that each call returns (no panic, no abort, no stall), that an index with an impossible base cell has no centre and no neighbours, and that lists \
        never exceed the size promised for them; non-trivial when some argument is not what an ordinary caller passes";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "results must fit in memory: disks of fine cells are asked for with k up to 8 and children for gaps up to 5; of coarse cells, and rings, with any k",
        "functions that take the number of a digit are given 0 to 15 (builders: up to 15), the digit-range mask ranges within these",
        "face addresses, whose type has no name outside the crate, are those the crate gives for any index, and the places around every face",
    ];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        let nobase = h >> 45 & 127 >= 122;
        if !matches!(c.kind, 3 | 9 | 10) && h3mon::refmodel::Cell::parse(h).is_none() {
            o.nontrivial = true;
            o.hit(18);
            if nobase {
                o.hit(19);
            }
            let r = h >> 52 & 15;
            if (1..=r).any(|q| h >> (3 * (15 - q)) & 7 == 7) {
                o.hit(20);
            }
        }
        match c.kind {
            0 => {
                o.calls += 15;
                let _ = (isValidCell(h), getResolution(h), isPentagon(h), _h3LeadingNonZeroDigit(h) as i32);
                let _ = (_h3Rotate60ccw(h), _h3Rotate60cw(h), _h3RotatePent60ccw(h), _h3RotatePent60cw(h));
                match cellToLatLng(h) {
                    Ok(g) => {
                        if nobase {
                            return Err(format!("{h:#x} has no such base cell, but a centre: {}, {}", g.lat, g.lng));
                        }
                        o.hit(0);
                    }
                    Err(_) => o.hit(1),
                }
                let _ = (isValidDirectedEdge(h), originToDirectedEdges(h), getDirectedEdgeOrigin(h));
                let a = getDirectedEdgeDestination(h);
                let b = directedEdgeToCells(h);
                if nobase && (a.is_ok() || b.is_ok()) {
                    return Err(format!("{h:#x} has no such base cell, but an edge destination: {a:x?} {b:x?}"));
                }
                o.hit(if a.is_ok() { 16 } else { 17 });
            }
            1 => {
                let r = c.a[1] as i32;
                let p = (h >> 52 & 15) as i32;
                o.calls += 2;
                o.nontrivial |= r < p || r > 15;
                let has = _hasChildAtRes(h, r);
                let size = cellToChildrenSize(h, r);
                if has != (r >= p && r <= 15) || size.is_ok() != has {
                    return Err(format!("{h:#x}, resolution {r}: has children = {has}, number of children {size:?}"));
                }
                if r > 15 || r < p || r - p <= MAX_GAP {
                    o.calls += 1;
                    let v = cellToChildren(h, r).unwrap_or_default();
                    let max = if has { 7usize.pow((r - p) as u32) } else { 0 };
                    if v.len() > max {
                        return Err(format!("{h:#x}, resolution {r}: {} children listed, {max} possible", v.len()));
                    }
                    o.hit(if v.is_empty() { 3 } else { 2 });
                }
                let n = IterCellsChildren::from_parent(h, r).take(3000).count();
                o.calls += 1;
                if !has && n != 0 {
                    return Err(format!("{h:#x}, resolution {r}: {n} children although there can be none"));
                }
            }
            2 => {
                let (r, pos) = (c.a[1] as i32, c.a[2] as i64);
                o.calls += 2;
                o.nontrivial = true;
                let a = validateChildPos(pos, h, r);
                let b = childPosToCell(pos, h, r);
                if a.is_ok() != b.is_ok() {
                    return Err(format!("child {pos} of {h:#x} at {r}: validated as {a:?}, located as {b:x?}"));
                }
                o.hit(if b.is_ok() { 4 } else { 5 });
            }
            3 => {
                let g = LatLng { lat: b2f(c.a[0]), lng: b2f(c.a[1]) };
                let r = c.a[2] as i32;
                o.calls += 1;
                o.nontrivial = true;
                if !g.lat.is_finite() || !g.lng.is_finite() {
                    o.hit(21);
                }
                match latLngToCell(&g, r) {
                    Ok(0) => return Err(format!("{}, {} at {r} encodes to null without an error", g.lat, g.lng)),
                    Ok(_) => o.hit(6),
                    Err(_) => o.hit(7),
                }
            }
            4 => {
                let k = c.a[1] as u32;
                o.calls += 1;
                match gridDiskDistances(h, k) {
                    Ok(v) => {
                        if v.len() > maxGridDiskSize(k) {
                            return Err(format!("the disk of {h:#x}, k = {k}, has {} entries, more than promised", v.len()));
                        }
                        o.hit(8);
                    }
                    Err(_) => o.hit(9),
                }
            }
            5 => {
                let k = c.a[1] as u32;
                o.calls += 2;
                match gridDiskDistancesUnsafe(h, k) {
                    Ok(v) => {
                        if v.len() > maxGridDiskSize(k) {
                            return Err(format!("the fast disk of {h:#x}, k = {k}, has {} entries, more than promised", v.len()));
                        }
                        o.hit(10);
                    }
                    Err(_) => o.hit(11),
                }
                match gridRingUnsafe(h, k) {
                    Ok(v) => {
                        if v.len() > 6 * k.max(1) as usize {
                            return Err(format!("the ring of {h:#x}, k = {k}, has {} entries", v.len()));
                        }
                        o.hit(12);
                    }
                    Err(_) => o.hit(13),
                }
            }
            6 => {
                let mut rot = c.a[2] as i32;
                let r0 = rot;
                let dg = c.a[1] & 7;
                o.calls += 1;
                o.nontrivial |= !(0..6).contains(&rot) || dg == 7 || dg == 0;
                match h3NeighborRotations(h, H3_GET_INDEX_DIGIT(dg, 15), &mut rot) {
                    Ok(x) => {
                        if nobase {
                            return Err(format!("{h:#x} has no such base cell, but a neighbour: {x:#x}"));
                        }
                        if dg == 7 {
                            return Err(format!("{h:#x} has a neighbour in no direction: {x:#x}"));
                        }
                        if r0 >= 0 && !(0..6).contains(&rot) {
                            return Err(format!("the neighbour of {h:#x} after {r0} rotations leaves {rot} rotations"));
                        }
                        o.hit(14);
                    }
                    Err(e) => {
                        if nobase && dg != 7 && e != Error::CellInvalid {
                            return Err(format!("{h:#x} has no such base cell, but the error is {e:?}"));
                        }
                        o.hit(15);
                    }
                }
            }
            7 => {
                o.calls += 2;
                o.nontrivial = true;
                let d = directionForNeighbor(h, c.a[1]) as i32;
                match cellsToDirectedEdge(h, c.a[1]) {
                    Ok(e) => {
                        if nobase || d == 7 {
                            return Err(format!("an edge {e:#x} from {h:#x} to {:#x}, which are no neighbours", c.a[1]));
                        }
                        o.hit(16)
                    }
                    Err(_) => o.hit(17),
                }
            }
            8 => {
                o.calls += 1;
                let (s, e) = (c.a[1] as i32, c.a[2] as i32);
                let x = _zeroIndexDigits(h, s, e);
                let mut w = h;
                for q in s.max(1)..=e {
                    w &= !(7 << (3 * (15 - q)));
                }
                if s >= 1 && x != w {
                    return Err(format!("{h:#x} with digits {s}..={e} cleared is {x:#x}, not {w:#x}"));
                }
            }
            9 => {
                let v: Vec<f64> = c.a[..5].iter().map(|x| b2f(*x)).collect();
                o.calls += 12;
                o.nontrivial = true;
                if v.iter().any(|x| !x.is_finite()) {
                    o.hit(21);
                }
                let p = LatLng { lat: v[0], lng: v[1] };
                let q = LatLng { lat: v[2], lng: v[3] };
                let _ = (constrainLat(v[0]), constrainLng(v[1]), _posAngleRads(v[4]));
                let _ = (geoAlmostEqual(&p, &q), geoAlmostEqualThreshold(&p, &q, v[4]));
                let _ = (_geoAzimuthRads(&p, &q), _geoAzDistanceRads(&p, v[2], v[4]));
                let mut s = LatLng { lat: 0.0, lng: 0.0 };
                setGeoDegs(&mut s, v[0], v[1]);
                _setGeoRads(&mut s, v[2], v[3]);
                let mut a = Vec3d { x: 0.0, y: 0.0, z: 0.0 };
                _geoToVec3d(&p, &mut a);
                let _ = _pointSquareDist(a, Vec3d { x: v[2], y: v[3], z: v[4] });
                let _ = _v2dMag(&Vec2d { x: v[0], y: v[4] });
            }
            11 => {
                let k = c.a[1] as u32;
                o.calls += 1;
                o.nontrivial = true;
                let n = gridRingUnsafe(h, k).ok().map(|v| v.len() as u64);
                o.hit(if n.is_some() { 22 } else { 23 });
                if n.map_or(false, |n| n > 6 * k as u64) {
                    return Err(format!("the ring of {h:#x}, k = {k}, has {n:?} entries"));
                }
                let coarse = c.a[2] == 1 && h3mon::refmodel::Cell::parse(h).map_or(false, |c| c.res < 4);
                if coarse || nobase {
                    o.calls += 2;
                    let n = gridDiskDistances(h, k).ok().map(|v| v.len());
                    o.hit(if n.is_some() { 22 } else { 23 });
                    if n.map_or(false, |n| n > 50_000) {
                        return Err(format!("the disk of {h:#x}, k = {k}, has {n:?} entries, more than there are cells"));
                    }
                    let n = gridDiskDistancesUnsafe(h, k).ok().map(|v| v.len());
                    o.hit(if n.is_some() { 22 } else { 23 });
                }
            }
            12 => {
                // readers and writers of the fields, with values of any size
                let (v, r) = (c.a[1] as i32, c.a[2] as i32);
                o.calls += 16;
                o.nontrivial = true;
                let _ = (H3_GET_HIGH_BIT(h), H3_GET_MODE(h), H3_GET_RESERVED_BITS(h), H3_GET_RESOLUTION(h), H3_GET_BASE_CELL(h));
                for write in [H3_SET_HIGH_BIT, H3_SET_MODE, H3_SET_RESERVED_BITS, H3_SET_RESOLUTION, H3_SET_BASE_CELL] {
                    let mut x = h;
                    write(&mut x, v);
                }
                let mut x = h;
                let digit = r.rem_euclid(16);
                let _ = H3_GET_INDEX_DIGIT(h, digit) as i32;
                H3_SET_INDEX_DIGIT(&mut x, digit, v);
                setH3Index(&mut x, r.min(15), v, c.a[3] as i32);
                let mut it = IterCellsChildren::from_parent(h, r);
                let _ = it._getResDigit(digit) as i32;
                it._incrementResDigit(digit);
                let _ = it.take(3).count();
                let _ = IterCellsChildren::_null_iter().next();
                let (base, face) = (v, r);
                if _baseCellIsCwOffset(base, face) && !(0..122).contains(&base) {
                    return Err(format!("base cell {base} is said to be turned clockwise from face {face}"));
                }
            }
            13 => {
                // addresses of any index, at any resolution
                let r = c.a[1] as i32;
                o.calls += 4;
                o.nontrivial = true;
                match _h3ToFaceIjk(h) {
                    Ok(f) => {
                        if nobase {
                            return Err(format!("{h:#x} has no such base cell, but an address on face {}", f.face));
                        }
                        let _ = _faceIjkToH3(&f, r);
                    }
                    Err(_) => {}
                }
                // every place around a face
                let base = c.a[2] % 122;
                let mut f = _h3ToFaceIjk(1 << 59 | base << 45 | ((1 << 45) - 1)).map_err(|e| format!("base cell {base} has no address: {e:?}"))?;
                let mut g = f;
                let _ = _h3ToFaceIjkWithInitializedFijk(h, &mut g);
                f.face = (c.a[2] / 122 % 20) as i32;
                f.coord.i = (c.a[2] / 2440 % 3) as i32;
                f.coord.j = (c.a[2] / 7320 % 3) as i32;
                f.coord.k = (c.a[2] / 21960 % 3) as i32;
                let _ = (_faceIjkToBaseCell(&f), _faceIjkToBaseCellCCWrot60(&f), _faceIjkToH3(&f, r));
            }
            _ => {
                let n = c.a[0];
                o.calls += 4;
                o.nontrivial = true;
                let _ = (isResolutionClassIII(n as i32), maxGridDiskSize(n as u32));
                let b = n as i32;
                if _isBaseCellPentagon(b) != (0..122).contains(&b) & PENTS.contains(&(b as u8)) || _isBaseCellPolarPentagon(b) != (b == 4 || b == 117) {
                    return Err(format!("base cell {b} is taken for a pentagon, or a pentagon is not"));
                }
            }
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(2048, 16384) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let int = |rng: &mut Rng| -> u64 {
            let d = dictionary();
            (match rng.below(6) {
                0 => rng.range(-2, 20),
                1 => rng.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, -1, 16, 15, 0]) as i64,
                2 => 1 << rng.below(31),
                3 if !d.is_empty() => rng.pick(d) as i64,
                _ => rng.next() as i32 as i64,
            }) as u64
        };
        let float = |rng: &mut Rng| -> u64 {
            f2b(match rng.below(10) {
                0 => rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, -f64::NAN]),
                1 => rng.pick(&[0.0, -0.0, 1.0, -1.0, 1.5707963267948966, 3.141592653589793, 6.283185307179586, -3.141592653589793]),
                2 => 10f64.powf(rng.sym() * 308.0) * rng.pick(&[1.0, -1.0]),
                3 => f64::from_bits(rng.next()),
                4 => rng.sym() * 1e16,
                5 => rng.sym() * 1e9,
                6 => (rng.below(9) as f64 - 4.0) * std::f64::consts::FRAC_PI_2 + rng.sym() * 10f64.powf(-rng.unit() * 17.0),
                _ => rng.sym() * 7.0,
            })
        };
        if i == 0 {
            for x in dictionary() {
                ex.case(0, &[*x]);
                for a in [0, 3, 8, 15] {
                    ex.case(1, &[*x, a]);
                    ex.case(4, &[*x, a % 4]);
                    ex.case(5, &[*x, a % 4]);
                }
                for d in 0..8 {
                    ex.case(6, &[*x, d, 0]);
                }
                ex.case(10, &[*x]);
                ex.case(10, &[x.wrapping_neg()]);
            }
            for n in -300i64..300 {
                ex.case(10, &[n as u64]);
            }
            return;
        }
        if i == 1 {
            // every header over random digits and over all-ones
            for top in 0..1u64 << 12 {
                for bc in 0..128u64 {
                    let t = ex.rng.next() & ((1 << 45) - 1);
                    let h = top << 52 | bc << 45;
                    ex.case(0, &[h | t]);
                    ex.case(0, &[h | (1 << 45) - 1]);
                    ex.case(7, &[h | t, h]);
                }
            }
            return;
        }
        for _ in 0..2500 {
            let h = hostile(&mut ex.rng);
            let res = (h >> 52 & 15) as i64;
            ex.case(0, &[h]);
            let r = int(&mut ex.rng);
            let r2 = if ex.rng.chance(1, 2) { (res as u64) + ex.rng.below(4) } else { r };
            // long lists of children only now and then
            if (r2 as i32 as i64) - res < 4 || ex.rng.chance(1, 40) {
                ex.case(1, &[h, r2]);
            }
            let pos = match ex.rng.below(6) {
                0 => ex.rng.next(),
                1 => ex.rng.below(8).wrapping_sub(1),
                2 => 7u64.pow(ex.rng.below(16) as u32).wrapping_sub(ex.rng.below(3)),
                3 => 1 << ex.rng.below(64),
                4 => i64::MIN as u64,
                _ => ex.rng.below(5_000_000_000_000),
            };
            let rr = if ex.rng.chance(1, 3) { r } else { ex.rng.below(17) };
            ex.case(2, &[h, rr, pos]);
            let (a, b, c, d, e) = (float(&mut ex.rng), float(&mut ex.rng), float(&mut ex.rng), float(&mut ex.rng), float(&mut ex.rng));
            let r3 = if ex.rng.chance(3, 4) { ex.rng.below(16) } else { r };
            ex.case(3, &[a, b, r3]);
            ex.case(9, &[a, b, c, d, e]);
            let k = ex.rng.below(3) + if ex.rng.chance(1, 30) { ex.rng.below(7) } else { 0 };
            ex.case(4, &[h, k]);
            let k = ex.rng.below(4) + if ex.rng.chance(1, 10) { ex.rng.below(6) } else { 0 };
            ex.case(5, &[h, k]);
            // so large that a ring of it is refused at once, wherever the cell is
            let k = any_large(&mut ex.rng) | if h >> 52 & 15 > 4 { 1 << 31 } else { 0 };
            ex.case(11, &[h, k, 0]);
            if ex.rng.chance(1, 1000) {
                let r = ex.rng.below(3) as usize;
                let c = any_cell_at(&mut ex.rng, r);
                ex.case(11, &[c.pack(), k, 1]);
            }
            let rot = if ex.rng.chance(1, 2) { ex.rng.below(7) } else { int(&mut ex.rng) };
            for d in 0..8 {
                ex.case(6, &[h, d, rot]);
            }
            let h2 = hostile(&mut ex.rng);
            let h2 = if ex.rng.chance(1, 2) { h } else { h2 };
            ex.case(7, &[h, h2]);
            let (s, e) = (ex.rng.below(16), ex.rng.below(16));
            ex.case(8, &[h, s, e]);
            let n = int(&mut ex.rng);
            ex.case(10, &[n]);
            let (v, r, n) = (int(&mut ex.rng), int(&mut ex.rng), int(&mut ex.rng));
            ex.case(12, &[h, v, r, n]);
            let (r, n) = (ex.rng.below(16), ex.rng.next());
            ex.case(13, &[h, r, n]);
        }
    }
    fn exhaustive_note(&self) -> &'static str {
        "all 2^19 header values, with random and with all-ones digits"
    }
}
fn main() {
    h3mon::mon::main(C)
}
