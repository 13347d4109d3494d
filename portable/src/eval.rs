// One call into the library, as numbers; shared by the worker and by the check.
use h3_rs::algos::*;
use h3_rs::base_cells::*;
use h3_rs::directed_edge::*;
use h3_rs::h3_index::*;
use h3_rs::iterators::IterCellsChildren;
use h3_rs::lat_lng::*;

pub const NOPS: u64 = 14;

fn mix(x: u64) -> u64 {
    let x = (x ^ x >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
    let x = (x ^ x >> 27).wrapping_mul(0x94d049bb133111eb);
    x ^ x >> 31
}
fn all(v: impl IntoIterator<Item = u64>) -> u64 {
    v.into_iter().fold(0x9e3779b97f4a7c15, |a, x| mix(a.rotate_left(7) ^ mix(x)))
}
fn err<E: std::fmt::Debug>(e: E) -> u64 {
    all(format!("{e:?}").bytes().map(|b| b as u64))
}
fn res<T>(r: Result<T, h3_rs::error::Error>, f: impl FnOnce(T) -> u64) -> u64 {
    match r {
        Ok(x) => f(x),
        Err(e) => err(e),
    }
}
fn f(x: u64) -> f64 {
    f64::from_bits(x)
}
fn cells(v: Vec<(u64, u32)>) -> u64 {
    all(v.into_iter().map(|x| x.0 ^ (x.1 as u64) << 57))
}

/// The results of a call on a machine whose usize ends at `max`. The first
/// `.1` of them are floating-point numbers.
pub fn eval(op: u64, a: u64, b: u64, c: u64, max: u64) -> (Vec<u64>, usize) {
    match op {
        0 => match cellToLatLng(a) {
            Ok(g) => (vec![g.lat.to_bits(), g.lng.to_bits()], 2),
            Err(e) => (vec![err(e)], 0),
        },
        1 => (vec![res(latLngToCell(&LatLng { lat: f(a), lng: f(b) }, c as i32), |h| h)], 0),
        2 => (
            vec![
                isValidCell(a) as u64 | (isPentagon(a) as u64) << 1 | (isValidDirectedEdge(a) as u64) << 2,
                getResolution(a) as u64,
                _h3LeadingNonZeroDigit(a) as u64,
                H3_GET_BASE_CELL(a) as u64,
                (H3_GET_MODE(a) | H3_GET_RESERVED_BITS(a) << 8 | H3_GET_HIGH_BIT(a) << 16) as u64,
            ],
            0,
        ),
        3 => (vec![res(cellToChildren(a, b as i32), all)], 0),
        4 => (vec![res(cellToChildrenSize(a, b as i32), |n| n as u64), res(childPosToCell(c as i64, a, b as i32), |n| n)], 0),
        5 => (
            vec![res(gridDiskDistances(a, b as u32), |mut v| {
                // in no particular order
                v.sort();
                cells(v)
            })],
            0,
        ),
        6 => (vec![res(gridDiskDistancesUnsafe(a, b as u32), cells)], 0),
        7 => (vec![res(gridRingUnsafe(a, b as u32), all)], 0),
        8 => {
            let mut r = c as i32;
            let x = res(h3NeighborRotations(a, H3_GET_INDEX_DIGIT(b, 15), &mut r), |h| h);
            (vec![x, r as u64, directionForNeighbor(a, x) as u64], 0)
        }
        9 => (
            vec![
                res(cellsToDirectedEdge(a, b), |e| e),
                res(getDirectedEdgeOrigin(c), |e| e),
                res(directedEdgeToCells(c), |e| all([e.0, e.1])),
                all(originToDirectedEdges(a)),
            ],
            0,
        ),
        10 => (
            vec![
                (maxGridDiskSize(a as u32) as u64).min(max),
                res0CellCount() as u64,
                res(getRes0Cells(), all),
                all(IterCellsChildren::from_parent(b, c as i32).take(60)),
            ],
            0,
        ),
        11 => {
            let mut h = a;
            setH3Index(&mut h, (b % 16) as i32, (b >> 8 & 127) as i32, (b >> 16 & 7) as i32);
            H3_SET_INDEX_DIGIT(&mut h, 1 + (c % 15) as i32, (c >> 8 & 7) as i32);
            (vec![_h3Rotate60ccw(a), _h3Rotate60cw(a), _h3RotatePent60ccw(a), _h3RotatePent60cw(a), _zeroIndexDigits(a, 1 + (b % 15) as i32, 15), h], 0)
        }
        12 => (
            vec![
                res(_h3ToFaceIjk(a), |x| all([x.face as u64, x.coord.i as u64, x.coord.j as u64, x.coord.k as u64])),
                res(_h3ToFaceIjk(a), |x| _faceIjkToH3(&x, getResolution(a))),
                _isBaseCellPentagon(b as i32) as u64 | (_isBaseCellPolarPentagon(b as i32) as u64) << 1 | (_baseCellIsCwOffset(b as i32, c as i32) as u64) << 2,
            ],
            0,
        ),
        _ => {
            let p = LatLng { lat: f(a), lng: f(b) };
            let g = _geoAzDistanceRads(&p, f(c), p.lat.abs());
            (
                vec![
                    constrainLat(p.lat).to_bits(),
                    constrainLng(p.lng).to_bits(),
                    g.lat.to_bits(),
                    g.lng.to_bits(),
                    _geoAzimuthRads(&p, &LatLng { lat: f(c), lng: p.lat }).to_bits(),
                    _posAngleRads(f(c)).to_bits(),
                    geoAlmostEqual(&p, &LatLng { lat: p.lat, lng: f(c) }) as u64,
                ],
                6,
            )
        }
    }
}
