//! C37: the grid has the rotations of the icosahedron; no place is special.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::algos::{gridDiskDistances, gridDiskDistancesUnsafe, gridRingUnsafe};
use h3_rs::base_cells::getRes0Cells;
use h3_rs::directed_edge::{getDirectedEdgeDestination, originToDirectedEdges};
use h3_rs::h3_index::{cellToChildren, cellToLatLng, isPentagon, latLngToCell};
use h3_rs::lat_lng::LatLng;
use std::collections::HashMap;
use std::sync::OnceLock;

type M = [V3; 3];
fn apply(m: &M, v: &V3) -> V3 {
    unit([dot(&m[0], v), dot(&m[1], v), dot(&m[2], v)])
}
/// the 60 rotations that carry the centres of the base pentagons to themselves,
/// and the 60 reflections
fn turns() -> Result<&'static Vec<M>, String> {
    static T: OnceLock<Result<Vec<M>, String>> = OnceLock::new();
    T.get_or_init(|| {
        let cells = getRes0Cells().map_err(|e| format!("no base cells: {e:?}"))?;
        let p: Vec<V3> = cells.iter().filter(|h| isPentagon(**h)).map(|h| centre(*h)).collect::<Result<_, _>>()?;
        if p.len() != 12 {
            return Err(format!("{} base cells are pentagons, not 12", p.len()));
        }
        let frame = |a: &V3, b: &V3| -> M {
            let y = unit(cross(a, b));
            let x = cross(&y, a);
            [x, y, *a]
        };
        let near = 1.0 / 5f64.sqrt();
        let first = p.iter().find(|b| (dot(&p[0], b) - near).abs() < 1e-9).ok_or("the pentagons are no icosahedron")?;
        let from = frame(&p[0], first);
        let mut all = vec![];
        for a in &p {
            for b in &p {
                if (dot(a, b) - near).abs() < 1e-12 {
                    let to = frame(a, b);
                    // to^T from
                    let m: M = [0, 1, 2].map(|i| [0, 1, 2].map(|j| (0..3).map(|k| to[k][i] * from[k][j]).sum()));
                    for v in &p {
                        let w = apply(&m, v);
                        if p.iter().all(|x| ang(x, &w) > 1e-12) {
                            return Err("a rotation of the base pentagons does not carry them to themselves".into());
                        }
                    }
                    all.push(m);
                }
            }
        }
        if all.len() != 60 {
            return Err(format!("the base pentagons have {} rotations, not 60", all.len()));
        }
        // the opposite of each is a mirror image of it
        for i in 0..60 {
            all.push(all[i].map(|row: V3| row.map(|x| -x)));
        }
        Ok(all)
    })
    .as_ref()
    .map_err(|e| e.clone())
}
/// the grids of odd resolutions are twisted, and have no mirror images
fn pick(all: &[M], i: u64, r: i32) -> (&M, bool) {
    let i = i as usize % if r % 2 == 0 { 120 } else { 60 };
    (&all[i], i >= 60)
}
fn centre(h: u64) -> Result<V3, String> {
    let g = cellToLatLng(h).map_err(|e| format!("{h:#x} has no centre: {e:?}"))?;
    Ok(ll_to_v(g.lat, g.lng))
}
fn encode(v: &V3, r: i32) -> Result<u64, String> {
    let (lat, lng) = v_to_ll(v);
    latLngToCell(&LatLng { lat, lng }, r).map_err(|e| format!("({lat:?}, {lng:?}) does not encode at resolution {r}: {e:?}"))
}
/// latitudes lose precision towards the poles
fn tolerance(v: &V3) -> f64 {
    1e-12 + 2e-15 / v[0].hypot(v[1]).max(1e-9)
}
/// the cell whose centre is that of h, turned
fn turn(h: u64, m: &M) -> Result<u64, String> {
    let v = centre(h)?;
    let w = apply(m, &v);
    let x = encode(&w, (h >> 52 & 15) as i32)?;
    let c = centre(x)?;
    let off = ang(&c, &w);
    if off > tolerance(&v) + tolerance(&w) {
        let (lat, lng) = v_to_ll(&w);
        return Err(format!("the centre of {h:#x} turned is ({lat:?}, {lng:?}), {off:e} rad from the centre of the cell there, {x:#x}"));
    }
    Ok(x)
}
struct C;
impl Check for C {
    const ID: &'static str = "C37";
    const KINDS: &'static [&'static str] = &["cell", "disk", "point"];
    const COUNTERS: &'static [&'static str] = &[
        "cells turned", "pentagons turned", "moved to another base cell", "children turned", "neighbours turned", "disk cells turned", "disks with a pentagon",
        "disks without", "points inside a cell", "points near a border (not judged)",
        "cells reflected", "points reflected",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
    const RULE: &'static str = "the 60 rotations, and for even resolutions the 60 reflections, are computed from the centres of the twelve base pentagons; `cell` (cell, rotation): the turned centre is the centre of a cell, \
        a pentagon exactly when the cell is, with the turned children (not reflected) and neighbours; `disk` (cell, rotation, k): disk, fast disk and ring of the turned cell are those of the cell turned, \
        distances included; `point` (point, resolution, rotation): unless within 2% of a border, the turned point is in the turned cell; non-trivial when the base cell changes";
    const ASSUMPTIONS: &'static [&'static str] = &["fallback disks are asked for with k up to 14"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let all = turns()?;
        match c.kind {
            0 | 1 => {
                let h = c.a[0];
                let r = (h >> 52 & 15) as i32;
                let (m, mirror) = pick(all, c.a[1], r);
                if mirror {
                    o.hit(10);
                }
                let x = turn(h, m)?;
                o.calls += 5;
                o.hit(0);
                o.nontrivial = (x ^ h) >> 45 & 127 != 0;
                if o.nontrivial {
                    o.hit(2);
                }
                if isPentagon(h) != isPentagon(x) {
                    return Err(format!("{h:#x} is turned into {x:#x}, but only one of them is a pentagon"));
                }
                if isPentagon(h) {
                    o.hit(1);
                }
                if c.kind == 0 {
                    let ends = |h: u64| -> Result<Vec<u64>, String> {
                        originToDirectedEdges(h)
                            .into_iter()
                            .filter(|e| *e != 0)
                            .map(|e| getDirectedEdgeDestination(e).map_err(|x| format!("edge {e:#x} of {h:#x} has no destination: {x:?}")))
                            .collect()
                    };
                    let mut a = ends(h)?.into_iter().map(|y| turn(y, m)).collect::<Result<Vec<_>, _>>()?;
                    let mut b = ends(x)?;
                    a.sort();
                    b.sort();
                    o.calls += 20;
                    o.add(4, a.len() as u64);
                    if a != b {
                        return Err(format!("{h:#x} is turned into {x:#x}, but its neighbours into {a:x?}, not {b:x?}"));
                    }
                    if r < 15 && !mirror {
                        let kids = |h| cellToChildren(h, r + 1).map_err(|e| format!("no children of {h:#x}: {e:?}"));
                        let mut a = kids(h)?.into_iter().map(|y| turn(y, m)).collect::<Result<Vec<_>, _>>()?;
                        let mut b = kids(x)?;
                        a.sort();
                        b.sort();
                        o.calls += 16;
                        o.add(3, a.len() as u64);
                        if a != b {
                            return Err(format!("{h:#x} is turned into {x:#x}, but its children into {a:x?}, not {b:x?}"));
                        }
                    }
                    if o.want_note {
                        o.note = format!("turned into {x:#x}");
                    }
                    return Ok(());
                }
                let k = c.a[2] as u32;
                o.calls += 4;
                let disk = |h| gridDiskDistances(h, k).map_err(|e| format!("no disk of {h:#x}, k = {k}: {e:?}"));
                let a = disk(h)?;
                let b: HashMap<u64, u32> = disk(x)?.into_iter().collect();
                if a.len() != b.len() {
                    return Err(format!("k = {k}: {h:#x} is turned into {x:#x}, whose disk has {} cells, not {}", b.len(), a.len()));
                }
                let mut map = HashMap::new();
                for (y, d) in &a {
                    let z = turn(*y, m)?;
                    o.calls += 2;
                    o.hit(5);
                    if b.get(&z) != Some(d) {
                        return Err(format!("{h:#x} is turned into {x:#x} and {y:#x}, at distance {d}, into {z:#x}, at distance {:?}", b.get(&z)));
                    }
                    map.insert(*y, z);
                }
                let f = gridDiskDistancesUnsafe(h, k);
                let g = gridDiskDistancesUnsafe(x, k);
                o.hit(if f.is_err() { 6 } else { 7 });
                match (&f, &g) {
                    (Ok(p), Ok(q)) if p.len() == q.len() => {
                        let q: HashMap<u64, u32> = q.iter().copied().collect();
                        for (y, d) in p {
                            if map.get(y).map(|z| q.get(z)) != Some(Some(d)) {
                                return Err(format!("{h:#x} is turned into {x:#x}, but its fast disk of k = {k} is not, from {y:#x}"));
                            }
                        }
                        let (Ok(p), Ok(q)) = (gridRingUnsafe(h, k), gridRingUnsafe(x, k)) else {
                            return Err(format!("no ring of {h:#x} or {x:#x}, k = {k}, away from pentagons"));
                        };
                        o.calls += 2;
                        let mut p: Vec<u64> = p.iter().map(|y| map.get(y).copied().unwrap_or(0)).collect();
                        let mut q = q;
                        p.sort();
                        q.sort();
                        if p != q {
                            return Err(format!("{h:#x} is turned into {x:#x}, but its ring of k = {k} is not"));
                        }
                    }
                    (Err(p), Err(q)) if p == q => {}
                    _ => return Err(format!("{h:#x} is turned into {x:#x}; the fast disk of k = {k} has {:?} and {:?} cells", f.map(|v| v.len()), g.map(|v| v.len()))),
                }
            }
            _ => {
                let v = ll_to_v(b2f(c.a[0]), b2f(c.a[1]));
                let r = c.a[2] as i32;
                let (m, mirror) = pick(all, c.a[3], r);
                let h = encode(&v, r)?;
                let s = 0.02 * U0 / 7f64.powf(r as f64 / 2.0);
                let side = if v[2].abs() < 0.9 { [0.0, 0.0, 1.0] } else { [1.0, 0.0, 0.0] };
                let e = unit(cross(&side, &v));
                let f = cross(&v, &e);
                o.calls += 7;
                for i in 0..6 {
                    let t = i as f64 * std::f64::consts::FRAC_PI_3;
                    let w = unit([0, 1, 2].map(|j| v[j] + s * (e[j] * t.cos() + f[j] * t.sin())));
                    if encode(&w, r)? != h {
                        o.hit(9);
                        return Ok(());
                    }
                }
                let x = turn(h, m)?;
                let w = apply(m, &v);
                let y = encode(&w, r)?;
                o.calls += 4;
                o.hit(8);
                if mirror {
                    o.hit(11);
                }
                o.nontrivial = (x ^ h) >> 45 & 127 != 0;
                if x != y {
                    let (a, b) = v_to_ll(&v);
                    let (p, q) = v_to_ll(&w);
                    return Err(format!("({a:?}, {b:?}) is in {h:#x}, which is turned into {x:#x}; the turned point ({p:?}, {q:?}) is in {y:#x}"));
                }
            }
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 + t.n(1400, 14000) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i < 122 {
            // every coarse cell, each with several of the rotations
            for r in 0..=3usize {
                for_cells(i as u8, r, |c| {
                    for _ in 0..[60, 20, 4, 1][r] {
                        let t = ex.rng.below(120);
                        ex.case(0, &[c.pack(), t]);
                    }
                    if r < 3 || ex.rng.chance(1, 8) {
                        let (t, k) = (ex.rng.below(120), 1 + ex.rng.below([3, 6, 6, 8][r]));
                        ex.case(1, &[c.pack(), t, k]);
                    }
                });
            }
            return;
        }
        for _ in 0..150 {
            let c = any_cell(&mut ex.rng);
            let t = ex.rng.below(120);
            ex.case(0, &[c.pack(), t]);
        }
        for _ in 0..12 {
            let c = any_cell(&mut ex.rng);
            let (t, k) = (ex.rng.below(120), ex.rng.below(5) + if ex.rng.chance(1, 6) { ex.rng.below(10) } else { 0 });
            ex.case(1, &[c.pack(), t, k]);
        }
        for _ in 0..600 {
            let r = any_res(&mut ex.rng);
            let (a, b) = any_point(&mut ex.rng, r);
            let t = ex.rng.below(120);
            ex.case(2, &[f2b(a), f2b(b), r as u64, t]);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
