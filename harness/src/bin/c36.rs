//! C36: a disk covers the ground around its origin, and reaches no farther than its steps.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::algos::*;
use h3_rs::h3_index::*;
use h3_rs::lat_lng::LatLng;
use std::collections::HashSet;

/// the projection shrinks lengths by no more than this, at the corners of a face
const SHRINK: f64 = 0.6314;
/// radius that a disk of k covers, in cell spacings
fn covered(k: u32) -> f64 {
    SHRINK * ((k as f64 - 1.0) * 3f64.sqrt() / 2.0 - 1.0 / 3f64.sqrt())
}
struct C;
impl Check for C {
    const ID: &'static str = "C36";
    const KINDS: &'static [&'static str] = &["disk", "ring"];
    const COUNTERS: &'static [&'static str] = &[
        "points looked up", "points within a spacing of the limit", "cells whose distance is compared", "disks with a pentagon", "disks over several faces", "cells of rings",
        "points on the other side of a pole or the antimeridian",
        "rings of more than 1000", "rings of 65,536 and more",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];
    const RULE: &'static str = "`disk` (cell, k, choice of points): points within 0.63 (0.866 (k - 1) - 0.577) cell spacings of the origin's centre encode to cells of the disk; the centre of every \
        cell at distance d is within d spacings of the origin's centre; `ring`: the same bounds for the cells of a ring; non-trivial when k > 1";
    const ASSUMPTIONS: &'static [&'static str] = &["the bounds follow from the gnomonic projection, which stretches lengths by 1 to 1/0.6314, and the hexagonal grid"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let (h, k, w) = (c.a[0], c.a[1] as u32, c.a[2]);
        let r = (h >> 52 & 15) as i32;
        let s = U0 / 7f64.powf(r as f64 / 2.0);
        let slack = 1e-12 + 1e-9 * s;
        o.nontrivial = k > 1;
        let centre = |x: u64| cellToLatLng(x).map(|g| ll_to_v(g.lat, g.lng)).map_err(|e| format!("{x:#x} does not decode: {e:?}"));
        let a = centre(h)?;
        if c.kind == 1 {
            let v = match gridRingUnsafe(h, k) {
                Ok(v) => v,
                Err(_) => return Ok(()),
            };
            if k > 1000 {
                o.hit(7);
            }
            if k >= 1 << 16 {
                o.hit(8);
            }
            for x in v {
                let d = ang(&a, &centre(x)?);
                o.calls += 1;
                o.hit(5);
                if d > k as f64 * s + slack || d < covered(k) * s - slack {
                    return Err(format!("{x:#x} of the ring of {k} is {:.4} cell spacings from {h:#x}", d / s));
                }
            }
            return Ok(());
        }
        let v = gridDiskDistances(h, k).map_err(|e| format!("the disk of {k} around {h:#x}: {e:?}"))?;
        let mut set = HashSet::new();
        let m = model();
        let f0 = m.nearest_face(&a);
        let mut faces = false;
        let mut pent = false;
        for (x, d) in v {
            let b = centre(x)?;
            let t = ang(&a, &b);
            o.calls += 1;
            o.hit(2);
            if t > d as f64 * s + slack {
                return Err(format!("{x:#x}, at distance {d} from {h:#x}, is {:.4} cell spacings away", t / s));
            }
            if t < covered(d) * s - slack {
                return Err(format!("{x:#x}, said to be {d} steps from {h:#x}, is only {:.4} cell spacings away", t / s));
            }
            faces |= m.nearest_face(&b) != f0;
            pent |= is_pent_index(x);
            set.insert(x);
        }
        if pent {
            o.hit(3);
        }
        if faces {
            o.hit(4);
        }
        let far = covered(k) * s;
        if far > 0.0 {
            let mut rng = Rng::new(w, 36);
            let up = if a[2].abs() < 0.9 { [0.0, 0.0, 1.0] } else { [1.0, 0.0, 0.0] };
            let e = unit(cross(&up, &a));
            let f = cross(&a, &e);
            let lng = v_to_ll(&a).1;
            for _ in 0..40 {
                let t = rng.unit() * 6.3;
                let q = if rng.chance(1, 3) { 1.0 - 1e-6 * rng.unit() } else { rng.unit().sqrt() };
                let rho = (far * q).min(3.1);
                let p = unit([0, 1, 2].map(|i| a[i] * rho.cos() + (e[i] * t.cos() + f[i] * t.sin()) * rho.sin()));
                let (la, lo) = v_to_ll(&p);
                let x = latLngToCell(&LatLng { lat: la, lng: lo }, r).map_err(|e| format!("({la:?}, {lo:?}) does not encode at resolution {r}: {e:?}"))?;
                o.calls += 1;
                o.hit(0);
                if far - rho < s {
                    o.hit(1);
                }
                if (lo - lng).abs() > 3.0 {
                    o.hit(6);
                }
                if !set.contains(&x) {
                    return Err(format!("({la:?}, {lo:?}), {:.4} cell spacings from the centre of {h:#x}, encodes to {x:#x}, which is not in the disk of {k}", rho / s));
                }
            }
        }
        if o.want_note {
            o.note = format!("{} cells, covering {:.3} spacings", set.len(), covered(k));
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 + t.n(2000, 16000) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i < 122 {
            for r in 0..=3usize {
                for_cells(i as u8, r, |c| {
                    let k = 1 + ex.rng.below(6);
                    let w = ex.rng.next();
                    ex.case(0, &[c.pack(), k, w]);
                    ex.case(1, &[c.pack(), k]);
                });
            }
            return;
        }
        if i % 40 == 0 {
            let r = 11 + ex.rng.below(5) as usize;
            let c = uniform(&mut ex.rng, r);
            let k = 10f64.powf(4.4 + 0.75 * ex.rng.unit()) as u64;
            ex.case(1, &[c.pack(), k]);
        }
        for _ in 0..120 {
            let r = any_res(&mut ex.rng);
            let p = ex.rng.chance(1, 2);
            let c = if p { near_pentagon(&mut ex.rng, r, 9) } else { any_cell_at(&mut ex.rng, r) };
            let k = if ex.rng.chance(1, 100) { ex.rng.below(80) } else if ex.rng.chance(1, 10) { ex.rng.below(if p { 13 } else { 40 }) } else { ex.rng.below(7) };
            let w = ex.rng.next();
            ex.case(0, &[c.pack(), k, w]);
            let mut k = ex.rng.below(60);
            if ex.rng.chance(1, 20) {
                k = 10f64.powf(1.0 + 3.5 * ex.rng.unit()) as u64;
            }
            ex.case(1, &[c.pack(), k]);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
