//! C33: points close together encode to the same cell or to neighbours.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::directed_edge::{cellsToDirectedEdge, isValidDirectedEdge};
use h3_rs::h3_index::{isPentagon, latLngToCell};
use h3_rs::lat_lng::LatLng;

/// the largest step, in cell spacings at the centre of a face; the nearest
/// cells that share no border are 0.577 * 0.63 spacings apart
const STEP: f64 = 0.15;
struct C;
impl Check for C {
    const ID: &'static str = "C33";
    const KINDS: &'static [&'static str] = &["path", "pair"];
    const COUNTERS: &'static [&'static str] = &[
        "steps", "borders crossed", "pentagons entered or left", "base cell borders crossed", "paths over a pole or the antimeridian", "paths across icosahedron edges", "pairs",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6];
    const RULE: &'static str = "`path` (point, azimuth, resolution, step, number of steps): a great circle walked in steps of at most 0.15 cell spacings; `pair`: two points within that distance; \
        each point must encode to the cell of the one before, or to one with which it has a valid directed edge in both directions; non-trivial when a border is crossed";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let v = ll_to_v(b2f(c.a[0]), b2f(c.a[1]));
        let az = b2f(c.a[2]);
        let r = c.a[3] as i32;
        let frac = b2f(c.a[4]);
        let n = c.a[5];
        let s = U0 / 7f64.powf(r as f64 / 2.0);
        // a direction at v, whichever way it points
        let h = if v[2].abs() < 0.9 { [0.0, 0.0, 1.0] } else { [1.0, 0.0, 0.0] };
        let e = unit(cross(&h, &v));
        let f = cross(&v, &e);
        let w = [0, 1, 2].map(|i| e[i] * az.cos() + f[i] * az.sin());
        let at = |t: f64| v_to_ll(&unit([0, 1, 2].map(|i| v[i] * t.cos() + w[i] * t.sin())));
        let mut last: Option<(u64, (f64, f64))> = None;
        let (mut wrapped, mut faces) = (false, false);
        let m = model();
        let face0 = m.nearest_face(&v);
        for i in 0..=n {
            let p = at(i as f64 * frac * STEP * s);
            let x = latLngToCell(&LatLng { lat: p.0, lng: p.1 }, r).map_err(|e| format!("({:?}, {:?}) does not encode at resolution {r}: {e:?}", p.0, p.1))?;
            o.calls += 1;
            o.hit(0);
            if let Some((y, q)) = last {
                if (p.1 - q.1).abs() > 1.0 {
                    wrapped = true;
                }
                if x != y {
                    o.nontrivial = true;
                    o.hit(1);
                    o.calls += 4;
                    for (a, b) in [(x, y), (y, x)] {
                        match cellsToDirectedEdge(a, b) {
                            Ok(e) if isValidDirectedEdge(e) => {}
                            e => {
                                return Err(format!(
                                    "({:?}, {:?}) and ({:?}, {:?}), {:.3} cell spacings apart, encode to {y:#x} and {x:#x} at resolution {r}, which share no border ({e:x?})",
                                    q.0, q.1, p.0, p.1, ang(&ll_to_v(p.0, p.1), &ll_to_v(q.0, q.1)) / s
                                ))
                            }
                        }
                    }
                    if isPentagon(x) || isPentagon(y) {
                        o.hit(2);
                    }
                    if (x ^ y) >> 45 & 127 != 0 {
                        o.hit(3);
                    }
                }
            }
            if i == n {
                faces = m.nearest_face(&ll_to_v(p.0, p.1)) != face0;
            }
            last = Some((x, p));
        }
        if wrapped {
            o.hit(4);
        }
        if faces {
            o.hit(5);
        }
        if c.kind == 1 {
            o.hit(6);
        }
        if o.want_note {
            o.note = format!("{n} steps to {:#x}", last.unwrap().0);
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 + t.n(800, 8000) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i < 122 {
            // out of every cell of the coarse resolutions, in several directions
            for r in 0..=4usize {
                for_cells(i as u8, r, |c| {
                    let (a, b) = v_to_ll(&model().centre(c));
                    for _ in 0..3 {
                        let az = ex.rng.unit() * 6.3;
                        ex.case(0, &[f2b(a), f2b(b), f2b(az), r as u64, f2b(0.9), 14]);
                    }
                });
            }
            return;
        }
        for _ in 0..600 {
            let r = any_res(&mut ex.rng);
            let (a, b) = any_point(&mut ex.rng, r);
            let az = ex.rng.unit() * 6.3;
            // forwards and backwards, so that special points are passed in the middle
            let n = 3 + ex.rng.below(60);
            let f = 0.02 + 0.97 * ex.rng.unit();
            ex.case(0, &[f2b(a), f2b(b), f2b(az), r as u64, f2b(f), n]);
            ex.case(0, &[f2b(a), f2b(b), f2b(az), r as u64, f2b(-f), n]);
        }
        for _ in 0..6000 {
            let r = any_res(&mut ex.rng);
            let (a, b) = any_point(&mut ex.rng, r);
            let az = ex.rng.unit() * 6.3;
            let f = if ex.rng.chance(1, 2) { 0.99 * ex.rng.unit() } else { 10f64.powf(-9.0 * ex.rng.unit()) * 0.99 };
            ex.case(1, &[f2b(a), f2b(b), f2b(az), r as u64, f2b(f), 1]);
        }
        // once around the globe, or a long way
        for _ in 0..4 {
            let r = ex.rng.below(16);
            let (a, b) = any_point(&mut ex.rng, r as usize);
            let az = ex.rng.unit() * 6.3;
            ex.case(0, &[f2b(a), f2b(b), f2b(az), r, f2b(0.99), 4000]);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
