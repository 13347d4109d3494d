//! C27: encoding and decoding a point moves it by at most the radius of a cell.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::h3_index::{cellToLatLng, latLngToCell};
use h3_rs::lat_lng::LatLng;

struct C;
/// largest distance, in the plane of a face, of a point from the centre of its cell
fn plane_radius(r: usize) -> f64 {
    U0 / 7f64.sqrt().powi(r as i32) / 3f64.sqrt()
}
impl Check for C {
    const ID: &'static str = "C27";
    const KINDS: &'static [&'static str] = &["point"];
    const COUNTERS: &'static [&'static str] = &[
        "moved by less than half the bound", "moved by half to 0.99 of the bound", "moved by more than 0.99 of the bound", "near an icosahedron vertex", "near a face centre",
        "near a pole or the antimeridian", "resolution 0-4", "resolution 5-10", "resolution 11-15",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];
    const RULE: &'static str = "a case is (point, resolution): the centre of the point's cell is at most U0/sqrt(3)/7^(r/2) away, scaled by how much the projection \
        shrinks at that distance from the nearest face centre; this bound comes from the size of the lattice alone and uses no cell lookup; the distance is taken \
        between unit vectors; non-trivial always";
    const ASSUMPTIONS: &'static [&'static str] = &["2e-14 rad of rounding, more for points next to a face centre or a pole"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let g = LatLng { lat: b2f(c.a[0]), lng: b2f(c.a[1]) };
        let r = c.a[2] as usize;
        o.nontrivial = true;
        o.calls += 2;
        let h = latLngToCell(&g, r as i32).map_err(|e| format!("({:?}, {:?}) does not encode at resolution {r}: {e:?}", g.lat, g.lng))?;
        let x = cellToLatLng(h).map_err(|e| format!("({:?}, {:?}) encodes to {h:#x} at resolution {r}, which does not decode: {e:?}", g.lat, g.lng))?;
        let m = model();
        let (p, q) = (ll_to_v(g.lat, g.lng), ll_to_v(x.lat, x.lng));
        let f = m.nearest_face(&p);
        let rho = ang(&p, &m.frames[f].c).tan();
        let pr = plane_radius(r);
        let inner = (rho - pr).max(0.0);
        let bound = (pr / (1.0 + inner * inner).sqrt()).min(pr);
        let d = ang(&p, &q);
        let slack = 2e-14 + 2e-15 / rho.max(1e-7) + 2e-15 / g.lat.cos().abs().max(1e-7) + 2e-15 / x.lat.cos().abs().max(1e-7);
        if !(d <= bound + slack) {
            return Err(format!(
                "({:?}, {:?}) encodes to {h:#x} at resolution {r}, whose centre ({:?}, {:?}) is {d:e} rad away; a cell's radius is at most {bound:e}",
                g.lat, g.lng, x.lat, x.lng
            ));
        }
        o.hit(if d < 0.5 * bound {
            0
        } else if d < 0.99 * bound {
            1
        } else {
            2
        });
        if rho > 0.7639 {
            o.hit(3);
        }
        if rho < 0.01 {
            o.hit(4);
        }
        if g.lat.abs() > 1.57 || g.lng.abs() > 3.14159 {
            o.hit(5);
        }
        o.hit(match r {
            0..=4 => 6,
            5..=10 => 7,
            _ => 8,
        });
        if o.want_note {
            o.note = format!("{h:#x}, moved {d:.3e} of at most {bound:.3e} rad");
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(1200, 8000) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i < 122 {
            for r in 0..=4 {
                for_cells(i as u8, r, |c| {
                    for _ in 0..3 {
                        let (a, b) = v_to_ll(&point_in_cell(&mut ex.rng, c));
                        ex.case(0, &[f2b(a), f2b(b), r as u64]);
                    }
                });
            }
        }
        for _ in 0..40_000 {
            let r = any_res(&mut ex.rng);
            let (a, b) = any_point(&mut ex.rng, r);
            ex.case(0, &[f2b(a), f2b(b), r as u64]);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
