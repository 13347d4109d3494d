//! C02: a point is encoded to the cell that contains it.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::h3_index::latLngToCell;
use h3_rs::lat_lng::LatLng;

struct C;
impl Check for C {
    const ID: &'static str = "C02";
    const KINDS: &'static [&'static str] = &["point"];
    const COUNTERS: &'static [&'static str] = &[
        "clear of every border", "within rounding of a border", "in a pentagon", "in a cell of a pentagon base cell",
        "within 1e-9 rad of an icosahedron edge", "|latitude| > 89.9 deg", "|longitude| > 179.9 deg",
        "odd resolution", "even resolution",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];
    const RULE: &'static str = "a case is (latitude, longitude, resolution): uniform points, points placed from a cell's centre \
        toward its corners and edges at fractions up to and just beyond the border, points on and near icosahedron edges and \
        vertices, face centres, poles, the antimeridian, signed zeros and subnormals, decimal degrees; the oracle is nearest \
        lattice point in an independently unfolded icosahedron; non-trivial when resolution > 0";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "a point closer to a cell border than the rounding of the projection (1e-14 rad, growing to 1e-15/distance near a face \
         centre) may be given to either side",
    ];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let (lat, lng, r) = (b2f(c.a[0]), b2f(c.a[1]), c.a[2] as usize);
        o.calls += 1;
        o.nontrivial = r > 0;
        let h = match latLngToCell(&LatLng { lat, lng }, r as i32) {
            Ok(h) => h,
            Err(e) => return Err(format!("({lat:?}, {lng:?}) does not encode at resolution {r}: {e:?}")),
        };
        let m = model();
        let v = ll_to_v(lat, lng);
        let f = m.nearest_face(&v);
        let (want, _) = m.index(&v, r);
        let sub = m.overage(m.project(f, &v)).0;
        if want.pack() == h {
            o.hit(0);
        } else {
            let eps = 1e-15 / ang(&v, &m.frames[f].c).max(1e-8) + 1e-14;
            let cand = m.candidates(&v, r, eps);
            if !cand.iter().any(|x| x.pack() == h) {
                return Err(format!(
                    "({lat:?}, {lng:?}) at resolution {r} encodes to {h:#x}, but lies in {:#x}",
                    want.pack()
                ));
            }
            o.hit(1);
        }
        if want.is_pentagon() {
            o.hit(2);
        }
        if m.pent[want.bc as usize] {
            o.hit(3);
        }
        if sub.abs() < 2e-9 {
            o.hit(4);
        }
        if lat.abs() > 89.9f64.to_radians() {
            o.hit(5);
        }
        if lng.abs() > 179.9f64.to_radians() {
            o.hit(6);
        }
        o.hit(if r % 2 == 1 { 7 } else { 8 });
        if o.want_note {
            o.note = format!("({lat:.9}, {lng:.9}) res {r} -> {h:#x}");
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(1000, 4096) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i == 0 {
            // the borders and corners of every cell of resolutions 0..=3
            for r in 0..4 {
                for bc in 0..122 {
                    for_cells(bc, r, |c| {
                        for _ in 0..6 {
                            let (la, lo) = v_to_ll(&point_in_cell(&mut ex.rng, c));
                            ex.case(0, &[f2b(la), f2b(lo), r as u64]);
                        }
                    });
                }
            }
        }
        for _ in 0..40_000 {
            let r = any_res(&mut ex.rng);
            let (la, lo) = any_point(&mut ex.rng, r);
            ex.case(0, &[f2b(la), f2b(lo), r as u64]);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
