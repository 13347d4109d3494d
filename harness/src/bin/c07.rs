//! C07: pentagons are exactly the 12 icosahedron vertices, at every resolution.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::h3_index::{isPentagon, isValidCell, latLngToCell};
use h3_rs::lat_lng::LatLng;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

struct C {
    per_res: [AtomicU64; 16],
    cells: [AtomicU64; 16],
}
const EX: [usize; 2] = [6, 8];
impl Check for C {
    const ID: &'static str = "C07";
    const KINDS: &'static [&'static str] = &["cell", "counted", "vertex"];
    const COUNTERS: &'static [&'static str] = &[
        "pentagons", "hexagons", "hexagons of pentagon base cells", "centre children of hexagons", "icosahedron vertices encoded",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4];
    const RULE: &'static str = "`counted`: every cell of resolutions 0..=6 (quick) or 0..=8 (thorough), with the pentagons of each resolution \
        counted; `cell`: random cells of all resolutions; `vertex`: the 12 icosahedron vertices, found from the geometry, encoded at every \
        resolution; a cell is a pentagon iff its exact centre is an icosahedron vertex; non-trivial when resolution > 0";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let m = model();
        o.calls += 1;
        if c.kind == 2 {
            let (bc, r) = (c.a[0] as usize, c.a[1] as usize);
            let (f, v) = m.around[bc][c.a[2] as usize];
            let (la, lo) = v_to_ll(&m.unproject(f, E(2, 0).rot(v).to_c()));
            o.nontrivial = r > 0;
            o.hit(4);
            let h = match latLngToCell(&LatLng { lat: la, lng: lo }, r as i32) {
                Ok(h) => h,
                Err(e) => return Err(format!("vertex {la:?},{lo:?}: {e:?}")),
            };
            if !isPentagon(h) || !isValidCell(h) {
                return Err(format!("icosahedron vertex ({la:?}, {lo:?}) encodes to {h:#x} at resolution {r}, which is not a pentagon"));
            }
            if o.want_note {
                o.note = format!("{h:#x}");
            }
            return Ok(());
        }
        let h = c.a[0];
        let cell = Cell::parse(h).ok_or("harness: not a cell")?;
        o.nontrivial = cell.res > 0;
        // exact position: an icosahedron vertex is a corner (2,0), rotated, of a face
        let l = m.locate(&cell);
        let a = m.a[cell.res as usize];
        let want = [0, 2, 4].iter().any(|k| l.z == E(2, 0).rot(*k).mul(a));
        let got = isPentagon(h);
        if got != want {
            return Err(format!("{h:#x} is reported {} but its centre is {}an icosahedron vertex", if got { "a pentagon" } else { "a hexagon" }, if want { "" } else { "not " }));
        }
        o.hit(if want { 0 } else { 1 });
        if !want && m.pent[cell.bc as usize] {
            o.hit(2);
        }
        if !want && cell.res > 0 && cell.d[cell.res as usize] == 0 {
            o.hit(3);
        }
        if c.kind == 1 {
            self.cells[cell.res as usize].fetch_add(1, Relaxed);
            if got {
                self.per_res[cell.res as usize].fetch_add(1, Relaxed);
            }
        }
        if o.want_note {
            o.note = format!("pentagon={got}");
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 * (EX[t as usize] + 1) + t.n(1400, 8000) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let er = EX[ex.tier as usize];
        let (w, i) = split(i, &[122 * (er + 1), usize::MAX / 2]);
        if w == 0 {
            let (bc, r) = ((i % 122) as u8, er - i / 122);
            for_cells(bc, r, |c| ex.case(1, &[c.pack()]));
            return;
        }
        if i == 0 {
            for bc in PENTS {
                for r in 0..16 {
                    ex.case(0, &[Cell::new(bc, r).pack()]);
                    for s in 0..5 {
                        ex.case(2, &[bc as u64, r as u64, s]);
                    }
                }
            }
            for c in dictionary_cells() {
                ex.case(0, &[c.pack()]);
            }
        }
        for _ in 0..100_000 {
            let c = if ex.rng.chance(1, 3) {
                let r = any_res(&mut ex.rng);
                near_pentagon(&mut ex.rng, r, 2)
            } else {
                any_cell(&mut ex.rng)
            };
            ex.case(0, &[c.pack()]);
        }
    }
    fn finish(&self, t: Tier, _: u64) -> Verdict {
        for r in 0..=EX[t as usize] {
            let (n, p) = (self.cells[r].load(Relaxed), self.per_res[r].load(Relaxed));
            if n != num_cells(r) {
                return Err(format!("harness: {n} cells counted at resolution {r}"));
            }
            if p != 12 {
                return Err(format!("{p} pentagons at resolution {r}"));
            }
        }
        Ok(())
    }
    fn extra(&self) -> Vec<(String, String)> {
        let v: Vec<String> = self.per_res.iter().map(|x| x.load(Relaxed).to_string()).collect();
        vec![("pentagons_counted_per_enumerated_resolution".into(), format!("[{}]", v.join(", ")))]
    }
}
fn main() {
    h3mon::mon::main(C { per_res: Default::default(), cells: Default::default() })
}
