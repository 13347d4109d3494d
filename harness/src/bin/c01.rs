//! C01: a cell's centre encodes back to the cell.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::h3_index::{cellToLatLng, latLngToCell};

struct C;
const EX: [(usize, usize); 2] = [(6, 122), (8, 122)]; // exhaustive to this resolution
impl Check for C {
    const ID: &'static str = "C01";
    const KINDS: &'static [&'static str] = &["cell"];
    const COUNTERS: &'static [&'static str] = &[
        "pentagons", "cells of pentagon base cells", "centre on another face than the base cell's",
        "resolution 0-5", "resolution 6-10", "resolution 11-15", "within 1e-6 rad of a pole or the antimeridian",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6];
    const RULE: &'static str = "every cell of resolutions 0..=6 (quick) or 0..=8 (thorough), plus random cells of all \
        resolutions biased to pentagon hierarchies, icosahedron edges, base cell borders, poles and the antimeridian; a case \
        is one cell index, decoded to its centre and re-encoded; non-trivial when resolution > 0";
    const ASSUMPTIONS: &'static [&'static str] = &["IEEE-754 doubles with the platform libm"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        let cell = Cell::parse(h).ok_or("harness: not a cell")?;
        let r = cell.res as i32;
        o.calls += 2;
        o.nontrivial = r > 0;
        let g = match cellToLatLng(h) {
            Ok(g) => g,
            Err(e) => return Err(format!("the centre of valid cell {h:#x} is an error: {e:?}")),
        };
        if !(g.lat.is_finite() && g.lng.is_finite()) {
            return Err(format!("the centre of {h:#x} is {g:?}"));
        }
        match latLngToCell(&g, r) {
            Ok(x) if x == h => {}
            Ok(x) => return Err(format!("centre {g:?} of {h:#x} encodes to {x:#x} at resolution {r}")),
            Err(e) => return Err(format!("centre {g:?} of {h:#x} does not encode: {e:?}")),
        }
        if cell.is_pentagon() {
            o.hit(0);
        }
        let m = model();
        if m.pent[cell.bc as usize] {
            o.hit(1);
        }
        if r <= 8 || o.want_note || h & 0xff000 == 0x5000 {
            if m.locate(&cell).face != m.home_face[cell.bc as usize] {
                o.hit(2);
            }
        }
        o.hit(match r {
            0..=5 => 3,
            6..=10 => 4,
            _ => 5,
        });
        if (g.lat.abs() - std::f64::consts::FRAC_PI_2).abs() < 1e-6 || (g.lng.abs() - std::f64::consts::PI).abs() < 1e-6 {
            o.hit(6);
        }
        if o.want_note {
            o.note = format!("centre {:.9},{:.9} rad encodes back to it", g.lat, g.lng);
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        let (er, n) = EX[t as usize];
        n * (er + 1) + t.n(700, 6400) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let (er, n) = EX[ex.tier as usize];
        let (w, i) = split(i, &[n * (er + 1), usize::MAX / 2]);
        if w == 0 {
            let (bc, r) = ((i % n) as u8, er - i / n);
            for_cells(bc, r, |c| ex.case(0, &[c.pack()]));
        } else {
            if i == 0 {
                for c in dictionary_cells() {
                    ex.case(0, &[c.pack()]);
                }
            }
            for _ in 0..ex.tier.n(100_000, 1_000_000) {
                let c = any_cell(&mut ex.rng);
                ex.case(0, &[c.pack()]);
            }
        }
    }
    fn exhaustive_note(&self) -> &'static str {
        "resolutions 0..=6 in quick, 0..=8 in thorough"
    }
}
fn main() {
    h3mon::mon::main(C)
}
