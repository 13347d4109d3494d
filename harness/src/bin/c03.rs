//! C03: cell centres are at the true grid position, as normalised coordinates.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::h3_index::cellToLatLng;
use std::f64::consts::{FRAC_PI_2, PI};

struct C;
const EX: [(usize, usize); 2] = [(6, 122), (8, 122)];
/// allowed error: a few rounding units, amplified near the poles by asin
fn tol(v: &V3) -> f64 {
    let coslat = (v[0] * v[0] + v[1] * v[1]).sqrt();
    4e-15 + 2e-15 / coslat.max(1e-8)
}
impl Check for C {
    const ID: &'static str = "C03";
    const KINDS: &'static [&'static str] = &["cell"];
    const COUNTERS: &'static [&'static str] = &[
        "error below 1e-15 rad", "below 1e-14", "below 1e-12", "larger (near a pole)", "pentagons",
        "cells of pentagon base cells", "centre on another face than the base cell's", "resolution 11-15",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 4, 5, 6, 7];
    const RULE: &'static str = "every cell of resolutions 0..=6 (quick) or 0..=8 (thorough), plus random cells of all resolutions \
        biased to pentagon hierarchies, icosahedron edges, base cell borders, poles and the antimeridian; the oracle is the \
        cell's exact lattice position on the unfolded icosahedron, projected with 3-D vectors; non-trivial when resolution > 0";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "coordinates may be off by 6e-15 rad (40 nm on Earth), growing as 2e-15/cos(latitude) toward the poles",
    ];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        let cell = Cell::parse(h).ok_or("harness: not a cell")?;
        o.calls += 1;
        o.nontrivial = cell.res > 0;
        let g = match cellToLatLng(h) {
            Ok(g) => g,
            Err(e) => return Err(format!("the centre of valid cell {h:#x} is an error: {e:?}")),
        };
        if !(g.lat.abs() <= FRAC_PI_2) || !(g.lng.abs() <= PI) {
            return Err(format!("the centre of {h:#x} is not in range: {g:?}"));
        }
        let m = model();
        let l = m.locate(&cell);
        let v = m.unproject(l.face, m.plane(l.z, cell.res as usize));
        let e = ang(&v, &ll_to_v(g.lat, g.lng));
        if !(e <= tol(&v)) {
            let w = v_to_ll(&v);
            return Err(format!("the centre of {h:#x} is ({:?}, {:?}), given as {g:?}: off by {e:e} rad", w.0, w.1));
        }
        o.hit(if e < 1e-15 {
            0
        } else if e < 1e-14 {
            1
        } else if e < 1e-12 {
            2
        } else {
            3
        });
        if cell.is_pentagon() {
            o.hit(4);
        }
        if m.pent[cell.bc as usize] {
            o.hit(5);
        }
        if l.face != m.home_face[cell.bc as usize] {
            o.hit(6);
        }
        if cell.res > 10 {
            o.hit(7);
        }
        if o.want_note {
            o.note = format!("centre {:.9},{:.9}, off by {e:.1e} rad", g.lat, g.lng);
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        let (er, n) = EX[t as usize];
        n * (er + 1) + t.n(900, 8000) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let (er, n) = EX[ex.tier as usize];
        let (w, i) = split(i, &[n * (er + 1), usize::MAX / 2]);
        if w == 0 {
            let (bc, r) = ((i % n) as u8, er - i / n);
            for_cells(bc, r, |c| ex.case(0, &[c.pack()]));
        } else {
            if i == 0 {
                for c in dictionary_cells() {
                    ex.case(0, &[c.pack()]);
                }
            }
            for _ in 0..ex.tier.n(100_000, 1_000_000) {
                let c = any_cell(&mut ex.rng);
                ex.case(0, &[c.pack()]);
            }
        }
    }
    fn exhaustive_note(&self) -> &'static str {
        "resolutions 0..=6 in quick, 0..=8 in thorough"
    }
}
fn main() {
    h3mon::mon::main(C)
}
