//! C11: hierarchy and geometry agree.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::h3_index::{cellToChildren, cellToLatLng, latLngToCell};

struct C;
const EX: [usize; 2] = [5, 7];
impl Check for C {
    const ID: &'static str = "C11";
    const KINDS: &'static [&'static str] = &["children", "centre"];
    const COUNTERS: &'static [&'static str] = &[
        "children found inside their parent", "hexagon parents", "pentagon parents", "parents on an icosahedron edge", "gaps 1-5", "gaps 6-15",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5];
    const RULE: &'static str = "`children` (cell): the centre of every child one resolution finer, encoded at the cell's resolution, gives the cell; \
        `centre` (cell, finer resolution): the centre of the cell encodes to its all-zero descendant; every cell of resolutions 0..=5 (quick) or \
        0..=7 (thorough) and random cells of all resolutions; every case is non-trivial";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        let cell = Cell::parse(h).ok_or("harness: not a cell")?;
        let r = cell.res as i32;
        o.nontrivial = true;
        if c.kind == 0 {
            let v = match cellToChildren(h, r + 1) {
                Ok(v) => v,
                Err(e) => return Err(format!("children of {h:#x}: {e:?}")),
            };
            let want = if cell.is_pentagon() { 6 } else { 7 };
            if v.len() != want {
                return Err(format!("{h:#x} has {} children", v.len()));
            }
            for x in v {
                o.calls += 2;
                let g = match cellToLatLng(x) {
                    Ok(g) => g,
                    Err(e) => return Err(format!("centre of {x:#x}: {e:?}")),
                };
                match latLngToCell(&g, r) {
                    Ok(p) if p == h => o.hit(0),
                    p => return Err(format!("the centre of {x:#x}, child of {h:#x}, lies in {p:x?}")),
                }
            }
            o.hit(if want == 6 { 2 } else { 1 });
            let m = model();
            let l = m.locate(&cell);
            if m.overage(m.plane(l.z, r as usize)).0.abs() < 0.5 / m.sqrt7[r as usize] {
                o.hit(3);
            }
            if o.want_note {
                o.note = format!("{want} children inside");
            }
        } else {
            let f = c.a[1] as usize;
            o.calls += 2;
            let g = match cellToLatLng(h) {
                Ok(g) => g,
                Err(e) => return Err(format!("centre of {h:#x}: {e:?}")),
            };
            let mut x = cell;
            x.res = f as u8;
            match latLngToCell(&g, f as i32) {
                Ok(p) if p == x.pack() => {}
                p => return Err(format!("the centre of {h:#x} encodes to {p:x?} at resolution {f}, not to its centre child {:#x}", x.pack())),
            }
            o.hit(if f as i32 - r <= 5 { 4 } else { 5 });
            if o.want_note {
                o.note = format!("centre child {:#x}", x.pack());
            }
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 * (EX[t as usize] + 1) + t.n(1100, 8000) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let er = EX[ex.tier as usize];
        let (w, i) = split(i, &[122 * (er + 1), usize::MAX / 2]);
        if w == 0 {
            for_cells((i % 122) as u8, er - i / 122, |c| {
                ex.case(0, &[c.pack()]);
                for f in c.res as u64 + 1..=15 {
                    if f <= c.res as u64 + 1 || (c.d[c.res as usize] as u64 + f) % 4 == 0 || c.res < 3 {
                        ex.case(1, &[c.pack(), f]);
                    }
                }
            });
            return;
        }
        if i == 0 {
            for c in dictionary_cells() {
                if c.res < 15 {
                    ex.case(0, &[c.pack()]);
                }
            }
        }
        for _ in 0..10_000 {
            let c = any_cell(&mut ex.rng);
            if c.res < 15 {
                ex.case(0, &[c.pack()]);
                let f = c.res as u64 + 1 + ex.rng.below(15 - c.res as u64);
                ex.case(1, &[c.pack(), f]);
            }
        }
    }
    fn exhaustive_note(&self) -> &'static str {
        "parents of resolutions 0..=5 in quick, 0..=7 in thorough"
    }
}
fn main() {
    h3mon::mon::main(C)
}
