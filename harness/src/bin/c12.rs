//! C12: the neighbour relation is geometric adjacency.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::algos::{directionForNeighbor, h3NeighborRotations};
use h3_rs::error::Error;
use h3_rs::h3_index::H3_GET_INDEX_DIGIT;

struct C;
const EX: [usize; 2] = [5, 7];
impl Check for C {
    const ID: &'static str = "C12";
    const KINDS: &'static [&'static str] = &["cell", "pair"];
    const COUNTERS: &'static [&'static str] = &[
        "neighbours compared", "steps across a base cell border", "steps out of a pentagon base cell", "steps into a pentagon base cell",
        "steps within a pentagon base cell", "steps into a pentagon", "steps out of a pentagon", "deleted directions refused",
        "steps across an icosahedron edge", "pairs that are not neighbours",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
    const RULE: &'static str = "`cell`: every step from a cell (six directions, plus the null and the invalid direction) against the exact adjacent \
        lattice point of the unfolded icosahedron, its direction looked up again, and the step back; every cell of resolutions 0..=5 (quick) or \
        0..=7 (thorough) and random cells of all resolutions biased to digit carries, base cell borders and pentagons; `pair`: direction lookup for \
        cells that are not neighbours (same cell, two steps away, other resolutions, arbitrary words); non-trivial when resolution > 0";
    const ASSUMPTIONS: &'static [&'static str] =
        &["the deleted direction of a pentagon may be refused or, at resolution 0, alias a real neighbour (as upstream does)"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        let cell = Cell::parse(h).ok_or("harness: not a cell")?;
        o.nontrivial = cell.res > 0;
        let m = model();
        if c.kind == 1 {
            let x = c.a[1];
            o.calls += 1;
            if m.neighbours(&cell).iter().any(|y| y.pack() == x) {
                o.nontrivial = false;
                return Ok(());
            }
            let d = directionForNeighbor(h, x) as i32;
            if d != 7 {
                return Err(format!("{x:#x} is reported a neighbour of {h:#x} in direction {d}; it is not adjacent"));
            }
            o.hit(9);
            return Ok(());
        }
        let step = |h: u64, d: u64| {
            let mut rot = 0;
            h3NeighborRotations(h, H3_GET_INDEX_DIGIT(d, 15), &mut rot)
        };
        o.calls += 2;
        if step(h, 0) != Ok(h) {
            return Err(format!("the null step from {h:#x} gives {:x?}", step(h, 0)));
        }
        if step(h, 7).is_ok() {
            return Err(format!("a step in the invalid direction from {h:#x} gives {:x?}", step(h, 7)));
        }
        let mut all = [0u64; 7];
        for d in 1..7u8 {
            if let Some(x) = m.neighbour(&cell, d) {
                all[d as usize] = x.pack();
            }
        }
        for d in 1..7u8 {
            o.calls += 1;
            let got = step(h, d as u64);
            let Some(want) = m.neighbour(&cell, d) else {
                match got {
                    Err(Error::Pentagon) => o.hit(7),
                    Ok(x) if all.contains(&x) => {}
                    g => return Err(format!("deleted direction of pentagon {h:#x} gives {g:x?}")),
                }
                continue;
            };
            let w = want.pack();
            if got != Ok(w) {
                return Err(format!("the neighbour of {h:#x} in direction {d} is {w:#x}, got {got:x?}"));
            }
            o.calls += 2;
            let back = directionForNeighbor(h, w) as i32;
            if back != d as i32 {
                return Err(format!("{w:#x} is in direction {d} of {h:#x}, reported {back}"));
            }
            let rev = directionForNeighbor(w, h) as i32;
            if !(1..7).contains(&rev) {
                return Err(format!("{w:#x} is a neighbour of {h:#x}, but not the other way round"));
            }
            o.hit(0);
            let (pa, pb) = (m.pent[cell.bc as usize], m.pent[want.bc as usize]);
            if cell.bc != want.bc {
                o.hit(1);
                if pa {
                    o.hit(2);
                }
                if pb {
                    o.hit(3);
                }
            } else if pa {
                o.hit(4);
            }
            if want.is_pentagon() {
                o.hit(5);
            }
            if cell.is_pentagon() {
                o.hit(6);
            }
            if cell.d[cell.res as usize] == 3 && m.locate(&cell).face != m.locate(&want).face {
                o.hit(8);
            }
        }
        if o.want_note {
            o.note = format!("neighbours {:x?}", &all[1..]);
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 * (EX[t as usize] + 1) + t.n(2048, 8192) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let er = EX[ex.tier as usize];
        let (w, i) = split(i, &[122 * (er + 1), usize::MAX / 2]);
        if w == 0 {
            for_cells((i % 122) as u8, er - i / 122, |c| ex.case(0, &[c.pack()]));
            return;
        }
        if i == 0 {
            for c in dictionary_cells() {
                ex.case(0, &[c.pack()]);
            }
        }
        for _ in 0..5000 {
            let c = any_cell(&mut ex.rng);
            let h = c.pack();
            ex.case(0, &[h]);
            if ex.rng.chance(1, 4) {
                let mut x = c;
                for _ in 0..2 + ex.rng.below(3) {
                    x = step(&mut ex.rng, &x);
                }
                ex.case(1, &[h, x.pack()]);
                ex.case(1, &[h, h]);
                let w = hostile(&mut ex.rng);
                ex.case(1, &[h, w]);
                let y = any_cell_at(&mut ex.rng, c.res as usize).pack();
                ex.case(1, &[h, y]);
                // a neighbour's parent or centre child, an edge index, a flipped bit
                let n = step(&mut ex.rng, &c);
                let z = match ex.rng.below(4) {
                    0 if n.res > 0 => {
                        let mut p = n;
                        p.d[n.res as usize] = 0;
                        p.res -= 1;
                        p.pack()
                    }
                    1 if n.res < 15 => {
                        let mut p = n;
                        p.res += 1;
                        p.d[p.res as usize] = 0;
                        p.pack()
                    }
                    2 => n.pack() ^ 3 << 59,
                    _ => n.pack() ^ 1 << ex.rng.below(64),
                };
                ex.case(1, &[h, z]);
            }
        }
    }
    fn exhaustive_note(&self) -> &'static str {
        "all steps from all cells of resolutions 0..=5 in quick, 0..=7 in thorough"
    }
}
fn main() {
    h3mon::mon::main(C)
}
