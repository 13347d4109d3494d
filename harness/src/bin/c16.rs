//! C16: a directed edge exists exactly between neighbours, and names both ends.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::directed_edge::{cellsToDirectedEdge, directedEdgeToCells, getDirectedEdgeDestination, getDirectedEdgeOrigin, isValidDirectedEdge};
use h3_rs::error::Error;

struct C;
impl C {
    fn edge(&self, cell: &Cell, d: u8, x: u64, o: &mut Obs) -> Result<u64, String> {
        let h = cell.pack();
        let e = match cellsToDirectedEdge(h, x) {
            Ok(e) => e,
            Err(e) => return Err(format!("{h:#x} and {x:#x} are neighbours (direction {d}), but there is no edge: {e:?}")),
        };
        let want = (h & !(15 << 59) & !(7 << 56)) | 2 << 59 | (d as u64) << 56;
        if e != want {
            return Err(format!("the edge from {h:#x} to {x:#x} is {e:#x}, not {want:#x}"));
        }
        if !isValidDirectedEdge(e) {
            return Err(format!("the edge {e:#x} from {h:#x} to {x:#x} is not valid"));
        }
        let (a, b, c) = (getDirectedEdgeOrigin(e), getDirectedEdgeDestination(e), directedEdgeToCells(e));
        if a != Ok(h) || b != Ok(x) || c != Ok((h, x)) {
            return Err(format!("the edge {e:#x} from {h:#x} to {x:#x} reads back as {a:x?}, {b:x?}, {c:x?}"));
        }
        o.calls += 5;
        Ok(e)
    }
}
impl Check for C {
    const ID: &'static str = "C16";
    const KINDS: &'static [&'static str] = &["around", "pair", "notedge"];
    const COUNTERS: &'static [&'static str] = &[
        "edges out and back", "edges at a pentagon", "edges between base cells", "refused: the cell itself", "refused: two steps away",
        "refused: another resolution", "refused: not a cell", "refused: far cell", "refused: an edge index", "non-edge indexes not decoded",
        "edges confirmed in random pairs",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
    const RULE: &'static str = "`around` (cell): every neighbour in the reference grid must have an edge, with the specified bits, valid, reading back to \
        both ends, also in the opposite direction, and the cell itself and every cell two steps away must have none; `pair` (cell, any 64-bit value): an edge \
        exactly if the value is a neighbour; `notedge` (any index whose mode is not edge): none of the decoders accepts it; non-trivial always";
    const ASSUMPTIONS: &'static [&'static str] = &["the origin is a valid cell; edges from other values are only required not to crash (C19)"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        o.nontrivial = true;
        if c.kind == 2 {
            o.calls += 4;
            if isValidDirectedEdge(h) {
                return Err(format!("{h:#x}, whose mode is not that of an edge, is a valid edge"));
            }
            let (a, b, d) = (getDirectedEdgeOrigin(h), getDirectedEdgeDestination(h), directedEdgeToCells(h));
            let refused = |e: Option<&Error>| e == Some(&Error::DirectedEdgeInvalid);
            if !refused(a.as_ref().err()) || !refused(b.as_ref().err()) || !refused(d.as_ref().err()) {
                return Err(format!("{h:#x}, whose mode is not that of an edge, is decoded: {a:x?}, {b:x?}, {d:x?}"));
            }
            o.hit(9);
            return Ok(());
        }
        let cell = Cell::parse(h).ok_or("harness: not a cell")?;
        let m = model();
        if c.kind == 1 {
            let x = c.a[1];
            let dir = (1..7u8).find(|d| m.neighbour(&cell, *d).map_or(false, |n| n.pack() == x));
            if let Some(d) = dir {
                self.edge(&cell, d, x, o)?;
                o.hit(10);
                return Ok(());
            }
            o.calls += 1;
            match cellsToDirectedEdge(h, x) {
                Err(Error::NotNeighbors) => {}
                r => return Err(format!("{h:#x} and {x:#x} are not neighbours, but the edge is {r:x?}")),
            }
            o.hit(match Cell::parse(x) {
                None if x >> 59 & 15 == 2 => 8,
                None => 6,
                Some(y) if y.res != cell.res => 5,
                Some(_) if x == h => 3,
                Some(_) => 7,
            });
            return Ok(());
        }
        let ns = ball(&cell, 2);
        let mut near = 0;
        for d in 1..7u8 {
            let Some(n) = m.neighbour(&cell, d) else { continue };
            near += 1;
            let x = n.pack();
            let e = self.edge(&cell, d, x, o)?;
            let Some(d2) = (1..7u8).find(|q| m.neighbour(&n, *q).map_or(false, |y| y == cell)) else {
                return Err("harness: neighbours are not symmetric".into());
            };
            let e2 = self.edge(&n, d2, h, o)?;
            if e == e2 {
                return Err(format!("{e:#x} is both directions between {h:#x} and {x:#x}"));
            }
            o.hit(0);
            if cell.is_pentagon() || n.is_pentagon() {
                o.hit(1);
            }
            if n.bc != cell.bc {
                o.hit(2);
            }
        }
        for (x, d) in &ns {
            if *d == 1 {
                continue;
            }
            o.calls += 1;
            match cellsToDirectedEdge(h, *x) {
                Err(Error::NotNeighbors) => {}
                r => return Err(format!("{h:#x} and {x:#x} are {d} steps apart, but the edge is {r:x?}")),
            }
            o.hit(if *d == 0 { 3 } else { 4 });
        }
        if o.want_note {
            o.note = format!("{near} edges out and back, {} other cells refused", ns.len() - near);
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 + t.n(1200, 4800) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i < 122 {
            for r in 0..=if ex.tier == Tier::Thorough { 5 } else { 3 } {
                for_cells(i as u8, r, |c| ex.case(0, &[c.pack()]));
            }
            // all pairs of coarse cells
            for b in 0..122 {
                ex.case(1, &[Cell::new(i as u8, 0).pack(), Cell::new(b, 0).pack()]);
            }
            for_cells(i as u8, 1, |c| {
                for _ in 0..40 {
                    let b = uniform(&mut ex.rng, 1);
                    ex.case(1, &[c.pack(), b.pack()]);
                }
            });
            return;
        }
        if i == 122 {
            for c in dictionary_cells() {
                ex.case(0, &[c.pack()]);
                for x in dictionary() {
                    ex.case(1, &[c.pack(), *x]);
                }
            }
            for x in dictionary() {
                if x >> 59 & 15 != 2 {
                    ex.case(2, &[*x]);
                }
            }
        }
        for _ in 0..1500 {
            let c = any_cell(&mut ex.rng);
            ex.case(0, &[c.pack()]);
        }
        for _ in 0..3000 {
            let c = any_cell(&mut ex.rng);
            let h = c.pack();
            let x = match ex.rng.below(9) {
                0 => hostile(&mut ex.rng),
                1 => any_cell_at(&mut ex.rng, c.res as usize).pack(),
                2 => any_cell(&mut ex.rng).pack(),
                3 => h,
                4 => {
                    // a neighbour with one bit wrong
                    step(&mut ex.rng, &c).pack() ^ 1 << ex.rng.below(64)
                }
                5 => {
                    // a child, or the parent, of a neighbour
                    let mut n = step(&mut ex.rng, &c);
                    if ex.rng.chance(1, 2) && n.res < 15 {
                        n.res += 1;
                    } else if n.res > 0 {
                        n.d[n.res as usize] = 0;
                        n.res -= 1;
                    }
                    n.pack()
                }
                6 => {
                    // the edge itself in place of the destination
                    let n = step(&mut ex.rng, &c).pack();
                    (n & !(15 << 59)) | 2 << 59 | (1 + ex.rng.below(6)) << 56
                }
                7 => {
                    // same digits, other base cell
                    (h & !(127 << 45)) | ex.rng.below(122) << 45
                }
                _ => {
                    // same base cell, one digit changed
                    let r = 1 + ex.rng.below(15);
                    h ^ (1 + ex.rng.below(7)) << (3 * (15 - r))
                }
            };
            ex.case(1, &[h, x]);
            let mut x = hostile(&mut ex.rng);
            if x >> 59 & 15 == 2 {
                x ^= 1 << (59 + ex.rng.below(4));
            }
            ex.case(2, &[x]);
        }
    }
    fn exhaustive_note(&self) -> &'static str {
        "all ordered pairs of base cells; every cell and its surroundings to two steps at resolutions 0..=3 (quick) or 0..=5 (thorough)"
    }
}
fn main() {
    h3mon::mon::main(C)
}
