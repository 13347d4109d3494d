//! C17: the edges leaving a cell are its neighbours, one slot per direction.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::directed_edge::{cellsToDirectedEdge, getDirectedEdgeDestination, getDirectedEdgeOrigin, isValidDirectedEdge, originToDirectedEdges};

struct C;
const EX: [usize; 2] = [5, 7];
impl Check for C {
    const ID: &'static str = "C17";
    const KINDS: &'static [&'static str] = &["edges"];
    const COUNTERS: &'static [&'static str] = &[
        "edges compared", "pentagon origins", "hexagon origins in pentagon base cells", "hexagon origins", "origins next to a pentagon",
        "destinations in another base cell", "resolution 15 origins",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6];
    const RULE: &'static str = "a case is a cell: six slots are returned, slot i is null exactly for the first slot of a pentagon and otherwise the valid \
        edge with direction i+1, equal to the edge built from the two cells; the destinations are pairwise different and exactly the neighbours in the \
        reference grid; every cell of resolutions 0..=5 (quick) or 0..=7 (thorough) and random cells of all resolutions; non-trivial always";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        let cell = Cell::parse(h).ok_or("harness: not a cell")?;
        let m = model();
        o.nontrivial = true;
        o.calls += 1;
        let es = originToDirectedEdges(h);
        if es.len() != 6 {
            return Err(format!("{} slots", es.len()));
        }
        let mut dst = [0u64; 6];
        let mut nextpent = false;
        for i in 0..6 {
            let e = es[i];
            if i == 0 && cell.is_pentagon() {
                if e != 0 {
                    return Err(format!("the deleted edge of pentagon {h:#x} is {e:#x}, not null"));
                }
                continue;
            }
            let want = (h & !(15 << 59) & !(7 << 56)) | 2 << 59 | (i as u64 + 1) << 56;
            if e != want {
                return Err(format!("edge slot {i} of {h:#x} is {e:#x}, not {want:#x}"));
            }
            if !isValidDirectedEdge(e) {
                return Err(format!("edge slot {i} of {h:#x}, {e:#x}, is not a valid edge"));
            }
            if getDirectedEdgeOrigin(e) != Ok(h) {
                return Err(format!("edge slot {i} of {h:#x}, {e:#x}, has another origin"));
            }
            let n = m.neighbour(&cell, i as u8 + 1).ok_or("harness: no neighbour")?;
            let d = match getDirectedEdgeDestination(e) {
                Ok(d) if d == n.pack() => d,
                d => return Err(format!("edge slot {i} of {h:#x}, {e:#x}, leads to {d:x?}, not to the neighbour {:#x}", n.pack())),
            };
            if cellsToDirectedEdge(h, d) != Ok(e) {
                return Err(format!("edge slot {i} of {h:#x}, {e:#x}, is not the edge from {h:#x} to {d:#x}: {:x?}", cellsToDirectedEdge(h, d)));
            }
            o.calls += 4;
            o.hit(0);
            dst[i] = d;
            nextpent |= n.is_pentagon();
            if n.bc != cell.bc {
                o.hit(5);
            }
        }
        for i in 0..6 {
            for j in 0..i {
                if dst[i] == dst[j] {
                    return Err(format!("edge slots {j} and {i} of {h:#x} lead to the same cell {:#x}", dst[i]));
                }
            }
        }
        o.hit(if cell.is_pentagon() {
            1
        } else if m.pent[cell.bc as usize] {
            2
        } else {
            3
        });
        if nextpent {
            o.hit(4);
        }
        if cell.res == 15 {
            o.hit(6);
        }
        if o.want_note {
            o.note = format!("{} edges, to all neighbours", if cell.is_pentagon() { 5 } else { 6 });
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 * (EX[t as usize] + 1) + t.n(3000, 12000) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let er = EX[ex.tier as usize];
        let (w, i) = split(i, &[122 * (er + 1), usize::MAX / 2]);
        if w == 0 {
            for_cells((i % 122) as u8, er - i / 122, |c| ex.case(0, &[c.pack()]));
            return;
        }
        if i == 0 {
            for c in dictionary_cells() {
                ex.case(0, &[c.pack()]);
            }
            for r in 0..16 {
                for b in PENTS {
                    ex.case(0, &[Cell::new(b, r).pack()]);
                }
            }
        }
        for _ in 0..8_000 {
            let c = any_cell(&mut ex.rng);
            ex.case(0, &[c.pack()]);
        }
    }
    fn exhaustive_note(&self) -> &'static str {
        "origins of resolutions 0..=5 in quick, 0..=7 in thorough; all 192 pentagons"
    }
}
fn main() {
    h3mon::mon::main(C)
}
