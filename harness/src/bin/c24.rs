//! C24: rotating an index turns every digit, and undoes itself.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::h3_index::{_h3LeadingNonZeroDigit, _h3Rotate60ccw, _h3Rotate60cw, _h3RotatePent60ccw, _h3RotatePent60cw, isPentagon, isValidCell};

struct C;
fn turn(c: &Cell, n: i32) -> Cell {
    let mut x = *c;
    for r in 1..=c.res as usize {
        x.d[r] = rot_digit(c.d[r], n);
    }
    x
}
/// the pentagonal turn: one step, and one more if that lands in the deleted sector
fn pent_turn(c: &Cell, s: i32) -> Cell {
    let x = turn(c, s);
    if x.lead() == 1 {
        turn(c, 2 * s)
    } else {
        x
    }
}
impl Check for C {
    const ID: &'static str = "C24";
    const KINDS: &'static [&'static str] = &["hexagonal", "pentagonal"];
    const COUNTERS: &'static [&'static str] = &[
        "hexagonal turns", "pentagonal turns", "pentagonal turns that skip the deleted sector", "cells with leading zeros", "centre cells (unchanged)", "resolution 0",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5];
    const RULE: &'static str = "`hexagonal` (cell): one turn in either direction changes every digit of the resolution by 60 degrees and nothing else, the two \
        directions undo each other, and six turns are the identity; `pentagonal` (cell of a pentagon base cell): one turn permutes the five remaining \
        sectors, the result is again a valid cell, the two directions undo each other and five turns are the identity; the oracle turns digits as angles in \
        the reference grid; non-trivial when some digit is not zero";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        let cell = Cell::parse(h).ok_or("harness: not a cell")?;
        let lead = cell.lead();
        o.nontrivial = lead != 0;
        if lead == 0 {
            o.hit(4);
        } else if cell.d[1] == 0 {
            o.hit(3);
        }
        if cell.res == 0 {
            o.hit(5);
        }
        if _h3LeadingNonZeroDigit(h) as u8 != lead {
            return Err(format!("the leading digit of {h:#x} is {lead}, not {}", _h3LeadingNonZeroDigit(h) as u8));
        }
        let pent = c.kind == 1;
        let (ccw, cw): (fn(u64) -> u64, fn(u64) -> u64) = if pent { (_h3RotatePent60ccw, _h3RotatePent60cw) } else { (_h3Rotate60ccw, _h3Rotate60cw) };
        let n = if pent { 5 } else { 6 };
        for (f, g, s, name) in [(ccw, cw, 1, "counter-clockwise"), (cw, ccw, -1, "clockwise")] {
            let mut x = h;
            let mut w = cell;
            for k in 1..=n {
                let y = f(x);
                let t = if pent { pent_turn(&w, s) } else { turn(&w, s) };
                if y != t.pack() {
                    return Err(format!("{x:#x} turned {name} is {y:#x}, not {:#x}", t.pack()));
                }
                if g(y) != x {
                    return Err(format!("{x:#x} turned {name} and back is {:#x}", g(y)));
                }
                if pent {
                    if !isValidCell(y) || isPentagon(y) != (lead == 0) {
                        return Err(format!("{x:#x} turned {name} about the pentagon is {y:#x}, which is no such cell"));
                    }
                    o.hit(1);
                    if turn(&w, s).lead() == 1 {
                        o.hit(2);
                    }
                } else {
                    o.hit(0);
                }
                o.calls += 2;
                if k == n && y != h {
                    return Err(format!("{h:#x} turned {name} {n} times is {y:#x}"));
                }
                x = y;
                w = t;
            }
        }
        if o.want_note {
            o.note = format!("{n} turns each way");
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 + t.n(3200, 12800) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let pent = |c: &Cell| model().pent[c.bc as usize];
        if i < 122 {
            for r in 0..=if ex.tier == Tier::Thorough { 6 } else { 4 } {
                for_cells(i as u8, r, |c| {
                    ex.case(0, &[c.pack()]);
                    if pent(c) {
                        ex.case(1, &[c.pack()]);
                    }
                });
            }
            return;
        }
        if i == 122 {
            for c in dictionary_cells() {
                ex.case(0, &[c.pack()]);
                if pent(&c) {
                    ex.case(1, &[c.pack()]);
                }
            }
        }
        for _ in 0..7_000 {
            let mut c = any_cell(&mut ex.rng);
            ex.case(0, &[c.pack()]);
            c.bc = ex.rng.pick(&PENTS);
            if c.lead() == 1 {
                for r in 1..=c.res as usize {
                    if c.d[r] != 0 {
                        c.d[r] = 2 + ex.rng.below(5) as u8;
                        break;
                    }
                }
            }
            ex.case(1, &[c.pack()]);
        }
    }
    fn exhaustive_note(&self) -> &'static str {
        "every cell of resolutions 0..=4 (quick) or 0..=6 (thorough)"
    }
}
fn main() {
    h3mon::mon::main(C)
}
