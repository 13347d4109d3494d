//! C09: the number of children is exact for every resolution gap.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::error::Error;
use h3_rs::h3_index::{_hasChildAtRes, cellToChildrenSize};

struct C;
/// (hexagon, pentagon) child counts by the recurrence hex' = 7 hex, pent' = pent + 5 hex
fn counts(gap: i32) -> (i128, i128) {
    let (mut h, mut p) = (1i128, 1i128);
    for _ in 0..gap {
        p += 5 * h;
        h *= 7;
    }
    (h, p)
}
impl Check for C {
    const ID: &'static str = "C09";
    const KINDS: &'static [&'static str] = &["count", "globe"];
    const COUNTERS: &'static [&'static str] = &[
        "hexagon", "pentagon", "hexagon of a pentagon base cell", "gap 0", "gap 1-11", "gap 12-15", "finer than 15, refused",
        "coarser than the cell, refused", "whole-globe totals",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];
    const RULE: &'static str = "`count` (cell, child resolution): all resolutions -2..=18 and extreme integers for every cell of resolutions 0..=3, \
        every pentagon and random cells; the oracle is the recurrence hex' = 7 hex, pent' = pent + 5 hex in 128 bits; `globe` sums all cells of \
        resolution a over their children at b against 2 + 120*7^b; non-trivial when the child resolution differs from the cell's";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        if c.kind == 1 {
            let (a, b) = (c.a[0] as usize, c.a[1] as i32);
            let mut sum = 0i128;
            let mut err = None;
            for bc in 0..122 {
                for_cells(bc, a, |x| {
                    o.calls += 1;
                    match cellToChildrenSize(x.pack(), b) {
                        Ok(n) => sum += n as i128,
                        Err(e) => err = Some(format!("{:#x} at {b}: {e:?}", x.pack())),
                    }
                });
            }
            if let Some(e) = err {
                return Err(e);
            }
            o.nontrivial = true;
            o.hit(8);
            let want = num_cells(b as usize) as i128;
            if sum != want {
                return Err(format!("the children at resolution {b} of all resolution {a} cells number {sum}, the globe has {want}"));
            }
            return Ok(());
        }
        let h = c.a[0];
        let cell = Cell::parse(h).ok_or("harness: not a cell")?;
        let r = c.a[1] as i64 as i32;
        o.calls += 2;
        let gap = r as i64 - cell.res as i64;
        o.nontrivial = gap != 0;
        let got = cellToChildrenSize(h, r);
        let can = _hasChildAtRes(h, r);
        let ok = gap >= 0 && r <= 15;
        if can != ok {
            return Err(format!("{h:#x} {} said to have children at resolution {r}", if can { "is" } else { "is not" }));
        }
        if o.want_note {
            o.note = format!("{got:?}");
        }
        if !ok {
            o.hit(if gap < 0 { 7 } else { 6 });
            return if got == Err(Error::ResDomain) { Ok(()) } else { Err(format!("{h:#x} at resolution {r}: {got:?}")) };
        }
        let (hx, pt) = counts(gap as i32);
        let want = if cell.is_pentagon() { pt } else { hx };
        match got {
            Ok(n) if n as i128 == want => {}
            g => return Err(format!("{h:#x} has {want} children at resolution {r}, reported {g:?}")),
        }
        o.hit(if cell.is_pentagon() {
            1
        } else if model().pent[cell.bc as usize] {
            2
        } else {
            0
        });
        o.hit(match gap {
            0 => 3,
            1..=11 => 4,
            _ => 5,
        });
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(1024, 4096) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let ext = [i32::MIN, -1000, 1000, i32::MAX, i32::MAX - 1, 31, 32, 256 + 5];
        let all = |ex: &mut Exec<Self>, c: &Cell| {
            for r in (-2..=18).chain(ext) {
                ex.case(0, &[c.pack(), r as i64 as u64]);
            }
        };
        if i < 122 {
            for r in 0..=3 {
                for_cells(i as u8, r, |c| all(ex, c));
            }
        } else if i == 122 {
            for bc in PENTS {
                for r in 0..16 {
                    all(ex, &Cell::new(bc, r));
                }
            }
            for c in dictionary_cells() {
                all(ex, &c);
            }
        } else if i < 139 {
            let b = (i - 123) as u64;
            for a in 0..=b.min(3) {
                ex.case(1, &[a, b]);
            }
        }
        for _ in 0..2500 {
            let c = if ex.rng.chance(1, 3) {
                let r = any_res(&mut ex.rng);
                near_pentagon(&mut ex.rng, r, 1)
            } else {
                any_cell(&mut ex.rng)
            };
            all(ex, &c);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
