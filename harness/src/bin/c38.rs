//! C38: descendants fill one contiguous range of indexes, split alike at every level.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::base_cells::getRes0Cells;
use h3_rs::h3_index::{cellToChildren, cellToChildrenSize, childPosToCell};

struct C;
/// the ancestor of h at resolution r, by the format
fn cut(h: u64, r: u64) -> u64 {
    h & !(15 << 52) | r << 52 | ((1 << (3 * (15 - r))) - 1)
}
fn size(h: u64, r: i32) -> Result<i64, String> {
    cellToChildrenSize(h, r).map_err(|e| format!("the number of children of {h:#x} at resolution {r}: {e:?}"))
}
fn child(n: i64, h: u64, r: i32) -> Result<u64, String> {
    childPosToCell(n, h, r).map_err(|e| format!("child {n} of {h:#x} at resolution {r}: {e:?}"))
}
impl Check for C {
    const ID: &'static str = "C38";
    const KINDS: &'static [&'static str] = &["range", "split", "globe"];
    const COUNTERS: &'static [&'static str] = &[
        "descendants found by binary search", "other cells not found", "cells just outside the range", "children whose ranges join", "pentagons split", "hexagons split",
        "binary search steps", "globes put together",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7];
    const RULE: &'static str = "`range` (ancestor, resolution, cell of that resolution): the cell is between the first and the last child position exactly when the ancestor is its own, and a binary \
        search over the positions finds it exactly then; `split` (cell, middle, fine resolution): the ranges of the cell's children at the middle resolution follow one another, \
        adding up to its own range; `globe` (resolution): those of the base cells do; non-trivial when the resolutions differ";
    const ASSUMPTIONS: &'static [&'static str] = &["cells are split over at most five levels at once"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        match c.kind {
            0 => {
                let (r, x) = (c.a[1] as i32, c.a[2]);
                let n = size(h, r)?;
                let (lo, hi) = (child(0, h, r)?, child(n - 1, h, r)?);
                o.calls += 3;
                o.nontrivial = r as u64 != h >> 52 & 15;
                let own = cut(x, h >> 52 & 15) == h;
                if (lo..=hi).contains(&x) != own {
                    return Err(format!("the descendants of {h:#x} at resolution {r} go from {lo:#x} to {hi:#x}; {x:#x} is {}one", if own { "" } else { "not " }));
                }
                // the first position whose cell is not less than x
                let (mut a, mut b) = (0, n);
                let mut last = None;
                while a < b {
                    let mid = a + (b - a) / 2;
                    let y = child(mid, h, r)?;
                    o.calls += 1;
                    o.hit(6);
                    if let Some((m, z)) = last {
                        if (mid < m) != (y < z) {
                            return Err(format!("the children {mid} and {m} of {h:#x} at resolution {r} are out of order: {y:#x}, {z:#x}"));
                        }
                    }
                    last = Some((mid, y));
                    if y < x {
                        a = mid + 1;
                    } else {
                        b = mid;
                    }
                }
                let found = a < n && child(a, h, r)? == x;
                if found != own {
                    return Err(format!("{x:#x} is {}found among the children of {h:#x} at resolution {r}", if found { "" } else { "not " }));
                }
                o.hit(if own { 0 } else { 1 });
                if !own && c.n == 4 {
                    o.hit(2);
                }
                if o.want_note {
                    o.note = format!("found: {found}");
                }
            }
            1 => {
                let (m, r) = (c.a[1] as i32, c.a[2] as i32);
                o.nontrivial = r > m && m as u64 > h >> 52 & 15;
                let n = size(h, r)?;
                let parts = cellToChildren(h, m).map_err(|e| format!("children of {h:#x} at resolution {m}: {e:?}"))?;
                let mut at = 0;
                for p in &parts {
                    let s = size(*p, r)?;
                    o.calls += 5;
                    o.hit(3);
                    for (i, j) in [(at, 0), (at + s - 1, s - 1), (at + s / 3, s / 3)] {
                        let (x, y) = (child(i, h, r)?, child(j, *p, r)?);
                        if x != y {
                            return Err(format!("resolution {r}: child {i} of {h:#x} is {x:#x}, but child {j} of its child {p:#x} is {y:#x}"));
                        }
                    }
                    at += s;
                }
                if at != n {
                    return Err(format!("{h:#x} has {n} descendants at resolution {r}, its children at resolution {m} have {at}"));
                }
                o.hit(if is_pent_index(h) { 4 } else { 5 });
            }
            _ => {
                let r = c.a[1] as i32;
                o.nontrivial = true;
                let mut last = 0;
                let mut all = 0i64;
                for b in getRes0Cells().map_err(|e| format!("no base cells: {e:?}"))? {
                    let n = size(b, r)?;
                    let (lo, hi) = (child(0, b, r)?, child(n - 1, b, r)?);
                    o.calls += 3;
                    if lo <= last || hi < lo {
                        return Err(format!("resolution {r}: the descendants of {b:#x}, {lo:#x} to {hi:#x}, begin before the end of the last range, {last:#x}"));
                    }
                    last = hi;
                    all += n;
                }
                if all != 2 + 120 * 7i64.pow(r as u32) {
                    return Err(format!("the base cells have {all} descendants of resolution {r}"));
                }
                o.hit(7);
            }
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 + t.n(1000, 10000) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let split = |ex: &mut Exec<Self>, c: &Cell| {
            let p = c.res as u64;
            let m = p + ex.rng.below(16 - p).min(1 + ex.rng.below(4));
            let r = m + ex.rng.below(16 - m);
            ex.case(1, &[c.pack(), m, r]);
        };
        let range = |ex: &mut Exec<Self>, c: &Cell| {
            let p = c.res as usize;
            let r = p + ex.rng.below(16 - p as u64) as usize;
            // a descendant: first, last, or random digits below
            let mut x = *c;
            x.res = r as u8;
            let how = ex.rng.below(4);
            for q in p + 1..=r {
                x.d[q] = match how {
                    0 => 0,
                    1 => 6,
                    2 if q == r || ex.rng.chance(1, 2) => ex.rng.below(7) as u8,
                    2 => 0,
                    _ => ex.rng.below(7) as u8,
                };
            }
            if let Some(x) = Cell::parse(x.pack()) {
                ex.case(0, &[c.pack(), r as u64, x.pack()]);
                // among the descendants of a cell beside its ancestor
                let other = match ex.rng.below(3) {
                    0 => any_cell_at(&mut ex.rng, p),
                    1 => step(&mut ex.rng, c),
                    _ => uniform(&mut ex.rng, p),
                };
                ex.case(0, &[other.pack(), r as u64, x.pack()]);
            }
            // just outside the range
            let h = c.pack();
            let first = h & !((1 << 45 - 3 * p) - 1);
            let last = h | ((1 << 45 - 3 * p) - 1);
            for edge in [first.wrapping_sub(1), last.wrapping_add(1)] {
                let base = edge >> 45 & 127;
                if base >= 122 {
                    continue;
                }
                // the nearest valid cell of resolution r on that side
                let mut y = Cell::new(base as u8, r);
                for q in 1..=r {
                    let d = (edge >> (3 * (15 - q)) & 7) as u8;
                    y.d[q] = if d == 7 { 6 } else { d };
                }
                if let Some(y) = Cell::parse(y.pack()) {
                    ex.case(0, &[h, r as u64, y.pack(), 1]);
                }
            }
        };
        if i < 122 {
            for r in 0..=4usize {
                for_cells(i as u8, r, |c| {
                    split(ex, c);
                    range(ex, c);
                });
            }
            if i == 0 {
                for r in 0..16 {
                    ex.case(2, &[0, r]);
                }
            }
            return;
        }
        for _ in 0..60 {
            let c = any_cell(&mut ex.rng);
            split(ex, &c);
        }
        for _ in 0..1000 {
            let c = any_cell(&mut ex.rng);
            range(ex, &c);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
