//! C10: position among the children <-> child is a bijection.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::error::Error;
use h3_rs::h3_index::{cellToChildren, childPosToCell, validateChildPos};

struct C;
/// number of descendants `gap` levels down
fn count(pent: bool, gap: u32) -> i64 {
    let (mut h, mut p) = (1i64, 1i64);
    for _ in 0..gap {
        p += 5 * h;
        h *= 7;
    }
    if pent {
        p
    } else {
        h
    }
}
/// the pos-th descendant, by walking down and skipping whole subtrees
fn kth(c: &Cell, r: usize, mut pos: i64) -> Cell {
    let mut x = *c;
    let mut pent = c.is_pentagon();
    for q in c.res as usize + 1..=r {
        x.res = q as u8;
        for d in 0..7u8 {
            if pent && d == 1 {
                continue;
            }
            let sub = pent && d == 0;
            let n = count(sub, (r - q) as u32);
            if pos < n {
                x.d[q] = d;
                pent = sub;
                break;
            }
            pos -= n;
        }
    }
    x
}
impl Check for C {
    const ID: &'static str = "C10";
    const KINDS: &'static [&'static str] = &["position", "all", "refuse"];
    const COUNTERS: &'static [&'static str] = &[
        "hexagon parent", "pentagon parent", "hexagon parent of a pentagon base cell", "gap 1-5", "gap 6-11", "gap 12-15", "last position",
        "first position of a subtree", "positions checked against the enumerated list", "negative position refused", "position past the end refused",
        "resolution outside 0..=15 refused", "resolution coarser than the parent refused",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
    const RULE: &'static str = "`position` (parent, child resolution, position): first, last, subtree boundaries and random positions at every gap up to \
        15, against a walk that skips whole subtrees; `all`: every position of a gap up to 5, against the list the enumeration returns; `refuse`: \
        positions outside the range and resolutions that do not exist; non-trivial when the child resolution differs from the parent's";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        let cell = Cell::parse(h).ok_or("harness: not a cell")?;
        let r = c.a[1] as i64 as i32;
        let pos = c.a[2] as i64;
        let gap = r as i64 - cell.res as i64;
        o.nontrivial = gap != 0;
        let kind = if cell.is_pentagon() {
            1
        } else if model().pent[cell.bc as usize] {
            2
        } else {
            0
        };
        match c.kind {
            0 => {
                o.calls += 2;
                let want = kth(&cell, r as usize, pos).pack();
                if let Err(e) = validateChildPos(pos, h, r) {
                    return Err(format!("position {pos} of {h:#x} at resolution {r} does not validate: {e:?}"));
                }
                match childPosToCell(pos, h, r) {
                    Ok(x) if x == want => {}
                    g => return Err(format!("child {pos} of {h:#x} at resolution {r} is {want:#x}, got {g:x?}")),
                }
                o.hit(kind);
                o.hit(match gap {
                    0..=5 => 3,
                    6..=11 => 4,
                    _ => 5,
                });
                if pos == count(kind == 1, gap as u32) - 1 {
                    o.hit(6);
                }
                if c.n == 4 {
                    o.hit(7);
                }
                if o.want_note {
                    o.note = format!("child {pos} is {want:#x}");
                }
            }
            1 => {
                let v = match cellToChildren(h, r) {
                    Ok(v) => v,
                    Err(e) => return Err(format!("children of {h:#x} at {r}: {e:?}")),
                };
                for (i, w) in v.iter().enumerate() {
                    o.calls += 1;
                    o.hit(8);
                    match childPosToCell(i as i64, h, r) {
                        Ok(x) if x == *w => {}
                        g => return Err(format!("child {i} of {h:#x} at resolution {r}: listed {w:#x}, by position {g:x?}")),
                    }
                }
                o.hit(kind);
                match childPosToCell(v.len() as i64, h, r) {
                    Err(Error::Domain) => {}
                    g => return Err(format!("position {} of {h:#x} at resolution {r} (one past the list): {g:x?}", v.len())),
                }
            }
            _ => {
                o.calls += 2;
                let g = childPosToCell(pos, h, r);
                let v = validateChildPos(pos, h, r);
                let ok = if !(0..=15).contains(&r) {
                    o.hit(11);
                    g == Err(Error::ResDomain) && v == Err(Error::ResDomain)
                } else if gap < 0 {
                    o.hit(12);
                    g == Err(Error::ResMismatch) && v == Err(Error::ResDomain)
                } else {
                    o.hit(if pos < 0 { 9 } else { 10 });
                    g == Err(Error::Domain) && v == Err(Error::Domain)
                };
                if !ok {
                    return Err(format!("position {pos} of {h:#x} at resolution {r}: {g:x?}, validation {v:?}"));
                }
                if o.want_note {
                    o.note = format!("{g:?}");
                }
            }
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(2048, 8192) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let ends = |ex: &mut Exec<Self>, c: &Cell| {
            for r in c.res as usize..=15 {
                let gap = (r - c.res as usize) as u32;
                let n = count(c.is_pentagon(), gap);
                ex.case(0, &[c.pack(), r as u64, 0]);
                ex.case(0, &[c.pack(), r as u64, n as u64 - 1]);
                // each subtree border, one level down and two
                let mut at = 0i64;
                for d in 0..7 {
                    if c.is_pentagon() && d == 1 || gap == 0 {
                        continue;
                    }
                    let w = count(c.is_pentagon() && d == 0, gap - 1);
                    ex.case(0, &[c.pack(), r as u64, at as u64, 1]);
                    ex.case(0, &[c.pack(), r as u64, (at + w - 1) as u64]);
                    if gap >= 2 {
                        let z = count(c.is_pentagon() && d == 0, gap - 2);
                        ex.case(0, &[c.pack(), r as u64, (at + z) as u64]);
                        ex.case(0, &[c.pack(), r as u64, (at + z - 1) as u64]);
                    }
                    at += w;
                }
                for p in [-1, i64::MIN, i64::MIN + 1, n, n + 1, i64::MAX, n | 1 << 40, n | 1 << 62] {
                    if p < 0 || p >= n {
                        ex.case(2, &[c.pack(), r as u64, p as u64]);
                    }
                }
            }
        };
        if i < 12 {
            for r in 0..16 {
                let c = Cell::new(PENTS[i], r);
                ends(ex, &c);
                for g in 0..=5 {
                    if r + g <= 15 {
                        ex.case(1, &[c.pack(), (r + g) as u64]);
                    }
                }
            }
        } else if i == 12 {
            for c in dictionary_cells() {
                ends(ex, &c);
            }
        }
        for _ in 0..1000 {
            let c = if ex.rng.chance(1, 3) {
                let r = any_res(&mut ex.rng);
                let s = ex.rng.below(2);
                near_pentagon(&mut ex.rng, r, s)
            } else {
                any_cell(&mut ex.rng)
            };
            if ex.rng.chance(1, 8) {
                ends(ex, &c);
            }
            for r in c.res as usize..=15 {
                let n = count(c.is_pentagon(), (r - c.res as usize) as u32);
                let p = match ex.rng.below(4) {
                    0 => ex.rng.below(n as u64),
                    1 => (ex.rng.next() >> ex.rng.below(63)) % n as u64,
                    2 => n as u64 - 1 - (ex.rng.next() >> ex.rng.below(63)) % n as u64,
                    _ => (7u64.pow(ex.rng.below(16) as u32).wrapping_add(ex.rng.below(3)).wrapping_sub(1)) % n as u64,
                };
                ex.case(0, &[c.pack(), r as u64, p]);
            }
            let g = ex.rng.below(4).min(15 - c.res as u64);
            if ex.rng.chance(1, 4) {
                ex.case(1, &[c.pack(), c.res as u64 + g]);
            }
            for bad in [ex.rng.range(-40, -1), ex.rng.range(16, 60), ex.rng.next() as i32 as i64, c.res as i64 - 1] {
                if bad > 15 || bad < c.res as i64 {
                    let p = ex.rng.below(3);
                    ex.case(2, &[c.pack(), bad as u64, p]);
                }
            }
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
