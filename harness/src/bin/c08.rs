//! C08: the children of a cell are enumerated completely, in order, once each.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::h3_index::cellToChildren;
use h3_rs::iterators::IterCellsChildren;

struct C;
/// Walk the descendants of c at resolution r in index order, calling f until it says stop.
fn descend(c: &Cell, r: usize, mut f: impl FnMut(u64) -> bool) {
    let mut x = *c;
    x.res = r as u8;
    for q in c.res as usize + 1..=r {
        x.d[q] = 0;
    }
    let pent = c.is_pentagon();
    let p = c.res as usize;
    let shift = 45 - 3 * r as u64;
    loop {
        // the last digit runs through the children of one parent
        let first = x.pack();
        let deleted = pent && r > p && (p + 1..r).all(|t| x.d[t] == 0);
        for d in 0..if r > p { 7 } else { 1 } {
            if !(d == 1 && deleted) && !f(first + (d << shift)) {
                return;
            }
        }
        if r == p {
            return;
        }
        let mut q = r - 1;
        loop {
            if q <= p {
                return;
            }
            x.d[q] += 1;
            if pent && x.d[q] == 1 && (p + 1..q).all(|t| x.d[t] == 0) {
                x.d[q] = 2;
            }
            if x.d[q] < 7 {
                break;
            }
            x.d[q] = 0;
            q -= 1;
        }
    }
}
/// Take `pre` steps, then consume the rest in another way; all must agree with the odometer.
fn adapters(cell: &Cell, r: usize, pre: usize, op: u64, w: u64, o: &mut Obs) -> Verdict {
    let h = cell.pack();
    let mut want = vec![];
    descend(cell, r, |x| {
        want.push(x);
        true
    });
    o.hit(11);
    o.calls += want.len() as u64;
    let new = || IterCellsChildren::from_parent(h, r as i32);
    let mut it = new();
    for i in 0..pre {
        if it.next() != want.get(i).copied() {
            return Err(format!("child {i} of {h:#x} at resolution {r} is wrong"));
        }
    }
    let rest = &want[pre.min(want.len())..];
    let bad = |what: &str, e: String, g: String| Err(format!("{h:#x}, resolution {r}, after {pre} steps: {what} is {e}, got {g}"));
    macro_rules! same {
        ($what:expr, $e:expr, $g:expr) => {{
            let (e, g) = ($e, $g);
            if e != g {
                return bad($what, format!("{e:x?}"), format!("{g:x?}"));
            }
        }};
    }
    match op {
        0 => {
            // jumps of different lengths, to the end and past it
            let mut rng = Rng::new(w, 8);
            let mut at = 0usize;
            for _ in 0..40 {
                let n = match rng.below(4) {
                    0 => rng.below(3),
                    1 => rng.below(20),
                    2 => [6, 7, 8, 48, 49, 50, 342, 343, 344][rng.below(9) as usize],
                    _ => rng.below(rest.len() as u64 + 3),
                } as usize;
                o.hit(if at + n < rest.len() { 13 } else { 14 });
                same!(&format!("what nth({n}) gives at {at}"), rest.get(at + n).copied(), it.nth(n));
                at = (at + n + 1).min(rest.len());
                if rng.chance(1, 2) {
                    same!(&format!("the next child at {at}"), rest.get(at).copied(), it.next());
                    at = (at + 1).min(rest.len());
                }
            }
        }
        1 => {
            let (a, b) = ((w % (rest.len() as u64 + 9)) as usize, 1 + (w >> 32) as usize % 60);
            let e: Vec<u64> = rest.iter().copied().skip(a).step_by(b).collect();
            same!(&format!("skip({a}).step_by({b})"), e, it.skip(a).step_by(b).collect::<Vec<_>>());
        }
        2 => same!("the count", rest.len(), it.count()),
        3 => same!("the last child", rest.last().copied(), it.last()),
        4 => {
            // every size hint on the way
            let mut left = rest.len();
            loop {
                let (lo, hi) = it.size_hint();
                o.hit(12);
                if lo > left || hi.map_or(false, |x| x < left) {
                    return bad("the number of children left", left.to_string(), format!("the hint ({lo}, {hi:?})"));
                }
                if it.next().is_none() {
                    break;
                }
                left = left.saturating_sub(1);
            }
        }
        5 => {
            let e = rest.iter().fold(0u64, |a, x| a.rotate_left(7) ^ x);
            same!("the fold", e, it.fold(0u64, |a, x| a.rotate_left(7) ^ x));
            let mut n = 0usize;
            let mut ok = true;
            new().for_each(|x| {
                ok &= want.get(n) == Some(&x);
                n += 1;
            });
            same!("for_each", (true, want.len()), (ok, n));
        }
        6 => {
            // two iterators in turn, of this cell and of the same cell again
            let mut other = new();
            for (i, x) in rest.iter().enumerate() {
                same!("a child", Some(*x), it.next());
                same!("a child of the second iterator", want.get(i).copied(), other.next());
            }
            same!("the end", None::<u64>, it.next());
            let left: Vec<u64> = other.collect();
            same!("the rest of the second iterator", want[rest.len().min(want.len())..].to_vec(), left);
        }
        7 => {
            let n = (w % (rest.len() as u64 + 2)) as usize;
            let a: Vec<u64> = it.by_ref().take(n).collect();
            same!("take", rest[..n.min(rest.len())].to_vec(), a);
            same!("the rest after take", rest[n.min(rest.len())..].to_vec(), it.by_ref().collect::<Vec<_>>());
            for _ in 0..3 {
                same!("the end", None::<u64>, it.next());
                same!("nth after the end", None::<u64>, it.nth(n));
                o.hit(9);
            }
        }
        _ => {
            same!("the smallest", rest.iter().copied().min(), it.min());
            same!("the largest", want.iter().copied().max(), new().max());
            let x = want[(w % want.len() as u64) as usize];
            same!("its position", want.iter().position(|y| *y == x), new().position(|y| y == x));
            same!("find", Some(x), new().find(|y| *y == x));
            same!("all different from null", true, new().all(|y| y != 0));
        }
    }
    Ok(())
}
impl Check for C {
    const ID: &'static str = "C08";
    const KINDS: &'static [&'static str] = &["list", "iterate", "prefix", "none", "adapters"];
    const COUNTERS: &'static [&'static str] = &[
        "children compared", "hexagon parents", "pentagon parents", "hexagon parents of pentagon base cells", "same resolution",
        "gap 1-3", "gap 4-6", "gap 7+", "out-of-range resolutions", "iterator polled after its end", "resolution 15 reached",
        "iterators consumed through adapters", "size hints compared", "jumps with nth", "jumps past the end",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];
    const RULE: &'static str = "a case is (cell, child resolution): `list` compares the whole returned list, `iterate` the whole iterator including \
        repeated polls after its end, `prefix` the first entries for gaps too wide to enumerate, `none` child resolutions that do not exist, `adapters` a few steps followed by another way of consuming the rest (nth, skip, step_by, count, last, fold, two \
        iterators in turn, size hints, polls after the end); the \
        oracle is an odometer over the digits that skips the deleted subsequence of pentagons; non-trivial when the child resolution differs";
    const ASSUMPTIONS: &'static [&'static str] = &["gaps above 9 (quick) or 10 (thorough) are compared on a prefix only, of up to 300 million (quick) or 2100 million (thorough) children"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        let cell = Cell::parse(h).ok_or("harness: not a cell")?;
        let r = c.a[1] as i64 as i32;
        let gap = r - cell.res as i32;
        o.nontrivial = gap != 0;
        if c.kind == 3 {
            o.calls += 2;
            o.hit(8);
            let n = match cellToChildren(h, r) {
                Ok(v) => v.len(),
                Err(_) => 0,
            };
            let it = IterCellsChildren::from_parent(h, r).take(3).count();
            if n != 0 || it != 0 {
                return Err(format!("{h:#x} has children ({n}, {it}) at resolution {r}"));
            }
            return Ok(());
        }
        if c.kind == 4 {
            return adapters(&cell, r as usize, c.a[2] as usize, c.a[3], c.a[4], o);
        }
        o.calls += 1;
        o.hit(if cell.is_pentagon() {
            2
        } else if model().pent[cell.bc as usize] {
            3
        } else {
            1
        });
        o.hit(match gap {
            0 => 4,
            1..=3 => 5,
            4..=6 => 6,
            _ => 7,
        });
        if r == 15 {
            o.hit(10);
        }
        let mut n = 0u64;
        let mut bad = None;
        let limit = if c.kind == 2 { c.a[2] } else { u64::MAX };
        if c.kind == 0 {
            let v = match cellToChildren(h, r) {
                Ok(v) => v,
                Err(e) => return Err(format!("children of {h:#x} at resolution {r}: {e:?}")),
            };
            let mut it = v.iter();
            descend(&cell, r as usize, |w| {
                let g = it.next().copied();
                if g != Some(w) {
                    bad = Some((n, w, g));
                    return false;
                }
                n += 1;
                true
            });
            if bad.is_none() && it.next().is_some() {
                return Err(format!("{h:#x} has {} children at resolution {r}, {} are listed", n, v.len()));
            }
        } else {
            let mut it = IterCellsChildren::from_parent(h, r);
            let mut stopped = false;
            descend(&cell, r as usize, |w| {
                if n == limit {
                    stopped = true;
                    return false;
                }
                let g = it.next();
                if g != Some(w) {
                    bad = Some((n, w, g));
                    return false;
                }
                n += 1;
                true
            });
            if bad.is_none() && !stopped {
                for _ in 0..4 {
                    o.hit(9);
                    if let Some(g) = it.next() {
                        return Err(format!("{h:#x}, resolution {r}: the iterator gives {g:#x} after its {n} children"));
                    }
                }
            }
        }
        o.add(0, n);
        if let Some((i, w, g)) = bad {
            return Err(format!("child {i} of {h:#x} at resolution {r} should be {w:#x}, got {g:x?}"));
        }
        if o.want_note {
            o.note = format!("{n} children agree");
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(4000, 4800) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i < 12 {
            // every pentagon of this base cell, every gap that can be enumerated
            for p in 0..16usize {
                let c = Cell::new(PENTS[i], p);
                for r in p..=15 {
                    let g = r - p;
                    if g <= 6 || (g <= 8 && (p + i) % 12 == 3) {
                        ex.case(1, &[c.pack(), r as u64]);
                    }
                    if g <= 5 {
                        ex.case(0, &[c.pack(), r as u64]);
                    }
                    if g > 6 {
                        ex.case(2, &[c.pack(), r as u64, 3000]);
                    }
                }
            }
        } else if i < 16 {
            let r0 = any_res(&mut ex.rng).min(7);
            let c = uniform(&mut ex.rng, r0);
            ex.case(1, &[c.pack(), r0 as u64 + 8]);
            // whole lists and iterations of many millions
            let pick = |ex: &mut Exec<Self>, pent: bool, r: usize| if pent { Cell::new(ex.rng.pick(&PENTS), r) } else { uniform(&mut ex.rng, r) };
            let r = ex.rng.below(8) as usize;
            let c = pick(ex, i % 2 == 0, r);
            ex.case(0, &[c.pack(), r as u64 + 8]);
            let r = ex.rng.below(7) as usize;
            let c = pick(ex, i % 2 == 1, r);
            ex.case((i / 2) % 2, &[c.pack(), r as u64 + 9]);
            // deep carries: a long prefix of the widest gaps
            for pent in [false, true] {
                let r = ex.rng.below(3) as usize;
                let c = pick(ex, pent, r);
                let n = ex.tier.n(300_000_000, 2_100_000_000);
                let to = 15 - ex.rng.below(2);
                ex.case(2, &[c.pack(), to, n]);
            }
            if ex.tier == Tier::Thorough {
                let r = ex.rng.below(6) as usize;
                let c = pick(ex, i % 2 == 0, r);
                ex.case((i == 12) as usize ^ 1, &[c.pack(), r as u64 + 10]);
            }
        } else if i == 16 {
            for c in dictionary_cells() {
                for r in c.res as u64..=15 {
                    if r - c.res as u64 <= 4 {
                        ex.case(0, &[c.pack(), r]);
                    }
                }
            }
        } else if i < 140 {
            // every resolution-0..3 cell, one to two levels down
            let bc = (i - 17) as u8;
            if bc < 122 {
                for r in 0..4usize {
                    for_cells(bc, r, |c| {
                        for g in 0..=2u64 {
                            ex.case(((c.d[r] as u64 + g) % 2) as usize, &[c.pack(), r as u64 + g]);
                        }
                    });
                }
            }
        }
        for _ in 0..400 {
            let c = if ex.rng.chance(1, 4) {
                let r = any_res(&mut ex.rng);
                Cell::new(ex.rng.pick(&PENTS), r)
            } else {
                any_cell(&mut ex.rng)
            };
            let left = 15 - c.res as u64;
            let g = match ex.rng.below(20) {
                0 => ex.rng.below(7),
                1..=4 => ex.rng.below(6),
                _ => ex.rng.below(5),
            }
            .min(left);
            let k = ex.rng.below(2) as usize;
            ex.case(k, &[c.pack(), c.res as u64 + g]);
            let g = ex.rng.below(left + 1);
            ex.case(2, &[c.pack(), c.res as u64 + g, 500]);
            let g = ex.rng.below(5).min(left);
            let size = 7u64.pow(g as u32);
            let pre = if ex.rng.chance(1, 2) { 0 } else { ex.rng.below(size + 2) };
            let (op, w) = (ex.rng.below(9), ex.rng.next());
            ex.case(4, &[c.pack(), c.res as u64 + g, pre, op, w]);
            let bad = match ex.rng.below(4) {
                0 => c.res as i64 - 1 - ex.rng.below(20) as i64,
                1 => 16 + ex.rng.below(40) as i64,
                2 => (ex.rng.next() as i32 | i32::MIN) as i64,
                _ => ((ex.rng.next() as i32) & i32::MAX).max(16) as i64,
            };
            ex.case(3, &[c.pack(), bad as u64]);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
