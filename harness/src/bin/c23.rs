//! C23: walking with carried rotations keeps its heading.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::algos::h3NeighborRotations;
use h3_rs::h3_index::H3_GET_INDEX_DIGIT;

struct C;
/// one step in a heading, given as the digit of the direction at the start
fn go(h: u64, d: u8, rot: &mut i32) -> Result<u64, String> {
    let r0 = *rot;
    match h3NeighborRotations(h, H3_GET_INDEX_DIGIT(d as u64, 15), rot) {
        Ok(x) if (0..6).contains(rot) => Ok(x),
        Ok(x) => Err(format!("the step {d} from {h:#x} after {r0} rotations, to {x:#x}, leaves {rot} rotations")),
        Err(e) => Err(format!("the step {d} from {h:#x} after {r0} rotations is an error: {e:?}")),
    }
}
fn back(d: u8) -> u8 {
    rot_digit(d, 3)
}
impl Check for C {
    const ID: &'static str = "C23";
    const KINDS: &'static [&'static str] = &["line", "word", "loop"];
    const COUNTERS: &'static [&'static str] = &[
        "steps taken", "steps into another base cell", "steps that change the rotations", "straight lines", "words walked in two orders", "closed loops",
        "skipped: a pentagon is near", "walks within a pentagon base cell",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 7];
    const RULE: &'static str = "walks whose surroundings hold no pentagon (breadth-first search in the reference grid), carrying the rotation count from step to step: \
        `line` (cell, length, direction, initial rotations): the k-th cell of a straight line is at distance k, the first is the neighbour in the rotated \
        direction, and walking back meets the same cells with the same rotation counts; `word` (cell, steps): the same steps in reverse order lead to the \
        same cell and count, at the distance of their sum in the flat hexagonal lattice; `loop`: a hexagonal loop ends where it began with count 0; non-trivial unless skipped for \
        a pentagon nearby";
    const ASSUMPTIONS: &'static [&'static str] = &["no pentagon within one step more than the length of the walk: around pentagons headings are not defined"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        let cell = Cell::parse(h).ok_or("harness: not a cell")?;
        let n = c.a[1] as u32;
        let b = if n > 64 { return Err("harness: walk too long".into()) } else { ball(&cell, n + 1) };
        if b.iter().any(|x| is_pent_index(x.0)) {
            o.hit(6);
            return Ok(());
        }
        o.nontrivial = true;
        let mut far: FastMap<u32> = FastMap::default();
        for y in &b {
            far.insert(y.0, y.1);
        }
        let dist = |x: u64| far.get(&x).copied();
        let step = |x: &mut u64, r: &mut i32, d: u8, o: &mut Obs| -> Verdict {
            let (x0, r0) = (*x, *r);
            *x = go(*x, d, r)?;
            o.calls += 1;
            o.hit(0);
            if (x0 ^ *x) >> 45 & 127 != 0 {
                o.hit(1);
            }
            if r0 != *r {
                o.hit(2);
            }
            if model().pent[(*x >> 45 & 127) as usize] {
                o.hit(7);
            }
            Ok(())
        };
        match c.kind {
            0 => {
                let d = c.a[2] as u8;
                let (mut x, mut r) = (h, c.a[3] as i32);
                let mut seen = vec![(x, r)];
                for k in 1..=n {
                    step(&mut x, &mut r, d, o)?;
                    if k == 1 && model().neighbour(&cell, rot_digit(d, c.a[3] as i32)).map(|y| y.pack()) != Some(x) {
                        return Err(format!("the step {d} from {h:#x} after {} rotations leads to {x:#x}", c.a[3]));
                    }
                    if dist(x) != Some(k) {
                        return Err(format!("{k} steps straight in direction {d} from {h:#x} (started with {} rotations) lead to {x:#x}, at distance {:?}", c.a[3], dist(x)));
                    }
                    seen.push((x, r));
                }
                for k in (0..n as usize).rev() {
                    step(&mut x, &mut r, back(d), o)?;
                    if (x, r) != seen[k] {
                        return Err(format!(
                            "walking direction {d} from {h:#x} and back, {k} steps out: at {x:#x} with {r} rotations, was at {:#x} with {}",
                            seen[k].0, seen[k].1
                        ));
                    }
                }
                o.hit(3);
                if o.want_note {
                    o.note = format!("{n} steps to {:#x} and back", seen[n as usize].0);
                }
            }
            1 => {
                // the same steps in two orders
                let w = |i: u32| DIG_OF_ANG[(c.a[2] >> (3 * i) & 7) as usize % 6];
                let (mut x, mut r) = (h, 0);
                let mut z = E::ZERO;
                for i in 0..n {
                    step(&mut x, &mut r, w(i), o)?;
                    z = z.add(DIGIT_VEC[w(i) as usize]);
                }
                let (mut y, mut q) = (h, 0);
                for i in (0..n).rev() {
                    step(&mut y, &mut q, w(i), o)?;
                }
                if (x, r) != (y, q) {
                    return Err(format!("the same {n} steps from {h:#x} in two orders lead to {x:#x} with {r} rotations and {y:#x} with {q}"));
                }
                let E(a, bb) = z;
                let d = a.abs().max(bb.abs()).max((a - bb).abs()) as u32;
                if dist(x) != Some(d) {
                    return Err(format!("{n} steps from {h:#x} that add up to distance {d} lead to {x:#x}, at distance {:?}", dist(x)));
                }
                o.hit(4);
                if o.want_note {
                    o.note = format!("{n} steps to {x:#x}, at distance {d}");
                }
            }
            _ => {
                // a hexagonal loop of side n / 2 around a corner
                let s = n / 2;
                let (mut x, mut r) = (h, 0);
                let a0 = c.a[2] as i32;
                let turn = if c.a[3] == 0 { 1 } else { -1 };
                for t in 0..6 {
                    for _ in 0..s {
                        step(&mut x, &mut r, DIG_OF_ANG[(a0 + turn * t).rem_euclid(6) as usize], o)?;
                    }
                }
                if (x, r) != (h, 0) {
                    return Err(format!("a hexagonal loop of side {s} from {h:#x} ends at {x:#x} with {r} rotations"));
                }
                o.hit(5);
            }
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 + t.n(600, 8192) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i < 122 {
            for r in 1..=if ex.tier == Tier::Thorough { 4 } else { 3 } {
                for_cells(i as u8, r, |c| {
                    for d in 1..7 {
                        ex.case(0, &[c.pack(), 1 + (c.d[r] as u64 + d) % 3, d, (d + c.d[1] as u64) % 6]);
                    }
                    let w = ex.rng.next();
                    ex.case(1, &[c.pack(), 4, w]);
                    ex.case(2, &[c.pack(), 2, w % 6, w >> 63]);
                });
            }
            return;
        }
        for _ in 0..600 {
            let r = any_res(&mut ex.rng);
            let n = match ex.rng.below(10) {
                0 => 8 + ex.rng.below(14),
                1 | 2 => 4 + ex.rng.below(4),
                _ => 1 + ex.rng.below(4),
            };
            let c = match ex.rng.below(3) {
                0 => near_pentagon(&mut ex.rng, r, 3 * n + 4),
                1 => near_base_border(&mut ex.rng, r),
                _ => any_cell_at(&mut ex.rng, r),
            };
            let w = ex.rng.next();
            match ex.rng.below(3) {
                0 => ex.case(0, &[c.pack(), n, 1 + w % 6, (w >> 8) % 6]),
                1 => ex.case(1, &[c.pack(), n.min(20), w]),
                _ => ex.case(2, &[c.pack(), n.max(2), w % 6, w >> 63]),
            }
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
