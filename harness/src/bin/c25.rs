//! C25: the promised disk size is exact, capped, and never too small.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::algos::{gridDiskDistances, maxGridDiskSize};

struct C;
/// all cells of the finest resolution
const ALL: u128 = 569_707_381_193_162;
fn spec(k: u64) -> u128 {
    (3 * k as u128 * (k as u128 + 1) + 1).min(ALL)
}
impl Check for C {
    const ID: &'static str = "C25";
    const KINDS: &'static [&'static str] = &["size", "range", "disk"];
    const COUNTERS: &'static [&'static str] =
        &["sizes compared", "sizes at the cap", "consecutive pairs compared", "disks held against the size", "disks that fill the size exactly", "disks smaller than the size"];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5];
    const RULE: &'static str = "`size` (k) and `range` (first k, count): the promised size equals 3k(k+1)+1, never more than the number of cells of the finest \
        resolution, and never decreases with k; around every power of two, the cap, and the ends of the range, and in blocks over the whole range of k \
        (every k); `disk` (cell, k): the real disk never exceeds the promised size, and equals it when no pentagon is in it; non-trivial when k > 0";
    const ASSUMPTIONS: &'static [&'static str] = &["64-bit usize"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let one = |k: u64, o: &mut Obs| -> Result<u128, String> {
            let got = maxGridDiskSize(k as u32) as u128;
            let want = spec(k);
            if got != want {
                return Err(format!("the disk size promised for k = {k} is {got}, not {want}"));
            }
            o.calls += 1;
            o.hit(0);
            if want == ALL {
                o.hit(1);
            }
            Ok(got)
        };
        match c.kind {
            0 => {
                o.nontrivial = c.a[0] > 0;
                let g = one(c.a[0], o)?;
                if o.want_note {
                    o.note = format!("{g}");
                }
            }
            1 => {
                o.nontrivial = true;
                let mut last = 0;
                for k in c.a[0]..(c.a[0] + c.a[1]).min(1 << 32) {
                    let g = one(k, o)?;
                    if g < last {
                        return Err(format!("the disk size promised for k = {k} is {g}, less than for k = {}", k - 1));
                    }
                    last = g;
                    o.hit(2);
                }
                if o.want_note {
                    o.note = format!("up to {last}");
                }
            }
            _ => {
                let (h, k) = (c.a[0], c.a[1] as u32);
                let cell = Cell::parse(h).ok_or("harness: not a cell")?;
                o.nontrivial = k > 0;
                o.calls += 2;
                let max = maxGridDiskSize(k) as u64;
                let n = match gridDiskDistances(h, k) {
                    Ok(v) => v.len() as u64,
                    Err(e) => return Err(format!("the disk of {h:#x}, k = {k}, is an error: {e:?}")),
                };
                if n > max {
                    return Err(format!("the disk of {h:#x}, k = {k}, has {n} cells, {max} are promised at most"));
                }
                let b = ball(&cell, k);
                let p = b.iter().any(|x| is_pent_index(x.0));
                if !p && b.len() as u64 == spec(k as u64) as u64 && n != max {
                    return Err(format!("the disk of {h:#x}, k = {k}, has no pentagon and {n} cells, {max} are promised"));
                }
                o.hit(3);
                o.hit(if n == max { 4 } else { 5 });
                if o.want_note {
                    o.note = format!("{n} of at most {max}");
                }
            }
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        2 + t.n(4096, 16384) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let total = 1u64 << 32;
        match i {
            0 => {
                for s in 0..33u32 {
                    for d in -600i64..600 {
                        let k = (1i64 << s) + d;
                        if (0..total as i64).contains(&k) {
                            ex.case(0, &[k as u64]);
                        }
                    }
                }
                for k in 13_780_509u64 - 3000..13_780_509 + 3000 {
                    ex.case(0, &[k]);
                }
                for d in dictionary() {
                    for e in 0..3 {
                        let k = d.wrapping_add(e).wrapping_sub(1);
                        if k < total {
                            ex.case(0, &[k]);
                        }
                    }
                }
                ex.case(1, &[0, 1 << 20]);
                ex.case(1, &[13_780_509 - (1 << 18), 1 << 19]);
                ex.case(1, &[total - (1 << 18), 1 << 18]);
            }
            1 => {
                for c in dictionary_cells() {
                    for k in 0..5 {
                        ex.case(2, &[c.pack(), k]);
                    }
                }
                for b in 0..122 {
                    for k in 0..14 {
                        ex.case(2, &[Cell::new(b, 0).pack(), k]);
                    }
                }
            }
            _ => {
                let n = ex_chunks(ex.tier);
                let block = total / n;
                let first = (i as u64 - 2) * block;
                for j in 0..16 {
                    ex.case(1, &[first + j * block / 16, block / 16 + 1]);
                }
                for _ in 0..60 {
                    let c = any_cell(&mut ex.rng);
                    let k = if ex.rng.chance(1, 20) { ex.rng.below(24) } else { ex.rng.below(7) };
                    ex.case(2, &[c.pack(), k]);
                }
            }
        }
    }
    fn exhaustive_note(&self) -> &'static str {
        "the promised size for all 2^32 values of k"
    }
}
fn ex_chunks(t: Tier) -> u64 {
    t.n(4096, 16384)
}
fn main() {
    h3mon::mon::main(C)
}
