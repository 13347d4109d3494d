//! C05: exactly the well-formed indexes are valid cells.
use h3mon::gen::*;
use h3mon::mon::*;
use h3_rs::h3_index::isValidCell;

struct C;
/// The format, written as an arithmetic grammar (no shared code or tables).
fn spec(h: u64) -> Result<(), usize> {
    if h / (1 << 63) != 0 {
        return Err(0);
    }
    let head = h / (1 << 52) % (1 << 11);
    if head / (1 << 7) != 1 {
        return Err(1); // mode
    }
    if head / 16 % 8 != 0 {
        return Err(2); // reserved
    }
    let (res, bc) = (head % 16, h / (1 << 45) % 128);
    if bc > 121 {
        return Err(3);
    }
    let mut lead = 0;
    for r in 1..=15u32 {
        let d = h / 8u64.pow(15 - r) % 8;
        if r as u64 <= res {
            if d == 7 {
                return Err(4);
            }
            if lead == 0 {
                lead = d;
            }
        } else if d != 7 {
            return Err(5);
        }
    }
    if lead == 1 && PENTS.contains(&(bc as u8)) {
        return Err(6);
    }
    Ok(())
}
impl Check for C {
    const ID: &'static str = "C05";
    const KINDS: &'static [&'static str] = &["index"];
    const COUNTERS: &'static [&'static str] = &[
        "invalid: high bit", "invalid: mode", "invalid: reserved bits", "invalid: base cell", "invalid: digit 7 within the resolution",
        "invalid: digit beyond the resolution", "invalid: deleted subsequence of a pentagon", "valid", "one bit from a valid cell",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];
    const RULE: &'static str = "arbitrary 64-bit values: random, sparse and dense words, valid cells, valid cells with one or two bits \
        flipped (all 64 single flips of a base set), every header value (12 high bits x base cell), digits 7 or in-range digits at every \
        position, deleted pentagon subsequences at every depth; the oracle is an arithmetic grammar of the format; every case is non-trivial";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        o.calls += 1;
        o.nontrivial = true;
        let want = spec(h);
        let got = isValidCell(h);
        if got != want.is_ok() {
            return Err(format!("{h:#x} is reported {}, the format says {}", if got { "valid" } else { "invalid" }, match want {
                Ok(()) => "valid".to_string(),
                Err(i) => Self::COUNTERS[i].to_string(),
            }));
        }
        o.hit(want.err().unwrap_or(7));
        if c.n == 2 {
            o.hit(8);
        }
        if o.want_note {
            o.note = format!("valid={got}");
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(1400, 8192) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        match i {
            0 => {
                // every header over the emptiest and fullest digits
                for top in 0..1u64 << 12 {
                    for bc in 0..128u64 {
                        for t in [0u64, 1, (1 << 45) - 1, 0o111111111111111, 0o666666666666666] {
                            ex.case(0, &[top << 52 | bc << 45 | t]);
                        }
                        // the digits this resolution asks for
                        let r = (top & 15) as u32;
                        let t = (1u64 << (45 - 3 * r)) - 1;
                        ex.case(0, &[top << 52 | bc << 45 | t]);
                        ex.case(0, &[top << 52 | bc << 45 | t | (1u64 << 45) - (1 << (45 - 3 * r)) & 0o222222222222222]);
                    }
                }
            }
            1 => {
                // one odd digit out, at every position, over every (base cell, resolution)
                for bc in 0..128u64 {
                    for r in 0..=15u64 {
                        for fill in 0..8u64 {
                            let mut h = 1u64 << 59 | r << 52 | bc << 45;
                            for q in 1..=15u64 {
                                h |= (if q <= r { fill } else { 7 }) << (3 * (15 - q));
                            }
                            ex.case(0, &[h]);
                            for q in 1..=15u64 {
                                for d in 0..8u64 {
                                    let s = 3 * (15 - q);
                                    ex.case(0, &[h & !(7 << s) | d << s]);
                                }
                            }
                        }
                    }
                }
            }
            2 => {
                for d in dictionary() {
                    ex.case(0, &[*d]);
                    for b in 0..64 {
                        ex.case(0, &[d ^ 1 << b]);
                    }
                }
            }
            _ => {
                for _ in 0..600 {
                    let h = any_cell(&mut ex.rng).pack();
                    ex.case(0, &[h]);
                    for b in 0..64 {
                        ex.case(0, &[h ^ 1 << b, b]);
                    }
                }
                for _ in 0..60_000 {
                    let h = hostile(&mut ex.rng);
                    ex.case(0, &[h]);
                }
            }
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
