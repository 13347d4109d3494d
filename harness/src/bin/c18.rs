//! C18: exactly the well-formed edge indexes are valid edges.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::directed_edge::isValidDirectedEdge;

struct C;
/// 0 = valid, otherwise the reason (a counter number)
fn spec(h: u64) -> usize {
    if h >> 59 & 15 != 2 {
        return 1;
    }
    let d = h >> 56 & 7;
    if d == 0 {
        return 2;
    }
    if d == 7 {
        return 3;
    }
    let o = (h & !(15 << 59) & !(7 << 56)) | 1 << 59;
    match Cell::parse(o) {
        None if h >> 63 != 0 => 4,
        None => 5,
        Some(c) if c.is_pentagon() && d == 1 => 6,
        Some(_) => 0,
    }
}
impl Check for C {
    const ID: &'static str = "C18";
    const KINDS: &'static [&'static str] = &["edge"];
    const COUNTERS: &'static [&'static str] = &[
        "valid", "invalid: mode", "invalid: direction 0", "invalid: direction 7", "invalid: high bit", "invalid: origin is not a cell",
        "invalid: deleted direction of a pentagon", "one bit from a valid edge", "valid edges of a pentagon",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];
    const RULE: &'static str = "arbitrary 64-bit values: every (mode, direction, high bit) over every kind of origin cell, valid edges with each of the 64 \
        bits flipped, edge-mode versions of nearly valid cells, every header value, random words; the oracle is the grammar of the format on the reference \
        parser; non-trivial always";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        o.calls += 1;
        o.nontrivial = true;
        let w = spec(h);
        let got = isValidDirectedEdge(h);
        if got != (w == 0) {
            return Err(format!("{h:#x} is reported {}, the format says {}", if got { "a valid edge" } else { "no valid edge" }, Self::COUNTERS[w]));
        }
        o.hit(w);
        if c.n == 2 {
            o.hit(7);
        }
        if w == 0 && Cell::parse((h & !(15 << 59) & !(7 << 56)) | 1 << 59).map_or(false, |c| c.is_pentagon()) {
            o.hit(8);
        }
        if o.want_note {
            o.note = format!("{}", Self::COUNTERS[w]);
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(1600, 8192) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let edge = |h: u64, d: u64| (h & !(15 << 59) & !(7 << 56)) | 2 << 59 | d << 56;
        match i {
            0 => {
                for top in 0..1u64 << 12 {
                    for bc in 0..128u64 {
                        let r = (top & 15) as u32;
                        let t = (1u64 << (45 - 3 * r)) - 1;
                        ex.case(0, &[top << 52 | bc << 45 | t]);
                        ex.case(0, &[top << 52 | bc << 45 | t | (1u64 << 45) - (1 << (45 - 3 * r)) & 0o222222222222222]);
                        ex.case(0, &[top << 52 | bc << 45]);
                    }
                }
            }
            1 => {
                for bc in 0..128u64 {
                    for r in 0..=15u64 {
                        for fill in 0..8u64 {
                            let mut h = 2u64 << 59 | r << 52 | bc << 45;
                            for q in 1..=15u64 {
                                h |= (if q <= r { fill } else { 7 }) << (3 * (15 - q));
                            }
                            for q in 1..=15u64 {
                                for d in 0..8u64 {
                                    let s = 3 * (15 - q);
                                    let x = h & !(7 << s) | d << s;
                                    ex.case(0, &[x | 1 << 56]);
                                    ex.case(0, &[x | (2 + (q + d) % 5) << 56]);
                                }
                            }
                        }
                    }
                }
            }
            2 => {
                for x in dictionary() {
                    ex.case(0, &[*x]);
                    for d in 0..8 {
                        ex.case(0, &[edge(*x, d)]);
                    }
                    for b in 0..64 {
                        ex.case(0, &[x ^ 1 << b]);
                    }
                }
                for r in 0..16 {
                    for b in 0..122 {
                        let h = Cell::new(b, r).pack();
                        for m in 0..16 {
                            for d in 0..8 {
                                let x = (h & !(15 << 59)) | m << 59 | d << 56;
                                ex.case(0, &[x]);
                                ex.case(0, &[x | 1 << 63]);
                            }
                        }
                    }
                }
            }
            _ => {
                for _ in 0..300 {
                    let c = any_cell(&mut ex.rng);
                    let d = 1 + ex.rng.below(6);
                    if c.is_pentagon() && d == 1 {
                        continue;
                    }
                    let h = edge(c.pack(), d);
                    ex.case(0, &[h]);
                    for b in 0..64 {
                        ex.case(0, &[h ^ 1 << b, b]);
                    }
                    for m in 0..16 {
                        ex.case(0, &[(h & !(15 << 59)) | m << 59]);
                    }
                }
                for _ in 0..30_000 {
                    let h = hostile(&mut ex.rng);
                    ex.case(0, &[h]);
                    let d = ex.rng.below(8);
                    ex.case(0, &[edge(h, d)]);
                }
            }
        }
    }
    fn exhaustive_note(&self) -> &'static str {
        "all 2^19 headers over three digit patterns; all (mode, direction, high bit) over the centre cell of every base cell and resolution"
    }
}
fn main() {
    h3mon::mon::main(C)
}
