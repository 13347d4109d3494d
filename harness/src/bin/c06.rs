//! C06: bit fields of an index are read and written independently.
use h3mon::gen::*;
use h3mon::mon::*;
use h3_rs::h3_index::*;

struct C;
const FIELDS: [(&str, u32, u32); 6] = [("high bit", 63, 1), ("mode", 59, 4), ("reserved", 56, 3), ("resolution", 52, 4), ("base cell", 45, 7), ("digit", 0, 3)];
fn bits(h: u64, off: u32, w: u32) -> u64 {
    ((h as u128 >> off) % (1u128 << w)) as u64
}
impl Check for C {
    const ID: &'static str = "C06";
    const KINDS: &'static [&'static str] = &["get", "set", "init", "zero"];
    const COUNTERS: &'static [&'static str] = &[
        "set high bit", "set mode", "set reserved", "set resolution", "set base cell", "set digit", "reads", "initialisations",
        "digit ranges cleared", "empty digit ranges",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
    const RULE: &'static str = "`get`: all fields of an arbitrary word, against the documented layout; `set` (word, field, position, value): the \
        field reads back, every other bit is unchanged; `init` (old word, resolution, base cell, digit): the index is exactly that; `zero` (word, \
        start, end): exactly those digits are cleared; all positions and values in range; every case is non-trivial";
    const ASSUMPTIONS: &'static [&'static str] = &["values are within the width of the field they are written to"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let h = c.a[0];
        o.nontrivial = true;
        match c.kind {
            0 => {
                o.calls += 21;
                o.hit(6);
                let g = [
                    H3_GET_HIGH_BIT(h) as i64,
                    H3_GET_MODE(h) as i64,
                    H3_GET_RESERVED_BITS(h) as i64,
                    H3_GET_RESOLUTION(h) as i64,
                    H3_GET_BASE_CELL(h) as i64,
                ];
                for k in 0..5 {
                    if g[k] != bits(h, FIELDS[k].1, FIELDS[k].2) as i64 {
                        return Err(format!("{} of {h:#x} reads {}", FIELDS[k].0, g[k]));
                    }
                }
                if getResolution(h) as i64 != g[3] {
                    return Err(format!("getResolution({h:#x}) = {}", getResolution(h)));
                }
                for r in 1..=15 {
                    let d = H3_GET_INDEX_DIGIT(h, r) as i32 as i64;
                    if d != bits(h, 45 - 3 * r as u32, 3) as i64 {
                        return Err(format!("digit {r} of {h:#x} reads {d}"));
                    }
                }
                if o.want_note {
                    o.note = format!("{g:?}");
                }
            }
            1 => {
                o.calls += 1;
                let (f, pos, v) = (c.a[1] as usize, c.a[2] as i32, c.a[3]);
                o.hit(f);
                let mut x = h;
                match f {
                    0 => H3_SET_HIGH_BIT(&mut x, v as i32),
                    1 => H3_SET_MODE(&mut x, v as i32),
                    2 => H3_SET_RESERVED_BITS(&mut x, v as i32),
                    3 => H3_SET_RESOLUTION(&mut x, v as i32),
                    4 => H3_SET_BASE_CELL(&mut x, v as i32),
                    _ => H3_SET_INDEX_DIGIT(&mut x, pos, v as i32),
                }
                let (off, w) = if f == 5 { (45 - 3 * pos as u32, 3) } else { (FIELDS[f].1, FIELDS[f].2) };
                // rebuild from the three parts
                let hi = if off + w == 64 { 0 } else { h >> (off + w) << (off + w) };
                let lo = h % (1u64 << off);
                let want = hi + (v << off) + lo;
                if x != want {
                    return Err(format!("setting {} (position {pos}) of {h:#x} to {v} gives {x:#x}, expected {want:#x}", FIELDS[f].0));
                }
                if o.want_note {
                    o.note = format!("{x:#x}");
                }
            }
            2 => {
                o.calls += 1;
                o.hit(7);
                let (r, bc, d) = (c.a[1], c.a[2], c.a[3]);
                let mut x = h;
                setH3Index(&mut x, r as i32, bc as i32, d as i32);
                let mut want = (1 << 59) + (r << 52) + (bc << 45);
                for q in 1..=15 {
                    want += (if q <= r { d } else { 7 }) << (45 - 3 * q);
                }
                if x != want {
                    return Err(format!("initialising (resolution {r}, base cell {bc}, digit {d}) over {h:#x} gives {x:#x}, expected {want:#x}"));
                }
                if o.want_note {
                    o.note = format!("{x:#x}");
                }
            }
            _ => {
                o.calls += 1;
                let (s, e) = (c.a[1] as i32, c.a[2] as i32);
                o.hit(if s <= e { 8 } else { 9 });
                let x = _zeroIndexDigits(h, s, e);
                let mut want = h;
                for q in s..=e {
                    let off = 45 - 3 * q as u32;
                    want -= bits(h, off, 3) << off;
                }
                if x != want {
                    return Err(format!("clearing digits {s}..={e} of {h:#x} gives {x:#x}, expected {want:#x}"));
                }
                if o.want_note {
                    o.note = format!("{x:#x}");
                }
            }
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(1400, 5600) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let word = |rng: &mut Rng| match rng.below(5) {
            0 => rng.next(),
            1 => any_cell(rng).pack(),
            2 => rng.pick(&[0, u64::MAX, 1 << 63, 0x7fff_ffff_ffff_ffff, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa]),
            _ => hostile(rng),
        };
        if i == 0 {
            for h in [0, u64::MAX, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa, 0x8928308280fffff] {
                ex.case(0, &[h]);
                for f in 0..6u64 {
                    for pos in if f == 5 { 1..=15u64 } else { 1..=1 } {
                        for v in 0..1u64 << FIELDS[f as usize].2 {
                            ex.case(1, &[h, f, pos, v]);
                        }
                    }
                }
                for r in 0..=15u64 {
                    for bc in 0..128u64 {
                        for d in 0..8 {
                            ex.case(2, &[h, r, bc, d]);
                        }
                    }
                }
                for s in 1..=15u64 {
                    for e in 0..=15u64 {
                        ex.case(3, &[h, s, e]);
                    }
                }
                ex.case(3, &[h, 16, 15]);
            }
        }
        for _ in 0..25_000 {
            let h = word(&mut ex.rng);
            ex.case(0, &[h]);
            let f = ex.rng.below(6);
            let (p, v) = (1 + ex.rng.below(15), ex.rng.below(1 << FIELDS[f as usize].2));
            ex.case(1, &[h, f, p, v]);
            let (r, b, d) = (ex.rng.below(16), ex.rng.below(128), ex.rng.below(8));
            ex.case(2, &[h, r, b, d]);
            let (s, e) = (1 + ex.rng.below(15), ex.rng.below(16));
            ex.case(3, &[h, s, e]);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
