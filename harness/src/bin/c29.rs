//! C29: the classifying predicates give the documented answer for every argument.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::base_cells::{_isBaseCellPentagon, _isBaseCellPolarPentagon};
use h3_rs::h3_index::{_h3LeadingNonZeroDigit, _hasChildAtRes, cellToLatLng, isResolutionClassIII};

struct C;
impl Check for C {
    const ID: &'static str = "C29";
    const KINDS: &'static [&'static str] = &["integer", "integers", "base cell", "word"];
    const COUNTERS: &'static [&'static str] = &[
        "integers classified", "pentagon base cells", "polar pentagons", "base cells located", "class III resolutions 0 to 15", "words with a leading digit", "words without one",
        "child resolutions accepted", "child resolutions refused", "words that are no cells",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
    const RULE: &'static str = "`integer(s)`: any 32-bit integer as base cell number and as resolution: pentagon base cells are the twelve of the reference grid, polar ones those \
        whose five neighbours all meet the pentagon in their own i direction, class III resolutions are the odd numbers (of either sign); `base cell`: a base cell is a pentagon exactly if its \
        centre is an icosahedron vertex; `word`: any 64-bit value and resolution: the leading digit is the first non-zero one up to the resolution, or 0, and child resolutions are those \
        from its own to 15; every 32-bit integer is run; every case is non-trivial";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let m = model();
        o.nontrivial = true;
        match c.kind {
            0 | 1 => {
                let n = if c.kind == 0 { 1 } else { c.a[1] };
                for i in 0..n {
                    let x = (c.a[0] as i64 + i as i64) as i32;
                    let pent = x >= 0 && x < 122 && m.pent[x as usize];
                    if _isBaseCellPentagon(x) != pent {
                        return Err(format!("base cell {x} is {}called a pentagon", if pent { "not " } else { "" }));
                    }
                    let polar = pent && polar(x as usize);
                    if _isBaseCellPolarPentagon(x) != polar {
                        return Err(format!("base cell {x} is {}called a polar pentagon", if polar { "not " } else { "" }));
                    }
                    if isResolutionClassIII(x) != (x & 1 == 1) {
                        return Err(format!("resolution {x} is wrongly classified"));
                    }
                    if pent {
                        o.hit(1);
                    }
                    if polar {
                        o.hit(2);
                    }
                    if (0..16).contains(&x) && x & 1 == 1 {
                        o.hit(4);
                    }
                }
                o.calls += 3 * n;
                o.add(0, n);
            }
            2 => {
                // by geometry alone: icosahedron vertices are where five faces are equally near
                let b = c.a[0] as usize;
                let h = Cell::new(b as u8, 0).pack();
                let g = cellToLatLng(h).map_err(|e| format!("{h:#x} does not decode: {e:?}"))?;
                let v = ll_to_v(g.lat, g.lng);
                let mut d: Vec<f64> = m.frames.iter().map(|f| ang(&v, &f.c)).collect();
                d.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let vertex = d[4] - d[0] < 1e-9;
                o.calls += 2;
                o.hit(3);
                if _isBaseCellPentagon(b as i32) != vertex {
                    return Err(format!("base cell {b} {} on an icosahedron vertex, but is {}called a pentagon", if vertex { "lies" } else { "does not lie" }, if vertex { "not " } else { "" }));
                }
            }
            _ => {
                let (h, r) = (c.a[0], c.a[1] as i64 as i32);
                let res = (h >> 52 & 15) as i32;
                let mut lead = 0;
                for i in 1..=res {
                    lead = h >> (3 * (15 - i)) & 7;
                    if lead != 0 {
                        break;
                    }
                }
                let got = _h3LeadingNonZeroDigit(h) as u64;
                if got != lead {
                    return Err(format!("the leading digit of {h:#x} is {lead}, reported {got}"));
                }
                let can = r >= res && r <= 15;
                if _hasChildAtRes(h, r) != can {
                    return Err(format!("{h:#x} {} children at resolution {r}", if can { "is denied" } else { "is promised" }));
                }
                o.calls += 2;
                o.hit(if lead != 0 { 5 } else { 6 });
                o.hit(if can { 7 } else { 8 });
                if Cell::parse(h).is_none() {
                    o.hit(9);
                }
            }
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(2048, 8192) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i == 0 {
            for x in -70_000i64..70_000 {
                ex.case(0, &[x as u64]);
            }
            for p in 0..32 {
                for d in -300i64..=300 {
                    ex.case(0, &[((1i64 << p) + d) as i32 as i64 as u64]);
                    ex.case(0, &[(-(1i64 << p) + d) as i32 as i64 as u64]);
                }
            }
            for b in 0..122 {
                ex.case(2, &[b]);
            }
            for d in dictionary() {
                ex.case(0, &[*d as i32 as i64 as u64]);
                for r in -1i64..17 {
                    ex.case(3, &[*d, r as u64]);
                }
            }
        }
        // every 32-bit integer
        let per = (1u64 << 32) / ex.tier.n(2048, 8192);
        let lo = (i32::MIN as i64 + (i as u64 * per) as i64) as u64;
        ex.case(1, &[lo, per]);
        for _ in 0..10_000 {
            let h = match ex.rng.below(3) {
                0 => ex.rng.next(),
                1 => hostile(&mut ex.rng),
                _ => any_cell(&mut ex.rng).pack(),
            };
            let r = match ex.rng.below(8) {
                0 => ex.rng.next() as i32 as i64,
                1 => (h >> 52 & 15) as i64 + 256 * (ex.rng.below(9) as i64 - 4),
                _ => ex.rng.below(19) as i64 - 1,
            };
            ex.case(3, &[h, r as u64]);
        }
    }
    fn exhaustive_note(&self) -> &'static str {
        "every 32-bit integer as base cell number and resolution"
    }
}
/// all five neighbours point at the pentagon with their i axis
fn polar(b: usize) -> bool {
    let m = model();
    let p = Cell::new(b as u8, 0);
    m.neighbours(&p).iter().all(|n| m.neighbour(n, 4) == Some(p))
}
fn main() {
    h3mon::mon::main(C)
}
