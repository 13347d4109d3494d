//! C26: the cells of a point at different resolutions nest, up to the border.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::h3_index::latLngToCell;
use h3_rs::lat_lng::LatLng;

struct C;
/// the ancestor of a cell, from its digits
fn up(c: &Cell, r: usize) -> Cell {
    let mut p = Cell::new(c.bc, r);
    for i in 1..=r {
        p.d[i] = c.d[i];
    }
    p
}
impl Check for C {
    const ID: &'static str = "C26";
    const KINDS: &'static [&'static str] = &["point"];
    const COUNTERS: &'static [&'static str] = &[
        "the ancestor is the coarser cell", "the ancestor is a neighbour of it", "in or next to a pentagon", "ancestor in another base cell",
        "ancestor reached over several resolutions without being the coarser cell",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4];
    const RULE: &'static str = "a case is a point, encoded at all 16 resolutions: for every pair of resolutions the ancestor (by digits) of the finer cell is the \
        coarser cell or shares a border with it in the reference grid; points are uniform, near cell borders and corners, icosahedron edges, vertices, \
        face centres, poles and the antimeridian; every case is non-trivial";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let g = LatLng { lat: b2f(c.a[0]), lng: b2f(c.a[1]) };
        let m = model();
        o.nontrivial = true;
        let mut v: Vec<Cell> = vec![];
        for r in 0..16 {
            o.calls += 1;
            let h = latLngToCell(&g, r).map_err(|e| format!("({:?}, {:?}) does not encode at resolution {r}: {e:?}", g.lat, g.lng))?;
            let x = Cell::parse(h).filter(|x| x.res as i32 == r);
            v.push(x.ok_or_else(|| format!("({:?}, {:?}) encodes to {h:#x} at resolution {r}", g.lat, g.lng))?);
        }
        for r in 0..15 {
            let a = v[r];
            let mut near: Option<Vec<Cell>> = None;
            for q in r + 1..16 {
                let b = up(&v[q], r);
                if b == a {
                    o.hit(0);
                    continue;
                }
                let n = near.get_or_insert_with(|| m.neighbours(&a));
                if !n.contains(&b) {
                    return Err(format!(
                        "({:?}, {:?}) encodes to {:#x} at resolution {r} and to {:#x} at resolution {q}, below {:#x}, which is no neighbour of the first",
                        g.lat, g.lng, a.pack(), v[q].pack(), b.pack()
                    ));
                }
                o.hit(1);
                if n.len() < 6 || n.iter().any(|x| x.is_pentagon()) {
                    o.hit(2);
                }
                if b.bc != a.bc {
                    o.hit(3);
                }
                if q > r + 1 {
                    o.hit(4);
                }
            }
        }
        if o.want_note {
            o.note = format!("{:#x} at resolution 15", v[15].pack());
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(900, 8000) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i < 122 {
            for r in 0..=3 {
                for_cells(i as u8, r, |c| {
                    for _ in 0..8 {
                        let (a, b) = v_to_ll(&point_in_cell(&mut ex.rng, c));
                        ex.case(0, &[f2b(a), f2b(b)]);
                    }
                });
            }
        }
        for _ in 0..8000 {
            let r = any_res(&mut ex.rng);
            let (a, b) = any_point(&mut ex.rng, r);
            ex.case(0, &[f2b(a), f2b(b)]);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
