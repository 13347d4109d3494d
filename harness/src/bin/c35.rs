//! C35: the distances reported by disks are a metric of the grid.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::algos::*;
use h3_rs::directed_edge::*;
use std::collections::HashMap;

struct C;
type Disk = HashMap<u64, u32>;
fn disk(h: u64, k: u32, o: &mut Obs) -> Result<Disk, String> {
    o.calls += 1;
    let v = gridDiskDistances(h, k).map_err(|e| format!("the disk of {k} around {h:#x}: {e:?}"))?;
    let n = v.len();
    let d: Disk = v.into_iter().collect();
    if d.len() != n {
        return Err(format!("the disk of {k} around {h:#x} lists a cell twice"));
    }
    match d.get(&h) {
        Some(0) => Ok(d),
        x => Err(format!("the distance of {h:#x} from itself is {x:?}")),
    }
}
/// cells in order of their index, or None when the disk is refused
fn fast(h: u64, k: u32, o: &mut Obs) -> Result<Option<Vec<(u64, u32)>>, String> {
    o.calls += 1;
    let mut v = match gridDiskDistancesUnsafe(h, k) {
        Ok(v) => v,
        Err(_) => return Ok(None),
    };
    v.sort_unstable();
    if let Some(w) = v.windows(2).find(|w| w[0].0 == w[1].0) {
        return Err(format!("the disk of {k} around {h:#x} lists {:#x} twice", w[0].0));
    }
    Ok(Some(v))
}
fn get(v: &[(u64, u32)], x: u64) -> Option<u32> {
    v.binary_search_by_key(&x, |e| e.0).ok().map(|i| v[i].1)
}
fn wide(h: u64, k: u32, mut rng: Rng, o: &mut Obs) -> Verdict {
    let v = match fast(h, k, o)? {
        Some(v) => v,
        None => {
            o.nontrivial = false;
            return Ok(());
        }
    };
    o.hit(8);
    if k > 1500 {
        o.hit(9);
    }
    // the cells to look at: some at random, and those listed before and after the step from one
    // ring to the next
    let order = gridDiskDistancesUnsafe(h, k).map_err(|e| format!("the disk of {k} around {h:#x} is refused when asked again: {e:?}"))?;
    let mut at: Vec<usize> = (0..1500).map(|_| rng.below(order.len() as u64) as usize).collect();
    let steps: Vec<usize> = (1..order.len()).filter(|&i| order[i].1 != order[i - 1].1).collect();
    for &i in steps.iter().rev().take(200) {
        at.extend([i - 1, i]);
    }
    for _ in 0..200 {
        let i = rng.pick(&steps);
        at.extend([i - 1, i]);
    }
    for i in at {
        let (a, da) = order[i];
        let mut back = da == 0;
        for e in originToDirectedEdges(a) {
            let b = getDirectedEdgeDestination(e).map_err(|x| format!("the destination of {e:#x}: {x:?}"))?;
            o.calls += 1;
            o.hit(3);
            match get(&v, b) {
                Some(db) => {
                    if da.abs_diff(db) > 1 {
                        return Err(format!("neighbours {a:#x} and {b:#x} are at distances {da} and {db} from {h:#x}"));
                    }
                    back |= db + 1 == da;
                }
                None if da < k => return Err(format!("{b:#x}, next to {a:#x} at distance {da} from {h:#x}, is not in the disk of {k}")),
                None => {}
            }
        }
        if !back {
            return Err(format!("{a:#x} is at distance {da} from {h:#x}, and none of its neighbours at {}", da - 1));
        }
    }
    let q = rng.below(k as u64 + 1) as u32;
    let small = fast(h, q, o)?.ok_or(format!("the disk of {q} around {h:#x} is refused, but not that of {k}"))?;
    if !v.iter().filter(|x| x.1 <= q).eq(small.iter()) {
        return Err(format!("around {h:#x} the disk of {q} and the cells within {q} of the disk of {k} are not the same"));
    }
    o.hit(7);
    o.add(0, small.len() as u64);
    let (b, db) = rng.pick(&order);
    if let Some(e) = fast(b, db, o)? {
        if get(&e, h) != Some(db) {
            return Err(format!("{b:#x} is at distance {db} from {h:#x}, but {h:#x} is at {:?} from {b:#x}", get(&e, h)));
        }
        o.hit(1);
        for _ in 0..2000 {
            let (x, dx) = rng.pick(&e);
            match get(&v, x) {
                Some(y) => {
                    o.hit(2);
                    if y > db + dx || dx > db + y || db > y + dx {
                        return Err(format!("{x:#x} is at {y} from {h:#x} and at {dx} from {b:#x}, which are {db} apart"));
                    }
                }
                None if db + dx <= k => return Err(format!("{x:#x} is at {dx} from {b:#x}, itself at {db} from {h:#x}, and not in the disk of {k}")),
                None => {}
            }
        }
    }
    if o.want_note {
        o.note = format!("{} cells", v.len());
    }
    Ok(())
}
impl Check for C {
    const ID: &'static str = "C35";
    const KINDS: &'static [&'static str] = &["disk", "wide"];
    const COUNTERS: &'static [&'static str] = &[
        "distances compared", "symmetric pairs", "triangles", "neighbour pairs", "disks with a pentagon", "disks without", "disks wrapped around the globe",
        "nested disks", "wide disks", "wide disks of more than 1500",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
    const RULE: &'static str = "a case is (cell, k, choice of members): the distances of the disk of k are checked against those of the disks around members of it (symmetry, triangle \
        inequality), of the disks of other sizes around the same cell (nesting), and against the edges of its cells (neighbours differ by at most one, everything at distance d has a \
        neighbour at d - 1); no grid model is involved; `wide` (cell, k, choice): the same for a disk of hundreds or thousands of steps without pentagons, with neighbours sampled, also at both ends of rings; non-trivial when k > 0";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let (h, k, w) = (c.a[0], c.a[1] as u32, c.a[2]);
        let mut rng = Rng::new(w, 35);
        o.nontrivial = k > 0;
        if c.kind == 1 {
            return wide(h, k, rng, o);
        }
        let d = disk(h, k, o)?;
        let mut list: Vec<(u64, u32)> = d.iter().map(|(a, b)| (*a, *b)).collect();
        list.sort();
        o.hit(if list.iter().any(|x| is_pent_index(x.0)) { 4 } else { 5 });
        if list.len() as u64 == num_cells(Cell::parse(h).map_or(0, |c| c.res as usize)) {
            o.hit(6);
        }
        // neighbours, by the edges of every cell of the disk
        for &(a, da) in &list {
            let mut back = da == 0;
            for e in originToDirectedEdges(a) {
                if e == 0 {
                    continue;
                }
                let b = getDirectedEdgeDestination(e).map_err(|x| format!("the destination of {e:#x}: {x:?}"))?;
                o.calls += 1;
                o.hit(3);
                match d.get(&b) {
                    Some(&db) => {
                        if da.abs_diff(db) > 1 {
                            return Err(format!("neighbours {a:#x} and {b:#x} are at distances {da} and {db} from {h:#x}"));
                        }
                        back |= db + 1 == da;
                    }
                    None if da < k => return Err(format!("{b:#x}, next to {a:#x} at distance {da} from {h:#x}, is not in the disk of {k}")),
                    None => {}
                }
            }
            if !back {
                return Err(format!("{a:#x} is at distance {da} from {h:#x}, and none of its neighbours at {}", da - 1));
            }
        }
        // another size
        let q = rng.below(k as u64 + 1) as u32;
        let small = disk(h, q, o)?;
        let inner = list.iter().filter(|x| x.1 <= q).count();
        o.hit(7);
        o.add(0, small.len() as u64);
        if inner != small.len() || small.iter().any(|(a, x)| d.get(a) != Some(x)) {
            return Err(format!("around {h:#x} the disk of {q} ({} cells) and the cells within {q} of the disk of {k} ({inner}) are not the same", small.len()));
        }
        // around members
        for _ in 0..4 {
            let (b, db) = rng.pick(&list);
            let q = db + rng.below(3) as u32;
            let e = disk(b, q, o)?;
            o.hit(1);
            if e.get(&h) != Some(&db) {
                return Err(format!("{b:#x} is at distance {db} from {h:#x}, but {h:#x} is at {:?} from {b:#x}", e.get(&h)));
            }
            for (x, dx) in &e {
                if let Some(&y) = d.get(x) {
                    o.hit(2);
                    if y > db + dx || *dx > db + y || db > y + dx {
                        return Err(format!("{x:#x} is at {y} from {h:#x} and at {dx} from {b:#x}, which are {db} apart"));
                    }
                } else if db + dx <= k {
                    return Err(format!("{x:#x} is at {dx} from {b:#x}, itself at {db} from {h:#x}, and not in the disk of {k}"));
                }
            }
            o.add(0, e.len() as u64);
        }
        if o.want_note {
            o.note = format!("{} cells", list.len());
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 + t.n(2400, 24000) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i < 122 {
            for r in 0..=3usize {
                for_cells(i as u8, r, |c| {
                    let k = if r == 0 { ex.rng.below(9) } else { ex.rng.below(6) };
                    let w = ex.rng.next();
                    ex.case(0, &[c.pack(), k, w]);
                });
            }
            return;
        }
        if i % 12 == 0 {
            let big = i % 240 == 0;
            let r = if big { 9 + ex.rng.below(7) as usize } else { 3 + ex.rng.below(13) as usize };
            let c = any_cell_at(&mut ex.rng, r);
            let k = if big { 1501 + ex.rng.below(600) } else { 30 + ex.rng.below(500) };
            let w = ex.rng.next();
            ex.case(1, &[c.pack(), k, w]);
        }
        for _ in 0..120 {
            let r = any_res(&mut ex.rng);
            let p = ex.rng.chance(1, 2);
            let c = if p { near_pentagon(&mut ex.rng, r, 7) } else { any_cell_at(&mut ex.rng, r) };
            let k = if ex.rng.chance(1, 60) { ex.rng.below(40) } else if ex.rng.chance(1, 12) { ex.rng.below(if p { 12 } else { 24 }) } else { ex.rng.below(6) };
            let w = ex.rng.next();
            ex.case(0, &[c.pack(), k, w]);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
