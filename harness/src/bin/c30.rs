//! C30: base cell tables and face addresses describe one and the same grid.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::base_cells::*;
use h3_rs::h3_index::{_faceIjkToH3, _h3ToFaceIjk};

struct C;
const EX: [usize; 2] = [6, 8];
/// distance beyond a face's edges, in units of the lattice of resolution r
fn beyond(m: &Model, z: E, r: usize) -> f64 {
    m.overage(m.plane(z, r)).0 * m.sqrt7[r]
}
impl Check for C {
    const ID: &'static str = "C30";
    const KINDS: &'static [&'static str] = &["cell", "near", "address", "entry", "base cell"];
    const COUNTERS: &'static [&'static str] = &[
        "cells addressed", "cells on another face than their base cell's home", "cells below pentagons", "centres on a face edge",
        "addresses on the face", "addresses of cells reaching over the edge", "addresses refused", "table entries", "base cells", "addresses on pentagon vertices' faces",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
    const RULE: &'static str = "`cell`: the face address of a cell has no negative component and a zero one, lies on its face, and is exactly (in integers) the position of the \
        cell on the unfolded icosahedron; turned into an index again it is the same cell; `near`: addresses on a face and up to 0.55 cells over its edge give exactly the \
        cell there; `address`: addresses whose resolution 0 position has a component above 2 give the null index; `entry`: all 540 entries of the lookup table by face, \
        also one resolution down; `base cell`: published home positions, pentagon flags, neighbours and rotations against the reference grid; every case is non-trivial";
    const ASSUMPTIONS: &'static [&'static str] = &["where a centre lies on an edge of two faces either face may be given"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let m = model();
        o.nontrivial = true;
        let address = |f: usize, i: i64, j: i64, k: i64| {
            let mut a = baseCellData[0].homeFijk;
            (a.face, a.coord.i, a.coord.j, a.coord.k) = (f as i32, i as i32, j as i32, k as i32);
            a
        };
        match c.kind {
            0 => {
                let h = c.a[0];
                let cell = Cell::parse(h).ok_or("harness: not a cell")?;
                let r = cell.res as usize;
                let a = _h3ToFaceIjk(h).map_err(|e| format!("{h:#x} has no face address: {e:?}"))?;
                let (f, i, j, k) = (a.face, a.coord.i, a.coord.j, a.coord.k);
                o.calls += 2;
                o.hit(0);
                if !(0..20).contains(&f) || i.min(j).min(k) != 0 {
                    return Err(format!("the address of {h:#x} is face {f} ({i}, {j}, {k}), which is not normalised"));
                }
                let l = Loc { face: f as usize, z: E((i - k) as i64, (j - k) as i64) };
                let over = beyond(m, l.z, r);
                if over > 1e-3 {
                    return Err(format!("the address of {h:#x} is face {f} ({i}, {j}, {k}), {over} cells beyond that face"));
                }
                if m.cell_at(l, r) != Some(cell) {
                    return Err(format!(
                        "the address of {h:#x} is face {f} ({i}, {j}, {k}), where {:x?} lies",
                        m.cell_at(l, r).map(|x| x.pack())
                    ));
                }
                let back = _faceIjkToH3(&a, r as i32);
                if back != h {
                    return Err(format!("face {f} ({i}, {j}, {k}), the address of {h:#x}, leads to {back:#x}"));
                }
                if l.face != m.home_face[cell.bc as usize] {
                    o.hit(1);
                }
                if m.pent[cell.bc as usize] {
                    o.hit(2);
                }
                if over > -1e-3 {
                    o.hit(3);
                }
                if o.want_note {
                    o.note = format!("face {f} ({i}, {j}, {k})");
                }
            }
            1 => {
                // an address given as face, lattice point and resolution, shifted by some (i, j, k) = (s, s, s)
                let (f, a, b, r, s) = (c.a[0] as usize, c.a[1] as i64, c.a[2] as i64, c.a[3] as usize, c.a[4] as i64);
                let z = E(a, b);
                let over = beyond(m, z, r);
                let Some(want) = m.cell_at(Loc { face: f, z }, r).filter(|_| over < 0.55) else {
                    o.nontrivial = false;
                    return Ok(());
                };
                let low = a.min(b).min(0);
                let (i, j, k) = (a - low + s, b - low + s, -low + s);
                let got = _faceIjkToH3(&address(f, i, j, k), r as i32);
                o.calls += 1;
                if got != want.pack() {
                    return Err(format!("face {f} ({i}, {j}, {k}) at resolution {r} is {:#x}, got {got:#x}", want.pack()));
                }
                o.hit(if over > 1e-3 { 5 } else { 4 });
                if m.pent[want.bc as usize] {
                    o.hit(9);
                }
            }
            2 => {
                let (f, a, b, r) = (c.a[0] as usize, c.a[1] as i64, c.a[2] as i64, c.a[3] as usize);
                let low = a.min(b).min(0);
                let (i, j, k) = (a - low, b - low, -low);
                let E(x, y) = m.peel(E(a, b), r).0;
                let l0 = x.min(y).min(0);
                let out = (x - l0).max(y - l0).max(-l0) > 2;
                if !out {
                    o.nontrivial = false;
                    return Ok(());
                }
                let got = _faceIjkToH3(&address(f, i, j, k), r as i32);
                o.calls += 1;
                o.hit(6);
                if got != 0 {
                    return Err(format!("face {f} ({i}, {j}, {k}) at resolution {r} is off every table, got {got:#x}"));
                }
            }
            3 => {
                let (f, i, j, k) = (c.a[0] as usize, c.a[1] as i64, c.a[2] as i64, c.a[3] as i64);
                let l = Loc { face: f, z: E(i - k, j - k) };
                let a = address(f, i, j, k);
                // the cells that touch the face, and nothing farther away
                let Some(want) = m.cell_at(l, 0).filter(|_| beyond(m, l.z, 0) < 0.55) else {
                    o.nontrivial = false;
                    return Ok(());
                };
                let got = (_faceIjkToBaseCell(&a), _faceIjkToBaseCellCCWrot60(&a));
                o.calls += 2;
                o.hit(7);
                if got.0 != want.bc as i32 {
                    return Err(format!("face {f} ({i}, {j}, {k}) is base cell {}, got {}", want.bc, got.0));
                }
                let e = &faceIjkBaseCells[f][i as usize][j as usize][k as usize];
                if (e.baseCell, e.ccwRot60) != got {
                    return Err(format!("face {f} ({i}, {j}, {k}): table and lookup differ"));
                }
                if !m.pent[want.bc as usize] {
                    // which way the i axis of the face points in the base cell's own frame
                    let u = Loc { face: f, z: l.z.mul(alpha(1)).add(DIGIT_VEC[4]) };
                    let d = m.cell_at(u, 1).ok_or("harness: no cell one resolution down")?.d[1];
                    let rot = (ANG[d as usize] - ANG[4]).rem_euclid(6);
                    if got.1 != rot {
                        return Err(format!("face {f} ({i}, {j}, {k}), base cell {}: {rot} rotations to its own frame, got {}", want.bc, got.1));
                    }
                } else if !(0..6).contains(&got.1) {
                    return Err(format!("face {f} ({i}, {j}, {k}): {} rotations", got.1));
                }
            }
            _ => {
                let b = c.a[0] as usize;
                let cell = Cell::new(b as u8, 0);
                let d = baseCellData[b];
                let h = d.homeFijk;
                o.calls += 1;
                o.hit(8);
                let home = (h.face as usize, E((h.coord.i - h.coord.k) as i64, (h.coord.j - h.coord.k) as i64));
                if home != (m.home_face[b], m.home_z[b]) || h.coord.i.min(h.coord.j).min(h.coord.k) != 0 {
                    return Err(format!("base cell {b} is not at home on face {} ({}, {}, {})", h.face, h.coord.i, h.coord.j, h.coord.k));
                }
                if (d.isPentagon != 0) != m.pent[b] {
                    return Err(format!("base cell {b}: pentagon flag {}", d.isPentagon));
                }
                for t in 0..7u8 {
                    let want = if t == 0 { Some(cell) } else { m.neighbour(&cell, t) };
                    let got = baseCellNeighbors[b][t as usize];
                    if got != want.map_or(INVALID_BASE_CELL, |x| x.bc as i32) {
                        return Err(format!("base cell {b} has neighbour {got} in direction {t}, not {:?}", want.map(|x| x.bc)));
                    }
                    let rot = baseCellNeighbor60CCWRots[b][t as usize];
                    let Some(n) = want.filter(|n| t > 0 && !m.pent[b] && !m.pent[n.bc as usize]) else { continue };
                    // the way back points the opposite way, up to the rotation between the two frames
                    let back = (1..7u8).find(|u| m.neighbour(&n, *u) == Some(cell)).ok_or("harness: one-way neighbours")?;
                    let w = (ANG[back as usize] - ANG[t as usize] - 3).rem_euclid(6);
                    if rot != w {
                        return Err(format!("base cell {b} to {} in direction {t}: {w} rotations between their frames, got {rot}", n.bc));
                    }
                }
            }
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        122 * (EX[t as usize] + 1) + t.n(1600, 8192) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let er = EX[ex.tier as usize];
        let m = model();
        let (w, i) = split(i, &[122 * (er + 1), usize::MAX / 2]);
        if w == 0 {
            for_cells((i % 122) as u8, er - i / 122, |c| ex.case(0, &[c.pack()]));
            return;
        }
        if i == 0 {
            for b in 0..122 {
                ex.case(4, &[b]);
            }
            for x in 0..540u64 {
                ex.case(3, &[x / 27, x / 9 % 3, x / 3 % 3, x % 3]);
            }
            for c in dictionary_cells() {
                ex.case(0, &[c.pack()]);
            }
        }
        for _ in 0..5000 {
            let c = any_cell(&mut ex.rng);
            ex.case(0, &[c.pack()]);
            let r = c.res as usize;
            let c = if ex.rng.chance(1, 2) { near_face_edge(&mut ex.rng, r) } else { c };
            let l = m.locate(&c);
            // not normalised: the same amount added to each component, of either sign
            let s = if ex.rng.chance(1, 3) && r > 0 { ex.rng.range(-3, 4) } else { 0 };
            let s = (if s.abs() == 3 { s * ex.rng.below(300_000_000) as i64 } else { s }) as u64;
            let e = ex.rng.pick(&[1, 3, 5]);
            for l in [l, m.cross_edge(l, e, r)] {
                for d in 0..7 {
                    let z = l.z.add(DIGIT_VEC[d]);
                    ex.case(1, &[l.face as u64, z.0 as u64, z.1 as u64, r as u64, s]);
                }
            }
            // a random address, up to far away
            let span = 7f64.powf(r as f64 / 2.0) * 10f64.powf(ex.rng.unit() * 2.0);
            let span = span.min(1e8);
            let (a, b, f) = ((ex.rng.sym() * span) as i64, (ex.rng.sym() * span) as i64, ex.rng.below(20));
            ex.case(1, &[f, a as u64, b as u64, r as u64, 0]);
            ex.case(2, &[f, a as u64, b as u64, r as u64]);
        }
    }
    fn exhaustive_note(&self) -> &'static str {
        "all base cells and table entries; the addresses of all cells of resolutions 0..=6 in quick, 0..=8 in thorough"
    }
}
fn main() {
    h3mon::mon::main(C)
}
