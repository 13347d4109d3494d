//! Workload generators: where the interesting executions are.

use crate::mon::Rng;
use crate::refmodel::*;
use std::collections::HashMap;
use std::f64::consts::{FRAC_PI_2, PI};
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct H64(u64);
impl Hasher for H64 {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = crate::mon::mix(self.0 ^ *x as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = crate::mon::mix(x ^ 0x1234567);
    }
}
pub type FastMap<V> = HashMap<u64, V, BuildHasherDefault<H64>>;

pub const MAXR: usize = 15;

/// Number of cells of a resolution.
pub fn num_cells(r: usize) -> u64 {
    2 + 120 * 7u64.pow(r as u32)
}

/// Every cell of resolution `res` in base cell `bc`, in index order.
pub fn for_cells(bc: u8, res: usize, mut f: impl FnMut(&Cell)) {
    let m = model();
    let mut c = Cell::new(bc, res);
    loop {
        let ok = !(m.pent[bc as usize] && c.lead() == 1);
        if ok {
            f(&c);
        }
        let mut r = res;
        loop {
            if r == 0 {
                return;
            }
            c.d[r] += 1;
            if c.d[r] < 7 {
                break;
            }
            c.d[r] = 0;
            r -= 1;
        }
    }
}

/// All 12 pentagon base cells.
pub fn pent_bcs() -> Vec<u8> {
    (0..122u8).filter(|b| model().pent[*b as usize]).collect()
}

fn fix(c: &mut Cell, rng: &mut Rng) {
    // move out of the deleted subsequence
    if model().pent[c.bc as usize] {
        for r in 1..=c.res as usize {
            if c.d[r] != 0 {
                if c.d[r] == 1 {
                    c.d[r] = 2 + rng.below(5) as u8;
                }
                break;
            }
        }
    }
}

/// Uniform over cells of a resolution (almost).
pub fn uniform(rng: &mut Rng, res: usize) -> Cell {
    let mut c = Cell::new(rng.below(122) as u8, res);
    for r in 1..=res {
        c.d[r] = rng.below(7) as u8;
    }
    fix(&mut c, rng);
    c
}

/// Resolution biased to give every level a good share.
pub fn any_res(rng: &mut Rng) -> usize {
    rng.below(16) as usize
}

/// Cells with structure in their digits: long carries, pentagon hierarchies,
/// base cell borders.
pub fn structured(rng: &mut Rng, res: usize) -> Cell {
    let m = model();
    let bc = if rng.chance(2, 5) { rng.pick(&PENTS) } else { rng.below(122) as u8 };
    let mut c = Cell::new(bc, res);
    let zeros = if rng.chance(1, 3) { rng.below(res as u64 + 1) as usize } else { 0 };
    match rng.below(6) {
        0 => {
            // one digit everywhere
            let d = rng.below(7) as u8;
            for r in 1..=res {
                c.d[r] = d;
            }
        }
        1 => {
            // alternating digits: a spoke to the rim of the base cell
            let (a, b) = (rng.below(7) as u8, rng.below(7) as u8);
            for r in 1..=res {
                c.d[r] = if r % 2 == 1 { a } else { b };
            }
        }
        2 => {
            // period three
            let p = [rng.below(7) as u8, rng.below(7) as u8, rng.below(7) as u8];
            for r in 1..=res {
                c.d[r] = p[r % 3];
            }
        }
        3 => {
            // random head, constant tail
            let h = rng.below(res as u64 + 1) as usize;
            let (a, b) = (rng.below(7) as u8, rng.below(7) as u8);
            for r in 1..=res {
                c.d[r] = if r <= h { rng.below(7) as u8 } else if r % 2 == 0 { a } else { b };
            }
        }
        4 => {
            // one non-zero digit
            if res > 0 {
                let r = 1 + rng.below(res as u64) as usize;
                c.d[r] = 1 + rng.below(6) as u8;
            }
        }
        _ => {
            for r in 1..=res {
                c.d[r] = rng.below(7) as u8;
            }
        }
    }
    for r in 1..=zeros {
        c.d[r] = 0;
    }
    if m.pent[bc as usize] {
        fix(&mut c, rng);
    }
    c
}

pub const PENTS: [u8; 12] = [4, 14, 24, 38, 49, 58, 63, 72, 83, 97, 107, 117];

/// A cell at most `steps` steps from a pentagon of its resolution.
pub fn near_pentagon(rng: &mut Rng, res: usize, steps: u64) -> Cell {
    let mut c = Cell::new(rng.pick(&PENTS), res);
    let n = rng.below(steps + 1);
    for _ in 0..n {
        c = step(rng, &c);
    }
    c
}

/// A random neighbour.
pub fn step(rng: &mut Rng, c: &Cell) -> Cell {
    loop {
        if let Some(x) = model().neighbour(c, 1 + rng.below(6) as u8) {
            return x;
        }
    }
}

/// A cell on or next to a border of the icosahedron's faces.
pub fn near_face_edge(rng: &mut Rng, res: usize) -> Cell {
    let v = edge_point(rng);
    let mut c = model().index(&v, res).0;
    for _ in 0..rng.below(4) {
        c = step(rng, &c);
    }
    c
}

/// A cell on or next to the border of a base cell's digit tree.
pub fn near_base_border(rng: &mut Rng, res: usize) -> Cell {
    // walk outward through the tree to a far descendant, then step
    let mut c = Cell::new(rng.below(122) as u8, res);
    let a = 1 + rng.below(6) as u8;
    let b = if rng.chance(1, 2) { a } else { 1 + rng.below(6) as u8 };
    for r in 1..=res {
        c.d[r] = if r % 2 == 1 { a } else { b };
        if rng.chance(1, 12) {
            c.d[r] = rng.below(7) as u8;
        }
    }
    fix(&mut c, rng);
    for _ in 0..rng.below(3) {
        c = step(rng, &c);
    }
    c
}

/// The general-purpose mixture.
pub fn any_cell(rng: &mut Rng) -> Cell {
    let r = any_res(rng);
    any_cell_at(rng, r)
}
pub fn any_cell_at(rng: &mut Rng, r: usize) -> Cell {
    match rng.below(10) {
        0..=2 => uniform(rng, r),
        3..=5 => structured(rng, r),
        6 => near_pentagon(rng, r, 6),
        7 => near_face_edge(rng, r),
        8 => near_base_border(rng, r),
        _ => {
            let p = special_point(rng);
            let mut c = model().index(&ll_to_v(p.0, p.1), r).0;
            for _ in 0..rng.below(3) {
                c = step(rng, &c);
            }
            c
        }
    }
}

// ---------------------------------------------------------------- points

pub fn sphere_point(rng: &mut Rng) -> V3 {
    let z = rng.sym();
    let a = rng.unit() * 2.0 * PI;
    let s = (1.0 - z * z).max(0.0).sqrt();
    [s * a.cos(), s * a.sin(), z]
}

/// point on (or extremely near) an icosahedron edge or vertex
pub fn edge_point(rng: &mut Rng) -> V3 {
    let m = model();
    let f = rng.below(20) as usize;
    let e = rng.below(3) as i32;
    let a = (1 + 2 * e) as f64 * PI / 3.0;
    // along the edge: half length is tan(60 deg) = sqrt 3 units
    let t = match rng.below(4) {
        0 => (1.0 - 10f64.powf(-rng.unit() * 12.0)) * rng.pick(&[1.0, -1.0]),
        _ => rng.sym(),
    } * 3f64.sqrt();
    let off = match rng.below(3) {
        0 => 0.0,
        _ => 10f64.powf(-rng.unit() * 16.0) * rng.pick(&[1.0, -1.0]),
    };
    let (x, y) = (1.0 + off, t);
    m.unproject(f, (x * a.cos() - y * a.sin(), x * a.sin() + y * a.cos()))
}

pub fn special_point(rng: &mut Rng) -> (f64, f64) {
    let eps = |rng: &mut Rng| match rng.below(3) {
        0 => 0.0,
        1 => 10f64.powf(-rng.unit() * 17.0),
        _ => -(10f64.powf(-rng.unit() * 17.0)),
    };
    match rng.below(9) {
        0 => (FRAC_PI_2 - eps(rng).abs(), rng.sym() * PI), // north pole
        1 => (-FRAC_PI_2 + eps(rng).abs(), rng.sym() * PI),
        2 => (rng.sym() * FRAC_PI_2, PI - eps(rng).abs()), // antimeridian
        3 => (rng.sym() * FRAC_PI_2, -PI + eps(rng).abs()),
        4 => (eps(rng), rng.sym() * PI), // equator
        5 => (rng.sym() * FRAC_PI_2, eps(rng)), // prime meridian
        6 => (
            rng.pick(&[0.0, -0.0, FRAC_PI_2, -FRAC_PI_2, PI / 4.0, -PI / 4.0, 5e-324, -5e-324]),
            rng.pick(&[0.0, -0.0, PI, -PI, FRAC_PI_2, -FRAC_PI_2, 5e-324, 1e-300, -1e-16]),
        ),
        7 => {
            // face centre
            let v = model().frames[rng.below(20) as usize].c;
            jitter(rng, v)
        }
        _ => {
            // pentagon
            let c = Cell::new(rng.pick(&PENTS), 0);
            let v = model().centre(&c);
            jitter(rng, v)
        }
    }
}

fn jitter(rng: &mut Rng, v: V3) -> (f64, f64) {
    let (la, lo) = v_to_ll(&v);
    match rng.below(4) {
        0 => (la, lo),
        1 => {
            let e = 10f64.powf(-rng.unit() * 17.0);
            (la + e * rng.sym(), lo + e * rng.sym())
        }
        2 => (la, lo + 10f64.powf(-rng.unit() * 17.0) * rng.sym()),
        _ => (la + 10f64.powf(-rng.unit() * 17.0) * rng.sym(), lo),
    }
}

/// A point inside (or right at the border of) a cell: from the centre toward a
/// corner, an edge midpoint or anywhere, at a fraction of the inradius /
/// circumradius.  Returned as a vector.
pub fn point_in_cell(rng: &mut Rng, c: &Cell) -> V3 {
    let m = model();
    let l = m.locate(c);
    let r = c.res as usize;
    let (x, y) = m.plane(l.z, r);
    let unit = 1.0 / m.sqrt7[r];
    let base = if r % 2 == 1 { AP7_ROT } else { 0.0 };
    let frac = match rng.below(8) {
        0 => 0.0,
        1 => 1.0 - 10f64.powf(-rng.unit() * 14.0),
        2 => 1.0 + 10f64.powf(-rng.unit() * 14.0),
        3 => 1.0,
        4 => 0.999,
        _ => rng.unit(),
    };
    let k = rng.below(6) as f64 * PI / 3.0;
    let (d, a) = match rng.below(4) {
        0 => (0.5 * frac, k),                                     // edge midpoint
        1 => (frac / 3f64.sqrt(), k + PI / 6.0),                  // corner
        _ => {
            // on the border at some angle
            let t = rng.sym() * PI / 6.0;
            (0.5 * frac / t.cos(), k + t)
        }
    };
    let (dx, dy) = (d * unit * (a + base).cos(), d * unit * (a + base).sin());
    m.unproject(l.face, (x + dx, y + dy))
}

/// The general-purpose point mixture, as latitude / longitude.
pub fn any_point(rng: &mut Rng, res: usize) -> (f64, f64) {
    match rng.below(10) {
        0 | 1 => v_to_ll(&sphere_point(rng)),
        2 => special_point(rng),
        3 => v_to_ll(&edge_point(rng)),
        4 => {
            let c = near_pentagon(rng, res, 3);
            v_to_ll(&point_in_cell(rng, &c))
        }
        5 => {
            // degrees with few decimals, as people write them
            let p = 10f64.powi(rng.below(7) as i32);
            let la = (rng.sym() * 90.0 * p).round() / p;
            let lo = (rng.sym() * 180.0 * p).round() / p;
            (la.to_radians(), lo.to_radians())
        }
        _ => {
            let c = any_cell_at(rng, res);
            v_to_ll(&point_in_cell(rng, &c))
        }
    }
}

/// Another way to write the same longitude / latitude.
pub fn unnormalise(rng: &mut Rng, p: (f64, f64)) -> (f64, f64) {
    let k = match rng.below(4) {
        0 => rng.range(-2, 2),
        1 => rng.range(-20, 20),
        2 => rng.range(-2000, 2000),
        _ => 1,
    } as f64;
    match rng.below(3) {
        0 => (p.0, p.1 + 2.0 * PI * k),
        1 => (p.0 + 2.0 * PI * k, p.1),
        // over the pole
        _ => (PI - p.0, p.1 + PI),
    }
}

// ---------------------------------------------------------------- raw indexes

/// Values that are nearly, but not quite, cell indexes -- or anything at all.
pub fn hostile(rng: &mut Rng) -> u64 {
    let h = any_cell(rng).pack();
    match rng.below(16) {
        0 => rng.next(),
        1 => rng.next() & rng.next(),
        2 => rng.next() | rng.next(),
        3 => h ^ (1 << rng.below(64)),
        4 => h ^ (1 << rng.below(64)) ^ (1 << rng.below(64)),
        5 => h ^ (rng.next() & rng.next() & rng.next()),
        6 => (h & !(127 << 45)) | ((rng.below(12) + 116) << 45), // base cells around the limit
        7 => {
            // digit 7 inside, or a digit outside
            let r = 1 + rng.below(15);
            let o = 3 * (15 - r);
            (h & !(7 << o)) | (rng.pick(&[7u64, 0, 1, 6]) << o)
        }
        8 => (h & !(15 << 59)) | (rng.below(16) << 59),
        9 => (h & !(7 << 56)) | (rng.below(8) << 56),
        10 => (h & !(15 << 52)) | (rng.below(16) << 52),
        11 => {
            // the deleted subsequence of a pentagon
            let c = Cell::new(rng.pick(&PENTS), any_res(rng));
            let mut h = c.pack();
            if c.res > 0 {
                let p = 1 + rng.below(c.res as u64);
                for r in p..=c.res as u64 {
                    let o = 3 * (15 - r);
                    let d = if r == p { 1 } else { rng.below(7) };
                    h = (h & !(7 << o)) | (d << o);
                }
            }
            h
        }
        12 => {
            // an edge-like index
            (h & !(15 << 59) & !(7 << 56)) | (2 << 59) | (rng.below(8) << 56)
        }
        13 => rng.pick(&[0, u64::MAX, 1, 1 << 63, (1 << 59) - 1, 1 << 59, 0x08001fffffffffff, 0x8001fffffffffff]),
        14 => {
            // valid header, random digits
            (h >> 45) << 45 | (rng.next() & ((1 << 45) - 1))
        }
        _ => {
            // digits from few values, so that 7s and 0s pile up
            let mut x = (h >> 45) << 45;
            let s = [rng.below(8), rng.below(8), 7];
            for r in 0..15 {
                x |= s[rng.below(3) as usize] << (3 * r);
            }
            x
        }
    }
}

/// Integers written in the source of the crate under test: a dictionary, as
/// fuzzers use.  Read at run time so that it follows the tree.
pub fn dictionary() -> &'static Vec<u64> {
    static D: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut v: Vec<u64> = vec![];
        let dir = std::env::var("H3MON_SRC").unwrap_or_else(|_| "/repo/src".into());
        let Ok(rd) = std::fs::read_dir(dir) else { return v };
        for e in rd.flatten() {
            let Ok(t) = std::fs::read_to_string(e.path()) else { continue };
            let b = t.as_bytes();
            let mut i = 0;
            while i < b.len() {
                if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                    let s = i;
                    while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                        i += 1;
                    }
                    let w: String = t[s..i].replace('_', "");
                    let w = w.trim_end_matches("u64").trim_end_matches("usize").trim_end_matches("i64");
                    let x = match w.strip_prefix("0x") {
                        Some(h) => u64::from_str_radix(h, 16).ok(),
                        None => w.parse().ok(),
                    };
                    if let Some(x) = x {
                        v.push(x);
                    }
                } else {
                    i += 1;
                }
            }
        }
        v.sort();
        v.dedup();
        v
    })
}

/// the dictionary's entries that are cell indexes
pub fn dictionary_cells() -> Vec<Cell> {
    dictionary().iter().filter_map(|h| Cell::parse(*h)).collect()
}

// ---------------------------------------------------------------- balls

/// All cells within k steps of c in the model, with their distances.
pub fn ball(c: &Cell, k: u32) -> Vec<(u64, u32)> {
    let m = model();
    let mut seen: FastMap<()> = FastMap::default();
    let mut out = vec![(c.pack(), 0)];
    seen.insert(c.pack(), ());
    let mut front = vec![*c];
    for d in 1..=k {
        let mut nf = vec![];
        for x in &front {
            for y in 1..7u8 {
                if let Some(y) = m.neighbour(x, y) {
                    let h = y.pack();
                    if seen.insert(h, ()).is_none() {
                        out.push((h, d));
                        nf.push(y);
                    }
                }
            }
        }
        if nf.is_empty() {
            break;
        }
        front = nf;
    }
    out
}

/// A number of steps beyond the size of any coarse globe, up to the largest there is.
pub fn any_large(r: &mut Rng) -> u64 {
    let k = match r.below(5) {
        0 => (1u64 << (9 + r.below(24))).wrapping_sub(r.below(3)),
        1 => u32::MAX as u64 - r.below(4),
        2 => 13_780_509 + r.below(4) - 2,
        3 => r.below(1 << 32),
        _ => 500 + r.below(100_000),
    };
    k.clamp(500, u32::MAX as u64)
}

/// The reference ball around a cell, indexed for checking many lists against it.
pub struct Around {
    pub cells: Vec<(u64, u32)>,
    at: FastMap<u32>,
    /// number of cells within d steps
    pub within: Vec<u64>,
    /// number of pentagons within d steps
    pub pents: Vec<u32>,
    stamp: Vec<u32>,
    now: u32,
}
impl Around {
    pub fn new(c: &Cell, k: u32) -> Around {
        let cells = ball(c, k);
        let mut at: FastMap<u32> = FastMap::default();
        at.reserve(cells.len());
        let (mut within, mut pents) = (vec![0; k as usize + 1], vec![0; k as usize + 1]);
        for (i, x) in cells.iter().enumerate() {
            at.insert(x.0, i as u32);
            within[x.1 as usize] += 1;
            pents[x.1 as usize] += is_pent_index(x.0) as u32;
        }
        for d in 1..=k as usize {
            within[d] += within[d - 1];
            pents[d] += pents[d - 1];
        }
        let n = cells.len();
        Around { cells, at, within, pents, stamp: vec![0; n], now: 0 }
    }
    pub fn dist(&self, h: u64) -> Option<u32> {
        self.at.get(&h).map(|i| self.cells[*i as usize].1)
    }
    /// The list must be the cells at distances lo..=hi, each once, with its distance.
    pub fn check(&mut self, list: impl Iterator<Item = (u64, Option<u32>)>, lo: u32, hi: u32) -> Result<u64, String> {
        self.now += 1;
        let mut n = 0u64;
        for (x, d) in list {
            let Some(i) = self.at.get(&x) else { return Err(format!("{x:#x} is not within {hi} steps")) };
            let i = *i as usize;
            let w = self.cells[i].1;
            if w < lo || w > hi {
                return Err(format!("{x:#x} is listed, which is {w} steps away"));
            }
            if let Some(d) = d {
                if d != w {
                    return Err(format!("{x:#x} is at distance {w}, reported {d}"));
                }
            }
            if self.stamp[i] == self.now {
                return Err(format!("{x:#x} is listed twice"));
            }
            self.stamp[i] = self.now;
            n += 1;
        }
        let want = self.within[hi as usize] - if lo > 0 { self.within[lo as usize - 1] } else { 0 };
        if n != want {
            let e = self.cells.iter().enumerate().find(|(i, x)| x.1 >= lo && x.1 <= hi && self.stamp[*i] != self.now).unwrap().1;
            return Err(format!("{} cells are missing, such as {:#x} at distance {}", want - n, e.0, e.1));
        }
        Ok(n)
    }
}

/// Walk n steps outward from p (bearing kept by leaving each cell opposite the
/// way it was entered, with an occasional bend).
pub fn away(rng: &mut Rng, p: &Cell, n: u64) -> Cell {
    let m = model();
    let mut c = *p;
    let mut dir = 2 + rng.below(5) as u8;
    let bend = rng.chance(1, 2);
    for _ in 0..n {
        let Some(x) = m.neighbour(&c, dir) else { break };
        let back = (1..7u8).find(|d| m.neighbour(&x, *d) == Some(c));
        dir = 7 - back.unwrap_or(1);
        if bend && rng.chance(1, 6) {
            dir = rot_digit(dir, 1);
        }
        c = x;
    }
    c
}

pub fn is_pent_index(h: u64) -> bool {
    Cell::parse(h).map_or(false, |c| c.is_pentagon())
}

pub fn digest(v: impl IntoIterator<Item = u64>) -> u64 {
    let mut h = 0x9e37;
    for x in v {
        h = crate::mon::mix(h ^ x).wrapping_add(0x9E3779B97F4A7C15);
    }
    if h == 0 {
        1
    } else {
        h
    }
}

// ---------------------------------------------------------------- work plans

/// Map a chunk number onto (workload, index within it).
pub fn split(mut i: usize, sizes: &[usize]) -> (usize, usize) {
    for (k, n) in sizes.iter().enumerate() {
        if i < *n {
            return (k, i);
        }
        i -= n;
    }
    panic!("chunk out of range")
}

pub fn f2b(x: f64) -> u64 {
    x.to_bits()
}
pub fn b2f(x: u64) -> f64 {
    f64::from_bits(x)
}
