//! An independent executable model of the H3 grid, used as the oracle.
//!
//! It shares no code and no algorithm with the crate under test: cells are
//! exact Eisenstein integers on the unfolded icosahedron, faces are joined by
//! isometries that this module derives from geometry alone, pentagons are cone
//! charts of total angle 300 degrees, and the projection is done with 3-D
//! vectors.  The only data taken from the H3 specification are the positions
//! of the 20 faces (checked at start-up to be a regular icosahedron in the
//! Dymaxion orientation) and, per base cell, which face it is numbered from.
//! Everything the crate keeps in tables (face-to-base-cell, base cell
//! neighbours and rotations, face neighbours, clockwise-offset faces,
//! digit/adjustment tables, overage dimensions) is recomputed here.

use std::sync::OnceLock;

pub const AP7_ROT: f64 = 0.333473172251832115336090755351601070065900389;
/// gnomonic length of one resolution-0 unit: tan(circumradius)/2
pub const U0: f64 = 0.38196601125010500003;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct E(pub i64, pub i64); // a + b*w, w = exp(2*pi*i/3)

impl E {
    pub const ZERO: E = E(0, 0);
    pub fn add(self, o: E) -> E {
        E(self.0 + o.0, self.1 + o.1)
    }
    pub fn sub(self, o: E) -> E {
        E(self.0 - o.0, self.1 - o.1)
    }
    pub fn mul(self, o: E) -> E {
        let (a, b, c, d) = (self.0, self.1, o.0, o.1);
        E(a * c - b * d, a * d + b * c - b * d)
    }
    pub fn conj(self) -> E {
        E(self.0 - self.1, -self.1)
    }
    pub fn div7(self) -> Option<E> {
        if self.0 % 7 == 0 && self.1 % 7 == 0 {
            Some(E(self.0 / 7, self.1 / 7))
        } else {
            None
        }
    }
    pub fn to_c(self) -> (f64, f64) {
        (
            self.0 as f64 - 0.5 * self.1 as f64,
            self.1 as f64 * 0.86602540378443864676,
        )
    }
    /// multiply by exp(i*pi/3)^n
    pub fn rot(self, n: i32) -> E {
        let mut r = self;
        for _ in 0..n.rem_euclid(6) {
            r = r.mul(E(1, 1));
        }
        r
    }
}

/// unit vector of each H3 digit 0..6 (center, K, J, JK, I, IK, IJ)
pub const DIGIT_VEC: [E; 7] = [
    E(0, 0),
    E(-1, -1),
    E(0, 1),
    E(-1, 0),
    E(1, 0),
    E(0, -1),
    E(1, 1),
];
/// direction of each digit in units of 60 degrees ccw from the i axis
pub const ANG: [i32; 7] = [-1, 4, 2, 3, 0, 5, 1];
/// digit for each direction
pub const DIG_OF_ANG: [u8; 6] = [4, 6, 2, 3, 1, 5];

pub fn rot_digit(d: u8, n: i32) -> u8 {
    if d == 0 || d == 7 {
        d
    } else {
        DIG_OF_ANG[((ANG[d as usize] + n).rem_euclid(6)) as usize]
    }
}

/// multiplier taking resolution r-1 coordinates to resolution r coordinates
pub fn alpha(r: usize) -> E {
    if r % 2 == 1 {
        E(2, -1)
    } else {
        E(3, 1)
    }
}

/// (face, i, j, k) each base cell is numbered from (H3 specification)
const HOME: [(u8, i64, i64, i64); 122] = [
    (1,1,0,0), (2,1,1,0), (1,0,0,0), (2,1,0,0), (0,2,0,0), (1,1,1,0), (1,0,0,1), (2,0,0,0),
    (0,1,0,0), (2,0,1,0), (1,0,1,0), (1,0,1,1), (3,1,0,0), (3,1,1,0), (11,2,0,0), (4,1,0,0),
    (0,0,0,0), (6,0,1,0), (0,0,0,1), (2,0,1,1), (7,0,0,1), (2,0,0,1), (0,1,1,0), (6,0,0,1),
    (10,2,0,0), (6,0,0,0), (3,0,0,0), (11,1,0,0), (4,1,1,0), (3,0,1,0), (0,0,1,1), (4,0,0,0),
    (5,0,1,0), (0,0,1,0), (7,0,1,0), (11,1,1,0), (7,0,0,0), (10,1,0,0), (12,2,0,0), (6,1,0,1),
    (7,1,0,1), (4,0,0,1), (3,0,0,1), (3,0,1,1), (4,0,1,0), (6,1,0,0), (11,0,0,0), (8,0,0,1),
    (5,0,0,1), (14,2,0,0), (5,0,0,0), (12,1,0,0), (10,1,1,0), (4,0,1,1), (12,1,1,0), (7,1,0,0),
    (11,0,1,0), (10,0,0,0), (13,2,0,0), (10,0,0,1), (11,0,0,1), (9,0,1,0), (8,0,1,0), (6,2,0,0),
    (8,0,0,0), (9,0,0,1), (14,1,0,0), (5,1,0,1), (16,0,1,1), (8,1,0,1), (5,1,0,0), (12,0,0,0),
    (7,2,0,0), (12,0,1,0), (10,0,1,0), (9,0,0,0), (13,1,0,0), (16,0,0,1), (15,0,1,1), (15,0,1,0),
    (16,0,1,0), (14,1,1,0), (13,1,1,0), (5,2,0,0), (8,1,0,0), (14,0,0,0), (9,1,0,1), (14,0,0,1),
    (17,0,0,1), (12,0,0,1), (16,0,0,0), (17,0,1,1), (15,0,0,1), (16,1,0,1), (9,1,0,0), (15,0,0,0),
    (13,0,0,0), (8,2,0,0), (13,0,1,0), (17,1,0,1), (19,0,1,0), (14,0,1,0), (19,0,1,1), (17,0,1,0),
    (13,0,0,1), (17,0,0,0), (16,1,0,0), (9,2,0,0), (15,1,0,1), (15,1,0,0), (18,0,1,1), (18,0,0,1),
    (19,0,0,1), (17,1,0,0), (19,0,0,0), (18,0,1,0), (18,1,0,1), (19,2,0,0), (19,1,0,0), (18,0,0,0),
    (19,1,0,1), (18,1,0,0),
];

/// (latitude, longitude, azimuth of the i axis) of each face (H3 specification)
const FACES: [(f64, f64, f64); 20] = [
    (0.803582649718989942, 1.248397419617396099, 5.619958268523939882),
    (1.307747883455638156, 2.536945009877921159, 5.760339081714187279),
    (1.054751253523952054, -1.347517358900396623, 0.780213654393430055),
    (0.600191595538186799, -0.450603909469755746, 0.430469363979999913),
    (0.491715428198773866, 0.401988202911306943, 6.130269123335111400),
    (0.172745327415618701, 1.678146885280433686, 2.692877706530642877),
    (0.605929321571350690, 2.953923329812411617, 2.982963003477243874),
    (0.427370518328979641, -1.888876200336285401, 3.532912002790141181),
    (-0.079066118549212831, -0.733429513380867741, 3.494305004259568154),
    (-0.230961644455383637, 0.506495587332349035, 3.003214169499538391),
    (0.079066118549212831, 2.408163140208925497, 5.930472956509811562),
    (0.230961644455383637, -2.635097066257444203, 0.138378484090254847),
    (-0.172745327415618701, -1.463445768309359553, 0.448714947059150361),
    (-0.605929321571350690, -0.187669323777381622, 0.158629650112549365),
    (-0.427370518328979641, 1.252716453253507838, 5.891865957979238535),
    (-0.600191595538186799, 2.690988744120037492, 2.711123289609793325),
    (-0.491715428198773866, -2.739604450678486295, 3.294508837434268316),
    (-0.803582649718989942, -1.893195233972397139, 3.804819692245439833),
    (-1.307747883455638156, -0.604647643711872080, 3.664438879055192436),
    (-1.054751253523952054, 1.794075294689396615, 2.361378999196363184),
];

pub type V3 = [f64; 3];
pub fn dot(a: &V3, b: &V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: &V3, b: &V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn norm(a: &V3) -> f64 {
    dot(a, a).sqrt()
}
pub fn unit(a: V3) -> V3 {
    let n = norm(&a);
    [a[0] / n, a[1] / n, a[2] / n]
}
/// angle between two unit vectors, accurate at every scale
pub fn ang(a: &V3, b: &V3) -> f64 {
    norm(&cross(a, b)).atan2(dot(a, b))
}
pub fn ll_to_v(lat: f64, lng: f64) -> V3 {
    [
        lat.cos() * lng.cos(),
        lat.cos() * lng.sin(),
        lat.sin(),
    ]
}
pub fn v_to_ll(v: &V3) -> (f64, f64) {
    (v[2].atan2((v[0] * v[0] + v[1] * v[1]).sqrt()), v[1].atan2(v[0]))
}

#[derive(Clone, Copy)]
pub struct Frame {
    pub c: V3,
    pub ex: V3,
    pub ey: V3,
}

/// crossing the edge in direction ANG 1, 3 or 5 of a face
#[derive(Clone, Copy, Debug)]
pub struct Cross {
    pub face: usize,
    /// rotation applied to coordinates, in 60 degree steps
    pub n: i32,
}

#[derive(Clone, Copy, Debug)]
pub enum Slot {
    Hex { bc: u8, rot: i32 },
    Pent { bc: u8, vert: i32, sector: i32 },
}

pub struct Model {
    pub frames: [Frame; 20],
    /// cross[face][0..3] for directions 1, 3, 5
    pub cross: [[Cross; 3]; 20],
    /// per face: resolution-0 lattice point -> base cell; indexed by (a+4, b+4)
    slots: Vec<Vec<Option<Slot>>>,
    pub pent: [bool; 122],
    pub home_z: [E; 122],
    pub home_face: [usize; 122],
    /// faces around each pentagon, ccw from the home face: (face, vertex ANG)
    pub around: Vec<[(usize, i32); 5]>,
    /// product of alphas up to each resolution
    pub a: [E; 17],
    pub sqrt7: [f64; 17],
}

static MODEL: OnceLock<Model> = OnceLock::new();
pub fn model() -> &'static Model {
    MODEL.get_or_init(Model::build)
}

fn ijk(i: i64, j: i64, k: i64) -> E {
    E(i - k, j - k)
}

const CANON: [i32; 5] = [3, 5, 0, 1, 2]; // direction of the leading digit per sector
fn sector_of_digit(d: u8) -> i32 {
    match d {
        3 => 0,
        5 => 1,
        4 => 2,
        6 => 3,
        2 => 4,
        _ => panic!("no sector for digit"),
    }
}

/// A cell position in a face chart
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Loc {
    pub face: usize,
    pub z: E,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cell {
    pub bc: u8,
    pub res: u8,
    pub d: [u8; 16], // d[1..=res]
}

impl Cell {
    pub fn new(bc: u8, res: usize) -> Cell {
        Cell { bc, res: res as u8, d: [0; 16] }
    }
    pub fn lead(&self) -> u8 {
        for r in 1..=self.res as usize {
            if self.d[r] != 0 {
                return self.d[r];
            }
        }
        0
    }
    pub fn is_pentagon(&self) -> bool {
        model().pent[self.bc as usize] && self.lead() == 0
    }
    pub fn pack(&self) -> u64 {
        let mut h: u64 = 1 << 59 | (self.res as u64) << 52 | (self.bc as u64) << 45;
        for r in 1..=15usize {
            let d = if r <= self.res as usize { self.d[r] } else { 7 };
            h |= (d as u64) << (3 * (15 - r));
        }
        h
    }
    /// strict parse: None unless `h` is exactly a valid cell index
    pub fn parse(h: u64) -> Option<Cell> {
        if h >> 63 != 0 || (h >> 59) & 15 != 1 || (h >> 56) & 7 != 0 {
            return None;
        }
        let res = ((h >> 52) & 15) as usize;
        let bc = ((h >> 45) & 127) as usize;
        if bc >= 122 {
            return None;
        }
        let mut c = Cell::new(bc as u8, res);
        for r in 1..=15usize {
            let d = ((h >> (3 * (15 - r))) & 7) as u8;
            if r <= res {
                if d == 7 {
                    return None;
                }
                c.d[r] = d;
            } else if d != 7 {
                return None;
            }
        }
        if model().pent[bc] && c.lead() == 1 {
            return None;
        }
        Some(c)
    }
}

impl Model {
    fn build() -> Model {
        let mut frames = [Frame { c: [0.0; 3], ex: [0.0; 3], ey: [0.0; 3] }; 20];
        for f in 0..20 {
            let (la, lo, az) = FACES[f];
            let c = ll_to_v(la, lo);
            let n = [-la.sin() * lo.cos(), -la.sin() * lo.sin(), la.cos()];
            let e = [-lo.sin(), lo.cos(), 0.0];
            let dir = |a: f64| {
                [
                    a.cos() * n[0] + a.sin() * e[0],
                    a.cos() * n[1] + a.sin() * e[1],
                    a.cos() * n[2] + a.sin() * e[2],
                ]
            };
            let ex = dir(az);
            // theta is measured ccw, azimuth cw
            let ey = dir(az - std::f64::consts::FRAC_PI_2);
            frames[f] = Frame { c, ex, ey };
        }
        let mut m = Model {
            frames,
            cross: [[Cross { face: 99, n: 0 }; 3]; 20],
            slots: vec![vec![None; 81]; 20],
            pent: [false; 122],
            home_z: [E::ZERO; 122],
            home_face: [0; 122],
            around: vec![[(99, 0); 5]; 122],
            a: [E(1, 0); 17],
            sqrt7: [1.0; 17],
        };
        for r in 1..17 {
            m.a[r] = m.a[r - 1].mul(alpha(r));
            m.sqrt7[r] = m.sqrt7[r - 1] * 7f64.sqrt();
        }
        // face adjacency, from geometry
        for f in 0..20 {
            for (e, th) in [1i32, 3, 5].iter().enumerate() {
                let a = *th as f64 * std::f64::consts::PI / 3.0;
                let p = m.unproject(f, (1.2 * a.cos(), 1.2 * a.sin()));
                let g = m.nearest_face(&p);
                assert!(g != f);
                // direction in g's frame that points back to f
                let fr = &m.frames[g];
                let fc = &m.frames[f].c;
                let phi = dot(fc, &fr.ey).atan2(dot(fc, &fr.ex)) / (std::f64::consts::PI / 3.0);
                let phir = phi.round();
                assert!((phi - phir).abs() < 1e-9, "face frames not regular");
                m.cross[f][e] = Cross { face: g, n: (phir as i32 - th - 3).rem_euclid(6) };
            }
        }
        // pentagons and the faces around them
        for bc in 0..122 {
            let (f, i, j, k) = HOME[bc];
            m.home_face[bc] = f as usize;
            m.home_z[bc] = ijk(i, j, k);
            m.pent[bc] = (i, j, k) == (2, 0, 0);
            if m.pent[bc] {
                let mut cur = Loc { face: f as usize, z: E(2, 0) };
                for s in 0..5 {
                    let v = (0..3).map(|t| 2 * t).find(|v| E(2, 0).rot(*v) == cur.z).unwrap();
                    m.around[bc][s] = (cur.face, v);
                    cur = m.cross_edge(cur, (v + 5) % 6, 0);
                }
                assert!(cur.face == f as usize && cur.z == E(2, 0));
            }
        }
        // resolution-0 lattice points of each face chart -> base cells
        let put = |m: &mut Model, l: Loc, s: Slot, force: bool| {
            let E(a, b) = l.z;
            if a < -4 || a > 4 || b < -4 || b > 4 {
                return;
            }
            let ix = ((a + 4) * 9 + b + 4) as usize;
            match m.slots[l.face][ix] {
                Some(_) if !force => {}
                Some(_) => panic!("two base cells at one place"),
                None => m.slots[l.face][ix] = Some(s),
            }
        };
        for bc in 0..122usize {
            if m.pent[bc] {
                for s in 0..5 {
                    let (f, v) = m.around[bc][s];
                    put(&mut m, Loc { face: f, z: E(2, 0).rot(v) },
                        Slot::Pent { bc: bc as u8, vert: v, sector: s as i32 }, true);
                }
            } else {
                let l = Loc { face: m.home_face[bc], z: m.home_z[bc] };
                put(&mut m, l, Slot::Hex { bc: bc as u8, rot: 0 }, true);
            }
        }
        // one face crossing away, nearest first; then two
        for depth in 1..=2 {
            for bc in 0..122usize {
                if m.pent[bc] {
                    continue;
                }
                let l0 = Loc { face: m.home_face[bc], z: m.home_z[bc] };
                for e in [1, 3, 5] {
                    let l1 = m.cross_edge(l0, e, 0);
                    let n1 = m.cross[l0.face][(e / 2) as usize].n;
                    if depth == 1 {
                        // digits in chart l1 must be rotated back by -n1
                        if m.cheb(l1.z) <= 2.01 {
                            put(&mut m, l1, Slot::Hex { bc: bc as u8, rot: -n1 }, false);
                        }
                    } else {
                        // only continue from an edge-midpoint cell through its other face
                        let on_edge = (l0.z.to_c().0.hypot(l0.z.to_c().1) - 1.0).abs() < 1e-9
                            && m.edge_dist(l0.z, e) > 1.0 - 1e-9;
                        if !on_edge {
                            continue;
                        }
                        for e2 in [1, 3, 5] {
                            let l2 = m.cross_edge(l1, e2, 0);
                            let n2 = m.cross[l1.face][(e2 / 2) as usize].n;
                            if l2.face != l0.face && m.cheb(l2.z) <= 2.01 {
                                put(&mut m, l2, Slot::Hex { bc: bc as u8, rot: -(n1 + n2) }, false);
                            }
                        }
                    }
                }
            }
        }
        m
    }

    fn cheb(&self, z: E) -> f64 {
        let (x, y) = z.to_c();
        x.hypot(y)
    }

    /// distance of a resolution-0 point along the outward normal e (1 = on the edge)
    fn edge_dist(&self, z: E, e: i32) -> f64 {
        let (x, y) = z.to_c();
        let t = e as f64 * std::f64::consts::PI / 3.0;
        x * t.cos() + y * t.sin()
    }

    /// Check the specification data against facts that do not come from it.
    pub fn self_check(&self) -> Result<(), String> {
        let d = 5f64.sqrt() / 3.0;
        for f in 0..20 {
            for x in &self.cross[f] {
                let g = x.face;
                let e = (dot(&self.frames[f].c, &self.frames[g].c) - d).abs();
                if e > 1e-14 {
                    return Err(format!("faces {f},{g} are not adjacent icosahedron faces: {e}"));
                }
            }
            let fr = &self.frames[f];
            if dot(&cross(&fr.ex, &fr.ey), &fr.c) < 1.0 - 1e-14 {
                return Err("face frame is not right-handed".into());
            }
        }
        // Dymaxion orientation: a vertex at 2.3008821N 5.24539058W whose
        // neighbour lies at azimuth 7.46658 degrees.
        let verts: Vec<V3> = (0..122)
            .filter(|b| self.pent[*b])
            .map(|b| {
                let (f, v) = self.around[b][0];
                let (x, y) = E(2, 0).rot(v).to_c();
                self.unproject(f, (x, y))
            })
            .collect();
        if verts.len() != 12 {
            return Err("there must be 12 pentagons".into());
        }
        let v0 = ll_to_v(2.3008821f64.to_radians(), -5.24539058f64.to_radians());
        let v0 = match verts.iter().find(|v| ang(v, &v0) < 1e-8) {
            Some(v) => *v,
            None => return Err("icosahedron is not in Dymaxion orientation".into()),
        };
        let (la, lo) = v_to_ll(&v0);
        let n = [-la.sin() * lo.cos(), -la.sin() * lo.sin(), la.cos()];
        let e = [-lo.sin(), lo.cos(), 0.0];
        let ok = verts.iter().any(|v| {
            let az = dot(v, &e).atan2(dot(v, &n)).to_degrees();
            (az - 7.46658).abs() < 1e-5 && (dot(v, &v0) - 1.0 / 5f64.sqrt()).abs() < 1e-14
        });
        if !ok {
            return Err("icosahedron azimuth is not 7.46658".into());
        }
        if (U0 - (2.0 / (3.0 + 5f64.sqrt()))).abs() > 1e-15 {
            return Err("gnomonic unit".into());
        }
        Ok(())
    }

    /// Coordinates at resolution r of the same point in the chart across edge e.
    pub fn cross_edge(&self, l: Loc, e: i32, r: usize) -> Loc {
        let x = self.cross[l.face][(e / 2) as usize];
        let centre = E(2, 0).rot(e).mul(self.a[r]);
        Loc { face: x.face, z: l.z.sub(centre).rot(x.n) }
    }

    /// One step over the unfolded faces; the heading turns with the chart.
    pub fn advance(&self, l: &mut Loc, u: &mut E, r: usize) {
        l.z = l.z.add(*u);
        let (o, e) = self.overage(self.plane(l.z, r));
        if o > 1e-12 {
            let ahead = self.cross_edge(Loc { face: l.face, z: l.z.add(*u) }, e, r);
            *l = self.cross_edge(Loc { face: l.face, z: l.z }, e, r);
            *u = ahead.z.sub(l.z);
        }
    }

    /// The ring of k around a cell with no pentagon within k steps, walked
    /// over the unfolded faces.
    pub fn flat_ring(&self, c: &Cell, k: u32) -> Vec<u64> {
        let r = c.res as usize;
        let mut l = self.locate(c);
        let mut u = E(1, 0);
        for _ in 0..k {
            self.advance(&mut l, &mut u, r);
        }
        u = u.rot(2);
        let mut v = Vec::with_capacity(6 * k as usize);
        for _ in 0..6 {
            for _ in 0..k {
                self.advance(&mut l, &mut u, r);
                v.push(self.cell_at(l, r).map_or(0, |c| c.pack()));
            }
            u = u.rot(1);
        }
        v
    }

    /// Angle from a cell to the nearest pentagon, in steps of the longest
    /// length: no pentagon is fewer steps away. One pentagon may be left out.
    pub fn clear(&self, cell: &Cell, but: Option<u8>) -> f64 {
        let a = self.centre(cell);
        let mut near = 9.0f64;
        for b in 0..122u8 {
            if self.pent[b as usize] && Some(b) != but {
                near = near.min(ang(&a, &self.centre(&Cell::new(b, 0))));
            }
        }
        near / (U0 / 7f64.powf(cell.res as f64 / 2.0))
    }

    /// The cell n steps from a base pentagon of resolution r, the last few of
    /// them after a bend of 60 degrees: a shortest way.
    pub fn from_pentagon(&self, bc: u8, r: usize, heading: i32, n: u64, bent: u64) -> Option<Cell> {
        let mut l = self.locate(&Cell::new(bc, r));
        let mut u = (0..6)
            .map(|i| E(1, 0).rot(i + heading))
            .find(|u| self.overage(self.plane(l.z.add(*u), r)).0 <= 1e-12)?;
        for i in 0..n {
            if i + bent == n {
                u = u.rot(1);
            }
            self.advance(&mut l, &mut u, r);
        }
        self.cell_at(l, r)
    }

    /// planar coordinates (resolution-0 units, face axes) of a resolution-r point
    pub fn plane(&self, z: E, r: usize) -> (f64, f64) {
        let (x, y) = z.to_c();
        let (x, y) = (x / self.sqrt7[r], y / self.sqrt7[r]);
        if r % 2 == 1 {
            let (c, s) = (AP7_ROT.cos(), AP7_ROT.sin());
            (x * c - y * s, x * s + y * c)
        } else {
            (x, y)
        }
    }

    pub fn unproject(&self, f: usize, p: (f64, f64)) -> V3 {
        let fr = &self.frames[f];
        let mut v = [0.0; 3];
        for t in 0..3 {
            v[t] = fr.c[t] + U0 * (p.0 * fr.ex[t] + p.1 * fr.ey[t]);
        }
        unit(v)
    }

    /// gnomonic plane coordinates of a point on face f's plane
    pub fn project(&self, f: usize, v: &V3) -> (f64, f64) {
        let fr = &self.frames[f];
        let c = dot(v, &fr.c);
        (dot(v, &fr.ex) / c / U0, dot(v, &fr.ey) / c / U0)
    }

    pub fn nearest_face(&self, v: &V3) -> usize {
        let mut b = 0;
        for f in 1..20 {
            if dot(v, &self.frames[f].c) > dot(v, &self.frames[b].c) {
                b = f;
            }
        }
        b
    }

    /// distance beyond the face triangle (resolution-0 units; <=0 inside), and
    /// the edge concerned
    pub fn overage(&self, p: (f64, f64)) -> (f64, i32) {
        let mut best = (f64::MIN, 1);
        for e in [1, 3, 5] {
            let t = e as f64 * std::f64::consts::PI / 3.0;
            let d = p.0 * t.cos() + p.1 * t.sin() - 1.0;
            if d > best.0 {
                best = (d, e);
            }
        }
        best
    }

    /// Peel digits off a lattice point: (resolution-0 point, digits)
    pub fn peel(&self, mut z: E, r: usize) -> (E, [u8; 16]) {
        let mut d = [0u8; 16];
        for q in (1..=r).rev() {
            let al = alpha(q).conj();
            let mut found = false;
            for t in 0..7u8 {
                if let Some(p) = z.sub(DIGIT_VEC[t as usize]).mul(al).div7() {
                    d[q] = t;
                    z = p;
                    found = true;
                    break;
                }
            }
            debug_assert!(found);
        }
        (z, d)
    }

    /// The cell at a lattice point of a face chart (None if too far off it)
    pub fn cell_at(&self, l: Loc, r: usize) -> Option<Cell> {
        let (z0, d) = self.peel(l.z, r);
        let E(a, b) = z0;
        if a < -4 || a > 4 || b < -4 || b > 4 {
            return None;
        }
        let mut c = Cell { bc: 0, res: r as u8, d };
        match self.slots[l.face][((a + 4) * 9 + b + 4) as usize]? {
            Slot::Hex { bc, rot } => {
                c.bc = bc;
                for q in 1..=r {
                    c.d[q] = rot_digit(c.d[q], rot);
                }
            }
            Slot::Pent { bc, vert, sector } => {
                c.bc = bc;
                let ld = c.lead();
                if ld != 0 {
                    let mut k = (ANG[ld as usize] - (vert + 3)).rem_euclid(6);
                    if k > 3 {
                        k -= 6;
                    }
                    if k.abs() > 1 {
                        return None;
                    }
                    let s = (sector + k).rem_euclid(5);
                    let n = CANON[s as usize] - ANG[ld as usize];
                    for q in 1..=r {
                        c.d[q] = rot_digit(c.d[q], n);
                    }
                }
            }
        }
        Some(c)
    }

    fn local(&self, c: &Cell, z0: E) -> E {
        let mut z = z0;
        for q in 1..=c.res as usize {
            z = z.mul(alpha(q)).add(DIGIT_VEC[c.d[q] as usize]);
        }
        z
    }

    /// Where the cell's centre is: a face chart in which it lies on the face.
    pub fn locate(&self, c: &Cell) -> Loc {
        let r = c.res as usize;
        let bc = c.bc as usize;
        if !self.pent[bc] {
            let l = Loc { face: self.home_face[bc], z: self.local(c, self.home_z[bc]) };
            let (o, e) = self.overage(self.plane(l.z, r));
            if o > 1e-12 {
                self.cross_edge(l, e, r)
            } else {
                l
            }
        } else {
            let z = self.local(c, E::ZERO);
            let ld = c.lead();
            if ld == 0 {
                return Loc { face: self.home_face[bc], z: E(2, 0).mul(self.a[r]) };
            }
            let p = self.plane(z, r);
            let idx = sector_of_digit(ld);
            let mut off = p.1.atan2(p.0) / (std::f64::consts::PI / 3.0) - ANG[ld as usize] as f64;
            while off > 3.0 {
                off -= 6.0;
            }
            while off < -3.0 {
                off += 6.0;
            }
            let k = off.round() as i32; // sector offset of the position from the lead's axis
            let s = (idx + k).rem_euclid(5);
            let (f, v) = self.around[bc][s as usize];
            // in f's chart the lead direction is -k steps off the face's axis
            let n = (v + 3) - k - ANG[ld as usize];
            Loc { face: f, z: E(2, 0).rot(v).mul(self.a[r]).add(z.rot(n)) }
        }
    }

    pub fn centre(&self, c: &Cell) -> V3 {
        let l = self.locate(c);
        self.unproject(l.face, self.plane(l.z, c.res as usize))
    }

    /// The neighbour in a digit direction 1..6 (in the cell's own digit frame);
    /// None for the deleted direction of a pentagon.
    pub fn neighbour(&self, c: &Cell, dir: u8) -> Option<Cell> {
        let r = c.res as usize;
        let bc = c.bc as usize;
        let u = DIGIT_VEC[dir as usize];
        if !self.pent[bc] {
            let l = Loc { face: self.home_face[bc], z: self.local(c, self.home_z[bc]).add(u) };
            return Some(self.cell_at(l, r).expect("neighbour off the chart"));
        }
        let ld = c.lead();
        let (f, v, n);
        if ld == 0 {
            if dir == 1 {
                return None;
            }
            let s = sector_of_digit(dir);
            (f, v) = self.around[bc][s as usize];
            n = (v + 3) - ANG[dir as usize];
        } else {
            let s = sector_of_digit(ld);
            (f, v) = self.around[bc][s as usize];
            n = (v + 3) - ANG[ld as usize];
        }
        let z = self.local(c, E::ZERO).add(u).rot(n);
        let l = Loc { face: f, z: E(2, 0).rot(v).mul(self.a[r]).add(z) };
        Some(self.cell_at(l, r).expect("neighbour off the chart"))
    }

    pub fn neighbours(&self, c: &Cell) -> Vec<Cell> {
        (1..7u8).filter_map(|d| self.neighbour(c, d)).collect()
    }

    /// nearest lattice point of resolution r to plane point p, and the margin
    /// (how much farther, in lattice units, the second nearest one is)
    pub fn nearest(&self, p: (f64, f64), r: usize) -> (E, f64) {
        let (mut x, mut y) = (p.0 * self.sqrt7[r], p.1 * self.sqrt7[r]);
        if r % 2 == 1 {
            let (c, s) = (AP7_ROT.cos(), -AP7_ROT.sin());
            let t = x * c - y * s;
            y = x * s + y * c;
            x = t;
        }
        let b = y / 0.86602540378443864676;
        let a = x + 0.5 * b;
        let (a0, b0) = (a.floor() as i64, b.floor() as i64);
        let mut best = (f64::MAX, E::ZERO);
        let mut second = f64::MAX;
        for da in -1..=2 {
            for db in -1..=2 {
                let e = E(a0 + da, b0 + db);
                let (ex, ey) = e.to_c();
                let d = (ex - x).hypot(ey - y);
                if d < best.0 {
                    second = best.0;
                    best = (d, e);
                } else if d < second {
                    second = d;
                }
            }
        }
        (best.1, second - best.0)
    }

    /// The cell containing a point, by this model's projection
    pub fn index(&self, v: &V3, r: usize) -> (Cell, f64) {
        let f = self.nearest_face(v);
        self.index_on(f, v, r).expect("point off its own face")
    }
    pub fn index_on(&self, f: usize, v: &V3, r: usize) -> Option<(Cell, f64)> {
        let (z, margin) = self.nearest(self.project(f, v), r);
        self.cell_at(Loc { face: f, z }, r).map(|c| (c, margin))
    }

    /// Every cell a point may be assigned to if its position is only known to
    /// within eps radians (face choice included).
    pub fn candidates(&self, v: &V3, r: usize, eps: f64) -> Vec<Cell> {
        let t = unit(cross(v, &if v[2].abs() < 0.9 { [0.0, 0.0, 1.0] } else { [1.0, 0.0, 0.0] }));
        let b = cross(v, &t);
        let mut out: Vec<Cell> = vec![];
        let best = dot(v, &self.frames[self.nearest_face(v)].c);
        for i in 0..25 {
            let (rad, a) = if i == 0 {
                (0.0, 0.0)
            } else {
                (
                    eps * if i > 12 { 0.5 } else { 1.0 },
                    i as f64 * std::f64::consts::PI / 6.0,
                )
            };
            let mut q = *v;
            for k in 0..3 {
                q[k] += rad * (a.cos() * t[k] + a.sin() * b[k]);
            }
            let q = unit(q);
            for f in 0..20 {
                if dot(&q, &self.frames[f].c) > best - 4.0 * eps - 4e-16 {
                    if let Some((c, _)) = self.index_on(f, &q, r) {
                        if !out.contains(&c) {
                            out.push(c);
                        }
                    }
                }
            }
        }
        out
    }
}
