//! C22: the spherical helpers do the geometry they promise.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::lat_lng::*;
use h3_rs::vec2d::{_v2dMag, Vec2d};
use h3_rs::vec3d::{_geoToVec3d, _pointSquareDist, Vec3d};
use std::f64::consts::{FRAC_PI_2, PI};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// largest error seen, as a multiple of the tolerance (bits of an f64)
struct C {
    worst: [AtomicU64; 3],
}
impl C {
    fn worse(&self, i: usize, x: f64) {
        self.worst[i].fetch_max(x.to_bits(), Relaxed);
    }
}
fn at(v: &V3, az: f64, d: f64, lat: f64, lng: f64) -> V3 {
    let n = [-lat.sin() * lng.cos(), -lat.sin() * lng.sin(), lat.cos()];
    let e = [-lng.sin(), lng.cos(), 0.0];
    let mut out = [0.0; 3];
    for i in 0..3 {
        out[i] = v[i] * d.cos() + (n[i] * az.cos() + e[i] * az.sin()) * d.sin();
    }
    out
}
fn sep(a: &V3, b: &V3) -> f64 {
    norm(&[a[0] - b[0], a[1] - b[1], a[2] - b[2]])
}
/// x reduced modulo m to the nearest representative of zero
fn residue(x: f64, m: f64) -> f64 {
    x - (x / m).round() * m
}

impl Check for C {
    const ID: &'static str = "C22";
    const KINDS: &'static [&'static str] = &["destination", "azimuth", "trip", "lat", "lng", "positive", "almost", "degrees", "vector"];
    const COUNTERS: &'static [&'static str] = &[
        "destinations", "due north or south", "destinations near a pole", "zero distances", "azimuths", "there and back", "latitudes brought into range", "longitudes brought into range",
        "already in range, unchanged", "beyond 1e15 turns or not finite", "angles made positive", "pairs told apart", "pairs found equal", "pairs within a factor two of the threshold",
        "degrees", "vectors", "distances across the antimeridian", "distances beyond a quarter turn", "azimuths outside [0, 2 pi)",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18];
    const RULE: &'static str = "`destination` (point, azimuth, distance), `azimuth` (two points) and `trip` (azimuth and distance to a second point lead to it) against \
        vector geometry, with a tolerance that follows the conditioning at the poles; `lat`, `lng`, `positive`: the result is in range, congruent, and equal to an \
        argument already in range; `almost`: exactly when both differences are below the threshold; `degrees`, `vector`: conversions to full precision; \
        non-trivial except zero distances";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "first points within 1e-6 of a pole are not used for destinations and azimuths (longitude is meaningless there)",
        "azimuths are between minus one and two full turns, as one wrap is all that is promised",
        "congruence is judged up to a million turns; beyond that only range and termination",
    ];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let f: Vec<f64> = c.a[..c.n as usize].iter().map(|x| b2f(*x)).collect();
        o.nontrivial = true;
        match c.kind {
            0 | 2 => {
                let p = LatLng { lat: f[0], lng: f[1] };
                let v = ll_to_v(f[0], f[1]);
                let (az, d, want) = if c.kind == 0 {
                    (f[2], f[3], at(&v, f[2], f[3], f[0], f[1]))
                } else {
                    let w = ll_to_v(f[2], f[3]);
                    (_geoAzimuthRads(&p, &LatLng { lat: f[2], lng: f[3] }), ang(&v, &w), w)
                };
                let q = _geoAzDistanceRads(&p, az, d);
                o.calls += 1 + (c.kind == 2) as u64;
                if d < 1e-16 {
                    o.nontrivial = false;
                    o.hit(3);
                    if (q.lat, q.lng) != (p.lat, p.lng) {
                        return Err(format!("no distance from {}, {} leads to {}, {}", p.lat, p.lng, q.lat, q.lng));
                    }
                    return Ok(());
                }
                let got = ll_to_v(q.lat, q.lng);
                let c1 = f[0].cos();
                let c2 = (want[0] * want[0] + want[1] * want[1]).sqrt();
                let tol = 1e-15 * (10.0 + 10.0 / c1 + (10.0 / c2).min(1e8));
                let e = sep(&got, &want);
                if !(e <= tol) {
                    return Err(format!(
                        "{} towards {az} from {}, {} is {}, {}: {e:.3e} from the right place (tolerance {tol:.1e})",
                        d, p.lat, p.lng, q.lat, q.lng
                    ));
                }
                if q.lng < -PI || q.lng > PI {
                    return Err(format!("{d} towards {az} from {}, {} is at longitude {}", p.lat, p.lng, q.lng));
                }
                self.worse(if c.kind == 0 { 0 } else { 1 }, e / tol);
                o.hit(if c.kind == 0 { 0 } else { 5 });
                if az == 0.0 || az == PI {
                    o.hit(1);
                }
                if c2 < 1e-5 {
                    o.hit(2);
                }
                if (q.lng - p.lng).abs() > PI {
                    o.hit(16);
                }
                if d > FRAC_PI_2 {
                    o.hit(17);
                }
                if !(0.0..2.0 * PI).contains(&az) && c.kind == 0 {
                    o.hit(18);
                }
            }
            1 => {
                let (p, q) = (LatLng { lat: f[0], lng: f[1] }, LatLng { lat: f[2], lng: f[3] });
                let (v, w) = (ll_to_v(f[0], f[1]), ll_to_v(f[2], f[3]));
                let s = norm(&cross(&v, &w));
                let n = [-f[0].sin() * f[1].cos(), -f[0].sin() * f[1].sin(), f[0].cos()];
                let e = [-f[1].sin(), f[1].cos(), 0.0];
                let want = dot(&w, &e).atan2(dot(&w, &n));
                let got = _geoAzimuthRads(&p, &q);
                o.calls += 1;
                let tol = 1e-14 / s;
                if tol > 0.1 {
                    o.nontrivial = false;
                    return Ok(());
                }
                let d = residue(got - want, 2.0 * PI).abs();
                if !(d <= tol) || got < -PI || got > PI {
                    return Err(format!("the azimuth from {}, {} to {}, {} is {got}, not {want}", p.lat, p.lng, q.lat, q.lng));
                }
                self.worse(2, d / tol);
                o.hit(4);
            }
            3 | 4 => {
                let x = f[0];
                let (y, m, lim, ctr) = if c.kind == 3 { (constrainLat(x), PI, FRAC_PI_2, 6) } else { (constrainLng(x), 2.0 * PI, PI, 7) };
                o.calls += 1;
                if !x.is_finite() {
                    o.hit(9);
                    return Ok(());
                }
                if !(y >= -lim && y <= lim) {
                    return Err(format!("{x:e} is brought to {y:e}, outside [-{lim}, {lim}]"));
                }
                if x >= -lim && x <= lim {
                    if x != y {
                        return Err(format!("{x:e} is in range already, but becomes {y:e}"));
                    }
                    o.hit(8);
                } else {
                    o.hit(ctr);
                }
                let turns = (x / m).abs();
                if turns < 1e6 {
                    let e = residue(y - x, m).abs();
                    if e > 1e-15 * (x.abs() + 4.0) {
                        return Err(format!("{x:e} becomes {y:e}, which is not congruent to it (off by {e:e})"));
                    }
                } else if turns > 1e15 {
                    o.hit(9);
                }
            }
            5 => {
                let x = f[0];
                let y = _posAngleRads(x);
                o.calls += 1;
                if !(y >= 0.0 && y <= 2.0 * PI) || residue(y - x, 2.0 * PI).abs() > 4e-15 {
                    return Err(format!("the angle {x:e} is made {y:e}"));
                }
                if x >= 0.0 && x < 2.0 * PI && x != y {
                    return Err(format!("the angle {x:e} is in range already, but becomes {y:e}"));
                }
                o.hit(10);
            }
            6 => {
                let (p, q, t) = (LatLng { lat: f[0], lng: f[1] }, LatLng { lat: f[2], lng: f[3] }, f[4]);
                let (da, db) = ((f[0] - f[2]).abs(), (f[1] - f[3]).abs());
                o.calls += 4;
                let want = da < t && db < t;
                let got = (geoAlmostEqualThreshold(&p, &q, t), geoAlmostEqualThreshold(&q, &p, t));
                if got != (want, want) {
                    return Err(format!("{}, {} and {}, {} are almost equal within {t:e}: {got:?}, expected {want}", f[0], f[1], f[2], f[3]));
                }
                // the standard threshold is a billionth of a degree
                let s = 1e-9 * (PI / 180.0);
                let near = |d: f64| (d - s).abs() < s * 1e-12;
                if !near(da) && !near(db) {
                    let want = da < s && db < s;
                    let got = (geoAlmostEqual(&p, &q), geoAlmostEqual(&q, &p));
                    if got != (want, want) {
                        return Err(format!("{}, {} and {}, {} are almost equal: {got:?}, expected {want}", f[0], f[1], f[2], f[3]));
                    }
                }
                o.hit(if want { 12 } else { 11 });
                if da.max(db) > t / 2.0 && da.max(db) < t * 2.0 {
                    o.hit(13);
                }
            }
            7 => {
                let mut p = LatLng { lat: 9.0, lng: 9.0 };
                setGeoDegs(&mut p, f[0], f[1]);
                let ok = |r: f64, d: f64| {
                    let w = d * (PI / 180.0);
                    (r - w).abs() <= 4e-16 * w.abs() + 1e-307
                };
                if !ok(p.lat, f[0]) || !ok(p.lng, f[1]) {
                    return Err(format!("{}, {} degrees become {}, {} radians", f[0], f[1], p.lat, p.lng));
                }
                _setGeoRads(&mut p, f[1], f[0]);
                if p.lat.to_bits() != f[1].to_bits() || p.lng.to_bits() != f[0].to_bits() {
                    return Err(format!("{}, {} radians are stored as {}, {}", f[1], f[0], p.lat, p.lng));
                }
                o.calls += 2;
                o.hit(14);
            }
            _ => {
                let mut a = Vec3d { x: 9.0, y: 9.0, z: 9.0 };
                let mut b = Vec3d { x: 9.0, y: 9.0, z: 9.0 };
                _geoToVec3d(&LatLng { lat: f[0], lng: f[1] }, &mut a);
                _geoToVec3d(&LatLng { lat: f[2], lng: f[3] }, &mut b);
                let (v, w) = (ll_to_v(f[0], f[1]), ll_to_v(f[2], f[3]));
                if sep(&[a.x, a.y, a.z], &v) > 1e-15 || sep(&[b.x, b.y, b.z], &w) > 1e-15 {
                    return Err(format!("{}, {} is the vector {}, {}, {}", f[0], f[1], a.x, a.y, a.z));
                }
                let (d, e) = (_pointSquareDist(a, b), _pointSquareDist(b, a));
                let want = sep(&[a.x, a.y, a.z], &[b.x, b.y, b.z]).powi(2);
                if d != e || (d - want).abs() > 1e-15 * want + 1e-300 {
                    return Err(format!("the square distance of {}, {} and {}, {} is {d}, not {want}", f[0], f[1], f[2], f[3]));
                }
                let (x, y) = (f[4], f[5]);
                let m = _v2dMag(&Vec2d { x, y });
                let want = x.hypot(y);
                if (m - want).abs() > 1e-15 * want + 1e-150 {
                    return Err(format!("the length of {x}, {y} is {m}, not {want}"));
                }
                o.calls += 5;
                o.hit(15);
            }
        }
        if o.want_note {
            o.note = format!("{f:?}");
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(1400, 8192) as usize
    }
    fn chunk(&self, _i: usize, ex: &mut Exec<Self>) {
        let tiny = |rng: &mut Rng| 10f64.powf(-rng.unit() * 17.0);
        for _ in 0..8000 {
            let mut p = any_point(&mut ex.rng, 9);
            let mut q = any_point(&mut ex.rng, 9);
            if ex.rng.chance(1, 4) {
                // close by, opposite, same meridian, same parallel
                q = match ex.rng.below(4) {
                    0 => {
                        let e = tiny(&mut ex.rng);
                        (p.0 + e * ex.rng.sym(), p.1 + e * ex.rng.sym())
                    }
                    1 => (-p.0 + 1e-3 * ex.rng.sym(), p.1 + PI),
                    2 => (q.0, p.1),
                    _ => (p.0, q.1),
                };
            }
            let lim = FRAC_PI_2 - 1e-6;
            p.0 = p.0.clamp(-lim, lim);
            let az = match ex.rng.below(6) {
                0 => ex.rng.pick(&[0.0, PI, FRAC_PI_2, -FRAC_PI_2, 2.0 * PI, -PI, 1e-16, 1e-17, 3.0 * PI]),
                1 => ex.rng.pick(&[0.0, PI, 2.0 * PI]) + tiny(&mut ex.rng) * ex.rng.sym(),
                2 => -2.0 * PI + ex.rng.unit() * 5.99 * PI,
                _ => ex.rng.unit() * 2.0 * PI,
            };
            let d = match ex.rng.below(6) {
                0 => ex.rng.pick(&[0.0, 1e-17, 1e-16, 1e-15, FRAC_PI_2, PI, 0.6524]),
                1 => tiny(&mut ex.rng),
                2 => FRAC_PI_2 - p.0 + ex.rng.sym() * tiny(&mut ex.rng) * ex.rng.below(2) as f64, // to the pole
                _ => ex.rng.unit() * PI,
            };
            ex.case(0, &[f2b(p.0), f2b(p.1), f2b(az), f2b(d.abs())]);
            ex.case(1, &[f2b(p.0), f2b(p.1), f2b(q.0), f2b(q.1)]);
            ex.case(2, &[f2b(p.0), f2b(p.1), f2b(q.0), f2b(q.1)]);
            for kind in [3, 4] {
                let x = match ex.rng.below(9) {
                    0 => (ex.rng.below(41) as f64 - 20.0) * FRAC_PI_2,
                    1 => (ex.rng.below(41) as f64 - 20.0) * FRAC_PI_2 + ex.rng.sym() * tiny(&mut ex.rng),
                    2 => f64::from_bits(ex.rng.next()),
                    3 => 10f64.powf(ex.rng.sym() * 300.0) * ex.rng.pick(&[1.0, -1.0]),
                    4 => ex.rng.sym() * 1e6,
                    5 => ex.rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, 5e-324, -0.0, 1e16, -1e16, 1e17]),
                    6 => ex.rng.sym() * 100.0,
                    _ => ex.rng.sym() * 10.0,
                };
                ex.case(kind, &[f2b(x)]);
            }
            let x = match ex.rng.below(4) {
                0 => ex.rng.pick(&[0.0, PI, 2.0 * PI, -PI, -2.0 * PI, 3.0 * PI, -1e-300, -1e-17, 6.283185307179585]),
                1 => ex.rng.pick(&[0.0, 2.0 * PI]) + ex.rng.sym() * tiny(&mut ex.rng),
                _ => -2.0 * PI + ex.rng.unit() * 5.9999 * PI,
            };
            ex.case(5, &[f2b(x)]);
            let t = match ex.rng.below(3) {
                0 => ex.rng.pick(&[0.0, 1e-9, 1.7453292519943295e-11, f64::NAN, -1.0, f64::INFINITY, 1.0]),
                _ => tiny(&mut ex.rng),
            };
            let s = match ex.rng.below(3) {
                0 => 1.7453292519943295e-11,
                _ => t,
            };
            let near = |rng: &mut Rng, x: f64| match rng.below(5) {
                0 => x,
                1 => x + s * rng.pick(&[1.0, -1.0]),
                2 => x + s * rng.sym() * 2.0,
                3 => x + s * rng.pick(&[0.5, -0.5, 0.99, 1.01, -0.99, -1.01]),
                _ => rng.sym() * 3.0,
            };
            let (b0, b1) = (near(&mut ex.rng, p.0), near(&mut ex.rng, p.1));
            let w = if ex.rng.chance(1, 4) { f64::NAN } else { b1 };
            let w = if ex.rng.chance(1, 8) { w } else { b1 };
            ex.case(6, &[f2b(p.0), f2b(p.1), f2b(b0), f2b(w), f2b(t)]);
            // small values, where rounding does not hide the threshold
            let z = (ex.rng.sym() * s, ex.rng.sym() * s);
            let (z0, z1) = (near(&mut ex.rng, z.0), near(&mut ex.rng, z.1));
            ex.case(6, &[f2b(z.0), f2b(z.1), f2b(z0), f2b(z1), f2b(t)]);
            let deg = |rng: &mut Rng| match rng.below(4) {
                0 => rng.range(-720, 720) as f64,
                1 => 10f64.powf(rng.sym() * 100.0),
                _ => rng.sym() * 360.0,
            };
            let (d0, d1) = (deg(&mut ex.rng), deg(&mut ex.rng));
            ex.case(7, &[f2b(d0), f2b(d1)]);
            let (x, y) = (10f64.powf(ex.rng.sym() * 100.0) * ex.rng.sym(), 10f64.powf(ex.rng.sym() * 100.0) * ex.rng.sym());
            let (x, y) = if ex.rng.chance(1, 2) { (ex.rng.sym() * 5.0, ex.rng.sym() * 5.0) } else { (x, y) };
            ex.case(8, &[f2b(p.0), f2b(p.1), f2b(q.0), f2b(q.1), f2b(x), f2b(y)]);
        }
    }
    fn extra(&self) -> Vec<(String, String)> {
        let w: Vec<f64> = self.worst.iter().map(|x| f64::from_bits(x.load(Relaxed))).collect();
        vec![(
            "worst_error_over_tolerance".into(),
            format!("{{\"destination\": {:.3}, \"trip\": {:.3}, \"azimuth\": {:.3}}}", w[0], w[1], w[2]),
        )]
    }
}
fn main() {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicU64 = AtomicU64::new(0);
    h3mon::mon::main(C { worst: [Z; 3] })
}
