//! C04: which coordinates and resolutions encode, and to what.
use h3mon::gen::*;
use h3mon::mon::*;
use h3mon::refmodel::*;
use h3_rs::error::Error;
use h3_rs::h3_index::latLngToCell;
use h3_rs::lat_lng::LatLng;

struct C;
fn weird(rng: &mut Rng) -> f64 {
    match rng.below(12) {
        0 => f64::NAN,
        1 => -f64::NAN,
        2 => f64::INFINITY,
        3 => f64::NEG_INFINITY,
        4 => f64::from_bits(rng.next()),
        5 => f64::MAX * rng.sym(),
        6 => rng.sym() * 10f64.powf(rng.unit() * 308.0),
        7 => rng.sym() * 10f64.powf(-rng.unit() * 320.0),
        8 => rng.pick(&[0.0, -0.0, 1e45, -3e39, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, 1e16, 1e22]),
        9 => f64::from_bits(0x7ff0_0000_0000_0000 | rng.next() >> 12 | (rng.next() & (1 << 63))),
        _ => rng.sym() * 4.0,
    }
}
fn weird_res(rng: &mut Rng) -> i32 {
    match rng.below(6) {
        0 => rng.pick(&[-1, 16, i32::MAX, i32::MIN, -16, 17, 31, 32, 255, 256]),
        1 => rng.next() as i32,
        2 => rng.range(-3, 20) as i32,
        _ => rng.below(16) as i32,
    }
}
fn ulp(x: f64) -> f64 {
    if x.abs() < 1e-300 {
        return 1e-300;
    }
    f64::from_bits(x.abs().to_bits() + 1) - x.abs()
}
impl Check for C {
    const ID: &'static str = "C04";
    const KINDS: &'static [&'static str] = &["any", "equivalent"];
    const COUNTERS: &'static [&'static str] = &[
        "resolution refused", "non-finite coordinate refused", "both wrong, refused", "NaN", "infinity",
        "finite and encoded", "magnitude above 1e16 encoded", "subnormal coordinate encoded", "negative zero encoded",
        "shifted by whole turns", "across the pole",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
    const RULE: &'static str = "`any`: (latitude bits, longitude bits, resolution) with NaNs of any payload, infinities, every magnitude, \
        subnormals, signed zeros and out-of-range resolutions: must be refused with the right error or give a well-formed cell of \
        exactly that resolution containing the direction; `equivalent`: the same direction written with whole turns added or across \
        the pole; non-trivial unless both coordinates are ordinary and the resolution is 0";
    const ASSUMPTIONS: &'static [&'static str] =
        &["when both arguments are bad either error is right", "sin and cos of huge arguments are libm's; positions are known to an ulp of the coordinates"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let (lat, lng, r) = (b2f(c.a[0]), b2f(c.a[1]), c.a[2] as i32);
        o.calls += 1;
        let got = latLngToCell(&LatLng { lat, lng }, r);
        let bad_r = !(0..=15).contains(&r);
        let bad_c = !lat.is_finite() || !lng.is_finite();
        o.nontrivial = bad_r || bad_c || r > 0 || lat.abs() > 2.0 || lng.abs() > 4.0;
        if o.want_note {
            o.note = format!("({lat:?}, {lng:?}) res {r} -> {got:x?}");
        }
        if lat.is_nan() || lng.is_nan() {
            o.hit(3);
        }
        if lat.is_infinite() || lng.is_infinite() {
            o.hit(4);
        }
        if bad_r || bad_c {
            let ok = match &got {
                Err(Error::ResDomain) => bad_r,
                Err(Error::LatLngDomain) => bad_c,
                _ => false,
            };
            if !ok {
                return Err(format!("({lat:?}, {lng:?}) at resolution {r}: {got:x?}"));
            }
            o.hit(if bad_r && bad_c {
                2
            } else if bad_r {
                0
            } else {
                1
            });
            return Ok(());
        }
        let r = r as usize;
        let h = match got {
            Ok(h) => h,
            Err(e) => return Err(format!("finite ({lat:?}, {lng:?}) at resolution {r} is refused: {e:?}")),
        };
        match Cell::parse(h) {
            Some(x) if x.res as usize == r => {}
            _ => return Err(format!("({lat:?}, {lng:?}) at resolution {r} gives {h:#x}, not a cell of that resolution")),
        }
        o.hit(5);
        if lat.abs() > 1e16 || lng.abs() > 1e16 {
            o.hit(6);
        }
        if lat.is_subnormal() || lng.is_subnormal() {
            o.hit(7);
        }
        if f2b(lat) == 1 << 63 || f2b(lng) == 1 << 63 {
            o.hit(8);
        }
        let m = model();
        let v = ll_to_v(lat, lng);
        let eps0 = ulp(lat) + ulp(lng);
        if eps0 < 1e-3 {
            let f = m.nearest_face(&v);
            if m.index(&v, r).0.pack() != h {
                let eps = 1e-15 / ang(&v, &m.frames[f].c).max(1e-8) + 1e-14 + 2.0 * eps0;
                if !near(m, &v, r, eps, h) {
                    return Err(format!(
                        "({lat:?}, {lng:?}) at resolution {r} encodes to {h:#x}, but its direction lies in {:#x}",
                        m.index(&v, r).0.pack()
                    ));
                }
            }
        }
        if c.kind == 1 {
            o.calls += 1;
            let (la, lo) = (b2f(c.a[3]), b2f(c.a[4])); // the ordinary way to write it
            o.hit(if c.a[5] == 1 { 10 } else { 9 });
            let g = latLngToCell(&LatLng { lat: la, lng: lo }, r as i32);
            if g != Ok(h) {
                // the two are the same direction up to rounding
                let eps = 1e-15 / ang(&v, &m.frames[m.nearest_face(&v)].c).max(1e-8) + 1e-14 + 4.0 * eps0;
                let ok = match g {
                    Ok(x) => near(m, &v, r, eps, x) && near(m, &v, r, eps, h),
                    _ => false,
                };
                if !ok {
                    return Err(format!("({lat:?}, {lng:?}) encodes to {h:#x}, the same direction ({la:?}, {lo:?}) to {g:x?}"));
                }
            }
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(1000, 4000) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        if i == 0 {
            let sp = [
                f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, 5e-324, 1e16, 90.0,
                180.0, -180.0, std::f64::consts::PI, -std::f64::consts::PI, std::f64::consts::FRAC_PI_2, -std::f64::consts::FRAC_PI_2,
            ];
            for a in sp {
                for b in sp {
                    for r in (-3..=18).chain([i32::MIN, i32::MAX]) {
                        ex.case(0, &[f2b(a), f2b(b), r as i64 as u64]);
                    }
                }
            }
        }
        for _ in 0..20_000 {
            let (a, b, r) = match ex.rng.below(3) {
                0 => (weird(&mut ex.rng), weird(&mut ex.rng), weird_res(&mut ex.rng)),
                1 => {
                    let r = any_res(&mut ex.rng);
                    let p = any_point(&mut ex.rng, r);
                    if ex.rng.chance(1, 2) {
                        (weird(&mut ex.rng), p.1, r as i32)
                    } else {
                        (p.0, weird(&mut ex.rng), r as i32)
                    }
                }
                _ => {
                    let r = any_res(&mut ex.rng);
                    let p = any_point(&mut ex.rng, r);
                    (p.0, p.1, weird_res(&mut ex.rng))
                }
            };
            ex.case(0, &[f2b(a), f2b(b), r as i64 as u64]);
            let r = any_res(&mut ex.rng);
            let p = any_point(&mut ex.rng, r);
            let q = unnormalise(&mut ex.rng, p);
            let pole = (q.0 - (std::f64::consts::PI - p.0)).abs() < 1e-9;
            ex.case(1, &[f2b(q.0), f2b(q.1), r as u64, f2b(p.0), f2b(p.1), pole as u64]);
        }
    }
}
/// is h among the cells the direction v, known to eps, may be in?
fn near(m: &Model, v: &V3, r: usize, eps: f64, h: u64) -> bool {
    // candidates() samples; split wide bands
    let mut e = eps;
    while e > eps / 40.0 {
        if m.candidates(v, r, e).iter().any(|x| x.pack() == h) {
            return true;
        }
        e /= 3.0;
    }
    // or the centre of h is within a cell's reach of v
    match Cell::parse(h) {
        Some(c) => eps * m.sqrt7[r] > 0.05 && ang(&m.centre(&c), v) < 0.4 / m.sqrt7[r] + eps,
        None => false,
    }
}
fn main() {
    h3mon::mon::main(C)
}
