//! C20: results depend on the arguments only.
use h3mon::gen::*;
use h3mon::mon::*;
use h3_rs::algos::*;
use h3_rs::base_cells::{getRes0Cells, res0CellCount};
use h3_rs::directed_edge::*;
use h3_rs::h3_index::*;
use h3_rs::iterators::IterCellsChildren;
use h3_rs::lat_lng::*;
use std::process::{Command, Stdio};

struct C;

#[derive(Clone, Copy, Debug)]
struct Call {
    op: u8,
    a: u64,
    b: u64,
    c: u64,
}
const NOPS: u64 = 13;

fn bits(g: &LatLng) -> u64 {
    mix(g.lat.to_bits() ^ mix(g.lng.to_bits()))
}
fn err<E: std::fmt::Debug>(e: E) -> u64 {
    digest(format!("{e:?}").bytes().map(|b| b as u64))
}
fn res<T>(r: Result<T, h3_rs::error::Error>, f: impl FnOnce(T) -> u64) -> u64 {
    match r {
        Ok(x) => f(x),
        Err(e) => err(e),
    }
}

/// Make one call into the library; the digest covers everything it returned.
fn eval(q: &Call) -> u64 {
    let (a, b, c) = (q.a, q.b, q.c);
    match q.op {
        0 => res(cellToLatLng(a), |g| bits(&g)),
        1 => res(latLngToCell(&LatLng { lat: b2f(a), lng: b2f(b) }, c as i32), |h| h),
        2 => digest([
            isValidCell(a) as u64,
            isPentagon(a) as u64,
            isValidDirectedEdge(a) as u64,
            getResolution(a) as u64,
            _h3LeadingNonZeroDigit(a) as u64,
        ]),
        3 => res(cellToChildren(a, b as i32), |v| digest(v)),
        4 => {
            let x = res(cellToChildrenSize(a, b as i32), |n| n as u64);
            let y = res(childPosToCell(c as i64, a, b as i32), |n| n);
            digest([x, y])
        }
        5 => res(gridDiskDistances(a, b as u32), |v| digest(v.into_iter().map(|x| x.0 ^ (x.1 as u64) << 57))),
        6 => res(gridDiskDistancesUnsafe(a, b as u32), |v| digest(v.into_iter().map(|x| x.0 ^ (x.1 as u64) << 57))),
        7 => res(gridRingUnsafe(a, b as u32), |v| digest(v)),
        8 => {
            let mut r = c as i32;
            let x = res(h3NeighborRotations(a, H3_GET_INDEX_DIGIT(b, 15), &mut r), |h| h);
            digest([x, r as u64, directionForNeighbor(a, x) as u64])
        }
        9 => digest([
            res(cellsToDirectedEdge(a, b), |e| e),
            res(directedEdgeToCells(c), |e| digest([e.0, e.1])),
            digest(originToDirectedEdges(a)),
        ]),
        10 => digest([
            res(getRes0Cells(), |v| digest(v)),
            res0CellCount() as u64,
            maxGridDiskSize(a as u32) as u64,
            digest(IterCellsChildren::from_parent(b, c as i32).take(50)),
        ]),
        11 => digest([_h3Rotate60ccw(a), _h3Rotate60cw(a), _h3RotatePent60ccw(a), _h3RotatePent60cw(a), _zeroIndexDigits(a, 1 + (b % 15) as i32, 15)]),
        _ => {
            let (x, y, z) = (b2f(a), b2f(b), b2f(c));
            let p = LatLng { lat: x, lng: y };
            digest([
                constrainLat(x).to_bits(),
                constrainLng(y).to_bits(),
                bits(&_geoAzDistanceRads(&p, z, x.abs())),
                _geoAzimuthRads(&p, &LatLng { lat: z, lng: x }).to_bits(),
                _posAngleRads(z).to_bits(),
                geoAlmostEqual(&p, &LatLng { lat: x, lng: z }) as u64,
            ])
        }
    }
}

/// A deterministic list of calls in which neighbouring entries share some but
/// not all of their arguments, so that a remembered answer with too small a
/// key, or a result that depends on what came before, shows.
fn calls(seed: u64, n: usize) -> Vec<Call> {
    let mut rng = Rng::new(seed, 20);
    let mut v: Vec<Call> = vec![];
    while v.len() < n {
        let cell = any_cell(&mut rng);
        let h = if rng.chance(1, 6) { hostile(&mut rng) } else { cell.pack() };
        let r = h >> 52 & 15;
        let op = rng.below(NOPS) as u8;
        let q = match op {
            1 | 12 => {
                let p = any_point(&mut rng, cell.res as usize);
                Call { op, a: f2b(p.0), b: f2b(p.1), c: if op == 1 { rng.below(17) } else { f2b(rng.sym() * 6.0) } }
            }
            3 => Call { op, a: h, b: r + rng.below(4), c: 0 },
            4 => {
                let b = if rng.chance(1, 3) { 15 } else { r + rng.below(16 - r) };
                let n = 7u64.pow((b - r) as u32);
                Call { op, a: h, b, c: if rng.chance(1, 2) { rng.below(n.min(343)) } else { (rng.unit() * n as f64) as u64 } }
            }
            5..=7 => Call { op, a: h, b: if rng.chance(1, 40) { 5 + rng.below(20) } else { rng.below(5) }, c: 0 },
            8 => Call { op, a: h, b: 1 + rng.below(6), c: rng.below(6) },
            9 => {
                let n = step(&mut rng, &cell).pack();
                Call { op, a: cell.pack(), b: n, c: (n & !(15 << 59)) | 2 << 59 | (1 + rng.below(6)) << 56 }
            }
            10 => Call { op, a: rng.below(1 << 32), b: h, c: if rng.chance(1, 2) { r + rng.below(3) } else { r + rng.below(16 - r) } },
            _ => Call { op, a: h, b: rng.below(15), c: 0 },
        };
        v.push(q);
        // relatives: one argument changed, or the same arguments elsewhere
        for _ in 0..rng.below(4) {
            let mut w = q;
            match rng.below(8) {
                // a place nearby, within a cell or a few
                6 | 7 if op == 1 || op == 12 => {
                    let size = 0.8 / 7f64.powf(q.c.min(15) as f64 / 2.0) * 10f64.powf(0.5 - 3.0 * rng.unit());
                    let size = if op == 1 { size } else { 10f64.powf(-1.0 - 15.0 * rng.unit()) };
                    w.a = f2b(b2f(q.a) + size * rng.sym());
                    w.b = f2b(b2f(q.b) + size * rng.sym());
                }
                // the next cell
                6 if op != 10 && op != 3 => w.a = step(&mut rng, &cell).pack(),
                // a cell above
                7 if op != 10 && op != 9 && cell.res > 0 => {
                    let r = rng.below(cell.res as u64);
                    w.a = cell.pack() & !(15 << 52) | r << 52 | ((1u64 << (45 - 3 * r)) - 1);
                    if op == 3 {
                        w.b = r + rng.below(4);
                    }
                }
                0 if op != 1 && op != 12 => {
                    // keep the low or the high half of the index
                    w.a ^= if rng.chance(1, 2) { 7 << (3 * rng.below(15)) } else { (1 + rng.below(60)) << 45 };
                    if op == 3 || op == 4 || op == 10 {
                        w.a = q.a ^ (1 + rng.below(60)) << 45;
                    }
                }
                1 if op == 1 => w.c = rng.below(16),
                2 if op == 1 || op == 12 => w.b = f2b(-b2f(q.b)),
                3 if op == 1 || op == 12 => std::mem::swap(&mut w.a, &mut w.b),
                4 if (5..=7).contains(&op) => w.b = rng.below(5),
                4 if op == 8 => w.b = 1 + rng.below(6),
                5 if op == 8 => w.c = rng.below(6),
                4 if op == 4 => w.c = rng.below(343),
                _ => {
                    w.op = match op {
                        1 | 12 => op,
                        5..=7 => 5 + rng.below(3) as u8,
                        0 | 2 | 11 => rng.pick(&[0, 2, 11]),
                        _ => op,
                    }
                }
            }
            v.push(w);
        }
    }
    v.truncate(n);
    v
}

fn order(seed: u64, n: usize, how: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    match how {
        0 => {}
        1 => v.reverse(),
        _ => {
            let mut rng = Rng::new(seed, 1000 + how);
            for i in (1..n).rev() {
                v.swap(i, rng.below(i as u64 + 1) as usize);
            }
        }
    }
    v
}

fn run_in(q: &[Call], ord: &[usize]) -> Vec<u64> {
    let mut out = vec![0; q.len()];
    for i in ord {
        out[*i] = eval(&q[*i]);
    }
    out
}

impl C {
    fn same(&self, q: &[Call], base: &[u64], got: &[u64], what: &str, o: &mut Obs, ctr: usize) -> Verdict {
        for i in 0..q.len() {
            if base[i] != got[i] {
                return Err(format!("call {i}, {:x?}, returned something else {what} (digest {:#x}, then {:#x})", q[i], base[i], got[i]));
            }
        }
        o.add(ctr, q.len() as u64);
        o.calls += q.len() as u64;
        Ok(())
    }
}

impl Check for C {
    const ID: &'static str = "C20";
    const KINDS: &'static [&'static str] = &["orders", "threads", "process"];
    const COUNTERS: &'static [&'static str] = &[
        "calls repeated in reverse order", "calls repeated in shuffled order", "calls repeated concurrently in fresh threads",
        "calls repeated in a fresh process of the checked build", "calls repeated in a fresh process of the release build", "fresh threads", "fresh processes",
        "distinct results seen",
    ];
    const REQUIRED: &'static [usize] = &[0, 1, 2, 5];
    const RULE: &'static str = "a case is a seeded list of calls over all public functions in which adjacent calls share part of their arguments; `orders` makes \
        each call again in reverse and in shuffled order, `threads` again in four fresh concurrent threads with different orders, `process` again in fresh \
        processes (empty environment, other working directory) of the checked and of the release build; every repeated call must return the identical value, bit for \
        bit, and a process must print nothing; every list is non-trivial";
    const ASSUMPTIONS: &'static [&'static str] = &["same machine and same mathematical library in all processes"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let (seed, n) = (c.a[0], c.a[1] as usize);
        o.nontrivial = true;
        let q = calls(seed, n);
        let base = run_in(&q, &order(seed, n, 0));
        let mut d = base.clone();
        d.sort();
        d.dedup();
        o.add(7, d.len() as u64);
        match c.kind {
            0 => {
                let x = run_in(&q, &order(seed, n, 1));
                self.same(&q, &base, &x, "when the same calls were made in reverse order", o, 0)?;
                let x = run_in(&q, &order(seed, n, 2));
                self.same(&q, &base, &x, "when the same calls were made in another order", o, 1)?;
            }
            1 => {
                let outs: Vec<std::thread::Result<Vec<u64>>> = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..4)
                        .map(|t| {
                            let q = &q;
                            s.spawn(move || run_in(q, &order(seed, n, t + if t < 2 { 0 } else { 1 })))
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join()).collect()
                });
                for x in outs {
                    let Ok(x) = x else { return Err("a call panicked in a fresh thread".into()) };
                    self.same(&q, &base, &x, "in a concurrent fresh thread", o, 2)?;
                    o.hit(5);
                }
            }
            _ => {
                let me = std::env::current_exe().unwrap();
                let mut bins = vec![(me, "in a fresh process", 3)];
                if let Ok(p) = std::env::var("H3MON_RELEASE") {
                    bins.push((p.into(), "in a fresh process of the release build", 4));
                }
                for (k, (b, what, ctr)) in bins.into_iter().enumerate() {
                    let how = 1 + (seed + k as u64) % 5;
                    let out = Command::new(&b)
                        .args(["--calls", &seed.to_string(), &n.to_string(), &how.to_string()])
                        .env_clear()
                        .current_dir("/")
                        .stdin(Stdio::null())
                        .output()
                        .map_err(|e| format!("harness: cannot start {}: {e}", b.display()))?;
                    let t = String::from_utf8_lossy(&out.stdout);
                    let mut x = vec![];
                    for l in t.lines() {
                        match l.strip_prefix("= ").and_then(|l| u64::from_str_radix(l, 16).ok()) {
                            Some(v) => x.push(v),
                            None => return Err(format!("a call printed something {what}: {l:?}")),
                        }
                    }
                    if !out.stderr.is_empty() || !out.status.success() || x.len() != n {
                        let e = String::from_utf8_lossy(&out.stderr);
                        return Err(format!("{what}: {}, {} of {n} results, {}", out.status, x.len(), e.lines().take(3).collect::<Vec<_>>().join(" / ")));
                    }
                    self.same(&q, &base, &x, what, o, ctr)?;
                    o.hit(6);
                }
            }
        }
        if o.want_note {
            o.note = format!("{n} calls, {} different results, all repeated identically; e.g. {:x?}", d.len(), q[0]);
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(400, 5000) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let scale = std::env::var("H3MON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64).max(1);
        let n = 3000 / scale;
        for _ in 0..6 {
            let s = ex.rng.next();
            ex.case(0, &[s, n]);
        }
        for _ in 0..3 {
            let s = ex.rng.next();
            ex.case(1, &[s, n / 2]);
        }
        if i % 2 == 0 && scale == 1 {
            let s = ex.rng.next();
            ex.case(2, &[s, n]);
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("--calls") {
        let p = |i: usize| a[i].parse::<u64>().unwrap();
        let (seed, n, how) = (p(2), p(3) as usize, p(4));
        let out = run_in(&calls(seed, n), &order(seed, n, how));
        for x in out {
            println!("= {x:x}");
        }
        return;
    }
    h3mon::mon::main(C)
}
