//! C39: results are the same on machines of every word size and byte order.
use h3mon::gen::*;
use h3mon::mon::*;
use h3_rs::h3_index::latLngToCell;
use h3_rs::lat_lng::LatLng;
use std::io::{BufRead, BufReader, Read, Write};
use std::time::Instant;
use std::process::{Command, Stdio};

#[path = "../../../portable/src/eval.rs"]
mod eval;
use eval::{eval, NOPS};

struct C;
/// name, bits of usize, byte order
const TARGETS: [(&str, u32, &str); 3] = [
    ("powerpc-unknown-linux-gnu", 32, "big-endian"),
    ("i686-unknown-linux-gnu", 32, "little-endian"),
    ("s390x-unknown-linux-gnu", 64, "big-endian"),
];
type Call = [u64; 4];

fn calls(seed: u64, n: usize) -> Vec<Call> {
    let mut rng = Rng::new(seed, 39);
    let mut v: Vec<Call> = vec![];
    while v.len() < n {
        let rng = &mut rng;
        let cell = any_cell(rng);
        let h = if rng.chance(1, 6) { hostile(rng) } else { cell.pack() };
        let r = h >> 52 & 15;
        let op = rng.below(NOPS);
        let (a, b, c) = match op {
            1 => {
                let (lat, lng) = if rng.chance(1, 8) { (any_float(rng), any_float(rng)) } else { any_point(rng, cell.res as usize) };
                (f2b(lat), f2b(lng), if rng.chance(1, 20) { rng.next() >> 32 } else { cell.res as u64 })
            }
            3 => {
                let deep = rng.chance(1, 10) as u64;
                (h, r + rng.below(3 + deep), 0)
            }
            4 => {
                // counts beyond 32 bits come from twelve resolutions on
                let deep = rng.below(4) as usize;
                let (h, r) = if rng.chance(1, 2) { (any_cell_at(rng, deep).pack(), deep as u64) } else { (h, r) };
                let b = if rng.chance(1, 3) { 15 } else { r + rng.below(16 - r) };
                let n = 7u64.pow((b - r) as u32);
                let c = match rng.below(4) {
                    0 => rng.below(n.min(343)),
                    1 => n - 1 - rng.below(n.min(9)),
                    2 => (1u64 << rng.below(44)).wrapping_sub(rng.below(3)),
                    _ => (rng.unit() * n as f64) as u64,
                };
                (h, b, c)
            }
            5 => (h, rng.below(3), 0),
            6 | 7 => {
                let far = rng.chance(1, 12);
                // a ring of more than all cells is refused at once
                let (h, k) = if far && op == 7 { (any_cell_at(rng, (rng_res(cell.res)) as usize).pack(), rng.below(1 << 31) + (1 << 30)) } else { (h, rng.below(if far { 12 } else { 5 })) };
                (h, k, 0)
            }
            8 => (h, 1 + rng.below(6), rng.below(6)),
            9 => {
                let n = step(rng, &cell).pack();
                (cell.pack(), n, (n & !(15 << 59)) | 2 << 59 | (1 + rng.below(6)) << 56)
            }
            10 => (rng.next() >> (32 + rng.below(32)), h, if rng.chance(1, 2) { r + rng.below(3) } else { r + rng.below(16 - r) }),
            11 => (h, rng.next() >> 44, rng.next() >> 52),
            12 => (h, if rng.chance(1, 8) { rng.next() >> 32 } else { rng.below(128) }, rng.below(20)),
            13 => {
                let p = if rng.chance(1, 8) { (any_float(rng), any_float(rng)) } else { any_point(rng, cell.res as usize) };
                (f2b(p.0), f2b(p.1), f2b(rng.sym() * 6.0))
            }
            _ => (h, rng.below(15), 0),
        };
        v.push([op, a, b, c]);
    }
    v
}
fn rng_res(r: u8) -> u8 {
    r % 10
}
/// a number of any size
fn any_float(rng: &mut Rng) -> f64 {
    match rng.below(4) {
        0 => f64::from_bits(rng.next()),
        1 => rng.sym() * 10f64.powi(rng.below(40) as i32),
        2 => rng.pick(&[0.0, -0.0, f64::INFINITY, f64::NAN, 5e-324, f64::MAX, f64::MIN_POSITIVE]),
        _ => (rng.below(9) as f64 - 4.0) * std::f64::consts::FRAC_PI_2,
    }
}
fn close(x: u64, y: u64) -> bool {
    let (a, b) = (b2f(x), b2f(y));
    x == y || a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-12 * a.abs().max(1.0)
}
/// whether a point within rounding of the one given is in the cell
fn border(lat: f64, lng: f64, r: i32, h: u64) -> bool {
    (0..16).any(|i| {
        let t = i as f64 * std::f64::consts::FRAC_PI_8;
        latLngToCell(&LatLng { lat: lat + 2e-12 * t.sin(), lng: lng + 2e-12 * t.cos() / lat.cos().abs().max(1e-6) }, r) == Ok(h)
    })
}

fn no_verdict(e: &str) -> ! {
    println!("INCONCLUSIVE C39: {e}");
    let _ = std::io::stdout().flush();
    std::process::exit(2)
}
/// ends with the case
struct Process(std::process::Child);
impl Drop for Process {
    fn drop(&mut self) {
        let _ = Command::new("kill").arg(self.0.id().to_string()).status();
        let _ = self.0.wait();
    }
}
impl C {
    /// compares line by line, so that a wrong result is seen although a later call hangs;
    /// None: the program ended early
    fn judge(&self, q: &[Call], want: &[(Vec<u64>, usize)], lines: &mut dyn Iterator<Item = String>, what: &str, width: u32, endian: &str, t: usize, o: &mut Obs) -> Result<(), Option<String>> {
        let first = lines.next().ok_or(None)?;
        if first != format!("machine {width} {endian}") {
            no_verdict(&format!("{what} the program says {first:?}"));
        }
        for (x, (w, floats)) in q.iter().zip(want) {
            let l = lines.next().ok_or(None)?;
            let Some(g) = l.strip_prefix("= ").map(|l| l.split(' ').filter_map(|s| u64::from_str_radix(s, 16).ok()).collect::<Vec<_>>()) else {
                return Err(Some(format!("{what} call {x:x?} prints {l:?}")));
            };
            if g.len() != w.len() {
                return Err(Some(format!("{what} call {x:x?} gives {g:x?}, not {w:x?}")));
            }
            for i in 0..w.len() {
                if i < *floats {
                    if !close(w[i], g[i]) {
                        return Err(Some(format!("{what} call {x:x?} gives {} in place {i}, not {}", b2f(g[i]), b2f(w[i]))));
                    }
                    o.hit(if w[i] == g[i] { 3 } else { 4 });
                } else if w[i] != g[i] {
                    if x[0] == 1 && border(b2f(x[1]), b2f(x[2]), x[3] as i32, g[i]) {
                        o.hit(5);
                        continue;
                    }
                    return Err(Some(format!("{what} call {x:x?} gives {:#x} in place {i}, not {:#x}", g[i], w[i])));
                }
            }
            if x[0] == 10 && x[1] as u32 > 37836 {
                o.hit(6);
            }
            o.hit(t);
            o.calls += 1;
        }
        Ok(())
    }
}

impl Check for C {
    const ID: &'static str = "C39";
    const KINDS: &'static [&'static str] = &["calls"];
    const COUNTERS: &'static [&'static str] = &[
        "calls repeated with 32-bit words, big-endian", "calls repeated with 32-bit words, little-endian", "calls repeated with 64-bit words, big-endian",
        "numbers equal bit for bit", "numbers equal up to rounding", "points at a border", "disk sizes beyond 32 bits", "different results", "processes", "processes cut short",
    ];
    const REQUIRED: &'static [usize] = &[0, 3, 6, 7, 8];
    const RULE: &'static str = "a case is a seeded list of calls over all public functions, made natively (64-bit, little-endian) and by the same program interpreted by Miri for \
        another machine, with overflow traps: same numbers, cells and errors; floating-point results within 1e-12, points within 2e-12 of a border in either cell, disk sizes up to the \
        largest usize; every list is non-trivial";
    const ASSUMPTIONS: &'static [&'static str] = &["Miri interprets the other machines faithfully; the mathematical functions are the host's on all of them"];

    fn run(&self, c: &Case, o: &mut Obs) -> Verdict {
        let (seed, n, t) = (c.a[0], c.a[1] as usize, c.a[2] as usize % 3);
        o.nontrivial = true;
        let (target, width, endian) = TARGETS[t];
        let what = format!("on a {width}-bit {endian} machine");
        let max = if width == 32 { u32::MAX as u64 } else { u64::MAX };
        let q = calls(seed, n);
        let want: Vec<_> = q.iter().map(|x| eval(x[0], x[1], x[2], x[3], max)).collect();
        let limit = std::env::var("H3MON_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(240u64);
        let root = std::env::var("H3MON_VERIF").unwrap_or_else(|_| "/verif".into());
        // timeout(1) ends the whole process group, also when it is told to end itself
        let mut p = Command::new("timeout")
            .args(["-k", "2", &limit.to_string(), "cargo", "+nightly", "miri", "run", "--offline", "--target", target, "--manifest-path"])
            .arg(format!("{root}/portable/Cargo.toml"))
            .args(["--target-dir", &format!("{root}/.build/portable")])
            .env("MIRIFLAGS", "-Zmiri-deterministic-floats -Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation")
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| no_verdict(&format!("cannot start cargo miri: {e}")));
        let text: String = q.iter().map(|x| format!("{:x} {:x} {:x} {:x}\n", x[0], x[1], x[2], x[3])).collect();
        let mut pipe = p.stdin.take().unwrap();
        let feed = std::thread::spawn(move || {
            let _ = pipe.write_all(text.as_bytes());
        });
        let stderr = p.stderr.take().unwrap();
        let stdout = p.stdout.take().unwrap();
        let p = Process(p);
        let start = Instant::now();
        let said = std::thread::spawn(move || {
            let mut e = vec![];
            let _ = BufReader::new(stderr).read_to_end(&mut e);
            String::from_utf8_lossy(&e).into_owned()
        });
        let lines = BufReader::new(stdout).lines().map_while(|l| l.ok());
        let mut last = Instant::now();
        let mut lines = lines.inspect(|_| last = Instant::now());
        let judged = self.judge(&q, &want, &mut lines, &what, width, endian, t, o);
        let e = match judged {
            Err(None) => said.join().unwrap_or_default(),
            _ => String::new(),
        };
        drop(lines);
        let quiet = last.elapsed().as_secs();
        let late = start.elapsed().as_secs() >= limit;
        drop(p);
        let _ = feed.join();
        match judged {
            Err(Some(e)) => return Err(e),
            Err(None) => {
                let e = e.lines().skip_while(|l| !l.starts_with("error") && !l.contains("panicked")).take(6).collect::<Vec<_>>().join(" / ");
                if late && quiet < limit / 2 {
                    // a slow machine: what was compared counts
                    o.hit(9);
                    return Ok(());
                }
                if !late && e.is_empty() {
                    no_verdict(&format!("{what} the program ended after {} calls and said nothing", o.calls));
                }
                return Err(match o.calls {
                    n if late => format!("{what} call {:x?} does not return", q[n as usize]),
                    0 => format!("{what} the program does not run, or not beyond {:x?}: {e}", q[0]),
                    n => format!("{what} call {:x?} ends the program: {e}", q[n as usize]),
                });
            }
            Ok(()) => {}
        }
        let mut d: Vec<_> = want.iter().map(|x| &x.0).collect();
        d.sort();
        d.dedup();
        o.add(7, d.len() as u64);
        o.hit(8);
        if o.want_note {
            o.note = format!("{n} calls repeated {what}, {} different results; e.g. {:x?}", d.len(), q[0]);
        }
        Ok(())
    }
    fn chunks(&self, t: Tier) -> usize {
        t.n(8, 60) as usize
    }
    fn chunk(&self, i: usize, ex: &mut Exec<Self>) {
        let n = std::env::var("H3MON_CALLS").ok().and_then(|s| s.parse().ok()).unwrap_or(400);
        for _ in 0..ex.tier.n(3, 6) {
            let s = ex.rng.next();
            ex.case(0, &[s, n, ex.tier.n(0, i as u64 % 3)]);
        }
    }
}
fn main() {
    h3mon::mon::main(C)
}
