mod eval;
use std::io::Read;

/// reads lines "op a b c" (hexadecimal), prints "= results" for each
fn main() {
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).unwrap();
    println!("machine {} {}", usize::BITS, if u16::from_ne_bytes([0, 1]) == 1 { "big-endian" } else { "little-endian" });
    for l in t.lines() {
        let v: Vec<u64> = l.split(' ').map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
        let (r, _) = eval::eval(v[0], v[1], v[2], v[3], usize::MAX as u64);
        println!("= {}", r.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "));
    }
}
