//! Native replay: reads a harness name and its inputs (one hexadecimal bit pattern per line) on
//! standard input, runs the harness, prints the status and the outputs it wrote.
use std::io::Read;

fn main() {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let mut lines = text.lines();
    let name = lines.next().unwrap().trim();
    let mut inp: Vec<f64> = lines
        .filter(|l| !l.trim().is_empty())
        .map(|l| f64::from_bits(u64::from_str_radix(l.trim(), 16).unwrap()))
        .collect();
    inp.resize(inp.len() + 4096, 0.0);
    const MARK: u64 = 0x7ff8_dead_beef_0001;
    let mut out = vec![f64::from_bits(MARK); 8192];
    let f = harness::table(name).expect("unknown harness");
    let status = f(inp.as_ptr(), out.as_mut_ptr());
    println!("ret {}", status);
    let n = out.iter().rposition(|v| v.to_bits() != MARK).map_or(0, |k| k + 1);
    for v in &out[..n] {
        println!("{:016x}", v.to_bits());
    }
}
