//! replay <harness> <file>: runs one harness natively on recorded inputs.
//! Non-zero exit by panic: the violation reproduces; 0: it passed.
#[cfg(not(rvsym))]
fn main() {
  let a: Vec<String> = std::env::args().collect();
  let text = std::fs::read_to_string(&a[2]).unwrap();
  let mut vals = Vec::new();
  for line in text.lines() {
    let line = line.trim();
    if line.starts_with('#') {
      continue;
    }
    vals.push(line.split(',').filter(|s| !s.trim().is_empty()).map(|s| s.trim().parse::<u8>().unwrap()).collect::<Vec<u8>>());
  }
  rvh::nd::load(vals);
  for (n, f) in rvh::table() {
    if n == a[1] {
      f();
      println!("replay: {n} passed");
      return;
    }
  }
  eprintln!("no harness {}", a[1]);
  std::process::exit(5);
}
#[cfg(rvsym)]
fn main() {}
