//! twin SEED FROM TO STRIDE: prints what the library does in the cases, one line per section.
fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|m| m.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut i = a[1];
    while i < a[2] {
        for (name, text) in twin::case(a[0], i) {
            println!("T {i} {name} {}", text.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r"));
        }
        i += a[3];
    }
    println!("E");
}
