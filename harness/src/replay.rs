//! Native replay: `replay <harness> <arg> <tier> <hex input>`
fn main() {
    if std::env::var_os("REPLAY_AS_TOOL").is_some() {
        std::env::remove_var("REPLAY_AS_TOOL");
        std::process::exit(harness::os::start());
    }
    let a: Vec<String> = std::env::args().collect();
    let f = match harness::find(&a[1]) {
        Some(f) => f,
        None => {
            println!("REPLAY unknown-harness");
            std::process::exit(4);
        }
    };
    harness::sym::CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.arg = a[2].parse().unwrap();
        c.tier = a[3].parse().unwrap();
        let h = a.get(4).map(|s| s.as_str()).unwrap_or("");
        c.input = (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect();
    });
    f();
    println!("REPLAY ok {}", harness::sym::report());
}
