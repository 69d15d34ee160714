//! Interpreter of operation scripts for fraos and indexed-log-map: performs the operations on the
//! real code and writes down what it observed. It judges nothing; the TLA+ trace specifications do.
mod conc;
mod logmap;
mod seq;
mod util;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match args.get(1).map(|s| s.as_str()) {
        // seq SCRIPT OUT SCRATCH: every line of SCRIPT is one history
        Some("seq") => seq::main(&args[2], &args[3], &args[4]),
        // kill SCRIPT ACKS DIR N MODE: one history in DIR, process ends at the N-th call
        Some("kill") => seq::kill(&args[2], &args[3], &args[4], args[5].parse().unwrap(), args[6].parse().unwrap()),
        // steps SCRIPT ACKS DIR N FILE WORDS OUT: the order in which words of FILE change between calls N and N + 1
        Some("steps") => seq::steps(&args[2], &args[3], &args[4], args[5].parse().unwrap(), &args[6], &args[7], &args[8]),
        // dump DIR...: what a fresh opening of each directory shows, and shows after one more append
        Some("dump") => seq::dump(&args[2], &args[3]),
        Some("conc") => conc::main(&args[2], &args[3], &args[4]),
        Some("logmap") => logmap::main(&args[2], &args[3], &args[4]),
        Some("logmap-conc") => logmap::conc(&args[2], &args[3], &args[4]),
        _ => {
            eprintln!("usage");
            std::process::exit(2)
        }
    }
}
