mod fixed;
mod hunt;
mod json;
mod keys;
mod make;
mod mirror;
mod ops;
mod rounds;

use json::J;
use std::io::{BufRead, Write};

/// reads sessions from stdin, one per line; writes one line per reply and "." after each session
fn exec() {
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return };
        if line.is_empty() {
            continue;
        }
        let s = json::parse(&line);
        let mut objs = vec![];
        let mut past = vec![];
        if let Some(J::Arr(ev)) = s.get("ev") {
            for e in ev {
                match ops::reply(&mut objs, e, &past) {
                    Some(r) => {
                        let mut o = out.lock();
                        writeln!(o, "{r}").unwrap();
                        o.flush().unwrap();
                        past.push(r);
                    }
                    None => break,
                }
            }
        }
        let mut o = out.lock();
        writeln!(o, ".").unwrap();
        o.flush().unwrap();
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        // the interpreter runs in an ordinary thread with the default stack size, as a user's code would
        Some("exec") => std::thread::spawn(exec).join().unwrap(),
        Some("hunt") => hunt::main(&args[2..]),
        Some("replay") => hunt::replay(&args[2..]),
        Some("rounds") => rounds::run_file(&args[2..]),
        Some("gen_rounds") => rounds::print(&args[2..]),
        Some("hunt_rounds") => rounds::search(&args[2..]),
        Some("gen") => hunt::print(&args[2..]),
        Some("fixed") => hunt::print_fixed(&args[2..]),
        _ => {
            eprintln!("usage: harness exec | hunt PROPERTY SEED START STEP SECONDS STATUS | replay FILE START STEP STATUS | gen PROPERTY SEED FROM TO SMALL | fixed PROPERTY SEED LEVEL [INDEX]");
            std::process::exit(2);
        }
    }
}
