mod ast;
mod run;
mod comp;
use std::io::{BufRead, Write};
use std::sync::{Arc, Mutex};
use serde_json::Value as J;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args[1].as_str();
    let dbg = std::env::var("VH_DEBUG").is_ok();
    std::panic::set_hook(Box::new(move |i| if dbg { eprintln!("{i}") }));
    match mode {
        // vh run IN.ndjson OUT.ndjson THREADS : executes every case, one output line per case (flushed, so that a crash loses only the cases in flight)
        "run" | "comp" => {
            let lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap()).lines().map(|x| x.unwrap()).filter(|x| !x.trim().is_empty()).collect();
            let threads: usize = args[4].parse().unwrap();
            let out = Arc::new(Mutex::new(std::fs::File::create(&args[3]).unwrap()));
            let work = Arc::new(Mutex::new(lines.into_iter()));
            let comp = mode == "comp";
            let hs: Vec<_> = (0..threads).map(|_| {
                let (out, work) = (out.clone(), work.clone());
                std::thread::Builder::new().stack_size(512 << 20).spawn(move || loop {
                    let line = match work.lock().unwrap().next() { Some(x) => x, None => break };
                    let case: J = serde_json::from_str(&line).unwrap();
                    let res = match case["env"]["stack"].as_u64() {
                        // on a stack of this many megabytes, as a host's thread has
                        Some(mb) => std::thread::Builder::new().stack_size((mb as usize) << 20).spawn(move || run::run_case(&case)).unwrap().join().unwrap(),
                        None => if comp { comp::run(&case) } else { run::run_case(&case) },
                    };
                    let s = serde_json::to_string(&res).unwrap() + "\n";
                    out.lock().unwrap().write_all(s.as_bytes()).unwrap();
                }).unwrap()
            }).collect();
            let mut ok = true;
            for h in hs { ok &= h.join().is_ok(); }
            if !ok { std::process::exit(3) }
        }
        _ => { eprintln!("unknown mode"); std::process::exit(2) }
    }
}
