//! vh <family> <out.ndjson> : runs the library and records what it did.
//! Environment: VERIF_SEED, VERIF_TIER, VH_LAST (file that names the running
//! case), VH_REPLAY (a record to run again instead of generating cases).
mod big;
mod compare;
mod gen;
mod header;
mod js;
mod manyfd;
mod msg;
mod plan;
mod pure;
mod rng;
mod rules;
mod says;
mod session;
mod stream;
mod text;
mod val;
mod wire;

use js::J;
use std::fs::File;
use std::io::{BufWriter, Write};

pub struct Out {
    w: BufWriter<File>,
    last: Option<String>,
    pub n: usize,
    buf: String,
    /// executions, recorded or not
    pub runs: usize,
}

impl Out {
    /// Names the case that is about to run (only when a crash is looked for).
    pub fn about(&mut self, f: impl FnOnce() -> J) {
        self.runs += 1;
        if says::open() {
            says::about(f().text());
            return;
        }
        if let Some(p) = &self.last {
            std::fs::write(p, f().text()).unwrap();
        }
    }
    /// Keeps nothing.
    pub fn null() -> Out {
        Out { w: BufWriter::new(File::create("/dev/null").unwrap()), last: None, n: 0, buf: String::new(), runs: 0 }
    }
    pub fn one_by_one(&self) -> bool {
        self.last.is_some()
    }
    pub fn put(&mut self, j: J) {
        self.buf.clear();
        j.write(&mut self.buf);
        self.buf.push('\n');
        self.w.write_all(self.buf.as_bytes()).unwrap();
        self.n += 1;
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    if std::env::var("VH_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut o = Out {
        w: BufWriter::new(File::create(&args[2]).unwrap()),
        last: std::env::var("VH_LAST").ok(),
        n: 0,
        buf: String::new(),
        runs: 0,
    };
    let fam = args[1].clone();
    // the default stack of a program's main thread, as the tests have it
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            if let Ok(p) = std::env::var("VH_REPLAY") {
                for line in std::fs::read_to_string(p).unwrap().lines() {
                    plan::replay(&mut o, &js::parse(line));
                }
            } else {
                plan::run(&fam, &mut o, seed, thorough);
            }
            o.w.flush().unwrap();
            println!("records={} executions={}", o.n, o.runs);
        })
        .unwrap();
    if h.join().is_err() {
        eprintln!("harness thread failed");
        std::process::exit(3);
    }
}
