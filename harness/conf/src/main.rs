//! Conformance driver: reads a script of operations (one per line, integers only), executes every
//! line against the real kuba API, and writes one JSON event per line with the observable result.
//! It contains no expectations: the TLA+ trace specifications in /verif/spec decide what is right.
//!
//! Coordinates in scripts are integers in "sub-units": S sub-units make one cell of resolution res.
extern crate approx;
extern crate kuba;
extern crate nalgebra as na;
extern crate ndarray as nd;

mod files;
mod geom;
mod noise;
mod out;
mod sess;

use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};

static PROGRESS: AtomicU64 = AtomicU64::new(0);

#[derive(Clone)]
pub struct Args<'a> {
    it: std::str::SplitAsciiWhitespace<'a>,
}

impl<'a> Args<'a> {
    pub fn s(&mut self) -> &'a str {
        self.it.next().expect("script: missing token")
    }
    pub fn opt(&mut self) -> Option<&'a str> {
        self.it.next()
    }
    pub fn i(&mut self) -> i64 {
        let t = self.s();
        t.parse().unwrap_or_else(|_| panic!("script: bad int {}", t))
    }
    pub fn f(&mut self) -> f32 {
        self.s().parse().expect("script: bad float")
    }
    pub fn n(&mut self, n: usize) -> Vec<i64> {
        (0..n).map(|_| self.i()).collect()
    }
}

fn main() {
    // The last line on stderr says why the driver itself died, if it does.
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let m = p.downcast_ref::<String>().map(|s| s.as_str()).or(p.downcast_ref::<&str>().copied());
        eprintln!("panic: {}", m.unwrap_or("?").lines().next().unwrap_or(""));
    }));
    let limit: u64 = std::env::var("CONF_OP_SECS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(20);
    std::thread::spawn(move || {
        let mut last = (PROGRESS.load(Ordering::SeqCst), 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = PROGRESS.load(Ordering::SeqCst);
            last = if now == last.0 { (now, last.1 + 1) } else { (now, 0) };
            if last.1 > 2 * limit {
                // A call that does not return: the runner turns the line in flight into an event.
                std::process::exit(77);
            }
        }
    });
    noise::start(std::env::var("CONF_NOISE").ok().and_then(|s| s.parse().ok()).unwrap_or(0));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = stdout.lock();
    let mut session: Option<sess::Session> = None;
    for line in stdin.lock().lines() {
        let line = line.expect("script: read");
        if line.trim().is_empty() {
            continue;
        }
        let mut a = Args { it: line.split_ascii_whitespace() };
        let op = a.s().to_string();
        let ev = match op.as_str() {
            "umap" => {
                if a.i() == 2 {
                    sess::s2::Maps::umap(&mut a)
                } else {
                    sess::s3::Maps::umap(&mut a)
                }
            }
            "hist" | "bhist" => {
                let s = sess::Session::new(&mut a, op == "bhist");
                let ev = s.header();
                session = Some(s);
                ev
            }
            "conv" | "eq" | "lit" | "box" | "box2" | "cbox" | "ray" | "rays" | "cloud" | "xf" | "aliases" => {
                geom::run(&op, &mut a)
            }
            "kcloud" | "kbig" | "kdir" | "kpose" | "logodds" | "lochain" | "sgn" | "nm" => files::run(&op, &mut a),
            _ => session.as_mut().expect("script: no session").run(&op, &mut a),
        };
        out.write_all(ev.as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
        PROGRESS.fetch_add(1, Ordering::SeqCst);
    }
}
