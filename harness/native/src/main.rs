//! Native replay: runs harness entries against the real code with the values the solver chose.
//!
//! stdin, one case per line: `entry a b v1,v2,...`; stdout, one line per case:
//! `status<TAB>obs<TAB>detail<TAB>document` with status ok | assume | assert | panic | starved.
extern crate alloc;
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic;

#[path = "../../src/mod.rs"]
pub mod h;

enum Stop {
    Assume,
    Assert(u32),
    Starved,
}

struct St {
    vals: Vec<u32>,
    at: usize,
    obs: u64,
    doc: Vec<u8>,
    loc: String,
}

thread_local! {
    static ST: RefCell<St> = const { RefCell::new(St { vals: Vec::new(), at: 0, obs: 0, doc: Vec::new(), loc: String::new() }) };
}

fn next() -> u32 {
    let v = ST.with(|s| {
        let mut s = s.borrow_mut();
        let v = s.vals.get(s.at).copied();
        s.at += 1;
        v
    });
    match v {
        Some(v) => v,
        None => panic::panic_any(Stop::Starved),
    }
}
fn mix(v: u64) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.obs = (s.obs ^ v).wrapping_mul(0x100000001b3);
    })
}
#[no_mangle]
pub extern "C-unwind" fn sym_byte(lo: u8, hi: u8) -> u8 {
    let v = next();
    if v < lo as u32 || v > hi as u32 {
        panic::panic_any(Stop::Starved)
    }
    v as u8
}
#[no_mangle]
pub extern "C-unwind" fn sym_pick(n: u32) -> u32 {
    let v = next();
    if v >= n {
        panic::panic_any(Stop::Starved)
    }
    v
}
#[no_mangle]
pub extern "C-unwind" fn sym_assume(b: bool) {
    if !b {
        panic::panic_any(Stop::Assume)
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_assert(b: bool, id: u32) {
    if !b {
        panic::panic_any(Stop::Assert(id))
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_cover(id: u32) {
    COV.with(|c| c.borrow_mut().push(id))
}
thread_local! { static COV: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) }; }
#[no_mangle]
pub extern "C-unwind" fn sym_observe(v: u64) {
    mix(v)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sym_outcome(p: *const u8, n: usize) {
    let d = std::slice::from_raw_parts(p, n).to_vec();
    ST.with(|s| s.borrow_mut().doc = d)
}

fn esc(b: &[u8]) -> String {
    let mut o = String::new();
    for c in String::from_utf8_lossy(b).chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\x{:02x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn case(line: &str) -> String {
    let w: Vec<&str> = line.split(' ').collect();
    let vals: Vec<u32> = w.get(3).map_or(vec![], |v| v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
    ST.with(|s| *s.borrow_mut() = St { vals, at: 0, obs: 0xcbf29ce484222325, doc: vec![], loc: String::new() });
    COV.with(|c| c.borrow_mut().clear());
    let (name, a, b) = (w[0].to_string(), w[1].parse::<u64>().unwrap(), w[2].parse::<u64>().unwrap());
    let r = panic::catch_unwind(|| h::dispatch(&name, a, b));
    let (st, det) = match r {
        Ok(true) => ("ok", String::new()),
        Ok(false) => ("unknown", String::new()),
        Err(e) => match e.downcast_ref::<Stop>() {
            Some(Stop::Assume) => ("assume", String::new()),
            Some(Stop::Assert(i)) => ("assert", i.to_string()),
            Some(Stop::Starved) => ("starved", String::new()),
            None => ("panic", ST.with(|s| s.borrow().loc.clone())),
        },
    };
    for c in COV.with(|c| c.borrow().clone()) {
        mix(c as u64 + 1)
    }
    ST.with(|s| {
        let s = s.borrow();
        format!("{}\t{:016x}\t{}\t{}", st, s.obs, esc(det.as_bytes()), esc(&s.doc))
    })
}

fn main() {
    panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let l = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        ST.with(|s| s.borrow_mut().loc = format!("{} {}", l, m));
    }));
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
        let so = std::io::stdout();
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            if l.trim().is_empty() {
                continue;
            }
            let r = case(l.trim());
            let mut o = so.lock();
            writeln!(o, "{}", r).unwrap();
            o.flush().unwrap();
        }
    });
    t.unwrap().join().unwrap();
}
