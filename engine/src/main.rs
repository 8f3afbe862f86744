mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn dump(e: &Engine, path: &str) {
    let mut o = String::new();
    for (i, s) in e.stat.iter().enumerate() {
        let _ = writeln!(o, "stat\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", i, s.paths, s.assumed, s.steps, s.forks, s.max_steps, s.max_vars, s.asserts, s.sym_asserts);
        for (c, n) in &s.covers {
            let _ = writeln!(o, "cover\t{}\t{}\t{}", i, c, n);
        }
        for ((k, id), (n, trs)) in &s.violations {
            for t in trs {
                let _ = writeln!(o, "viol\t{}\t{}\t{}\t{}\t{}", i, k, id, n, t);
            }
        }
        for t in &s.samples {
            let _ = writeln!(o, "sample\t{}\t{}", i, t);
        }
        for (r, n) in &s.incomplete {
            let _ = writeln!(o, "inc\t{}\t{}\t{}", i, n, r);
        }
    }
    for (i, n) in e.fexec.iter().enumerate() {
        if *n > 0 {
            let _ = writeln!(o, "func\t{}\t{}", i, n);
        }
    }
    let (q, s) = match &e.z {
        Some(z) => (z.queries, z.secs),
        None => (0, 0.0),
    };
    let _ = writeln!(o, "solver\t{}\t{}\t{}\t{}\t{}\t{}", q, s, e.table_decisions, e.model_hits, e.cache_hits, e.audits);
    let _ = writeln!(o, "end");
    std::fs::write(path, o).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entries: Vec<(String, Vec<u64>)> = vec![];
    let mut jobs = 8usize;
    let mut timeout = 600u64;
    let mut out = String::new();
    let mut max_steps = 400_000_000u64;
    let mut trace = false;
    let mut grace: Option<u64> = None;
    let mut target = 24usize;
    let mut samples = 3usize;
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--jobs" => {
                i += 1;
                jobs = a[i].parse().unwrap()
            }
            "--timeout" => {
                i += 1;
                timeout = a[i].parse().unwrap()
            }
            "--grace" => {
                i += 1;
                grace = Some(a[i].parse().unwrap())
            }
            "--out" => {
                i += 1;
                out = a[i].clone()
            }
            "--max-steps" => {
                i += 1;
                max_steps = a[i].parse().unwrap()
            }
            "--frontier" => {
                i += 1;
                target = a[i].parse().unwrap()
            }
            "--samples" => {
                i += 1;
                samples = a[i].parse().unwrap()
            }
            "--trace-calls" => trace = true,
            "--entry" => {
                i += 1;
                let mut p = a[i].split(':');
                let n = p.next().unwrap().to_string();
                entries.push((n, p.map(|x| x.parse().unwrap()).collect()));
            }
            x => ll = x.to_string(),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let src = String::from_utf8_lossy(&std::fs::read(&ll).expect("read IR")).into_owned();
    let m = ir::parse_module(&src);
    drop(src);
    let parse_s = t0.elapsed().as_secs_f64();
    let mut e = Engine::new(m);
    e.max_steps = max_steps;
    e.trace_calls = trace;
    e.max_samples = samples;
    let deadline = t0 + Duration::from_secs(timeout);
    e.deadline = Some(deadline);
    e.start = t0;
    e.grace = grace;
    let base = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const AtomicU64 };
    // [next initial state, busy workers, report files, time of the first violation]
    let sh: &'static [AtomicU64] = unsafe { std::slice::from_raw_parts(base, 4) };
    e.found = &sh[3];
    let mut queue: std::collections::VecDeque<State> = Default::default();
    for (n, args) in &entries {
        match e.add_entry(n, args.clone()) {
            Ok(s) => queue.push_back(s),
            Err(m) => {
                eprintln!("error: {}", m);
                std::process::exit(2);
            }
        }
    }
    // breadth-first phase
    let init_s = t0.elapsed().as_secs_f64();
    let mut forks = vec![];
    while !queue.is_empty() && queue.len() < target && jobs > 1 {
        let mut st = queue.pop_front().unwrap();
        let end = e.run(&mut st, &mut forks, true);
        match end {
            End::Forked => queue.push_back(st),
            other => e.finish(&st, other),
        }
        queue.extend(forks.drain(..));
    }
    let bfs_s = t0.elapsed().as_secs_f64();
    let states: Vec<State> = queue.into_iter().collect();
    let n = states.len();
    let tmp = std::env::temp_dir().join(format!("symll-{}", std::process::id()));
    let mut files = vec![];
    if jobs > 1 && n > 0 {
        std::fs::create_dir_all(&tmp).unwrap();
        sh[1].store(jobs as u64, Ordering::SeqCst);
        sh[2].store(jobs as u64, Ordering::SeqCst);
        let mut pids = vec![];
        for w in 0..jobs {
            let pid = unsafe { fork() };
            if pid == 0 {
                // children reset the statistics inherited from the breadth-first phase
                reset(&mut e);
                let mut slots: Vec<Option<State>> = states.into_iter().map(Some).collect();
                let mut wk = Worker { sh, jobs: jobs as u64, tmp, id: w as u64, kids: vec![], last: Instant::now() };
                loop {
                    let k = sh[0].fetch_add(1, Ordering::SeqCst) as usize;
                    if k >= slots.len() {
                        break;
                    }
                    let mut stack = vec![slots[k].take().unwrap()];
                    wk.explore(&mut e, &mut stack);
                }
                wk.done(&e);
            }
            pids.push(pid);
        }
        let f = tmp.join("parent");
        dump(&e, f.to_str().unwrap());
        files.push(f);
        let mut bad = false;
        for p in pids {
            let mut s = 0;
            unsafe { waitpid(p, &mut s, 0) };
            if s != 0 {
                bad = true;
            }
        }
        for i in 0..sh[2].load(Ordering::SeqCst) {
            files.push(tmp.join(format!("w{}", i)));
        }
        if bad {
            eprintln!("error: a worker process failed");
            std::process::exit(2);
        }
    } else {
        let mut stack = states;
        stack.reverse();
        explore(&mut e, &mut stack);
        std::fs::create_dir_all(&tmp).unwrap();
        let f = tmp.join("parent");
        dump(&e, f.to_str().unwrap());
        files.push(f);
    }
    // merge
    let ne = e.entries.len();
    let mut st: Vec<Vec<u64>> = vec![vec![0; 8]; ne];
    let mut covers: Vec<BTreeMap<String, u64>> = vec![BTreeMap::new(); ne];
    let mut viols: Vec<BTreeMap<(String, String), (u64, Vec<String>)>> = vec![BTreeMap::new(); ne];
    let mut samp: Vec<Vec<String>> = vec![vec![]; ne];
    let mut inc: Vec<BTreeMap<String, u64>> = vec![BTreeMap::new(); ne];
    let mut funcs: BTreeMap<usize, u64> = BTreeMap::new();
    let mut solver = vec![0f64; 6];
    for f in &files {
        let t = std::fs::read_to_string(f).unwrap_or_default();
        if !t.ends_with("end\n") {
            eprintln!("error: truncated worker report");
            std::process::exit(2);
        }
        for l in t.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "stat" => {
                    let i: usize = p[1].parse().unwrap();
                    for k in 0..8 {
                        let v: u64 = p[2 + k].parse().unwrap();
                        if k == 4 || k == 5 {
                            st[i][k] = st[i][k].max(v);
                        } else {
                            st[i][k] += v;
                        }
                    }
                }
                "cover" => *covers[p[1].parse::<usize>().unwrap()].entry(p[2].into()).or_default() += p[3].parse::<u64>().unwrap(),
                "viol" => {
                    let e = viols[p[1].parse::<usize>().unwrap()].entry((p[2].into(), p[3].into())).or_insert((0, vec![]));
                    e.0 += 1;
                    if e.1.len() < 32 {
                        e.1.push(p[5].to_string());
                    }
                }
                "sample" => samp[p[1].parse::<usize>().unwrap()].push(p[2].to_string()),
                "inc" => *inc[p[1].parse::<usize>().unwrap()].entry(p[3].into()).or_default() += p[2].parse::<u64>().unwrap(),
                "func" => *funcs.entry(p[1].parse().unwrap()).or_default() += p[2].parse::<u64>().unwrap(),
                "solver" => {
                    for k in 0..6 {
                        solver[k] += p[1 + k].parse::<f64>().unwrap();
                    }
                }
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    let mut o = String::from("{\n");
    let _ = writeln!(o, " \"z3\": {},", esc(&z3::version()));
    let _ = writeln!(o, " \"parse_s\": {:.2}, \"init_s\": {:.2}, \"bfs_s\": {:.2}, \"wall_s\": {:.2}, \"frontier\": {},", parse_s, init_s, bfs_s, t0.elapsed().as_secs_f64(), n);
    let _ = writeln!(
        o,
        " \"queries\": {}, \"solver_s\": {:.3}, \"table_decisions\": {}, \"model_hits\": {}, \"cache_hits\": {}, \"audited_decisions\": {},",
        solver[0], solver[1], solver[2], solver[3], solver[4], solver[5]
    );
    let _ = write!(o, " \"functions\": [");
    for (j, (k, n)) in funcs.iter().enumerate() {
        let _ = write!(o, "{}[{}, {}]", if j > 0 { ", " } else { "" }, esc(&e.m.funcs[*k].name), n);
    }
    let _ = writeln!(o, "],\n \"entries\": [");
    for i in 0..ne {
        let s = &st[i];
        let _ = write!(
            o,
            "  {{\"entry\": {}, \"args\": {:?}, \"paths\": {}, \"assumed\": {}, \"steps\": {}, \"forks\": {}, \"max_steps\": {}, \"max_vars\": {}, \"asserts\": {}, \"sym_asserts\": {}, ",
            esc(&e.entries[i].0),
            e.entries[i].1,
            s[0],
            s[1],
            s[2],
            s[3],
            s[4],
            s[5],
            s[6],
            s[7]
        );
        let _ = write!(o, "\"covers\": {{");
        for (j, (c, n)) in covers[i].iter().enumerate() {
            let _ = write!(o, "{}{}: {}", if j > 0 { ", " } else { "" }, esc(c), n);
        }
        let _ = write!(o, "}}, \"incomplete\": {{");
        for (j, (c, n)) in inc[i].iter().enumerate() {
            let _ = write!(o, "{}{}: {}", if j > 0 { ", " } else { "" }, esc(c), n);
        }
        let _ = write!(o, "}}, \"violations\": [");
        for (j, ((k, id), (n, trs))) in viols[i].iter().enumerate() {
            let _ = write!(o, "{}{{\"kind\": {}, \"id\": {}, \"count\": {}, \"inputs\": [{}]}}", if j > 0 { ", " } else { "" }, esc(k), esc(id), n, trs.iter().map(|t| format!("[{}]", t)).collect::<Vec<_>>().join(", "));
        }
        let _ = write!(o, "], \"samples\": [");
        for (j, t) in samp[i].iter().enumerate() {
            let p: Vec<&str> = t.splitn(3, '|').collect();
            let _ = write!(o, "{}{{\"inputs\": [{}], \"obs\": {}, \"outcome\": {}}}", if j > 0 { ", " } else { "" }, p[0], esc(p[1]), esc(p[2]));
        }
        let _ = writeln!(o, "]}}{}", if i + 1 < ne { "," } else { "" });
    }
    o.push_str(" ]\n}\n");
    if out.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(&out, o).unwrap();
    }
}

fn reset(e: &mut Engine) {
    for s in e.stat.iter_mut() {
        *s = EntryStat::default();
    }
    for f in e.fexec.iter_mut() {
        *f = 0;
    }
    e.table_decisions = 0;
    e.model_hits = 0;
    e.cache_hits = 0;
    e.audits = 0;
    if let Some(z) = &mut e.z {
        z.queries = 0;
        z.secs = 0.0;
    }
}

fn explore(e: &mut Engine, stack: &mut Vec<State>) {
    while let Some(mut st) = stack.pop() {
        let mut forks = vec![];
        let end = e.run(&mut st, &mut forks, false);
        e.finish(&st, end);
        stack.extend(forks);
        late(e, stack);
    }
}

/// A worker process; when others are idle it splits off half of its pending states into a new process.
struct Worker {
    sh: &'static [AtomicU64],
    jobs: u64,
    tmp: std::path::PathBuf,
    id: u64,
    kids: Vec<i32>,
    last: Instant,
}
impl Worker {
    fn explore(&mut self, e: &mut Engine, stack: &mut Vec<State>) {
        loop {
            let Some(mut st) = stack.pop() else {
                return;
            };
            let mut forks = vec![];
            let end = e.run(&mut st, &mut forks, false);
            e.finish(&st, end);
            stack.extend(forks);
            if late(e, stack) {
                return;
            }
            if stack.len() >= 2 && self.last.elapsed().as_millis() >= 30 && self.sh[1].load(Ordering::SeqCst) < self.jobs {
                if self.sh[1].fetch_add(1, Ordering::SeqCst) >= self.jobs {
                    self.sh[1].fetch_sub(1, Ordering::SeqCst);
                    continue;
                }
                let id = self.sh[2].fetch_add(1, Ordering::SeqCst);
                let half = stack.len() / 2;
                let pid = unsafe { fork() };
                if pid < 0 {
                    std::process::exit(2);
                }
                if pid == 0 {
                    reset(e);
                    self.id = id;
                    self.kids.clear();
                    self.last = Instant::now();
                    stack.truncate(half);
                    self.explore(e, stack);
                    self.done(e);
                }
                self.kids.push(pid);
                stack.drain(..half);
                self.last = Instant::now();
            }
        }
    }
    fn done(&mut self, e: &Engine) -> ! {
        dump(e, self.tmp.join(format!("w{}", self.id)).to_str().unwrap());
        self.sh[1].fetch_sub(1, Ordering::SeqCst);
        let mut bad = 0;
        for p in &self.kids {
            let mut s = 0;
            unsafe { waitpid(*p, &mut s, 0) };
            if s != 0 {
                bad = 1;
            }
        }
        unsafe { _exit(bad) }
    }
}
/// past the deadline: everything pending is recorded as not explored
fn late(e: &mut Engine, stack: &mut Vec<State>) -> bool {
    if e.over() {
        for st in stack.drain(..) {
            e.finish(&st, End::Incomplete("time-limit".into()));
        }
        return true;
    }
    false
}
