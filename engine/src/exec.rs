//! Path-exploring symbolic executor for the IR of `ir.rs`.
use crate::expr::*;
use crate::ir::*;
use crate::z3::Z3;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    S(E),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    sym: Vec<E>, // empty, or one entry per byte (0 = concrete)
    ro: bool,
}

#[derive(Clone)]
pub struct Frame {
    f: u32,
    pc: u32,
    base: u32,
    objs: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    pub entry: u32,
    stack: Vec<Val>,
    frames: Vec<Frame>,
    mem: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    doms: Vec<u32>,
    multi: Vec<bool>,
    cons: Vec<(E, bool)>,
    model: Vec<u8>,
    trace: Vec<(u8, u32)>,
    obs: Vec<Val>,
    covers: Vec<u32>,
    pub steps: u64,
    depth: u32,
    outcome: Option<String>,
}

#[derive(Debug)]
pub enum End {
    Done,
    Assumed,
    Panic(String),
    Incomplete(String),
    Forked,
    Failed,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Intr {
    Alloc,
    Free,
    SymByte,
    SymPick,
    SymAssume,
    SymAssert,
    SymCover,
    SymObserve,
    SymConc,
    SymOutcome,
    Panic,
    AllocErr,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Nop,
    Zero,
    Ident,
    Ovf(Op),
    Sat(u8),
    MinMax(u8),
    Abs,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Fsh(bool),
    Cmp3(bool),
    Trap,
    Fun(u8),
    Reduce(u8),
    Unknown,
}

#[derive(Clone, Copy)]
enum Target {
    F(u32),
    Intr(Intr),
}

#[derive(Default, Clone)]
pub struct EntryStat {
    pub paths: u64,
    pub assumed: u64,
    pub steps: u64,
    pub forks: u64,
    pub covers: BTreeMap<u32, u64>,
    pub violations: BTreeMap<(String, String), (u64, Vec<String>)>,
    pub samples: Vec<String>,
    pub incomplete: BTreeMap<String, u64>,
    pub max_steps: u64,
    pub max_vars: u64,
    pub asserts: u64,
    pub sym_asserts: u64,
}

pub struct Engine {
    pub m: Rc<Module>,
    pub ex: Ex,
    pub z: Option<Z3>,
    targets: Vec<Target>,
    consts: Vec<Val>,
    gaddr: Vec<u64>,
    mem0: Vec<Option<Rc<Obj>>>,
    ndom: HashMap<Dom, u32>,
    doms: Vec<Dom>,
    bits: HashMap<u32, Dom>, // boolean table -> set of bytes where it is 1
    cache: HashMap<Vec<u64>, Option<Option<Vec<u8>>>>,
    audited: HashSet<(u32, u32)>,
    pub stat: Vec<EntryStat>,
    pub entries: Vec<(String, Vec<u64>)>,
    pub fexec: Vec<u64>,
    pub table_decisions: u64,
    pub model_hits: u64,
    pub cache_hits: u64,
    pub audits: u64,
    pub max_steps: u64,
    pub deadline: Option<Instant>,
    pub start: Instant,
    /// when the first violation was found (ms after the start, 0: none), shared between the workers
    pub found: &'static AtomicU64,
    /// seconds to go on after it
    pub grace: Option<u64>,
    pub max_samples: usize,
    pub trace_calls: bool,
    pub aux_queries: u64,
    pub aux_secs: f64,
}

const FNBASE: u64 = 0x7f00_0000_0000_0000;
const FULL: Dom = [!0, !0, !0, !0];

enum Feas {
    No,
    Yes(Vec<(u32, u8)>),
    Unknown,
}

fn m64(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
fn sx64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

fn intr_of(n: &str) -> Option<Intr> {
    let r = match n {
        "sym_alloc" => Intr::Alloc,
        "sym_free" => Intr::Free,
        "sym_byte" => Intr::SymByte,
        "sym_pick" => Intr::SymPick,
        "sym_assume" => Intr::SymAssume,
        "sym_assert" => Intr::SymAssert,
        "sym_cover" => Intr::SymCover,
        "sym_observe" => Intr::SymObserve,
        "sym_concrete" => Intr::SymConc,
        "sym_outcome" => Intr::SymOutcome,
        "memcpy" | "memmove" => Intr::Memcpy,
        "memset" => Intr::Memset,
        "memcmp" => Intr::Memcmp,
        "bcmp" => Intr::Bcmp,
        "strlen" => Intr::Strlen,
        "abort" => Intr::Trap,
        _ => {
            if let Some(l) = n.strip_prefix("llvm.") {
                let p = |s: &str| l.starts_with(s);
                if p("memcpy") || p("memmove") {
                    Intr::Memcpy
                } else if p("memset") {
                    Intr::Memset
                } else if p("lifetime") || p("assume") || p("dbg") || p("experimental.noalias") || p("prefetch") || p("stackrestore") || p("invariant") || p("donothing") || p("fake.use") {
                    Intr::Nop
                } else if p("is.constant") || p("objectsize") || p("stacksave") {
                    Intr::Zero
                } else if p("expect") || p("threadlocal") || p("launder") || p("strip") || p("ssa.copy") || p("annotation") {
                    Intr::Ident
                } else if p("uadd.with") {
                    Intr::Ovf(Op::UAddO)
                } else if p("sadd.with") {
                    Intr::Ovf(Op::SAddO)
                } else if p("usub.with") {
                    Intr::Ovf(Op::USubO)
                } else if p("ssub.with") {
                    Intr::Ovf(Op::SSubO)
                } else if p("umul.with") {
                    Intr::Ovf(Op::UMulO)
                } else if p("smul.with") {
                    Intr::Ovf(Op::SMulO)
                } else if p("uadd.sat") {
                    Intr::Sat(0)
                } else if p("usub.sat") {
                    Intr::Sat(1)
                } else if p("sadd.sat") {
                    Intr::Sat(2)
                } else if p("ssub.sat") {
                    Intr::Sat(3)
                } else if p("umin") {
                    Intr::MinMax(0)
                } else if p("umax") {
                    Intr::MinMax(1)
                } else if p("smin") {
                    Intr::MinMax(2)
                } else if p("smax") {
                    Intr::MinMax(3)
                } else if p("abs") {
                    Intr::Abs
                } else if p("ctpop") {
                    Intr::Ctpop
                } else if p("ctlz") {
                    Intr::Ctlz
                } else if p("cttz") {
                    Intr::Cttz
                } else if p("bswap") {
                    Intr::Bswap
                } else if p("bitreverse") {
                    Intr::Bitrev
                } else if p("fshl") {
                    Intr::Fsh(true)
                } else if p("fshr") {
                    Intr::Fsh(false)
                } else if p("ucmp") {
                    Intr::Cmp3(false)
                } else if p("scmp") {
                    Intr::Cmp3(true)
                } else if p("trap") || p("debugtrap") || p("ubsantrap") {
                    Intr::Trap
                } else if let Some(k) = FUNS.iter().position(|f| p(f)) {
                    Intr::Fun(k as u8)
                } else if p("vector.reduce.or") {
                    Intr::Reduce(0)
                } else if p("vector.reduce.and") {
                    Intr::Reduce(1)
                } else if p("vector.reduce.add") {
                    Intr::Reduce(2)
                } else if p("vector.reduce.xor") {
                    Intr::Reduce(3)
                } else {
                    Intr::Unknown
                }
            } else if n.contains("4core9panicking") && (n.ends_with("panic_fmt") || n.contains("panic_nounwind_fmt") || n.contains("9panic_fmt")) {
                Intr::Panic
            } else if n.contains("rust_begin_unwind") {
                Intr::Panic
            } else if n.contains("handle_alloc_error") {
                Intr::AllocErr
            } else {
                return None;
            }
        }
    };
    Some(r)
}

/// the longer of two names that begin alike stands first
const FUNS: [&str; 20] = [
    "fabs.", "floor.", "ceil.", "trunc.", "roundeven.", "round.", "rint.", "nearbyint.", "sqrt.", "copysign.", "minnum.", "maxnum.", "minimumnum.", "maximumnum.", "minimum.", "maximum.", "fmuladd.", "fma.", "fptosi.sat.",
    "fptoui.sat.",
];
fn fun(n: &str, from: &Ty, to: &Ty, v: [u64; 3]) -> Option<u64> {
    let single = match from {
        Ty::F32 => true,
        Ty::F64 => false,
        _ => return None,
    };
    let f = |i: usize| if single { f32::from_bits(v[i] as u32) as f64 } else { f64::from_bits(v[i]) };
    let (a, b, c) = (f(0), f(1), f(2));
    if n.starts_with("fpto") {
        let w = match to {
            Ty::Int(w @ (8 | 16 | 32 | 64)) => *w,
            _ => return None,
        };
        return Some(if n == "fptosi.sat." {
            let lim = 1i128 << (w - 1);
            ((a as i128).clamp(-lim, lim - 1) as u64) & m64(w)
        } else {
            (a as u128).min(m64(w) as u128) as u64
        });
    }
    if from != to {
        return None;
    }
    let min = |a: f64, b: f64| if a == b && a.is_sign_negative() { a } else { a.min(b) };
    let max = |a: f64, b: f64| if a == b && a.is_sign_negative() { b } else { a.max(b) };
    let r = match n {
        "fabs." => a.abs(),
        "floor." => a.floor(),
        "ceil." => a.ceil(),
        "trunc." => a.trunc(),
        "roundeven." | "rint." | "nearbyint." => a.round_ties_even(),
        "round." => a.round(),
        // exact for f32 too: the double root of a single, rounded, is the single root
        "sqrt." => a.sqrt(),
        "copysign." => a.copysign(b),
        "minnum." | "minimumnum." => min(a, b),
        "maxnum." | "maximumnum." => max(a, b),
        "minimum." => if a.is_nan() || b.is_nan() { f64::NAN } else { min(a, b) },
        "maximum." => if a.is_nan() || b.is_nan() { f64::NAN } else { max(a, b) },
        "fmuladd." | "fma." if !single => a.mul_add(b, c),
        _ => return None,
    };
    Some(if single { (r as f32).to_bits() as u64 } else { r.to_bits() })
}

impl Engine {
    pub fn new(m: Module) -> Engine {
        let mut ex = Ex::new();
        ex.konst(1, 0); // expression id 0 is reserved
        let m = Rc::new(m);
        let mut e = Engine {
            ex,
            z: None,
            targets: vec![],
            consts: vec![],
            gaddr: vec![],
            mem0: vec![None],
            ndom: HashMap::new(),
            doms: vec![],
            bits: HashMap::new(),
            cache: HashMap::new(),
            audited: HashSet::new(),
            stat: vec![],
            entries: vec![],
            fexec: vec![0; m.funcs.len()],
            table_decisions: 0,
            model_hits: 0,
            cache_hits: 0,
            audits: 0,
            max_steps: 400_000_000,
            deadline: None,
            start: Instant::now(),
            found: Box::leak(Box::new(AtomicU64::new(0))),
            grace: None,
            max_samples: 3,
            trace_calls: false,
            aux_queries: 0,
            aux_secs: 0.0,
            m: m.clone(),
        };
        e.dom_id(FULL);
        for (i, s) in m.syms.iter().enumerate() {
            let n = &m.sym_names[i];
            let t = match intr_of(n) {
                Some(x) => Target::Intr(x),
                None => match s {
                    SymKind::Func(k) if m.funcs[*k as usize].has_body => Target::F(*k),
                    _ => Target::Intr(Intr::Unknown),
                },
            };
            e.targets.push(t);
        }
        for g in m.globals.iter() {
            let sz = g.ty.size().max(1) as usize;
            let id = e.mem0.len() as u64;
            e.gaddr.push(id << 32);
            e.mem0.push(Some(Rc::new(Obj { data: vec![0; sz], sym: vec![], ro: g.constant })));
        }
        for (i, g) in m.globals.iter().enumerate() {
            if let Some(c) = &g.init {
                let mut buf = vec![0u8; g.ty.size().max(1) as usize];
                e.fill(&g.ty, c, &mut buf);
                e.mem0[i + 1] = Some(Rc::new(Obj { data: buf, sym: vec![], ro: g.constant }));
            }
        }
        for (t, c) in m.consts.iter() {
            let v = e.cval(t, c);
            e.consts.push(v);
        }
        e
    }
    fn sym_addr(&self, s: u32) -> u64 {
        match self.m.syms[s as usize] {
            SymKind::Global(g) => self.gaddr[g as usize],
            SymKind::Func(_) | SymKind::Unknown => FNBASE + s as u64 * 16,
            SymKind::Alias(a) => {
                let (_, t, c) = &self.m.aliases[a as usize];
                self.cint(t, c) as u64
            }
        }
    }
    fn cint(&self, ty: &Ty, c: &Const) -> u128 {
        match c {
            Const::Int(v) => *v,
            Const::Undef | Const::Zero => 0,
            Const::Global(s) => self.sym_addr(*s) as u128,
            Const::Gep(t, b, idx) => {
                let base = self.cint(&b.0, &b.1) as u64;
                let mut off = 0i64;
                let mut cur = t.clone();
                for (i, (it, ic)) in idx.iter().enumerate() {
                    let v = sx64(self.cint(it, ic) as u64, it.bits());
                    if i == 0 {
                        off += v * cur.size() as i64;
                    } else {
                        let nt;
                        match &cur {
                            Ty::Struct(..) => {
                                let (o, f) = cur.field(v as usize);
                                off += o as i64;
                                nt = f.clone();
                            }
                            _ => {
                                let (_, f) = cur.field(0);
                                off += v * f.size() as i64;
                                nt = f.clone();
                            }
                        }
                        cur = nt;
                    }
                }
                base.wrapping_add(off as u64) as u128
            }
            Const::Cast(op, t, c, to) => {
                let v = self.cint(t, c);
                if op == "trunc" {
                    v & msk(to.bits())
                } else {
                    v
                }
            }
            Const::Bin(op, t, a, b) => {
                let x = self.cint(t, a);
                let y = self.cint(t, b);
                let o = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    _ => BinOp::Xor,
                };
                bin128(o, t.bits(), x, y)
            }
            _ => panic!("cint {:?} {:?}", ty, c),
        }
    }
    fn cval(&self, ty: &Ty, c: &Const) -> Val {
        match c {
            Const::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::I(*x as u64)).collect())),
            Const::Agg(v) => Val::A(Rc::new(v.iter().map(|(t, c)| self.cval(t, c)).collect())),
            Const::Splat(b) => {
                let v = self.cval(&b.0, &b.1);
                Val::A(Rc::new(vec![v; ty.n_fields()]))
            }
            Const::Undef | Const::Zero if ty.is_agg() => zero_val(ty),
            _ => {
                let v = self.cint(ty, c);
                if ty.bits() > 64 {
                    Val::W(Rc::new(v))
                } else {
                    Val::I(v as u64)
                }
            }
        }
    }
    fn fill(&self, ty: &Ty, c: &Const, out: &mut [u8]) {
        match c {
            Const::Undef | Const::Zero => {}
            Const::Bytes(b) => out[..b.len()].copy_from_slice(b),
            Const::Agg(v) => {
                for (i, (t, c)) in v.iter().enumerate() {
                    let (o, _) = ty.field(i);
                    let sz = t.size() as usize;
                    self.fill(t, c, &mut out[o as usize..o as usize + sz]);
                }
            }
            Const::Splat(b) => {
                let sz = b.0.size() as usize;
                for i in 0..ty.n_fields() {
                    self.fill(&b.0, &b.1, &mut out[i * sz..(i + 1) * sz]);
                }
            }
            _ => {
                let v = self.cint(ty, c);
                let sz = ty.size() as usize;
                out[..sz].copy_from_slice(&v.to_le_bytes()[..sz]);
            }
        }
    }
    pub fn add_entry(&mut self, name: &str, args: Vec<u64>) -> Result<State, String> {
        let s = *self.m.sym_ids.get(name).ok_or_else(|| format!("no entry function {}", name))?;
        let k = match self.targets[s as usize] {
            Target::F(k) => k,
            _ => return Err(format!("entry {} has no body", name)),
        };
        let ei = self.entries.len() as u32;
        self.entries.push((name.to_string(), args.clone()));
        self.stat.push(EntryStat::default());
        let f = &self.m.funcs[k as usize];
        let mut stack = vec![Val::I(0); f.nregs as usize];
        for i in 0..(f.nargs as usize) {
            stack[i] = Val::I(*args.get(i).unwrap_or(&0));
        }
        Ok(State {
            entry: ei,
            stack,
            frames: vec![Frame { f: k, pc: 0, base: 0, objs: vec![] }],
            mem: self.mem0.clone(),
            free: vec![],
            doms: vec![],
            multi: vec![],
            cons: vec![],
            model: vec![],
            trace: vec![],
            obs: vec![],
            covers: vec![],
            steps: 0,
            depth: 0,
            outcome: None,
        })
    }
    fn dom_id(&mut self, d: Dom) -> u32 {
        if let Some(i) = self.ndom.get(&d) {
            return *i;
        }
        let i = self.doms.len() as u32;
        self.doms.push(d);
        self.ndom.insert(d, i);
        i
    }
    fn tbits(&mut self, t: u32) -> Dom {
        if let Some(d) = self.bits.get(&t) {
            return *d;
        }
        let mut d = [0u64; 4];
        let tb = &self.ex.tables[t as usize];
        for i in 0..256 {
            if tb[i] & 1 == 1 {
                d[i >> 6] |= 1 << (i & 63);
            }
        }
        self.bits.insert(t, d);
        d
    }

    // ---------- path conditions ----------
    fn eval(&mut self, st: &State, e: E) -> u128 {
        let mut memo = HashMap::new();
        self.ex.eval(e, &st.model, &mut memo)
    }
    fn z3(&mut self) -> &mut Z3 {
        if self.z.is_none() {
            self.z = Some(Z3::new());
        }
        self.z.as_mut().unwrap()
    }
    fn solve(&mut self, st: &State, cond: E, pos: bool) -> Feas {
        // constraint slice: everything transitively sharing a variable with cond
        let mut vars: Vec<u32> = self.ex.var_list(cond);
        let mut inn = vec![false; st.model.len()];
        for v in &vars {
            inn[*v as usize] = true;
        }
        let mut used = vec![false; st.cons.len()];
        let mut cl: Vec<(E, bool)> = vec![];
        loop {
            let mut ch = false;
            for (i, (c, p)) in st.cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = self.ex.var_list(*c);
                if vs.iter().any(|v| inn[*v as usize]) {
                    used[i] = true;
                    cl.push((*c, *p));
                    for v in vs {
                        if !inn[v as usize] {
                            inn[v as usize] = true;
                            vars.push(v);
                        }
                    }
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        cl.sort();
        cl.dedup();
        vars.sort();
        let mut key: Vec<u64> = vec![((cond as u64) << 1) | pos as u64];
        for (c, p) in &cl {
            key.push(((*c as u64) << 1) | *p as u64);
        }
        key.push(!0);
        for v in &vars {
            key.push(((*v as u64) << 32) | st.doms[*v as usize] as u64);
        }
        let r = match self.cache.get(&key) {
            Some(r) => {
                self.cache_hits += 1;
                r.clone()
            }
            None => {
                cl.push((cond, pos));
                let vd: Vec<(u32, u32, Dom)> = vars.iter().map(|v| (*v, st.doms[*v as usize], self.doms[st.doms[*v as usize] as usize])).collect();
                self.z3();
                let r = self.z.as_mut().unwrap().check(&self.ex, &cl, &vd);
                self.cache.insert(key, r.clone());
                r
            }
        };
        match r {
            None => Feas::Unknown,
            Some(None) => Feas::No,
            Some(Some(vals)) => Feas::Yes(vars.iter().cloned().zip(vals).collect()),
        }
    }
    fn audit(&mut self, e: E, v: u32, t: u32, di: u32, can1: bool, can0: bool) {
        if !self.audited.insert((t, di)) {
            return;
        }
        self.audits += 1;
        let d = self.doms[di as usize];
        self.z3();
        let z = self.z.as_mut().unwrap();
        let r1 = z.check(&self.ex, &[(e, true)], &[(v, di, d)]);
        let r0 = z.check(&self.ex, &[(e, false)], &[(v, di, d)]);
        let s1 = matches!(r1, Some(Some(_)));
        let s0 = matches!(r0, Some(Some(_)));
        if r1.is_none() || r0.is_none() || s1 != can1 || s0 != can0 {
            eprintln!("FATAL: solver disagrees with the value table of a branch condition ({:?})", self.ex.n(e));
            std::process::exit(3);
        }
    }
    /// three-valued evaluation of a boolean combination of single-byte conditions under the byte domains
    fn quick(&mut self, st: &State, cond: E, fuel: u32) -> Option<bool> {
        if fuel == 0 {
            return None;
        }
        match self.ex.vars[cond as usize] {
            Vars::None => return Some(self.ex.n(cond).k != 0),
            Vars::One(v, t) => {
                let b = self.tbits(t);
                let di = st.doms[v as usize];
                let d = self.doms[di as usize];
                let c1 = (0..4).any(|k| d[k] & b[k] != 0);
                let c0 = (0..4).any(|k| d[k] & !b[k] != 0);
                if c1 && c0 {
                    return None;
                }
                self.audit(cond, v, t, di, c1, c0);
                return Some(c1);
            }
            _ => {}
        }
        let n = *self.ex.n(cond);
        match n.op {
            Op::Bin(BinOp::And) => match (self.quick(st, n.a, fuel - 1), self.quick(st, n.b, fuel - 1)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Bin(BinOp::Or) => match (self.quick(st, n.a, fuel - 1), self.quick(st, n.b, fuel - 1)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            Op::Bin(BinOp::Xor) if self.ex.as_const(n.b) == Some(1) => self.quick(st, n.a, fuel - 1).map(|b| !b),
            Op::Eq => match (self.ex.vars[n.a as usize], self.ex.vars[n.b as usize]) {
                // two bytes with disjoint ranges cannot be equal
                (Vars::One(v1, t1), Vars::One(v2, t2)) => {
                    let mut seen = std::collections::HashSet::new();
                    let (d1, d2) = (self.doms[st.doms[v1 as usize] as usize], self.doms[st.doms[v2 as usize] as usize]);
                    for i in 0..256 {
                        if dom_has(&d1, i) {
                            seen.insert(self.ex.tables[t1 as usize][i]);
                        }
                    }
                    for i in 0..256 {
                        if dom_has(&d2, i) && seen.contains(&self.ex.tables[t2 as usize][i]) {
                            return None;
                        }
                    }
                    Some(false)
                }
                _ => None,
            },
            _ => None,
        }
    }
    fn feas(&mut self, st: &State, cond: E, pos: bool) -> Feas {
        if let Vars::One(v, t) = self.ex.vars[cond as usize] {
            if !st.multi[v as usize] {
                let b = self.tbits(t);
                let di = st.doms[v as usize];
                let d = self.doms[di as usize];
                let mut i1 = [0u64; 4];
                let mut i0 = [0u64; 4];
                for k in 0..4 {
                    i1[k] = d[k] & b[k];
                    i0[k] = d[k] & !b[k];
                }
                let (f1, f0) = (dom_first(&i1), dom_first(&i0));
                self.table_decisions += 1;
                self.audit(cond, v, t, di, f1.is_some(), f0.is_some());
                let (dd, ff) = if pos { (i1, f1) } else { (i0, f0) };
                return match ff {
                    None => Feas::No,
                    Some(x) => {
                        if dom_has(&dd, st.model[v as usize] as usize) {
                            Feas::Yes(vec![])
                        } else {
                            Feas::Yes(vec![(v, x)])
                        }
                    }
                };
            }
        }
        if let Some(b) = self.quick(st, cond, 24) {
            self.table_decisions += 1;
            return if b == pos { Feas::Yes(vec![]) } else { Feas::No };
        }
        if (self.eval(st, cond) != 0) == pos {
            self.model_hits += 1;
            return Feas::Yes(vec![]);
        }
        self.solve(st, cond, pos)
    }
    fn assume_rec(&mut self, st: &mut State, cond: E, pos: bool) {
        let n = *self.ex.n(cond);
        match self.ex.vars[cond as usize] {
            Vars::None => {}
            Vars::One(v, t) => {
                let b = self.tbits(t);
                let mut d = self.doms[st.doms[v as usize] as usize];
                for k in 0..4 {
                    d[k] &= if pos { b[k] } else { !b[k] };
                }
                st.doms[v as usize] = self.dom_id(d);
            }
            _ => {
                match n.op {
                    Op::Bin(BinOp::And) if pos => {
                        self.assume_rec(st, n.a, true);
                        self.assume_rec(st, n.b, true);
                        return;
                    }
                    Op::Bin(BinOp::Or) if !pos => {
                        self.assume_rec(st, n.a, false);
                        self.assume_rec(st, n.b, false);
                        return;
                    }
                    Op::Bin(BinOp::Xor) if self.ex.as_const(n.b) == Some(1) => {
                        self.assume_rec(st, n.a, !pos);
                        return;
                    }
                    _ => {}
                }
                if !st.cons.contains(&(cond, pos)) {
                    for v in self.ex.var_list(cond) {
                        st.multi[v as usize] = true;
                    }
                    st.cons.push((cond, pos));
                }
            }
        }
    }
    fn assume(&mut self, st: &mut State, cond: E, pos: bool, upd: Vec<(u32, u8)>) {
        for (v, x) in upd {
            st.model[v as usize] = x;
        }
        self.assume_rec(st, cond, pos);
    }
    /// Some(value) after constraining st; other values are pushed as forks re-executing the instruction
    fn concretize(&mut self, st: &mut State, e: E, out: &mut Vec<State>) -> Result<u128, End> {
        let v = self.eval(st, e);
        let w = self.ex.w(e);
        let k = self.ex.konst(w, v);
        let eq = self.ex.cmp(Op::Eq, e, k);
        if self.ex.as_const(eq).is_some() {
            return Ok(v);
        }
        match self.feas(st, eq, false) {
            Feas::No => {}
            Feas::Unknown => return Err(End::Incomplete("solver-unknown".into())),
            Feas::Yes(u) => {
                let mut o = st.clone();
                o.depth += 1;
                self.assume(&mut o, eq, false, u);
                out.push(o);
                self.stat[st.entry as usize].forks += 1;
            }
        }
        self.assume(st, eq, true, vec![]);
        Ok(v)
    }

    // ---------- values ----------
    fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(k) => self.ex.konst(w, *k as u128),
            Val::W(k) => self.ex.konst(w, **k),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn from_e(&self, e: E) -> Val {
        let n = self.ex.n(e);
        if n.op == Op::Const {
            if n.w > 64 {
                Val::W(Rc::new(n.k))
            } else {
                Val::I(n.k as u64)
            }
        } else {
            Val::S(e)
        }
    }
    #[inline]
    fn get(&self, st: &State, base: usize, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.stack[base + *r as usize].clone(),
            Opd::I(v) => Val::I(*v),
            Opd::C(c) => self.consts[*c as usize].clone(),
        }
    }
    fn edge(&mut self, st: &mut State, base: usize, e: &Edge) {
        let n = e.phis.len();
        if n == 1 {
            let v = self.get(st, base, &e.phis[0].1);
            st.stack[base + e.phis[0].0 as usize] = v;
        } else if n > 1 {
            let vals: Vec<Val> = e.phis.iter().map(|(_, o)| self.get(st, base, o)).collect();
            for (i, v) in vals.into_iter().enumerate() {
                st.stack[base + e.phis[i].0 as usize] = v;
            }
        }
        st.frames.last_mut().unwrap().pc = e.pc;
    }

    // ---------- memory ----------
    fn alloc(&self, st: &mut State, size: usize) -> u64 {
        let o = Some(Rc::new(Obj { data: vec![0; size], sym: vec![], ro: false }));
        match st.free.pop() {
            Some(i) => {
                st.mem[i as usize] = o;
                (i as u64) << 32
            }
            None => {
                st.mem.push(o);
                (st.mem.len() as u64 - 1) << 32
            }
        }
    }
    #[inline]
    fn resolve(st: &State, addr: u64, size: u64) -> Result<(usize, usize), String> {
        let id = (addr >> 32) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        match st.mem.get(id) {
            Some(Some(o)) => {
                if off + size as usize <= o.data.len() {
                    Ok((id, off))
                } else {
                    Err(format!("out-of-bounds access: object size {} offset {} len {}", o.data.len(), off as i64, size))
                }
            }
            _ => Err(format!("wild access at {:#x}", addr)),
        }
    }
    fn load_bytes(&mut self, o: &Rc<Obj>, off: usize, nb: usize, w: u32) -> Val {
        // mixed/symbolic load
        let mut e: Option<E> = None;
        for i in (0..nb).rev() {
            let s = o.sym[off + i];
            let b = if s == 0 { self.ex.konst(8, o.data[off + i] as u128) } else { s };
            e = Some(match e {
                None => b,
                Some(h) => self.ex.concat(h, b),
            });
        }
        let mut e = e.unwrap();
        if self.ex.w(e) > w {
            e = self.ex.extract(e, 0, w);
        }
        self.from_e(e)
    }
    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> Result<Val, String> {
        if ty.is_agg() {
            let n = ty.n_fields();
            let mut v = Vec::with_capacity(n);
            if let Ty::Vec(_, t) = ty {
                if t.bits() % 8 != 0 {
                    return Err("sub-byte vector load".into());
                }
            }
            for i in 0..n {
                let (o, t) = ty.field(i);
                let t = t.clone();
                v.push(self.load(st, addr + o, &t)?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        let w = ty.bits();
        let nb = ((w + 7) / 8) as usize;
        let (id, off) = Self::resolve(st, addr, nb as u64)?;
        let o = st.mem[id].as_ref().unwrap();
        if !o.sym.is_empty() && o.sym[off..off + nb].iter().any(|x| *x != 0) {
            let o = o.clone();
            return Ok(self.load_bytes(&o, off, nb, w));
        }
        let d = &o.data[off..off + nb];
        Ok(match nb {
            1 => Val::I(d[0] as u64 & m64(w)),
            8 => Val::I(u64::from_le_bytes(d.try_into().unwrap()) & m64(w)),
            4 => Val::I(u32::from_le_bytes(d.try_into().unwrap()) as u64 & m64(w)),
            _ => {
                let mut b = [0u8; 16];
                b[..nb].copy_from_slice(d);
                let v = u128::from_le_bytes(b) & msk(w);
                if w > 64 {
                    Val::W(Rc::new(v))
                } else {
                    Val::I(v as u64)
                }
            }
        })
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> Result<(), String> {
        if ty.is_agg() {
            let vs = match v {
                Val::A(a) => a.clone(),
                _ => return Err("aggregate store of scalar".into()),
            };
            if let Ty::Vec(_, t) = ty {
                if t.bits() % 8 != 0 {
                    return Err("sub-byte vector store".into());
                }
            }
            for i in 0..ty.n_fields() {
                let (o, t) = ty.field(i);
                let t = t.clone();
                self.store(st, addr + o, &t, &vs[i])?;
            }
            return Ok(());
        }
        let w = ty.bits();
        let nb = ((w + 7) / 8) as usize;
        let (id, off) = Self::resolve(st, addr, nb as u64)?;
        let o = Rc::make_mut(st.mem[id].as_mut().unwrap());
        if o.ro {
            return Err("store to constant".into());
        }
        match v {
            Val::I(k) => {
                o.data[off..off + nb].copy_from_slice(&k.to_le_bytes()[..nb]);
                if !o.sym.is_empty() {
                    o.sym[off..off + nb].fill(0);
                }
            }
            Val::W(k) => {
                o.data[off..off + nb].copy_from_slice(&k.to_le_bytes()[..nb]);
                if !o.sym.is_empty() {
                    o.sym[off..off + nb].fill(0);
                }
            }
            Val::S(e) => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                let mut e = *e;
                let ew = self.ex.w(e);
                if ew < nb as u32 * 8 {
                    e = self.ex.zext(e, nb as u32 * 8);
                }
                for i in 0..nb {
                    let b = self.ex.extract(e, i as u32 * 8, 8);
                    match self.ex.as_const(b) {
                        Some(k) => {
                            o.data[off + i] = k as u8;
                            o.sym[off + i] = 0;
                        }
                        None => o.sym[off + i] = b,
                    }
                }
            }
            Val::A(_) => return Err("scalar store of aggregate".into()),
        }
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Result<(), String> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = Self::resolve(st, s, n)?;
        let (di, do_) = Self::resolve(st, d, n)?;
        let n = n as usize;
        let src = st.mem[si].as_ref().unwrap().clone();
        let o = Rc::make_mut(st.mem[di].as_mut().unwrap());
        if o.ro {
            return Err("memcpy to constant".into());
        }
        o.data[do_..do_ + n].copy_from_slice(&src.data[so..so + n]);
        let sv = !src.sym.is_empty() && src.sym[so..so + n].iter().any(|x| *x != 0);
        if sv {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            o.sym[do_..do_ + n].copy_from_slice(&src.sym[so..so + n]);
        } else if !o.sym.is_empty() {
            o.sym[do_..do_ + n].fill(0);
        }
        Ok(())
    }
    fn byte_at(&mut self, o: &Obj, i: usize) -> Val {
        if !o.sym.is_empty() && o.sym[i] != 0 {
            Val::S(o.sym[i])
        } else {
            Val::I(o.data[i] as u64)
        }
    }
    fn memcmp(&mut self, st: &State, a: u64, b: u64, n: u64, eq_only: bool) -> Result<Val, String> {
        if n == 0 {
            return Ok(Val::I(0));
        }
        let (ai, ao) = Self::resolve(st, a, n)?;
        let (bi, bo) = Self::resolve(st, b, n)?;
        let oa = st.mem[ai].as_ref().unwrap().clone();
        let ob = st.mem[bi].as_ref().unwrap().clone();
        let n = n as usize;
        if oa.sym.is_empty() && ob.sym.is_empty() {
            let x = &oa.data[ao..ao + n];
            let y = &ob.data[bo..bo + n];
            return Ok(Val::I(match x.cmp(y) {
                std::cmp::Ordering::Less => 0xffff_ffff,
                std::cmp::Ordering::Equal => 0,
                std::cmp::Ordering::Greater => 1,
            }));
        }
        // collect positions until a definite difference
        let mut pairs: Vec<(E, E)> = vec![];
        let mut tail = 0u64;
        for i in 0..n {
            let x = self.byte_at(&oa, ao + i);
            let y = self.byte_at(&ob, bo + i);
            match (&x, &y) {
                (Val::I(p), Val::I(q)) => {
                    if p != q {
                        tail = if p < q { 0xffff_ffff } else { 1 };
                        break;
                    }
                }
                _ => {
                    let p = self.to_e(&x, 8);
                    let q = self.to_e(&y, 8);
                    if p != q {
                        pairs.push((p, q));
                    }
                }
            }
        }
        if eq_only {
            if tail != 0 {
                return Ok(Val::I(1));
            }
            let mut all = self.ex.konst(1, 1);
            for (p, q) in pairs {
                let c = self.ex.cmp(Op::Eq, p, q);
                all = self.ex.and1(all, c);
                if self.ex.as_const(all) == Some(0) {
                    break;
                }
            }
            let z = self.ex.konst(32, 0);
            let o = self.ex.konst(32, 1);
            let r = self.ex.ite(all, z, o);
            return Ok(self.from_e(r));
        }
        let mut r = self.ex.konst(32, tail as u128);
        for (p, q) in pairs.into_iter().rev() {
            let eq = self.ex.cmp(Op::Eq, p, q);
            let lt = self.ex.cmp(Op::Ult, p, q);
            let m1 = self.ex.konst(32, 0xffff_ffff);
            let p1 = self.ex.konst(32, 1);
            let d = self.ex.ite(lt, m1, p1);
            r = self.ex.ite(eq, r, d);
        }
        Ok(self.from_e(r))
    }
    fn cstr(&self, st: &State, p: u64, n: u64) -> String {
        match Self::resolve(st, p, n) {
            Ok((i, o)) => {
                let ob = st.mem[i].as_ref().unwrap();
                String::from_utf8_lossy(&ob.data[o..o + n as usize]).into_owned()
            }
            Err(_) => "?".into(),
        }
    }
    fn panic_loc(&mut self, st: &State, args: &[Val]) -> String {
        let mut r = String::from("?");
        for a in args.iter().rev() {
            if let Val::I(p) = a {
                if let (Ok(Val::I(fp)), Ok(Val::I(fl)), Ok(Val::I(line)), Ok(Val::I(col))) = (self.load(st, *p, &Ty::Ptr), self.load(st, *p + 8, &Ty::Int(64)), self.load(st, *p + 16, &Ty::Int(32)), self.load(st, *p + 20, &Ty::Int(32))) {
                    if fl < 400 {
                        let f = self.cstr(st, fp, fl);
                        if f.ends_with(".rs") {
                            r = format!("{}:{}:{}", f, line, col);
                            break;
                        }
                    }
                }
            }
        }
        // nearest frame of the library for context
        let mut ctx = String::new();
        for fr in st.frames.iter().rev() {
            let n = &self.m.funcs[fr.f as usize].name;
            if n.contains("dbml_rs") {
                ctx = n.clone();
                break;
            }
        }
        format!("{} in {}", r, ctx)
    }

    pub fn trace_of(&self, st: &State) -> String {
        let mut s = String::new();
        for (k, v) in &st.trace {
            if !s.is_empty() {
                s.push(',');
            }
            if *k == 0 {
                s.push_str(&format!("{}", st.model[*v as usize]));
            } else {
                s.push_str(&format!("{}", v));
            }
        }
        s
    }
    /// past the deadline, or long enough after the first violation
    pub fn over(&self) -> bool {
        let now = Instant::now();
        if self.deadline.map_or(false, |d| now > d) {
            return true;
        }
        let f = self.found.load(Ordering::Relaxed);
        f != 0 && self.grace.map_or(false, |g| now.duration_since(self.start).as_millis() as u64 > f + g * 1000)
    }
    fn violation(&mut self, st: &State, kind: &str, id: &str) {
        if kind == "assert" || kind == "panic" {
            let ms = (self.start.elapsed().as_millis() as u64).max(1);
            let _ = self.found.compare_exchange(0, ms, Ordering::SeqCst, Ordering::SeqCst);
        }
        let tr = self.trace_of(st);
        let s = &mut self.stat[st.entry as usize];
        let e = s.violations.entry((kind.to_string(), id.to_string())).or_insert((0, vec![]));
        e.0 += 1;
        if e.1.len() < 8 {
            e.1.push(tr);
        }
    }
    pub fn finish(&mut self, st: &State, end: End) {
        let tr = self.trace_of(st);
        let mut obs: u64 = 0xcbf29ce484222325;
        let vals = st.obs.clone();
        for v in vals {
            let k = match v {
                Val::I(k) => k,
                Val::S(e) => self.eval(st, e) as u64,
                _ => 0,
            };
            obs = (obs ^ k).wrapping_mul(0x100000001b3);
        }
        for c in &st.covers {
            obs = (obs ^ (*c as u64 + 1)).wrapping_mul(0x100000001b3);
        }
        let e = st.entry as usize;
        let ms = self.max_samples;
        let oc = st.outcome.clone().unwrap_or_default();
        let s = &mut self.stat[e];
        s.steps += st.steps;
        s.max_steps = s.max_steps.max(st.steps);
        s.max_vars = s.max_vars.max(st.model.len() as u64);
        match end {
            End::Done => {
                s.paths += 1;
                for c in &st.covers {
                    *s.covers.entry(*c).or_default() += 1;
                }
                // keep a few path witnesses: early ones and then exponentially spaced ones
                if s.samples.len() < ms && (s.paths <= 1 || s.paths.is_power_of_two()) {
                    s.samples.push(format!("{}|{:016x}|{}", tr, obs, oc));
                }
            }
            End::Assumed => s.assumed += 1,
            End::Panic(loc) => {
                s.paths += 1;
                self.violation(st, "panic", &loc);
            }
            End::Incomplete(r) => {
                *s.incomplete.entry(r.clone()).or_default() += 1;
                if r.starts_with("step-limit") {
                    self.violation(st, "steps", "step-limit");
                } else {
                    // not decided here: the real code is run on a model of the path so far
                    self.violation(st, "open", &r);
                }
            }
            End::Failed => s.paths += 1,
            End::Forked => {}
        }
    }

    /// run until the path ends, or (stop) until it forks
    pub fn run(&mut self, st: &mut State, out: &mut Vec<State>, stop: bool) -> End {
        let n0 = out.len();
        loop {
            let lim = 200_000;
            match self.run_some(st, out, lim, stop) {
                None => {
                    if st.steps > self.max_steps {
                        return End::Incomplete("step-limit".into());
                    }
                    if self.over() {
                        return End::Incomplete("time-limit".into());
                    }
                    if stop && out.len() > n0 {
                        return End::Forked;
                    }
                }
                Some(e) => return e,
            }
        }
    }

    fn run_some(&mut self, st: &mut State, out: &mut Vec<State>, lim: u64, stop: bool) -> Option<End> {
        let m = self.m.clone();
        let n0 = out.len();
        let end = st.steps + lim;
        macro_rules! tr {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(m) => return Some(End::Incomplete(format!("memory: {} in {}", m, self.fname(st)))),
                }
            };
        }
        macro_rules! conc {
            ($v:expr) => {
                match $v {
                    Val::I(k) => k,
                    Val::S(e) => match self.concretize(st, e, out) {
                        Ok(v) => v as u64,
                        Err(e) => return Some(e),
                    },
                    Val::W(k) => *k as u64,
                    Val::A(_) => return Some(End::Incomplete("aggregate where scalar expected".into())),
                }
            };
        }
        // concretize an operand, remembering the value in its register
        macro_rules! concop {
            ($o:expr, $base:expr) => {{
                let v = self.get(st, $base, $o);
                match v {
                    Val::I(k) => k,
                    _ => {
                        let k = conc!(v);
                        if let Opd::R(r) = $o {
                            st.stack[$base + *r as usize] = Val::I(k);
                        }
                        k
                    }
                }
            }};
        }
        loop {
            if st.steps >= end || (stop && out.len() > n0) {
                return None;
            }
            st.steps += 1;
            let fr = st.frames.last().unwrap();
            let base = fr.base as usize;
            let f = &m.funcs[fr.f as usize];
            let pc = fr.pc as usize;
            let inst = &f.insts[pc];
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    st.stack[base + $d as usize] = $v;
                    st.frames.last_mut().unwrap().pc += 1;
                }};
            }
            match inst {
                Inst::Load { ty, p, d } => {
                    let pv = self.get(st, base, p);
                    let addr = match pv {
                        Val::I(a) => a,
                        Val::S(e) => {
                            if let Some(v) = self.table_load(st, e, ty) {
                                set!(*d, v);
                                continue;
                            }
                            concop!(p, base)
                        }
                        _ => return Some(End::Incomplete("bad address".into())),
                    };
                    let v = tr!(self.load(st, addr, ty));
                    set!(*d, v);
                }
                Inst::Store { ty, v, p } => {
                    let addr = concop!(p, base);
                    let v = self.get(st, base, v);
                    tr!(self.store(st, addr, ty, &v));
                    st.frames.last_mut().unwrap().pc += 1;
                }
                Inst::Gep { base: b, off, idx, d } => {
                    let bv = self.get(st, base, b);
                    let mut acc = *off as u64;
                    let mut symb: Option<E> = None;
                    match bv {
                        Val::I(a) => acc = acc.wrapping_add(a),
                        Val::S(e) => symb = Some(e),
                        _ => return Some(End::Incomplete("gep base".into())),
                    }
                    for (sc, o, w) in idx {
                        match self.get(st, base, o) {
                            Val::I(k) => acc = acc.wrapping_add((sx64(k, *w)).wrapping_mul(*sc) as u64),
                            Val::S(e) => {
                                let e = if *w < 64 { self.ex.sext(e, 64) } else { e };
                                let k = self.ex.konst(64, *sc as u64 as u128);
                                let t = self.ex.bin(BinOp::Mul, e, k);
                                symb = Some(match symb {
                                    None => t,
                                    Some(s) => self.ex.bin(BinOp::Add, s, t),
                                });
                            }
                            _ => return Some(End::Incomplete("gep index".into())),
                        }
                    }
                    let v = match symb {
                        None => Val::I(acc),
                        Some(s) => {
                            let k = self.ex.konst(64, acc as u128);
                            let r = self.ex.bin(BinOp::Add, s, k);
                            self.from_e(r)
                        }
                    };
                    set!(*d, v);
                }
                Inst::Bin { op, ty, w, a, b, d } => {
                    let (x, y) = (self.get(st, base, a), self.get(st, base, b));
                    if let (Val::I(x), Val::I(y)) = (&x, &y) {
                        let (x, y) = (*x, *y);
                        let r = match op {
                            BinOp::Add => x.wrapping_add(y),
                            BinOp::Sub => x.wrapping_sub(y),
                            BinOp::Mul => x.wrapping_mul(y),
                            BinOp::And => x & y,
                            BinOp::Or => x | y,
                            BinOp::Xor => x ^ y,
                            BinOp::Shl => {
                                if y >= *w as u64 {
                                    0
                                } else {
                                    x << y
                                }
                            }
                            BinOp::LShr => {
                                if y >= *w as u64 {
                                    0
                                } else {
                                    x >> y
                                }
                            }
                            _ => bin128(*op, *w, x as u128, y as u128) as u64,
                        };
                        set!(*d, Val::I(r & m64(*w)));
                        continue;
                    }
                    let r = tr!(self.bin_val(*op, ty, &x, &y));
                    set!(*d, r);
                }
                Inst::Icmp { p, ty, w, a, b, d } => {
                    let (x, y) = (self.get(st, base, a), self.get(st, base, b));
                    if let (Val::I(x), Val::I(y)) = (&x, &y) {
                        set!(*d, Val::I(icmp64(*p, *w, *x, *y) as u64));
                        continue;
                    }
                    let r = tr!(self.icmp_val(*p, ty, &x, &y));
                    set!(*d, r);
                }
                Inst::Br(e) => self.edge(st, base, e),
                Inst::CondBr { c, t, f: fe } => match self.get(st, base, c) {
                    Val::I(k) => {
                        let e = if k & 1 == 1 { t } else { fe };
                        self.edge(st, base, e)
                    }
                    Val::S(c) => {
                        let (ft, ff) = (self.feas(st, c, true), self.feas(st, c, false));
                        match (ft, ff) {
                            (Feas::Unknown, _) | (_, Feas::Unknown) => return Some(End::Incomplete("solver-unknown".into())),
                            (Feas::Yes(_), Feas::No) => self.edge(st, base, t),
                            (Feas::No, Feas::Yes(_)) => self.edge(st, base, fe),
                            (Feas::Yes(u1), Feas::Yes(u0)) => {
                                let mut o = st.clone();
                                o.depth += 1;
                                self.assume(&mut o, c, false, u0);
                                self.edge(&mut o, base, fe);
                                out.push(o);
                                self.stat[st.entry as usize].forks += 1;
                                self.assume(st, c, true, u1);
                                self.edge(st, base, t);
                            }
                            _ => return Some(End::Incomplete("infeasible path reached".into())),
                        }
                    }
                    _ => return Some(End::Incomplete("branch on aggregate".into())),
                },
                Inst::Switch { w, v, cases, def } => match self.get(st, base, v) {
                    Val::I(k) => {
                        let e = cases.iter().find(|(c, _)| *c == k).map(|x| &x.1).unwrap_or(def);
                        self.edge(st, base, e)
                    }
                    Val::S(e) => {
                        // group case values by identical continuation
                        let same = |a: &Edge, b: &Edge| a.pc == b.pc && a.phis.len() == b.phis.len() && a.phis.iter().zip(b.phis.iter()).all(|(x, y)| x.0 == y.0 && opd_eq(&x.1, &y.1));
                        let mut groups: Vec<(E, &Edge)> = vec![];
                        let mut anyc = self.ex.konst(1, 0);
                        for (k, ed) in cases {
                            let kk = self.ex.konst(*w, *k as u128);
                            let c = self.ex.cmp(Op::Eq, e, kk);
                            anyc = self.ex.or1(anyc, c);
                            if same(ed, def) {
                                continue;
                            }
                            if let Some(g) = groups.iter_mut().find(|g| same(g.1, ed)) {
                                g.0 = self.ex.or1(g.0, c);
                            } else {
                                groups.push((c, ed));
                            }
                        }
                        let mut g = self.ex.konst(1, 0);
                        for (c, _) in &groups {
                            g = self.ex.or1(g, *c);
                        }
                        let dc = self.ex.not1(g);
                        groups.push((dc, def));
                        let mut feas: Vec<(E, &Edge, Vec<(u32, u8)>)> = vec![];
                        for (c, ed) in groups {
                            match self.ex.as_const(c) {
                                Some(0) => continue,
                                Some(_) => {
                                    feas.push((c, ed, vec![]));
                                    continue;
                                }
                                None => {}
                            }
                            match self.feas(st, c, true) {
                                Feas::No => {}
                                Feas::Unknown => return Some(End::Incomplete("solver-unknown".into())),
                                Feas::Yes(u) => feas.push((c, ed, u)),
                            }
                        }
                        if feas.is_empty() {
                            return Some(End::Incomplete("infeasible switch".into()));
                        }
                        while feas.len() > 1 {
                            let (c, ed, u) = feas.pop().unwrap();
                            let mut o = st.clone();
                            o.depth += 1;
                            self.assume(&mut o, c, true, u);
                            self.edge(&mut o, base, ed);
                            out.push(o);
                            self.stat[st.entry as usize].forks += 1;
                        }
                        let (c, ed, u) = feas.pop().unwrap();
                        self.assume(st, c, true, u);
                        self.edge(st, base, ed);
                    }
                    _ => return Some(End::Incomplete("switch on aggregate".into())),
                },
                Inst::Select { c, cty: _, ty, a, b, d } => {
                    let cv = self.get(st, base, c);
                    match cv {
                        Val::I(k) => {
                            let v = self.get(st, base, if k & 1 == 1 { a } else { b });
                            set!(*d, v);
                        }
                        Val::S(c) => {
                            let (x, y) = (self.get(st, base, a), self.get(st, base, b));
                            let v = tr!(self.ite_val(c, ty, &x, &y));
                            set!(*d, v);
                        }
                        Val::A(cs) => {
                            let (x, y) = (self.get(st, base, a), self.get(st, base, b));
                            let (Val::A(x), Val::A(y), Ty::Vec(_, et)) = (x, y, ty) else { return Some(End::Incomplete("vector select".into())) };
                            let mut r = vec![];
                            for i in 0..cs.len() {
                                r.push(match &cs[i] {
                                    Val::I(k) => {
                                        if k & 1 == 1 {
                                            x[i].clone()
                                        } else {
                                            y[i].clone()
                                        }
                                    }
                                    Val::S(c) => tr!(self.ite_val(*c, et, &x[i], &y[i])),
                                    _ => return Some(End::Incomplete("vector select".into())),
                                });
                            }
                            set!(*d, Val::A(Rc::new(r)));
                        }
                        _ => return Some(End::Incomplete("select".into())),
                    }
                }
                Inst::Cast { op, from, to, a, d } => {
                    let v = self.get(st, base, a);
                    if let (Val::I(k), false) = (&v, to.is_agg() || to.bits() > 64) {
                        let k = *k;
                        let r = match op {
                            CastOp::Trunc | CastOp::ZExt | CastOp::Bit => Some(k & m64(to.bits())),
                            CastOp::SExt => Some(sx64(k, from.bits()) as u64 & m64(to.bits())),
                            _ => None,
                        };
                        if let Some(r) = r {
                            set!(*d, Val::I(r));
                            continue;
                        }
                    }
                    if matches!(op, CastOp::UiToFp | CastOp::SiToFp | CastOp::FpToUi | CastOp::FpToSi | CastOp::FpExt | CastOp::FpTrunc) {
                        if let Val::S(_) = v {
                            concop!(a, base);
                        }
                        let v = self.get(st, base, a);
                        let r = tr!(fp_cast(*op, from, to, &v));
                        set!(*d, r);
                        continue;
                    }
                    let r = tr!(self.cast_val(*op, from, to, &v));
                    set!(*d, r);
                }
                Inst::Alloca { size, n, d } => {
                    let k = match n {
                        None => 1,
                        Some(o) => concop!(o, base),
                    };
                    let a = self.alloc(st, (*size * k) as usize);
                    st.frames.last_mut().unwrap().objs.push((a >> 32) as u32);
                    set!(*d, Val::I(a));
                }
                Inst::Copy { a, d } => {
                    let v = self.get(st, base, a);
                    set!(*d, v);
                }
                Inst::Nop => st.frames.last_mut().unwrap().pc += 1,
                Inst::Ret(o) => {
                    let v = o.as_ref().map(|o| self.get(st, base, o));
                    let fr = st.frames.pop().unwrap();
                    for id in fr.objs {
                        st.mem[id as usize] = None;
                        st.free.push(id);
                    }
                    st.stack.truncate(base);
                    if st.frames.is_empty() {
                        return Some(End::Done);
                    }
                    let cf = st.frames.last().unwrap();
                    let cb = cf.base as usize;
                    if let Inst::Call(c) = &m.funcs[cf.f as usize].insts[cf.pc as usize] {
                        if let (Some(d), Some(v)) = (c.dst, v) {
                            st.stack[cb + d as usize] = v;
                        }
                        match &c.normal {
                            Some(e) => self.edge(st, cb, e),
                            None => st.frames.last_mut().unwrap().pc += 1,
                        }
                    }
                }
                Inst::Extract { a, path, d } => {
                    let mut v = self.get(st, base, a);
                    for k in path {
                        v = match &v {
                            Val::A(x) => x[*k as usize].clone(),
                            _ => return Some(End::Incomplete("extractvalue".into())),
                        };
                    }
                    set!(*d, v);
                }
                Inst::Insert { ty, a, v, path, d } => {
                    let mut agg = self.get(st, base, a);
                    let v = self.get(st, base, v);
                    if !matches!(agg, Val::A(_)) {
                        agg = zero_val(ty);
                    }
                    let r = insert(&agg, path, v);
                    set!(*d, r);
                }
                Inst::ExtElem { a, i, d } => {
                    let k = concop!(i, base) as usize;
                    let v = match self.get(st, base, a) {
                        Val::A(x) => x[k].clone(),
                        _ => return Some(End::Incomplete("extractelement".into())),
                    };
                    set!(*d, v);
                }
                Inst::InsElem { ty, a, v, i, d } => {
                    let k = concop!(i, base) as u32;
                    let mut agg = self.get(st, base, a);
                    if !matches!(agg, Val::A(_)) {
                        agg = zero_val(ty);
                    }
                    let v = self.get(st, base, v);
                    let r = insert(&agg, &[k], v);
                    set!(*d, r);
                }
                Inst::Shuffle { ty, a, b, mask, d } => {
                    let (x, y) = (self.get(st, base, a), self.get(st, base, b));
                    let n = ty.n_fields();
                    let get = |v: &Val, i: usize| match v {
                        Val::A(x) => x[i].clone(),
                        _ => Val::I(0),
                    };
                    let r = mask
                        .iter()
                        .map(|k| {
                            if *k < 0 {
                                Val::I(0)
                            } else if (*k as usize) < n {
                                get(&x, *k as usize)
                            } else {
                                get(&y, *k as usize - n)
                            }
                        })
                        .collect();
                    set!(*d, Val::A(Rc::new(r)));
                }
                Inst::Rmw { op, ty, p, v, d } => {
                    let addr = concop!(p, base);
                    let old = tr!(self.load(st, addr, ty));
                    let v = self.get(st, base, v);
                    let bop = match op.as_str() {
                        "xchg" => None,
                        "add" => Some(BinOp::Add),
                        "sub" => Some(BinOp::Sub),
                        "and" => Some(BinOp::And),
                        "or" => Some(BinOp::Or),
                        "xor" => Some(BinOp::Xor),
                        o => return Some(End::Incomplete(format!("atomicrmw {}", o))),
                    };
                    let nv = match bop {
                        None => v,
                        Some(o) => tr!(self.bin_val(o, ty, &old, &v)),
                    };
                    tr!(self.store(st, addr, ty, &nv));
                    set!(*d, old);
                }
                Inst::CmpXchg { ty, p, c, n, d } => {
                    let addr = concop!(p, base);
                    let old = tr!(self.load(st, addr, ty));
                    let (ov, cv) = match (&old, self.get(st, base, c)) {
                        (Val::I(a), Val::I(b)) => (*a, b),
                        _ => return Some(End::Incomplete("symbolic cmpxchg".into())),
                    };
                    if ov == cv {
                        let nv = self.get(st, base, n);
                        tr!(self.store(st, addr, ty, &nv));
                    }
                    set!(*d, Val::A(Rc::new(vec![old, Val::I((ov == cv) as u64)])));
                }
                Inst::FBin { op, ty, a, b, d } => {
                    if ty.is_agg() {
                        return Some(End::Incomplete("vector float".into()));
                    }
                    let x = concop!(a, base);
                    let y = concop!(b, base);
                    let r = if *ty == Ty::F32 {
                        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op {
                            b'+' => p + q,
                            b'-' => p - q,
                            b'*' => p * q,
                            b'/' => p / q,
                            _ => p % q,
                        })
                        .to_bits() as u64
                    } else {
                        let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                        (match op {
                            b'+' => p + q,
                            b'-' => p - q,
                            b'*' => p * q,
                            b'/' => p / q,
                            _ => p % q,
                        })
                        .to_bits()
                    };
                    set!(*d, Val::I(r));
                }
                Inst::FNeg { ty, a, d } => {
                    let x = concop!(a, base);
                    let r = if *ty == Ty::F32 { x ^ 0x8000_0000 } else { x ^ (1 << 63) };
                    set!(*d, Val::I(r));
                }
                Inst::Fcmp { p, ty, a, b, d } => {
                    let x = concop!(a, base);
                    let y = concop!(b, base);
                    let (x, y) = if *ty == Ty::F32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
                    let un = x.is_nan() || y.is_nan();
                    let r = match p.as_str() {
                        "oeq" => x == y,
                        "ogt" => x > y,
                        "oge" => x >= y,
                        "olt" => x < y,
                        "ole" => x <= y,
                        "one" => !un && x != y,
                        "ord" => !un,
                        "uno" => un,
                        "ueq" => un || x == y,
                        "ugt" => un || x > y,
                        "uge" => un || x >= y,
                        "ult" => un || x < y,
                        "ule" => un || x <= y,
                        "une" => un || x != y,
                        "true" => true,
                        _ => false,
                    };
                    set!(*d, Val::I(r as u64));
                }
                Inst::Unreachable => return Some(End::Incomplete(format!("unreachable executed in {}", self.fname(st)))),
                Inst::Trap(s) => return Some(End::Incomplete(format!("unsupported {} in {}", s, self.fname(st)))),
                Inst::Call(c) => {
                    let t = match &c.callee {
                        Callee::Sym(s) => self.resolve_target(*s),
                        Callee::Asm => return Some(End::Incomplete(format!("inline asm in {}", self.fname(st)))),
                        Callee::Ind(o) => {
                            let a = concop!(o, base);
                            if a < FNBASE || (a - FNBASE) % 16 != 0 || (a - FNBASE) / 16 >= m.syms.len() as u64 {
                                return Some(End::Incomplete(format!("indirect call to {:#x} in {}", a, self.fname(st))));
                            }
                            self.resolve_target(((a - FNBASE) / 16) as u32)
                        }
                    };
                    match t {
                        Target::F(k) => {
                            self.fexec[k as usize] += 1;
                            let g = &m.funcs[k as usize];
                            let nb = st.stack.len();
                            if st.frames.len() > 4000 {
                                return Some(End::Incomplete("call depth".into()));
                            }
                            if self.trace_calls {
                                eprintln!("{}{}", " ".repeat(st.frames.len()), g.name);
                            }
                            st.stack.resize(nb + g.nregs as usize, Val::I(0));
                            for (i, (_, o)) in c.args.iter().enumerate() {
                                if i < g.nargs as usize {
                                    let v = self.get(st, base, o);
                                    st.stack[nb + i] = v;
                                }
                            }
                            st.frames.push(Frame { f: k, pc: 0, base: nb as u32, objs: vec![] });
                        }
                        Target::Intr(i) => {
                            let args: Vec<Val> = c.args.iter().map(|(_, o)| self.get(st, base, o)).collect();
                            let r: Val = match i {
                                Intr::Nop => Val::I(0),
                                Intr::Zero => Val::I(0),
                                Intr::Ident => args[0].clone(),
                                Intr::Alloc => {
                                    let n = concop!(&c.args[0].1, base);
                                    Val::I(self.alloc(st, n as usize))
                                }
                                Intr::Free => {
                                    let p = concop!(&c.args[0].1, base);
                                    let id = (p >> 32) as usize;
                                    if p & 0xffff_ffff != 0 || id >= st.mem.len() || st.mem[id].is_none() {
                                        return Some(End::Incomplete(format!("memory: bad free in {}", self.fname(st))));
                                    }
                                    st.mem[id] = None;
                                    st.free.push(id as u32);
                                    Val::I(0)
                                }
                                Intr::SymByte => {
                                    let lo = conc!(args[0].clone()) as usize;
                                    let hi = conc!(args[1].clone()) as usize;
                                    let mut d = [0u64; 4];
                                    for k in lo..=hi {
                                        d[k >> 6] |= 1 << (k & 63);
                                    }
                                    let v = st.model.len() as u32;
                                    let di = self.dom_id(d);
                                    st.doms.push(di);
                                    st.multi.push(false);
                                    st.model.push(lo as u8);
                                    st.trace.push((0, v));
                                    let e = self.ex.var(v);
                                    if lo == hi {
                                        Val::I(lo as u64)
                                    } else {
                                        Val::S(e)
                                    }
                                }
                                Intr::SymPick => {
                                    let n = conc!(args[0].clone());
                                    let pos = st.trace.len();
                                    st.trace.push((1, 0));
                                    self.call_ret(st, base, c, Val::I(0));
                                    for k in (1..n).rev() {
                                        let mut o = st.clone();
                                        o.depth += 1;
                                        o.trace[pos] = (1, k as u32);
                                        if let Some(d) = c.dst {
                                            o.stack[base + d as usize] = Val::I(k);
                                            // re-run phi copies of an invoke edge with the right value
                                            if let Some(e) = &c.normal {
                                                self.edge(&mut o, base, e);
                                            }
                                        }
                                        out.push(o);
                                        self.stat[st.entry as usize].forks += 1;
                                    }
                                    continue;
                                }
                                Intr::SymAssume => {
                                    match &args[0] {
                                        Val::I(k) => {
                                            if k & 1 == 0 {
                                                return Some(End::Assumed);
                                            }
                                        }
                                        Val::S(e) => match self.feas(st, *e, true) {
                                            Feas::No => return Some(End::Assumed),
                                            Feas::Unknown => return Some(End::Incomplete("solver-unknown".into())),
                                            Feas::Yes(u) => self.assume(st, *e, true, u),
                                        },
                                        _ => return Some(End::Incomplete("assume".into())),
                                    }
                                    Val::I(0)
                                }
                                Intr::SymAssert => {
                                    let id = conc!(args[1].clone());
                                    self.stat[st.entry as usize].asserts += 1;
                                    match &args[0] {
                                        Val::I(k) => {
                                            if k & 1 == 0 {
                                                self.violation(st, "assert", &format!("{}", id));
                                                // a failed concrete assertion ends the path
                                                return Some(End::Failed);
                                            }
                                        }
                                        Val::S(e) => {
                                            let e = *e;
                                            self.stat[st.entry as usize].sym_asserts += 1;
                                            match self.feas(st, e, false) {
                                                Feas::No => {}
                                                Feas::Unknown => return Some(End::Incomplete("solver-unknown".into())),
                                                Feas::Yes(u) => {
                                                    let mut o = st.clone();
                                                    self.assume(&mut o, e, false, u);
                                                    self.violation(&o, "assert", &format!("{}", id));
                                                }
                                            }
                                            match self.feas(st, e, true) {
                                                Feas::No => {
                                                    return Some(End::Failed);
                                                }
                                                Feas::Unknown => return Some(End::Incomplete("solver-unknown".into())),
                                                Feas::Yes(u) => self.assume(st, e, true, u),
                                            }
                                        }
                                        _ => return Some(End::Incomplete("assert".into())),
                                    }
                                    Val::I(0)
                                }
                                Intr::SymCover => {
                                    let k = conc!(args[0].clone()) as u32;
                                    st.covers.push(k);
                                    Val::I(0)
                                }
                                Intr::SymObserve => {
                                    st.obs.push(args[0].clone());
                                    Val::I(0)
                                }
                                Intr::SymOutcome => {
                                    let p = conc!(args[0].clone());
                                    let n = conc!(args[1].clone());
                                    st.outcome = Some(self.cstr(st, p, n));
                                    Val::I(0)
                                }
                                Intr::SymConc => {
                                    let k = concop!(&c.args[0].1, base);
                                    Val::I(k)
                                }
                                Intr::Panic => {
                                    let loc = self.panic_loc(st, &args);
                                    return Some(End::Panic(loc));
                                }
                                Intr::AllocErr => return Some(End::Incomplete("alloc error".into())),
                                Intr::Trap => return Some(End::Panic(format!("trap in {}", self.fname(st)))),
                                Intr::Memcpy => {
                                    let n = concop!(&c.args[2].1, base);
                                    let dp = concop!(&c.args[0].1, base);
                                    let sp = concop!(&c.args[1].1, base);
                                    tr!(self.memcpy(st, dp, sp, n));
                                    Val::I(dp)
                                }
                                Intr::Memset => {
                                    let n = concop!(&c.args[2].1, base);
                                    let dp = concop!(&c.args[0].1, base);
                                    if n > 0 {
                                        match &args[1] {
                                            Val::I(k) => {
                                                let (id, off) = tr!(Self::resolve(st, dp, n));
                                                let o = Rc::make_mut(st.mem[id].as_mut().unwrap());
                                                o.data[off..off + n as usize].fill(*k as u8);
                                                if !o.sym.is_empty() {
                                                    o.sym[off..off + n as usize].fill(0);
                                                }
                                            }
                                            v => {
                                                let e = self.to_e(v, 8);
                                                let e = self.ex.extract(e, 0, 8);
                                                for j in 0..n {
                                                    tr!(self.store(st, dp + j, &Ty::Int(8), &Val::S(e)));
                                                }
                                            }
                                        }
                                    }
                                    Val::I(dp)
                                }
                                Intr::Memcmp | Intr::Bcmp => {
                                    let n = concop!(&c.args[2].1, base);
                                    let p = concop!(&c.args[0].1, base);
                                    let q = concop!(&c.args[1].1, base);
                                    tr!(self.memcmp(st, p, q, n, i == Intr::Bcmp))
                                }
                                Intr::Strlen => {
                                    let p = concop!(&c.args[0].1, base);
                                    let mut k = 0;
                                    loop {
                                        match tr!(self.load(st, p + k, &Ty::Int(8))) {
                                            Val::I(0) => break,
                                            Val::I(_) => k += 1,
                                            _ => return Some(End::Incomplete("symbolic strlen".into())),
                                        }
                                    }
                                    Val::I(k)
                                }
                                Intr::Fun(k) => {
                                    // floating-point operations, on concrete operands
                                    let n = FUNS[k as usize];
                                    let mut v = [0u64; 3];
                                    for (j, a) in c.args.iter().take(3).enumerate() {
                                        v[j] = concop!(&a.1, base);
                                    }
                                    match fun(n, &c.args[0].0, &c.ret, v) {
                                        Some(x) => Val::I(x),
                                        None => return Some(End::Incomplete(format!("float intrinsic {n}"))),
                                    }
                                }
                                Intr::Unknown => {
                                    let n = match &c.callee {
                                        Callee::Sym(s) => m.sym_names[*s as usize].clone(),
                                        _ => "indirect".into(),
                                    };
                                    return Some(End::Incomplete(format!("call to unmodelled function {}", n)));
                                }
                                _ => tr!(self.arith_intr(i, c, &args)),
                            };
                            self.call_ret(st, base, c, r);
                        }
                    }
                }
            }
        }
    }
    fn resolve_target(&self, s: u32) -> Target {
        let t = self.targets[s as usize];
        if let Target::Intr(Intr::Unknown) = t {
            if let SymKind::Alias(a) = self.m.syms[s as usize] {
                if let Const::Global(g) = &self.m.aliases[a as usize].2 {
                    return self.targets[*g as usize];
                }
            }
        }
        t
    }
    fn call_ret(&mut self, st: &mut State, base: usize, c: &CallI, v: Val) {
        if let Some(d) = c.dst {
            st.stack[base + d as usize] = v;
        }
        match &c.normal {
            Some(e) => self.edge(st, base, e),
            None => st.frames.last_mut().unwrap().pc += 1,
        }
    }
    fn fname(&self, st: &State) -> String {
        st.frames.last().map(|f| self.m.funcs[f.f as usize].name.clone()).unwrap_or_default()
    }
    /// load through a symbolic address that is a function of one input byte, from concrete memory
    fn table_load(&mut self, st: &State, e: E, ty: &Ty) -> Option<Val> {
        if ty.is_agg() || ty.bits() > 64 {
            return None;
        }
        let (v, t) = match self.ex.vars[e as usize] {
            Vars::One(v, t) => (v, t),
            _ => return None,
        };
        let tab = self.ex.tables[t as usize].clone();
        let d = self.doms[st.doms[v as usize] as usize];
        let w = ty.bits();
        let nb = ((w + 7) / 8) as u64;
        let mut res = [0u64; 256];
        let mut first = None;
        for i in 0..256 {
            if dom_has(&d, i) {
                let (id, off) = Self::resolve(st, tab[i], nb).ok()?;
                let o = st.mem[id].as_ref().unwrap();
                if !o.sym.is_empty() && o.sym[off..off + nb as usize].iter().any(|x| *x != 0) {
                    return None;
                }
                let mut b = [0u8; 8];
                b[..nb as usize].copy_from_slice(&o.data[off..off + nb as usize]);
                res[i] = u64::from_le_bytes(b) & m64(w);
                if first.is_none() {
                    first = Some(res[i]);
                }
            }
        }
        // values outside the domain never matter; use a fixed filler to improve sharing
        for i in 0..256 {
            if !dom_has(&d, i) {
                res[i] = first?;
            }
        }
        let x = self.ex.var(v);
        let r = self.ex.lookup(x, w, res);
        Some(self.from_e(r))
    }
    fn bin_val(&mut self, op: BinOp, ty: &Ty, x: &Val, y: &Val) -> Result<Val, String> {
        if let Ty::Vec(_, et) = ty {
            if let (Val::A(a), Val::A(b)) = (x, y) {
                let mut r = vec![];
                for i in 0..a.len() {
                    r.push(self.bin_val(op, et, &a[i], &b[i])?);
                }
                return Ok(Val::A(Rc::new(r)));
            }
            return Err("vector op".into());
        }
        let w = ty.bits();
        let a = self.to_e(x, w);
        let b = self.to_e(y, w);
        let r = self.ex.bin(op, a, b);
        Ok(self.from_e(r))
    }
    fn icmp_val(&mut self, p: Pred, ty: &Ty, x: &Val, y: &Val) -> Result<Val, String> {
        if let Ty::Vec(_, et) = ty {
            if let (Val::A(a), Val::A(b)) = (x, y) {
                let mut r = vec![];
                for i in 0..a.len() {
                    r.push(self.icmp_val(p, et, &a[i], &b[i])?);
                }
                return Ok(Val::A(Rc::new(r)));
            }
            return Err("vector icmp".into());
        }
        let w = ty.bits();
        let a = self.to_e(x, w);
        let b = self.to_e(y, w);
        let r = match p {
            Pred::Eq => self.ex.cmp(Op::Eq, a, b),
            Pred::Ne => {
                let t = self.ex.cmp(Op::Eq, a, b);
                self.ex.not1(t)
            }
            Pred::Ult => self.ex.cmp(Op::Ult, a, b),
            Pred::Ule => self.ex.cmp(Op::Ule, a, b),
            Pred::Ugt => self.ex.cmp(Op::Ult, b, a),
            Pred::Uge => self.ex.cmp(Op::Ule, b, a),
            Pred::Slt => self.ex.cmp(Op::Slt, a, b),
            Pred::Sle => self.ex.cmp(Op::Sle, a, b),
            Pred::Sgt => self.ex.cmp(Op::Slt, b, a),
            Pred::Sge => self.ex.cmp(Op::Sle, b, a),
        };
        Ok(self.from_e(r))
    }
    fn ite_val(&mut self, c: E, ty: &Ty, x: &Val, y: &Val) -> Result<Val, String> {
        match (x, y) {
            (Val::A(a), Val::A(b)) => {
                let mut r = vec![];
                for i in 0..a.len() {
                    let t = match ty {
                        Ty::Struct(f, _) => f[i].clone(),
                        Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                        _ => return Err("select agg".into()),
                    };
                    r.push(self.ite_val(c, &t, &a[i], &b[i])?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            _ => {
                let w = ty.bits();
                let a = self.to_e(x, w);
                let b = self.to_e(y, w);
                let r = self.ex.ite(c, a, b);
                Ok(self.from_e(r))
            }
        }
    }
    fn cast_val(&mut self, op: CastOp, from: &Ty, to: &Ty, v: &Val) -> Result<Val, String> {
        if let (Ty::Vec(n, ft), Ty::Vec(n2, tt)) = (from, to) {
            if n == n2 {
                if let Val::A(a) = v {
                    let mut r = vec![];
                    for x in a.iter() {
                        r.push(self.cast_val(op, ft, tt, x)?);
                    }
                    return Ok(Val::A(Rc::new(r)));
                }
            }
        }
        if let (Ty::Vec(_, ft), CastOp::Bit) = (from, op) {
            // pack little-endian
            if let Val::A(a) = v {
                let w = ft.bits();
                let mut e: Option<E> = None;
                for x in a.iter().rev() {
                    let b = self.to_e(x, w);
                    e = Some(match e {
                        None => b,
                        Some(h) => self.ex.concat(h, b),
                    });
                }
                let r = self.from_e(e.unwrap());
                if to.is_agg() {
                    return self.cast_val(CastOp::Bit, &Ty::Int(from.bits()), to, &r);
                }
                return Ok(r);
            }
        }
        if let (Ty::Vec(n, tt), CastOp::Bit) = (to, op) {
            let e = self.to_e(v, from.bits());
            let w = tt.bits();
            let mut r = vec![];
            for i in 0..*n {
                let x = self.ex.extract(e, i * w, w);
                r.push(self.from_e(x));
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let e = self.to_e(v, from.bits());
        let w = to.bits();
        let fw = from.bits();
        let r = match op {
            CastOp::Trunc => self.ex.extract(e, 0, w),
            CastOp::ZExt => self.ex.zext(e, w),
            CastOp::SExt => self.ex.sext(e, w),
            CastOp::Bit => {
                if w < fw {
                    self.ex.extract(e, 0, w)
                } else {
                    self.ex.zext(e, w)
                }
            }
            _ => return Err("cast".into()),
        };
        Ok(self.from_e(r))
    }
    fn arith_intr(&mut self, i: Intr, c: &CallI, args: &[Val]) -> Result<Val, String> {
        let ty = &c.args[0].0;
        if let Intr::Reduce(k) = i {
            let Ty::Vec(_, et) = ty else { return Err("reduce".into()) };
            let Val::A(a) = &args[0] else { return Err("reduce".into()) };
            let op = [BinOp::Or, BinOp::And, BinOp::Add, BinOp::Xor][k as usize];
            let mut r = a[0].clone();
            for x in a.iter().skip(1) {
                r = self.bin_val(op, et, &r, x)?;
            }
            return Ok(r);
        }
        if let Ty::Vec(_, et) = ty {
            // elementwise
            let n = ty.n_fields();
            let mut r = vec![];
            for j in 0..n {
                let a2: Vec<Val> = args
                    .iter()
                    .map(|a| match a {
                        Val::A(x) => x[j].clone(),
                        o => o.clone(),
                    })
                    .collect();
                let mut c2 = c.clone();
                for a in c2.args.iter_mut() {
                    if a.0.is_agg() {
                        a.0 = (**et).clone();
                    }
                }
                c2.ret = match &c.ret {
                    Ty::Vec(_, t) => (**t).clone(),
                    _ => return Err("vector intrinsic".into()),
                };
                r.push(self.arith_intr(i, &c2, &a2)?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let w = ty.bits();
        if let (Some(Val::I(x)), Some(Val::I(y))) = (args.get(0), args.get(1)) {
            let (x, y) = (*x, *y);
            match i {
                Intr::Ovf(o) => {
                    let (xs, ys) = (sx64(x, w) as i128, sx64(y, w) as i128);
                    let (xu, yu) = (x as i128, y as i128);
                    let r = match o {
                        Op::UAddO => xu + yu,
                        Op::USubO => xu - yu,
                        Op::UMulO => (x as u128).wrapping_mul(y as u128) as i128,
                        Op::SAddO => xs + ys,
                        Op::SSubO => xs - ys,
                        _ => xs * ys,
                    };
                    let t = r as u64 & m64(w);
                    let ov = match o {
                        Op::UMulO => (r as u128) > msk(w),
                        Op::UAddO | Op::USubO => r < 0 || r as u128 > msk(w),
                        _ => sx64(t, w) as i128 != r,
                    };
                    return Ok(Val::A(Rc::new(vec![Val::I(t), Val::I(ov as u64)])));
                }
                Intr::MinMax(k) => {
                    let lt = if k < 2 { x < y } else { sx64(x, w) < sx64(y, w) };
                    return Ok(Val::I(if lt == (k % 2 == 0) { x } else { y }));
                }
                _ => {}
            }
        }
        let a = self.to_e(&args[0], w);
        let b = if args.len() > 1 && c.args[1].0.bits() == w { self.to_e(&args[1], w) } else { a };
        let r = match i {
            Intr::Ovf(o) => {
                let ov = self.ex.ovf(o, a, b);
                let bo = match o {
                    Op::UAddO | Op::SAddO => BinOp::Add,
                    Op::USubO | Op::SSubO => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let v = self.ex.bin(bo, a, b);
                return Ok(Val::A(Rc::new(vec![self.from_e(v), self.from_e(ov)])));
            }
            Intr::Sat(k) => match k {
                0 => {
                    let ov = self.ex.ovf(Op::UAddO, a, b);
                    let v = self.ex.bin(BinOp::Add, a, b);
                    let m = self.ex.konst(w, msk(w));
                    self.ex.ite(ov, m, v)
                }
                1 => {
                    let ov = self.ex.cmp(Op::Ult, a, b);
                    let v = self.ex.bin(BinOp::Sub, a, b);
                    let m = self.ex.konst(w, 0);
                    self.ex.ite(ov, m, v)
                }
                _ => {
                    let (oo, bo) = if k == 2 { (Op::SAddO, BinOp::Add) } else { (Op::SSubO, BinOp::Sub) };
                    let ov = self.ex.ovf(oo, a, b);
                    let v = self.ex.bin(bo, a, b);
                    let z = self.ex.konst(w, 0);
                    let neg = self.ex.cmp(Op::Slt, a, z);
                    let mn = self.ex.konst(w, 1u128 << (w - 1));
                    let mx = self.ex.konst(w, msk(w) >> 1);
                    let s = self.ex.ite(neg, mn, mx);
                    self.ex.ite(ov, s, v)
                }
            },
            Intr::MinMax(k) => {
                let lt = self.ex.cmp(if k < 2 { Op::Ult } else { Op::Slt }, a, b);
                if k % 2 == 0 {
                    self.ex.ite(lt, a, b)
                } else {
                    self.ex.ite(lt, b, a)
                }
            }
            Intr::Abs => {
                let z = self.ex.konst(w, 0);
                let neg = self.ex.cmp(Op::Slt, a, z);
                let n = self.ex.bin(BinOp::Sub, z, a);
                self.ex.ite(neg, n, a)
            }
            Intr::Ctpop => self.ex.unary(Op::Ctpop, a),
            Intr::Ctlz => self.ex.unary(Op::Ctlz, a),
            Intr::Cttz => self.ex.unary(Op::Cttz, a),
            Intr::Bswap => {
                let mut r: Option<E> = None;
                for j in 0..w / 8 {
                    let x = self.ex.extract(a, j * 8, 8);
                    r = Some(match r {
                        None => x,
                        Some(h) => self.ex.concat(h, x),
                    });
                }
                r.unwrap()
            }
            Intr::Bitrev => {
                let mut r: Option<E> = None;
                for j in 0..w {
                    let x = self.ex.extract(a, j, 1);
                    r = Some(match r {
                        None => x,
                        Some(h) => self.ex.concat(h, x),
                    });
                }
                r.unwrap()
            }
            Intr::Fsh(left) => {
                let Val::I(s) = &args[2] else { return Err("symbolic funnel shift".into()) };
                let s = (*s % w as u64) as u32;
                if s == 0 {
                    if left {
                        a
                    } else {
                        b
                    }
                } else {
                    let cc = self.ex.concat(a, b);
                    if left {
                        self.ex.extract(cc, w - s, w)
                    } else {
                        self.ex.extract(cc, s, w)
                    }
                }
            }
            Intr::Cmp3(signed) => {
                let rw = c.ret.bits();
                let lt = self.ex.cmp(if signed { Op::Slt } else { Op::Ult }, a, b);
                let eq = self.ex.cmp(Op::Eq, a, b);
                let m1 = self.ex.konst(rw, msk(rw));
                let z = self.ex.konst(rw, 0);
                let p1 = self.ex.konst(rw, 1);
                let t = self.ex.ite(eq, z, p1);
                self.ex.ite(lt, m1, t)
            }
            _ => return Err(format!("intrinsic {:?}", i)),
        };
        Ok(self.from_e(r))
    }
}

fn opd_eq(a: &Opd, b: &Opd) -> bool {
    match (a, b) {
        (Opd::R(x), Opd::R(y)) => x == y,
        (Opd::I(x), Opd::I(y)) => x == y,
        (Opd::C(x), Opd::C(y)) => x == y,
        _ => false,
    }
}

fn zero_val(ty: &Ty) -> Val {
    match ty {
        Ty::Arr(n, t) => Val::A(Rc::new(vec![zero_val(t); *n as usize])),
        Ty::Vec(n, t) => Val::A(Rc::new(vec![zero_val(t); *n as usize])),
        Ty::Struct(fs, _) => Val::A(Rc::new(fs.iter().map(zero_val).collect())),
        t if t.bits() > 64 => Val::W(Rc::new(0)),
        _ => Val::I(0),
    }
}

fn insert(agg: &Val, path: &[u32], v: Val) -> Val {
    if path.is_empty() {
        return v;
    }
    match agg {
        Val::A(x) => {
            let mut y = (**x).clone();
            y[path[0] as usize] = insert(&x[path[0] as usize], &path[1..], v);
            Val::A(Rc::new(y))
        }
        _ => panic!("insert into scalar"),
    }
}

fn icmp64(p: Pred, w: u32, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        _ => {
            let (a, b) = (sx64(x, w), sx64(y, w));
            match p {
                Pred::Slt => a < b,
                Pred::Sle => a <= b,
                Pred::Sgt => a > b,
                _ => a >= b,
            }
        }
    }
}

fn fp_cast(op: CastOp, from: &Ty, to: &Ty, v: &Val) -> Result<Val, String> {
    let k: u128 = match v {
        Val::I(k) => *k as u128,
        Val::W(k) => **k,
        _ => return Err("fp cast".into()),
    };
    let f = |t: &Ty, k: u128| if *t == Ty::F32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k as u64) };
    let r: u128 = match op {
        CastOp::UiToFp => {
            if *to == Ty::F32 {
                (k as f32).to_bits() as u128
            } else {
                (k as f64).to_bits() as u128
            }
        }
        CastOp::SiToFp => {
            let s = sx(k, from.bits());
            if *to == Ty::F32 {
                (s as f32).to_bits() as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        CastOp::FpToUi => (f(from, k) as u128) & msk(to.bits()),
        CastOp::FpToSi => (f(from, k) as i128 as u128) & msk(to.bits()),
        CastOp::FpExt => f(from, k).to_bits() as u128,
        CastOp::FpTrunc => (f(from, k) as f32).to_bits() as u128,
        _ => return Err("fp cast".into()),
    };
    Ok(if to.bits() > 64 { Val::W(Rc::new(r)) } else { Val::I(r as u64) })
}
