//! Hash-consed bit-vector expressions over 8-bit symbolic inputs.
//!
//! An expression over exactly one input byte is canonicalised by its complete 256-entry value
//! table, so syntactically different but equal single-byte functions share one node.
use crate::ir::BinOp;
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
pub type Dom = [u64; 4];

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Op {
    Const,
    Var,
    Bin(BinOp),
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    UAddO,
    SAddO,
    USubO,
    SSubO,
    UMulO,
    SMulO,
    Lookup,
    Ctpop,
    Ctlz,
    Cttz,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Vars {
    None,
    One(u32, u32), // var, table id
    One0(u32),     // single var, too wide for a table
    Many(u32),     // index into var sets
}

pub struct Ex {
    pub nodes: Vec<Node>,
    pub vars: Vec<Vars>,
    ids: HashMap<Node, E>,
    one_ids: HashMap<(u32, u32, u32), E>, // (var, width, table)
    pub tables: Vec<Rc<[u64; 256]>>,
    table_ids: HashMap<Rc<[u64; 256]>, u32>,
    pub sets: Vec<Rc<Vec<u32>>>,
    set_ids: HashMap<Rc<Vec<u32>>, u32>,
    pub lookups: Vec<Rc<[u64; 256]>>,
}

pub fn msk(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn bin128(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let m = msk(w);
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        // SMT-LIB conventions for division by zero (the executor checks divisors separately)
        BinOp::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        BinOp::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        BinOp::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
    };
    r & m
}

fn ovf(op: Op, w: u32, a: u128, b: u128) -> bool {
    let m = msk(w);
    match op {
        Op::UAddO => match a.checked_add(b) {
            Some(r) => r > m,
            None => true,
        },
        Op::USubO => a < b,
        Op::UMulO => match a.checked_mul(b) {
            Some(r) => r > m,
            None => true,
        },
        Op::SAddO | Op::SSubO | Op::SMulO => {
            let (x, y) = (sx(a, w), sx(b, w));
            let r = match op {
                Op::SAddO => x.checked_add(y),
                Op::SSubO => x.checked_sub(y),
                _ => x.checked_mul(y),
            };
            match r {
                None => true,
                Some(r) => sx(r as u128 & m, w) != r,
            }
        }
        _ => unreachable!(),
    }
}

impl Ex {
    pub fn new() -> Ex {
        Ex {
            nodes: vec![],
            vars: vec![],
            ids: HashMap::new(),
            one_ids: HashMap::new(),
            tables: vec![],
            table_ids: HashMap::new(),
            sets: vec![],
            set_ids: HashMap::new(),
            lookups: vec![],
        }
    }
    #[inline]
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn konst(&mut self, w: u32, k: u128) -> E {
        self.raw(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & msk(w) }, Vars::None)
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn raw(&mut self, n: Node, v: Vars) -> E {
        if let Some(e) = self.ids.get(&n) {
            return *e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.vars.push(v);
        self.ids.insert(n, e);
        e
    }
    fn table(&mut self, t: Rc<[u64; 256]>) -> u32 {
        if let Some(i) = self.table_ids.get(&t) {
            return *i;
        }
        let i = self.tables.len() as u32;
        self.tables.push(t.clone());
        self.table_ids.insert(t, i);
        i
    }
    pub fn set(&mut self, s: Vec<u32>) -> u32 {
        let s = Rc::new(s);
        if let Some(i) = self.set_ids.get(&s) {
            return *i;
        }
        let i = self.sets.len() as u32;
        self.sets.push(s.clone());
        self.set_ids.insert(s, i);
        i
    }
    pub fn var(&mut self, v: u32) -> E {
        let mut t = [0u64; 256];
        for i in 0..256 {
            t[i] = i as u64;
        }
        let t = self.table(Rc::new(t));
        if let Some(e) = self.one_ids.get(&(v, 8, t)) {
            return *e;
        }
        let e = self.raw(Node { op: Op::Var, w: 8, a: v, b: 0, c: 0, k: 0 }, Vars::One(v, t));
        self.one_ids.insert((v, 8, t), e);
        e
    }
    pub fn var_list(&self, e: E) -> Vec<u32> {
        match self.vars[e as usize] {
            Vars::None => vec![],
            Vars::One(v, _) | Vars::One0(v) => vec![v],
            Vars::Many(s) => (*self.sets[s as usize]).clone(),
        }
    }
    fn arity(op: Op) -> usize {
        match op {
            Op::Const | Op::Var => 0,
            Op::Ite => 3,
            Op::Extract | Op::ZExt | Op::SExt | Op::Lookup | Op::Ctpop | Op::Ctlz | Op::Cttz => 1,
            _ => 2,
        }
    }
    fn eval_op(&self, n: &Node, a: u128, b: u128, c: u128) -> u128 {
        let wa = if Self::arity(n.op) > 0 { self.w(n.a) } else { 0 };
        match n.op {
            Op::Const => n.k,
            Op::Var => unreachable!(),
            Op::Bin(o) => bin128(o, n.w, a, b),
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Ule => (a <= b) as u128,
            Op::Slt => (sx(a, wa) < sx(b, wa)) as u128,
            Op::Sle => (sx(a, wa) <= sx(b, wa)) as u128,
            Op::Ite => {
                if a != 0 {
                    b
                } else {
                    c
                }
            }
            Op::Concat => (a << self.w(n.b)) | b,
            Op::Extract => (a >> n.k) & msk(n.w),
            Op::ZExt => a,
            Op::SExt => (sx(a, wa) as u128) & msk(n.w),
            Op::Lookup => self.lookups[n.k as usize][a as usize & 255] as u128,
            Op::Ctpop => a.count_ones() as u128,
            Op::Ctlz => {
                if a == 0 {
                    wa as u128
                } else {
                    (a.leading_zeros() - (128 - wa)) as u128
                }
            }
            Op::Cttz => {
                if a == 0 {
                    wa as u128
                } else {
                    a.trailing_zeros() as u128
                }
            }
            o => ovf(o, wa, a, b) as u128,
        }
    }
    /// value of `e` as a function of its single variable, at x
    fn at(&self, e: E, x: usize) -> u128 {
        match self.vars[e as usize] {
            Vars::None => self.n(e).k,
            Vars::One(_, t) => self.tables[t as usize][x] as u128,
            _ => {
                let n = *self.n(e);
                let ar = Self::arity(n.op);
                let a = self.at(n.a, x);
                let b = if ar > 1 { self.at(n.b, x) } else { 0 };
                let c = if ar > 2 { self.at(n.c, x) } else { 0 };
                self.eval_op(&n, a, b, c)
            }
        }
    }
    fn finish(&mut self, n: Node) -> E {
        let ar = Self::arity(n.op);
        let mut one: Option<u32> = None;
        let mut many: Option<Vec<u32>> = None;
        let mut anyvar = false;
        for (i, ch) in [n.a, n.b, n.c].iter().enumerate() {
            if i >= ar {
                break;
            }
            match self.vars[*ch as usize] {
                Vars::None => {}
                Vars::One(v, _) | Vars::One0(v) => {
                    anyvar = true;
                    if let Some(m) = &mut many {
                        if !m.contains(&v) {
                            m.push(v);
                        }
                    } else if let Some(o) = one {
                        if o != v {
                            many = Some(vec![o, v]);
                        }
                    } else {
                        one = Some(v);
                    }
                }
                Vars::Many(s) => {
                    anyvar = true;
                    let mut m = many.take().unwrap_or_else(|| one.map(|o| vec![o]).unwrap_or_default());
                    for v in self.sets[s as usize].iter() {
                        if !m.contains(v) {
                            m.push(*v);
                        }
                    }
                    many = Some(m);
                }
            }
        }
        if !anyvar {
            let a = if ar > 0 { self.n(n.a).k } else { 0 };
            let b = if ar > 1 { self.n(n.b).k } else { 0 };
            let c = if ar > 2 { self.n(n.c).k } else { 0 };
            let k = self.eval_op(&n, a, b, c);
            return self.konst(n.w, k);
        }
        if let Some(mut m) = many {
            if let Some(e) = self.ids.get(&n) {
                return *e;
            }
            m.sort();
            let s = self.set(m);
            return self.raw(n, Vars::Many(s));
        }
        let v = one.unwrap();
        if let Some(e) = self.ids.get(&n) {
            return *e;
        }
        if n.w > 64 {
            return self.raw(n, Vars::One0(v));
        }
        let mut t = [0u64; 256];
        let mut allc = true;
        for x in 0..256 {
            let a = self.at(n.a, x);
            let b = if ar > 1 { self.at(n.b, x) } else { 0 };
            let c = if ar > 2 { self.at(n.c, x) } else { 0 };
            t[x] = self.eval_op(&n, a, b, c) as u64;
            if t[x] != t[0] {
                allc = false;
            }
        }
        let e;
        if allc {
            e = self.konst(n.w, t[0] as u128);
        } else {
            let t = self.table(Rc::new(t));
            if let Some(x) = self.one_ids.get(&(v, n.w, t)) {
                e = *x;
            } else {
                let id = self.nodes.len() as E;
                self.nodes.push(n);
                self.vars.push(Vars::One(v, t));
                self.one_ids.insert((v, n.w, t), id);
                e = id;
            }
        }
        self.ids.insert(n, e);
        e
    }
    fn node(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        self.finish(Node { op, w, a, b, c, k })
    }
    fn ite_consts(&self, e: E) -> bool {
        // ite tree whose leaves are constants, of bounded size
        fn go(x: &Ex, e: E, fuel: &mut u32) -> bool {
            if *fuel == 0 {
                return false;
            }
            *fuel -= 1;
            let n = x.n(e);
            match n.op {
                Op::Const => true,
                Op::Ite => go(x, n.b, fuel) && go(x, n.c, fuel),
                _ => false,
            }
        }
        let mut f = 64;
        self.n(e).op == Op::Ite && go(self, e, &mut f)
    }
    fn push_ite(&mut self, e: E, f: &mut dyn FnMut(&mut Ex, E) -> E) -> E {
        let n = *self.n(e);
        if n.op == Op::Ite {
            let b = self.push_ite(n.b, f);
            let c = self.push_ite(n.c, f);
            self.ite(n.a, b, c)
        } else {
            f(self, e)
        }
    }
    pub fn bin(&mut self, op: BinOp, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let all = msk(w);
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(w, bin128(op, w, x, y));
        }
        match (op, ca, cb) {
            (BinOp::Add | BinOp::Or | BinOp::Xor, Some(0), _) => return b,
            (BinOp::Add | BinOp::Sub | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::AShr, _, Some(0)) => return a,
            (BinOp::And, _, Some(0)) | (BinOp::Mul, _, Some(0)) => return b,
            (BinOp::And, Some(0), _) | (BinOp::Mul, Some(0), _) => return a,
            (BinOp::And, _, Some(x)) if x == all => return a,
            (BinOp::And, Some(x), _) if x == all => return b,
            (BinOp::Or, _, Some(x)) if x == all => return b,
            (BinOp::Or, Some(x), _) if x == all => return a,
            (BinOp::Mul, _, Some(1)) | (BinOp::UDiv, _, Some(1)) => return a,
            (BinOp::Mul, Some(1), _) => return b,
            _ => {}
        }
        if a == b {
            match op {
                BinOp::And | BinOp::Or => return a,
                BinOp::Xor | BinOp::Sub => return self.konst(w, 0),
                _ => {}
            }
        }
        if op == BinOp::Xor && w == 1 && cb == Some(1) {
            let n = *self.n(a);
            if n.op == Op::Bin(BinOp::Xor) && self.as_const(n.b) == Some(1) {
                return n.a;
            }
        }
        // and/shift of concat pieces: turn constant shifts into extract/concat
        if let Some(k) = cb {
            if op == BinOp::LShr && k < w as u128 && !matches!(self.vars[a as usize], Vars::One(..)) {
                let hi = self.extract(a, k as u32, w - k as u32);
                return self.zext(hi, w);
            }
            if op == BinOp::Shl && k < w as u128 && !matches!(self.vars[a as usize], Vars::One(..)) {
                let lo = self.extract(a, 0, w - k as u32);
                let z = self.konst(k as u32, 0);
                return self.concat(lo, z);
            }
            if op == BinOp::And && (k & (k + 1)) == 0 && !matches!(self.vars[a as usize], Vars::One(..)) {
                let nb = k.count_ones();
                let lo = self.extract(a, 0, nb);
                return self.zext(lo, w);
            }
            if op == BinOp::Sub {
                let nk = self.konst(w, k.wrapping_neg());
                return self.bin(BinOp::Add, a, nk);
            }
            if op == BinOp::Add {
                let n = *self.n(a);
                if n.op == Op::Bin(BinOp::Add) {
                    if let Some(k2) = self.as_const(n.b) {
                        let s = self.konst(w, k.wrapping_add(k2));
                        return self.bin(BinOp::Add, n.a, s);
                    }
                }
            }
            if self.ite_consts(a) {
                return self.push_ite(a, &mut |x, l| x.bin(op, l, b));
            }
        }
        if ca.is_some() {
            if matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor) {
                return self.bin(op, b, a);
            }
            if self.ite_consts(b) {
                return self.push_ite(b, &mut |x, l| x.bin(op, a, l));
            }
        }
        if op == BinOp::Or && w > 1 {
            // disjoint or: zext(lo) | (hi << k)  => concat
            if let Some(e) = self.or_concat(a, b).or_else(|| self.or_concat(b, a)) {
                return e;
            }
        }
        self.node(Op::Bin(op), w, a, b, 0, 0)
    }
    fn or_concat(&mut self, lo: E, hi: E) -> Option<E> {
        let nl = *self.n(lo);
        let nh = *self.n(hi);
        if nl.op == Op::ZExt && nh.op == Op::Concat && self.as_const(nh.b) == Some(0) {
            let wl = self.w(nl.a);
            let k = self.w(nh.b);
            if wl <= k {
                let l = self.zext(nl.a, k);
                return Some(self.concat(nh.a, l));
            }
        }
        None
    }
    pub fn not1(&mut self, a: E) -> E {
        let one = self.konst(1, 1);
        self.bin(BinOp::Xor, a, one)
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::Or, a, b)
    }
    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        if a == b {
            return self.konst(1, matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128);
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if op == Op::Eq {
            if ca.is_some() && cb.is_none() {
                return self.cmp(op, b, a);
            }
            if let Some(k) = cb {
                let n = *self.n(a);
                if n.w == 1 {
                    return if k == 1 { a } else { self.not1(a) };
                }
                if n.op == Op::ZExt {
                    let wi = self.w(n.a);
                    if k > msk(wi) {
                        return self.konst(1, 0);
                    }
                    let kk = self.konst(wi, k);
                    return self.cmp(Op::Eq, n.a, kk);
                }
                if n.op == Op::Concat {
                    let wl = self.w(n.b);
                    let wh = self.w(n.a);
                    let kl = self.konst(wl, k);
                    let kh = self.konst(wh, k >> wl);
                    let l = self.cmp(Op::Eq, n.b, kl);
                    let h = self.cmp(Op::Eq, n.a, kh);
                    return self.and1(h, l);
                }
            }
        }
        if cb.is_some() && self.ite_consts(a) {
            return self.push_ite(a, &mut |x, l| x.cmp(op, l, b));
        }
        if ca.is_some() && self.ite_consts(b) {
            return self.push_ite(b, &mut |x, l| x.cmp(op, a, l));
        }
        self.node(op, 1, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.and1(n, b);
                }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.or1(n, a);
                }
                _ => {}
            }
        }
        self.node(Op::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = *self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        self.node(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if self.ite_consts(a) {
            return self.push_ite(a, &mut |x, l| x.sext(l, w));
        }
        self.node(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        let n = *self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.konst(w, 0);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, wi - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Bin(o @ (BinOp::And | BinOp::Or | BinOp::Xor)) if !matches!(self.vars[a as usize], Vars::One(..)) => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(o, x, y);
            }
            Op::Bin(o @ (BinOp::Add | BinOp::Sub | BinOp::Mul)) if lo == 0 && !matches!(self.vars[a as usize], Vars::One(..)) => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(o, x, y);
            }
            Op::Ite if self.ite_consts(a) => return self.push_ite(a, &mut |x, l| x.extract(l, lo, w)),
            _ => {}
        }
        self.node(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let (nh, nl) = (*self.n(hi), *self.n(lo));
        if self.as_const(hi) == Some(0) {
            return self.zext(lo, wh + wl);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + wl as u128 {
            return self.extract(nh.a, nl.k as u32, wh + wl);
        }
        // re-assemble x from Extract(x, wl..) ++ low part of x
        if nh.op == Op::Extract && nh.a == lo && false {
            return hi;
        }
        if nl.op == Op::Concat {
            // keep right-leaning concats left-associated: (hi ++ a) ++ b
            let h = self.concat(hi, nl.a);
            return self.concat2(h, nl.b);
        }
        self.concat2(hi, lo)
    }
    fn concat2(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let (nh, nl) = (*self.n(hi), *self.n(lo));
        if self.as_const(hi) == Some(0) {
            return self.zext(lo, wh + wl);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + wl as u128 {
            return self.extract(nh.a, nl.k as u32, wh + wl);
        }
        // zext(x) split: high part constant zero handled above
        self.node(Op::Concat, wh + wl, hi, lo, 0, 0)
    }
    pub fn ovf(&mut self, op: Op, a: E, b: E) -> E {
        self.node(op, 1, a, b, 0, 0)
    }
    pub fn unary(&mut self, op: Op, a: E) -> E {
        let w = self.w(a);
        self.node(op, w, a, 0, 0, 0)
    }
    /// 8-bit indexed constant table
    pub fn lookup(&mut self, idx: E, w: u32, t: [u64; 256]) -> E {
        let t = Rc::new(t);
        let k = match self.lookups.iter().position(|x| *x == t) {
            Some(k) => k,
            None => {
                self.lookups.push(t);
                self.lookups.len() - 1
            }
        };
        self.node(Op::Lookup, w, idx, 0, 0, k as u128)
    }
    pub fn eval(&self, e: E, m: &[u8], memo: &mut HashMap<E, u128>) -> u128 {
        match self.vars[e as usize] {
            Vars::None => return self.n(e).k,
            Vars::One(v, t) => return self.tables[t as usize][m[v as usize] as usize] as u128,
            Vars::One0(v) => return self.at(e, m[v as usize] as usize),
            _ => {}
        }
        if let Some(x) = memo.get(&e) {
            return *x;
        }
        let n = *self.n(e);
        let ar = Self::arity(n.op);
        let a = self.eval(n.a, m, memo);
        let r = if n.op == Op::Ite {
            if a != 0 {
                self.eval(n.b, m, memo)
            } else {
                self.eval(n.c, m, memo)
            }
        } else {
            let b = if ar > 1 { self.eval(n.b, m, memo) } else { 0 };
            self.eval_op(&n, a, b, 0)
        };
        memo.insert(e, r);
        r
    }
}

pub fn dom_has(d: &Dom, v: usize) -> bool {
    d[v >> 6] >> (v & 63) & 1 == 1
}
pub fn dom_count(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
pub fn dom_first(d: &Dom) -> Option<u8> {
    for i in 0..4 {
        if d[i] != 0 {
            return Some((i * 64) as u8 + d[i].trailing_zeros() as u8);
        }
    }
    None
}
