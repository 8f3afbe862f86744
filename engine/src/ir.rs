//! Reader for textual LLVM IR (as printed by rustc's LLVM) into a flat, executable form.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Other,
}

pub fn align_to(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                align_to(b, self.align())
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs.iter() {
                    if !packed {
                        o = align_to(o, f.align());
                    }
                    o += f.size();
                }
                if !packed {
                    o = align_to(o, self.align());
                }
                o
            }
            Ty::Vec(n, t) => {
                let bits = *n as u64 * t.bits() as u64;
                ((bits + 7) / 8).next_power_of_two()
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size(),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> (u64, &Ty) {
        match self {
            Ty::Arr(_, t) => (i as u64 * t.size(), t),
            Ty::Vec(_, t) => (i as u64 * t.size(), t),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        o = align_to(o, f.align());
                    }
                    if k == i {
                        return (o, f);
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            _ => panic!("field of scalar {:?}", self),
        }
    }
    pub fn n_fields(&self) -> usize {
        match self {
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            Ty::Struct(fs, _) => fs.len(),
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..))
    }
}

#[derive(Debug, Clone)]
pub enum Const {
    Int(u128),
    Undef,
    Zero,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Const)>),
    Splat(Box<(Ty, Const)>),
    Global(u32), // symbol id
    Gep(Ty, Box<(Ty, Const)>, Vec<(Ty, Const)>),
    Cast(String, Ty, Box<Const>, Ty),
    Bin(String, Ty, Box<Const>, Box<Const>),
}

#[derive(Debug, Clone)]
pub enum Opd {
    R(u32),
    I(u64),
    C(u32), // index into module constant pool
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit, // ptrtoint / inttoptr / bitcast (same or adapted width)
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Debug, Clone)]
pub struct Edge {
    pub block: u32,
    pub pc: u32,
    pub phis: Rc<Vec<(u32, Opd)>>,
}

#[derive(Debug, Clone)]
pub enum Callee {
    Sym(u32),
    Ind(Opd),
    Asm,
}

#[derive(Debug, Clone)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<(Ty, Opd)>,
    pub ret: Ty,
    pub dst: Option<u32>,
    pub normal: Option<Edge>,
}

#[derive(Debug, Clone)]
pub enum Inst {
    Bin { op: BinOp, ty: Ty, w: u32, a: Opd, b: Opd, d: u32 },
    FBin { op: u8, ty: Ty, a: Opd, b: Opd, d: u32 },
    FNeg { ty: Ty, a: Opd, d: u32 },
    Icmp { p: Pred, ty: Ty, w: u32, a: Opd, b: Opd, d: u32 },
    Fcmp { p: String, ty: Ty, a: Opd, b: Opd, d: u32 },
    Select { c: Opd, cty: Ty, ty: Ty, a: Opd, b: Opd, d: u32 },
    Cast { op: CastOp, from: Ty, to: Ty, a: Opd, d: u32 },
    Load { ty: Ty, p: Opd, d: u32 },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { base: Opd, off: i64, idx: Vec<(i64, Opd, u32)>, d: u32 },
    Alloca { size: u64, n: Option<Opd>, d: u32 },
    Call(Box<CallI>),
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { w: u32, v: Opd, cases: Vec<(u64, Edge)>, def: Edge },
    Ret(Option<Opd>),
    Unreachable,
    Extract { a: Opd, path: Vec<u32>, d: u32 },
    Insert { ty: Ty, a: Opd, v: Opd, path: Vec<u32>, d: u32 },
    ExtElem { a: Opd, i: Opd, d: u32 },
    InsElem { ty: Ty, a: Opd, v: Opd, i: Opd, d: u32 },
    Shuffle { ty: Ty, a: Opd, b: Opd, mask: Vec<i32>, d: u32 },
    Rmw { op: String, ty: Ty, p: Opd, v: Opd, d: u32 },
    CmpXchg { ty: Ty, p: Opd, c: Opd, n: Opd, d: u32 },
    Copy { a: Opd, d: u32 },
    Nop,
    Trap(String),
}

pub struct Func {
    pub name: String,
    pub nargs: u32,
    pub nregs: u32,
    pub insts: Vec<Inst>,
    pub has_body: bool,
    pub line0: u32,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub constant: bool,
    pub align: u64,
}

#[derive(Default)]
pub struct Module {
    pub sym_ids: HashMap<String, u32>,
    pub syms: Vec<SymKind>,
    pub sym_names: Vec<String>,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub aliases: Vec<(u32, Ty, Const)>,
    pub types: HashMap<String, Ty>,
    pub consts: Vec<(Ty, Const)>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum SymKind {
    Unknown,
    Func(u32),
    Global(u32),
    Alias(u32),
}

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    W(String),
    L(String),
    G(String),
    I(i128),
    Hex(String),
    F(f64),
    S(Vec<u8>),
    P(char),
    M,      // metadata reference
    A(u32), // #n
    Ell,
}

fn unesc(b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(24);
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let (name, ni);
                if b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&unesc(&b[i + 2..j])).into_owned();
                    ni = j + 1;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && is_id(b[j]) {
                        j += 1;
                    }
                    name = s[i + 1..j].to_string();
                    ni = j;
                }
                out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
                i = ni;
            }
            b'!' => {
                // metadata: !name or !123 or !{...} or !"..."
                let mut j = i + 1;
                while j < b.len() && (is_id(b[j])) {
                    j += 1;
                }
                // swallow "(...)" / "{...}" directly attached (e.g. !DIExpression())
                if j < b.len() && (b[j] == b'(' || b[j] == b'{') {
                    let mut depth = 0;
                    while j < b.len() {
                        if b[j] == b'(' || b[j] == b'{' {
                            depth += 1;
                        }
                        if b[j] == b')' || b[j] == b'}' {
                            depth -= 1;
                            if depth == 0 {
                                j += 1;
                                break;
                            }
                        }
                        j += 1;
                    }
                } else if j < b.len() && b[j] == b'"' {
                    j += 1;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    j += 1;
                }
                out.push(Tok::M);
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                out.push(Tok::A(s[i + 1..j].parse().unwrap_or(0)));
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::S(unesc(&b[i + 1..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::S(unesc(&b[i + 2..j])));
                i = j + 1;
            }
            b'-' | b'+' if i + 1 < b.len() && b[i + 1].is_ascii_alphabetic() => {
                out.push(Tok::P(c as char));
                i += 1;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                if c == b'0' && j < b.len() && b[j] == b'x' {
                    while j < b.len() && b[j].is_ascii_alphanumeric() {
                        j += 1;
                    }
                    out.push(Tok::Hex(s[i + 2..j].to_string()));
                    i = j;
                    continue;
                }
                let mut fl = false;
                while j < b.len() && (b[j].is_ascii_digit() || b[j] == b'.' || ((b[j] == b'e' || b[j] == b'E') && fl) || ((b[j] == b'+' || b[j] == b'-') && fl && (b[j - 1] == b'e' || b[j - 1] == b'E'))) {
                    if b[j] == b'.' {
                        fl = true;
                    }
                    j += 1;
                }
                if fl {
                    out.push(Tok::F(s[i..j].parse().unwrap()));
                } else {
                    match s[i..j].parse::<i128>() {
                        Ok(v) => out.push(Tok::I(v)),
                        Err(_) => out.push(Tok::I(s[i..j].parse::<u128>().unwrap_or(0) as i128)),
                    }
                }
                i = j;
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::Ell);
                i += 3;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                let mut j = i;
                while j < b.len() && is_id(b[j]) {
                    j += 1;
                }
                out.push(Tok::W(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a mut Module,
    regs: Option<&'a mut HashMap<String, u32>>,
    line: &'a str,
}

fn mask(w: u32, v: u128) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

impl Module {
    pub fn sym(&mut self, n: &str) -> u32 {
        if let Some(i) = self.sym_ids.get(n) {
            return *i;
        }
        let i = self.syms.len() as u32;
        self.syms.push(SymKind::Unknown);
        self.sym_names.push(n.to_string());
        self.sym_ids.insert(n.to_string(), i);
        i
    }
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        let t = self.t.get(self.i).cloned().unwrap_or(Tok::M);
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn is_w(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == s)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, s: &str) -> bool {
        if self.is_w(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) {
        if !self.eat_p(c) {
            panic!("IR parse: expected '{}' at tok {} ({:?}) in: {}", c, self.i, self.peek(), self.line)
        }
    }
    fn fail(&self, m: &str) -> ! {
        panic!("IR parse: {} at tok {} ({:?}) in: {}", m, self.i, self.peek(), self.line)
    }
    fn ty(&mut self) -> Ty {
        let base = match self.next() {
            Tok::W(w) => {
                if w == "ptr" {
                    if self.eat_w("addrspace") {
                        self.exp_p('(');
                        self.next();
                        self.exp_p(')');
                    }
                    Ty::Ptr
                } else if w == "void" {
                    Ty::Void
                } else if w == "double" {
                    Ty::F64
                } else if w == "float" {
                    Ty::F32
                } else if w.starts_with('i') && w[1..].chars().all(|c| c.is_ascii_digit()) && w.len() > 1 {
                    Ty::Int(w[1..].parse().unwrap())
                } else {
                    Ty::Other
                }
            }
            Tok::P('[') => {
                let n = match self.next() {
                    Tok::I(n) => n as u64,
                    _ => self.fail("array size"),
                };
                assert!(self.eat_w("x"));
                let t = self.ty();
                self.exp_p(']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.is_p('}') {
                    v.push(self.ty());
                    self.eat_p(',');
                }
                self.exp_p('}');
                Ty::Struct(Rc::new(v), false)
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let mut v = vec![];
                    while !self.is_p('}') {
                        v.push(self.ty());
                        self.eat_p(',');
                    }
                    self.exp_p('}');
                    self.exp_p('>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = match self.next() {
                        Tok::I(n) => n as u32,
                        _ => self.fail("vector size"),
                    };
                    assert!(self.eat_w("x"));
                    let t = self.ty();
                    self.exp_p('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::L(n) => match self.m.types.get(&n) {
                Some(t) => t.clone(),
                None => Ty::Other,
            },
            _ => {
                self.i -= 1;
                self.fail("type")
            }
        };
        base
    }
    fn skip_parens(&mut self) {
        if self.eat_p('(') {
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    Tok::M if self.i > self.t.len() => self.fail("unbalanced"),
                    _ => {}
                }
            }
        }
    }
    fn is_value_word(w: &str) -> bool {
        w.starts_with("f0x") || matches!(
            w,
            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "mul" | "splat" | "asm" | "addrspacecast"
        )
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    if Self::is_value_word(w) {
                        return;
                    }
                    let al = w == "align";
                    self.i += 1;
                    if al {
                        if let Some(Tok::I(_)) = self.peek() {
                            self.i += 1;
                        }
                    }
                    self.skip_parens();
                }
                Some(Tok::S(_)) => {
                    // string attribute like "foo"="bar" -- only appears for attrs on params rarely
                    return;
                }
                _ => return,
            }
        }
    }
    fn konst(&mut self, ty: &Ty) -> Const {
        match self.next() {
            Tok::I(v) => Const::Int(mask(ty.bits().max(1), v as u128)),
            Tok::F(f) => match ty {
                Ty::F32 => Const::Int((f as f32).to_bits() as u128),
                _ => Const::Int(f.to_bits() as u128),
            },
            Tok::Hex(h) => {
                let v = u64::from_str_radix(&h, 16).unwrap_or(0);
                match ty {
                    Ty::F32 => Const::Int((f64::from_bits(v) as f32).to_bits() as u128),
                    _ => Const::Int(v as u128),
                }
            }
            Tok::P(sg @ ('+' | '-')) => {
                let f = match self.next() {
                    Tok::W(w) if w == "inf" => f64::INFINITY,
                    Tok::W(w) if w == "qnan" || w == "nan" || w == "snan" => {
                        self.skip_parens();
                        f64::NAN
                    }
                    _ => self.fail("float constant"),
                };
                let f = if sg == '-' { -f } else { f };
                match ty {
                    Ty::F32 => Const::Int((f as f32).to_bits() as u128),
                    _ => Const::Int(f.to_bits() as u128),
                }
            }
            Tok::W(w) if w.starts_with("f0x") => Const::Int(u128::from_str_radix(&w[3..], 16).unwrap()),
            Tok::S(b) => Const::Bytes(b),
            Tok::G(n) => Const::Global(self.m.sym(&n)),
            Tok::P('[') => {
                let mut v = vec![];
                while !self.is_p(']') {
                    let t = self.ty();
                    let c = self.konst(&t);
                    v.push((t, c));
                    self.eat_p(',');
                }
                self.exp_p(']');
                Const::Agg(v)
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.is_p('}') {
                    let t = self.ty();
                    let c = self.konst(&t);
                    v.push((t, c));
                    self.eat_p(',');
                }
                self.exp_p('}');
                Const::Agg(v)
            }
            Tok::P('<') => {
                let br = self.eat_p('{');
                let mut v = vec![];
                while !self.is_p(if br { '}' } else { '>' }) {
                    let t = self.ty();
                    let c = self.konst(&t);
                    v.push((t, c));
                    self.eat_p(',');
                }
                if br {
                    self.exp_p('}');
                }
                self.exp_p('>');
                Const::Agg(v)
            }
            Tok::W(w) => match w.as_str() {
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "null" | "none" => Const::Int(0),
                "undef" | "poison" => Const::Undef,
                "zeroinitializer" => Const::Zero,
                "splat" => {
                    self.exp_p('(');
                    let t = self.ty();
                    let c = self.konst(&t);
                    self.exp_p(')');
                    Const::Splat(Box::new((t, c)))
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        // flags: inbounds nuw nusw inrange(...)
                        if self.eat_w("inrange") {
                            self.skip_parens();
                        } else {
                            self.i += 1;
                        }
                    }
                    self.exp_p('(');
                    let t = self.ty();
                    self.exp_p(',');
                    let bt = self.ty();
                    let b = self.konst(&bt);
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        let it = self.ty();
                        let ic = self.konst(&it);
                        idx.push((it, ic));
                    }
                    self.exp_p(')');
                    Const::Gep(t, Box::new((bt, b)), idx)
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" => {
                    self.exp_p('(');
                    let t = self.ty();
                    let c = self.konst(&t);
                    assert!(self.eat_w("to"));
                    let to = self.ty();
                    self.exp_p(')');
                    Const::Cast(w, t, Box::new(c), to)
                }
                "sub" | "add" | "xor" | "mul" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.exp_p('(');
                    let t = self.ty();
                    let a = self.konst(&t);
                    self.exp_p(',');
                    let t2 = self.ty();
                    let b = self.konst(&t2);
                    self.exp_p(')');
                    Const::Bin(w, t, Box::new(a), Box::new(b))
                }
                _ => {
                    self.i -= 1;
                    self.fail("constant word")
                }
            },
            _ => {
                self.i -= 1;
                self.fail("constant")
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let r = self.regs.as_mut().unwrap();
        let k = r.len() as u32;
        *r.entry(n.to_string()).or_insert(k)
    }
    fn opd(&mut self, ty: &Ty) -> Opd {
        if let Some(Tok::L(n)) = self.peek().cloned() {
            self.i += 1;
            return Opd::R(self.reg(&n));
        }
        let c = self.konst(ty);
        if let Const::Int(v) = c {
            if !ty.is_agg() && ty.bits() <= 64 {
                return Opd::I(v as u64);
            }
        }
        if let Const::Undef | Const::Zero = c {
            if !ty.is_agg() && ty.bits() <= 64 {
                return Opd::I(0);
            }
        }
        self.m.consts.push((ty.clone(), c));
        Opd::C(self.m.consts.len() as u32 - 1)
    }
    fn ty_opd(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        if t == Ty::Other {
            // metadata operand etc.: skip to , or )
            let mut d = 0;
            loop {
                match self.peek() {
                    None => break,
                    Some(Tok::P('(')) => d += 1,
                    Some(Tok::P(')')) if d == 0 => break,
                    Some(Tok::P(')')) => d -= 1,
                    Some(Tok::P(',')) if d == 0 => break,
                    _ => {}
                }
                self.i += 1;
            }
            return (t, Opd::I(0));
        }
        self.skip_attrs();
        let o = self.opd(&t);
        (t, o)
    }
    fn label(&mut self) -> String {
        if !self.eat_w("label") {
            self.fail("label")
        }
        match self.next() {
            Tok::L(n) => n,
            _ => self.fail("label name"),
        }
    }
}

struct RawEdge {
    to: String,
}

pub fn parse_module(src: &str) -> Module {
    let mut m = Module::default();
    let lines: Vec<&str> = src.lines().collect();
    // pass 0: types
    for l in &lines {
        if l.starts_with('%') {
            if let Some(p) = l.find(" = type ") {
                let toks = lex(&l[p + 8..]);
                let name = match &lex(&l[..p])[0] {
                    Tok::L(n) => n.clone(),
                    _ => continue,
                };
                let mut pp = P { t: toks, i: 0, m: &mut m, regs: None, line: l };
                if pp.is_w("opaque") {
                    continue;
                }
                let t = pp.ty();
                m.types.insert(name, t);
            }
        }
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            parse_global(&mut m, l);
            i += 1;
        } else if l.starts_with("declare ") {
            parse_declare(&mut m, l);
            i += 1;
        } else if l.starts_with("define ") {
            i = parse_define(&mut m, &lines, i);
        } else {
            i += 1;
        }
    }
    m
}

fn parse_global(m: &mut Module, l: &str) {
    let t = lex(l);
    let name = match &t[0] {
        Tok::G(n) => n.clone(),
        _ => return,
    };
    if name.starts_with("llvm.") {
        return;
    }
    let id = m.sym(&name);
    let mut p = P { t, i: 2, m, regs: None, line: l };
    let mut constant = false;
    let mut external = false;
    let mut alias = false;
    loop {
        match p.peek() {
            Some(Tok::W(w)) => {
                let w = w.clone();
                if w == "constant" || w == "global" {
                    constant = w == "constant";
                    p.i += 1;
                    break;
                }
                if w == "alias" {
                    alias = true;
                    p.i += 1;
                    break;
                }
                if w == "external" || w == "extern_weak" {
                    external = true;
                }
                p.i += 1;
                p.skip_parens();
            }
            Some(Tok::S(_)) => p.i += 1,
            Some(Tok::P('(')) => p.skip_parens(),
            _ => p.fail("global"),
        }
    }
    let ty = p.ty();
    if alias {
        p.exp_p(',');
        let t2 = p.ty();
        let c = p.konst(&t2);
        let k = p.m.aliases.len() as u32;
        p.m.aliases.push((id, t2, c));
        m.syms[id as usize] = SymKind::Alias(k);
        return;
    }
    let init = if external { None } else { Some(p.konst(&ty)) };
    let k = m.globals.len() as u32;
    m.globals.push(Global { name, align: ty.align().max(16), ty, init, constant });
    m.syms[id as usize] = SymKind::Global(k);
}

fn fn_header<'a>(m: &'a mut Module, l: &'a str, regs: Option<&'a mut HashMap<String, u32>>) -> (String, u32) {
    let t = lex(l);
    // find @name
    let gi = t.iter().position(|x| matches!(x, Tok::G(_))).unwrap();
    let name = match &t[gi] {
        Tok::G(n) => n.clone(),
        _ => unreachable!(),
    };
    let mut p = P { t, i: gi + 1, m, regs, line: l };
    p.exp_p('(');
    let mut n = 0;
    while !p.is_p(')') {
        if p.peek() == Some(&Tok::Ell) {
            p.i += 1;
            continue;
        }
        let _t = p.ty();
        p.skip_attrs();
        let nm = match p.peek().cloned() {
            Some(Tok::L(nm)) => {
                p.i += 1;
                nm
            }
            _ => format!("{}", n),
        };
        if p.regs.is_some() {
            let r = p.reg(&nm);
            assert_eq!(r, n);
        }
        n += 1;
        p.eat_p(',');
    }
    (name, n)
}

fn parse_declare(m: &mut Module, l: &str) {
    let (name, n) = fn_header(m, l, None);
    let id = m.sym(&name);
    if m.syms[id as usize] == SymKind::Unknown {
        let k = m.funcs.len() as u32;
        m.funcs.push(Func { name, nargs: n, nregs: n, insts: vec![], has_body: false, line0: 0 });
        m.syms[id as usize] = SymKind::Func(k);
    }
}

struct PhiRaw {
    dst: u32,
    inc: Vec<(Opd, String)>,
}

fn parse_define(m: &mut Module, lines: &[&str], start: usize) -> usize {
    let mut regs: HashMap<String, u32> = HashMap::new();
    let (name, nargs) = fn_header(m, lines[start], Some(&mut regs));
    let id = m.sym(&name);
    let mut insts: Vec<Inst> = vec![];
    // block name -> (index, pc)
    let mut blocks: HashMap<String, (u32, u32)> = HashMap::new();
    let mut phis: HashMap<String, Vec<PhiRaw>> = HashMap::new();
    let mut inst_block: Vec<String> = vec![];
    // edges to be patched: (inst idx, slot, target)
    let mut patches: Vec<(usize, usize, RawEdge)> = vec![];
    // implicit entry label: the first number not used by an unnamed argument
    let unnamed = regs.keys().filter(|k| k.bytes().all(|c| c.is_ascii_digit())).count();
    let mut cur = format!("{}", unnamed);
    let mut i = start + 1;
    let mut first = true;
    let dummy = Edge { block: 0, pc: 0, phis: Rc::new(vec![]) };
    loop {
        let l = lines[i];
        if l.starts_with('}') {
            break;
        }
        if l.is_empty() || l.starts_with(';') || l.trim_start().starts_with(';') {
            i += 1;
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let lab = if l.starts_with('"') {
                let e = l[1..].find('"').unwrap();
                l[1..1 + e].to_string()
            } else {
                l[..l.find(':').unwrap()].to_string()
            };
            cur = lab;
            blocks.insert(cur.clone(), (blocks.len() as u32, insts.len() as u32));
            first = false;
            i += 1;
            continue;
        }
        if first {
            blocks.insert(cur.clone(), (0, 0));
            first = false;
        }
        let tl = l.trim_start();
        if tl.starts_with('#') {
            i += 1; // debug record
            continue;
        }
        // gather full text
        let mut text = String::from(tl);
        if tl.starts_with("switch ") {
            while !lines[i].trim_end().contains(']') || lines[i].trim_start().starts_with("switch") && !lines[i].contains(']') {
                i += 1;
                text.push(' ');
                let mut x = lines[i];
                if let Some(p) = x.find(';') {
                    x = &x[..p];
                }
                text.push_str(x);
                if x.contains(']') {
                    break;
                }
            }
        } else if tl.contains("invoke ") && (tl.starts_with("invoke ") || tl.contains("= invoke ")) {
            i += 1;
            text.push(' ');
            text.push_str(lines[i]);
        } else if tl.contains("= landingpad ") {
            while i + 1 < lines.len() && lines[i + 1].starts_with("          ") {
                i += 1;
            }
        }
        i += 1;
        let toks = lex(&text);
        let mut p = P { t: toks, i: 0, m, regs: Some(&mut regs), line: &text };
        let mut dst: Option<u32> = None;
        if let (Some(Tok::L(n)), Some(Tok::P('='))) = (p.t.get(0).cloned(), p.t.get(1)) {
            dst = Some(p.reg(&n));
            p.i = 2;
        }
        let mut op = match p.next() {
            Tok::W(w) => w,
            _ => {
                p.i -= 1;
                p.fail("opcode")
            }
        };
        if op == "tail" || op == "musttail" || op == "notail" {
            op = match p.next() {
                Tok::W(w) => w,
                _ => p.fail("call"),
            };
        }
        let d = dst.unwrap_or(u32::MAX);
        let pc = insts.len();
        let binop = match op.as_str() {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            _ => None,
        };
        let inst = if let Some(bop) = binop {
            while matches!(p.peek(), Some(Tok::W(w)) if matches!(w.as_str(), "nuw"|"nsw"|"exact"|"disjoint")) {
                p.i += 1;
            }
            let ty = p.ty();
            let a = p.opd(&ty);
            p.exp_p(',');
            let b = p.opd(&ty);
            Inst::Bin { op: bop, w: ty.bits(), ty, a, b, d }
        } else {
            match op.as_str() {
                "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                    let k = match op.as_str() {
                        "fadd" => b'+',
                        "fsub" => b'-',
                        "fmul" => b'*',
                        "fdiv" => b'/',
                        _ => b'%',
                    };
                    skip_fmf(&mut p);
                    let ty = p.ty();
                    let a = p.opd(&ty);
                    p.exp_p(',');
                    let b = p.opd(&ty);
                    Inst::FBin { op: k, ty, a, b, d }
                }
                "fneg" => {
                    skip_fmf(&mut p);
                    let ty = p.ty();
                    let a = p.opd(&ty);
                    Inst::FNeg { ty, a, d }
                }
                "icmp" => {
                    p.eat_w("samesign");
                    let pr = match p.next() {
                        Tok::W(w) => match w.as_str() {
                            "eq" => Pred::Eq,
                            "ne" => Pred::Ne,
                            "ult" => Pred::Ult,
                            "ule" => Pred::Ule,
                            "ugt" => Pred::Ugt,
                            "uge" => Pred::Uge,
                            "slt" => Pred::Slt,
                            "sle" => Pred::Sle,
                            "sgt" => Pred::Sgt,
                            "sge" => Pred::Sge,
                            _ => p.fail("pred"),
                        },
                        _ => p.fail("pred"),
                    };
                    let ty = p.ty();
                    let a = p.opd(&ty);
                    p.exp_p(',');
                    let b = p.opd(&ty);
                    Inst::Icmp { p: pr, w: ty.bits(), ty, a, b, d }
                }
                "fcmp" => {
                    skip_fmf(&mut p);
                    let pr = match p.next() {
                        Tok::W(w) => w,
                        _ => p.fail("pred"),
                    };
                    let ty = p.ty();
                    let a = p.opd(&ty);
                    p.exp_p(',');
                    let b = p.opd(&ty);
                    Inst::Fcmp { p: pr, ty, a, b, d }
                }
                "select" => {
                    skip_fmf(&mut p);
                    let (cty, c) = p.ty_opd();
                    p.exp_p(',');
                    let (ty, a) = p.ty_opd();
                    p.exp_p(',');
                    let (_, b) = p.ty_opd();
                    Inst::Select { c, cty, ty, a, b, d }
                }
                "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                    while matches!(p.peek(), Some(Tok::W(w)) if matches!(w.as_str(), "nuw"|"nsw"|"nneg"|"fast"|"contract"|"nnan"|"ninf"|"nsz"|"arcp"|"afn"|"reassoc")) {
                        p.i += 1;
                    }
                    let from = p.ty();
                    let a = p.opd(&from);
                    if !p.eat_w("to") {
                        p.fail("to")
                    }
                    let to = p.ty();
                    let cop = match op.as_str() {
                        "trunc" => CastOp::Trunc,
                        "zext" => CastOp::ZExt,
                        "sext" => CastOp::SExt,
                        "uitofp" => CastOp::UiToFp,
                        "sitofp" => CastOp::SiToFp,
                        "fptoui" => CastOp::FpToUi,
                        "fptosi" => CastOp::FpToSi,
                        "fpext" => CastOp::FpExt,
                        "fptrunc" => CastOp::FpTrunc,
                        _ => CastOp::Bit,
                    };
                    Inst::Cast { op: cop, from, to, a, d }
                }
                "load" => {
                    p.eat_w("atomic");
                    p.eat_w("volatile");
                    let ty = p.ty();
                    p.exp_p(',');
                    let (_, a) = p.ty_opd();
                    Inst::Load { ty, p: a, d }
                }
                "store" => {
                    p.eat_w("atomic");
                    p.eat_w("volatile");
                    let (ty, v) = p.ty_opd();
                    p.exp_p(',');
                    let (_, a) = p.ty_opd();
                    Inst::Store { ty, v, p: a }
                }
                "getelementptr" => {
                    while matches!(p.peek(), Some(Tok::W(w)) if matches!(w.as_str(), "inbounds"|"nuw"|"nusw"|"inrange")) {
                        p.i += 1;
                        p.skip_parens();
                    }
                    let ety = p.ty();
                    p.exp_p(',');
                    let (bt, base) = p.ty_opd();
                    if bt.is_agg() {
                        p.fail("vector gep");
                    }
                    let mut off: i64 = 0;
                    let mut idx = vec![];
                    let mut cur_t = ety;
                    let mut firsti = true;
                    while p.eat_p(',') {
                        if p.peek() == Some(&Tok::M) {
                            break;
                        }
                        let (it, io) = p.ty_opd();
                        let scale: i64;
                        if firsti {
                            scale = cur_t.size() as i64;
                            firsti = false;
                        } else {
                            match &cur_t {
                                Ty::Struct(..) => {
                                    let k = match io {
                                        Opd::I(v) => v as usize,
                                        _ => p.fail("struct gep idx"),
                                    };
                                    let (o, f) = cur_t.field(k);
                                    off += o as i64;
                                    let f = f.clone();
                                    cur_t = f;
                                    continue;
                                }
                                Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                    scale = t.size() as i64;
                                    let t2 = (**t).clone();
                                    cur_t = t2;
                                }
                                _ => p.fail("gep into scalar"),
                            }
                        }
                        match io {
                            Opd::I(v) => {
                                let w = it.bits();
                                let sv = if w < 64 { ((v << (64 - w)) as i64) >> (64 - w) } else { v as i64 };
                                off = off.wrapping_add(sv.wrapping_mul(scale));
                            }
                            o => idx.push((scale, o, it.bits())),
                        }
                    }
                    Inst::Gep { base, off, idx, d }
                }
                "alloca" => {
                    p.eat_w("inalloca");
                    let ty = p.ty();
                    let mut n = None;
                    if p.eat_p(',') {
                        if !p.is_w("align") && !p.is_w("addrspace") && p.peek() != Some(&Tok::M) {
                            let (_, o) = p.ty_opd();
                            n = Some(o);
                        }
                    }
                    Inst::Alloca { size: ty.size(), n, d }
                }
                "phi" => {
                    skip_fmf(&mut p);
                    let ty = p.ty();
                    let mut inc = vec![];
                    loop {
                        p.exp_p('[');
                        let v = p.opd(&ty);
                        p.exp_p(',');
                        let lab = match p.next() {
                            Tok::L(n) => n,
                            _ => p.fail("phi label"),
                        };
                        p.exp_p(']');
                        inc.push((v, lab));
                        if p.is_p(',') && matches!(p.t.get(p.i + 1), Some(Tok::P('['))) {
                            p.i += 1;
                        } else {
                            break;
                        }
                    }
                    phis.entry(cur.clone()).or_default().push(PhiRaw { dst: d, inc });
                    continue;
                }
                "br" => {
                    if p.is_w("label") {
                        let to = p.label();
                        patches.push((pc, 0, RawEdge { to }));
                        Inst::Br(dummy.clone())
                    } else {
                        let (_, c) = p.ty_opd();
                        p.exp_p(',');
                        let t = p.label();
                        p.exp_p(',');
                        let f = p.label();
                        patches.push((pc, 0, RawEdge { to: t }));
                        patches.push((pc, 1, RawEdge { to: f }));
                        Inst::CondBr { c, t: dummy.clone(), f: dummy.clone() }
                    }
                }
                "switch" => {
                    let (ty, v) = p.ty_opd();
                    p.exp_p(',');
                    let dl = p.label();
                    patches.push((pc, 0, RawEdge { to: dl }));
                    p.exp_p('[');
                    let mut cases = vec![];
                    while !p.is_p(']') {
                        let ct = p.ty();
                        let c = p.opd(&ct);
                        let cv = match c {
                            Opd::I(v) => v,
                            _ => p.fail("switch case"),
                        };
                        p.exp_p(',');
                        let to = p.label();
                        patches.push((pc, cases.len() + 1, RawEdge { to }));
                        cases.push((cv, dummy.clone()));
                    }
                    Inst::Switch { w: ty.bits(), v, cases, def: dummy.clone() }
                }
                "ret" => {
                    if p.is_w("void") {
                        Inst::Ret(None)
                    } else {
                        let (_, o) = p.ty_opd();
                        Inst::Ret(Some(o))
                    }
                }
                "unreachable" => Inst::Unreachable,
                "call" | "invoke" => {
                    // cc / ret attrs / fmf until type
                    skip_call_prefix(&mut p);
                    let ret = p.ty();
                    if p.is_p('(') {
                        // function type of variadic
                        p.skip_parens();
                    }
                    let callee = match p.next() {
                        Tok::G(n) => Callee::Sym(p.m.sym(&n)),
                        Tok::L(n) => Callee::Ind(Opd::R(p.reg(&n))),
                        Tok::W(w) if w == "asm" => {
                            // asm flags "..." , "..."
                            while !matches!(p.peek(), Some(Tok::P('('))) {
                                p.i += 1;
                            }
                            Callee::Asm
                        }
                        Tok::W(w) if w == "inttoptr" || w == "null" || w == "undef" || w == "poison" => Callee::Asm,
                        _ => {
                            p.i -= 1;
                            p.fail("callee")
                        }
                    };
                    let mut args = vec![];
                    p.exp_p('(');
                    while !p.is_p(')') {
                        args.push(p.ty_opd());
                        p.eat_p(',');
                    }
                    p.exp_p(')');
                    let mut normal = None;
                    if op == "invoke" {
                        while !p.is_w("to") {
                            if p.i >= p.t.len() {
                                p.fail("invoke to");
                            }
                            p.i += 1;
                        }
                        p.i += 1;
                        let to = p.label();
                        patches.push((pc, 0, RawEdge { to }));
                        normal = Some(dummy.clone());
                    }
                    Inst::Call(Box::new(CallI { callee, args, ret, dst, normal }))
                }
                "extractvalue" => {
                    let (_, a) = p.ty_opd();
                    let mut path = vec![];
                    while p.eat_p(',') {
                        match p.next() {
                            Tok::I(v) => path.push(v as u32),
                            _ => break,
                        }
                    }
                    Inst::Extract { a, path, d }
                }
                "insertvalue" => {
                    let (ty, a) = p.ty_opd();
                    p.exp_p(',');
                    let (_, v) = p.ty_opd();
                    let mut path = vec![];
                    while p.eat_p(',') {
                        match p.next() {
                            Tok::I(v) => path.push(v as u32),
                            _ => break,
                        }
                    }
                    Inst::Insert { ty, a, v, path, d }
                }
                "extractelement" => {
                    let (_, a) = p.ty_opd();
                    p.exp_p(',');
                    let (_, io) = p.ty_opd();
                    Inst::ExtElem { a, i: io, d }
                }
                "insertelement" => {
                    let (ty, a) = p.ty_opd();
                    p.exp_p(',');
                    let (_, v) = p.ty_opd();
                    p.exp_p(',');
                    let (_, io) = p.ty_opd();
                    Inst::InsElem { ty, a, v, i: io, d }
                }
                "shufflevector" => {
                    let (ty, a) = p.ty_opd();
                    p.exp_p(',');
                    let (_, b) = p.ty_opd();
                    p.exp_p(',');
                    let mt = p.ty();
                    let mc = p.konst(&mt);
                    let n = mt.n_fields();
                    let mask = match mc {
                        Const::Zero | Const::Undef => vec![0; n],
                        Const::Agg(v) => v
                            .iter()
                            .map(|(_, c)| match c {
                                Const::Int(x) => *x as i32,
                                _ => -1,
                            })
                            .collect(),
                        Const::Splat(b) => match b.1 {
                            Const::Int(x) => vec![x as i32; n],
                            _ => vec![-1; n],
                        },
                        _ => p.fail("mask"),
                    };
                    Inst::Shuffle { ty, a, b, mask, d }
                }
                "atomicrmw" => {
                    p.eat_w("volatile");
                    let rop = match p.next() {
                        Tok::W(w) => w,
                        _ => p.fail("rmw"),
                    };
                    let (_, a) = p.ty_opd();
                    p.exp_p(',');
                    let (ty, v) = p.ty_opd();
                    Inst::Rmw { op: rop, ty, p: a, v, d }
                }
                "cmpxchg" => {
                    p.eat_w("weak");
                    p.eat_w("volatile");
                    let (_, a) = p.ty_opd();
                    p.exp_p(',');
                    let (ty, c) = p.ty_opd();
                    p.exp_p(',');
                    let (_, n) = p.ty_opd();
                    Inst::CmpXchg { ty, p: a, c, n, d }
                }
                "fence" => Inst::Nop,
                "freeze" => {
                    let (_, a) = p.ty_opd();
                    Inst::Copy { a, d }
                }
                "landingpad" | "cleanuppad" | "catchpad" | "resume" | "va_arg" | "callbr" | "indirectbr" => Inst::Trap(op.clone()),
                _ => Inst::Trap(format!("unknown op {}", op)),
            }
        };
        insts.push(inst);
        inst_block.push(cur.clone());
    }
    // patch edges
    let mkedge = |from: &str, to: &str| -> Edge {
        let (b, pc) = *blocks.get(to).unwrap_or_else(|| panic!("no block {} in {}", to, name));
        let mut v = vec![];
        if let Some(ps) = phis.get(to) {
            for ph in ps {
                let (o, _) = ph.inc.iter().find(|(_, l)| l == from).unwrap_or_else(|| panic!("phi edge {}->{} in {}", from, to, name));
                v.push((ph.dst, o.clone()));
            }
        }
        Edge { block: b, pc, phis: Rc::new(v) }
    };
    for (pc, slot, re) in patches {
        let from = inst_block[pc].clone();
        let e = mkedge(&from, &re.to);
        match &mut insts[pc] {
            Inst::Br(x) => *x = e,
            Inst::CondBr { t, f, .. } => {
                if slot == 0 {
                    *t = e
                } else {
                    *f = e
                }
            }
            Inst::Switch { cases, def, .. } => {
                if slot == 0 {
                    *def = e
                } else {
                    cases[slot - 1].1 = e
                }
            }
            Inst::Call(c) => c.normal = Some(e),
            _ => unreachable!(),
        }
    }
    let nregs = regs.len() as u32;
    let f = Func { name, nargs, nregs, insts, has_body: true, line0: start as u32 };
    match m.syms[id as usize] {
        SymKind::Func(k) => m.funcs[k as usize] = f,
        _ => {
            let k = m.funcs.len() as u32;
            m.funcs.push(f);
            m.syms[id as usize] = SymKind::Func(k);
        }
    }
    i + 1
}

fn skip_fmf(p: &mut P) {
    while matches!(p.peek(), Some(Tok::W(w)) if matches!(w.as_str(), "fast"|"contract"|"nnan"|"ninf"|"nsz"|"arcp"|"afn"|"reassoc")) {
        p.i += 1;
    }
}

fn skip_call_prefix(p: &mut P) {
    loop {
        match p.peek() {
            Some(Tok::W(w)) => {
                let w = w.clone();
                let is_ty = w == "ptr" || w == "void" || w == "double" || w == "float" || (w.starts_with('i') && w.len() > 1 && w[1..].chars().all(|c| c.is_ascii_digit()));
                if is_ty {
                    return;
                }
                p.i += 1;
                if w == "align" {
                    if let Some(Tok::I(_)) = p.peek() {
                        p.i += 1;
                    }
                }
                if matches!(w.as_str(), "dereferenceable" | "dereferenceable_or_null" | "range" | "nofpclass" | "align" | "addrspace" | "captures" | "memory") {
                    p.skip_parens();
                }
            }
            _ => return,
        }
    }
}
