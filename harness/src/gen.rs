//! Writes DBML text and, alongside, the tree it must parse to (positions included).
use super::sys::*;
use core::ops::Range;
pub use dbml_rs::ast::*;
pub use std::string::{String, ToString};
pub use std::vec;
pub use std::vec::Vec;

/// bytes produced by the harness are ASCII, or valid UTF-8 by construction
pub fn st(b: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(b) }
}
pub fn own(b: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
pub const NONE: usize = usize::MAX;
/// layout at every place at once
pub const EVERY: usize = usize::MAX - 1;

/// Text under construction. `g` marks a place where the language allows layout; the place numbered
/// `gap_at` gets a layout text of kind `gap_kind`, all others get nothing.
pub struct W {
    pub s: Vec<u8>,
    pub gaps: usize,
    pub gap_at: usize,
    pub gap_kind: u32,
    /// 0: keywords as documented; 1: every letter of every keyword in a symbolic case
    pub case: u32,
    pub quote: bool,
    /// where layout was written
    pub lay: Vec<(usize, usize)>,
    /// inside a quoted column type, where a double quote ends the type
    pub inq: bool,
}
pub const GAP_KINDS: u32 = 8;

impl W {
    #[inline(never)]
    pub fn new() -> W {
        W { s: Vec::with_capacity(512), gaps: 0, gap_at: NONE, gap_kind: 0, case: 0, quote: false, lay: Vec::new(), inq: false }
    }
    pub fn pos(&self) -> usize {
        self.s.len()
    }
    pub fn text(&self) -> &str {
        st(&self.s)
    }
    #[inline(never)]
    pub fn t(&mut self, x: &str) -> &mut W {
        self.s.extend_from_slice(x.as_bytes());
        self
    }
    #[inline(never)]
    pub fn b(&mut self, x: &[u8]) -> &mut W {
        self.s.extend_from_slice(x);
        self
    }
    /// a place that may carry layout
    #[inline(never)]
    pub fn g(&mut self) -> &mut W {
        let k = self.gaps;
        self.gaps += 1;
        if k == self.gap_at || self.gap_at == EVERY {
            let from = self.pos();
            match self.gap_kind {
                0 => {
                    self.t(" ");
                }
                1 => {
                    self.t("\t\t");
                }
                2 => {
                    self.t("\n");
                }
                3 => {
                    self.t("\r\n ");
                }
                4 => {
                    // any text up to the end of the line
                    let (a, b) = if self.gap_at == EVERY { (b'"', b'}') } else { (byte(0, 127), byte(0, 127)) };
                    let (a, b) = if self.inq && self.gap_at == EVERY { (b'x', b'y') } else { (a, b) };
                    assume(a != b'\n' && a != b'\r' && b != b'\n' && b != b'\r');
                    assume(!self.inq || (a != b'"' && b != b'"'));
                    self.t(" //");
                    self.s.push(a);
                    self.s.push(b);
                    self.t("\n");
                }
                5 => {
                    // any text without the end marker
                    let (a, b) = if self.gap_at == EVERY { (b'*', b'[') } else { (byte(0, 127), byte(0, 127)) };
                    assume(!(a == b'*' && b == b'/') && (!self.inq || (a != b'"' && b != b'"')));
                    self.t("/*");
                    self.s.push(a);
                    self.s.push(b);
                    self.t(" */");
                }
                6 => {
                    self.t("/**/ // \u{e9}\u{1F600} }\n");
                }
                _ => {
                    self.t("\r/* ' \" ` { [ ( \n // x\n*/\n\n");
                }
            }
            let to = self.pos();
            self.lay.push((from, to));
        }
        self
    }
    /// a separating blank, with a place for more layout
    pub fn sp(&mut self) -> &mut W {
        self.t(" ").g()
    }
    pub fn nl(&mut self) -> &mut W {
        self.g().t("\n")
    }
    /// a block keyword
    #[inline(never)]
    pub fn kw(&mut self, k: &str) -> &mut W {
        for &c in k.as_bytes() {
            if self.case == 1 && c.is_ascii_alphabetic() {
                let f = byte(0, 1);
                self.s.push((c & 0xdf) | (f << 5));
            } else {
                self.s.push(c);
            }
        }
        self
    }
    /// punctuation with optional layout on both sides
    pub fn p(&mut self, x: &str) -> &mut W {
        self.g().t(x).g()
    }
}

/// a name as written: its characters, and whether it stands in double quotes
#[derive(Clone)]
pub struct Nm {
    pub b: Vec<u8>,
    pub q: bool,
}
pub fn nm(x: &str) -> Nm {
    Nm { b: x.as_bytes().to_vec(), q: false }
}
pub fn nq(x: &str) -> Nm {
    Nm { b: x.as_bytes().to_vec(), q: true }
}
pub fn nb(b: &[u8]) -> Nm {
    Nm { b: b.to_vec(), q: false }
}

#[inline(never)]
pub fn ident(w: &mut W, n: &Nm) -> Ident {
    let a = w.pos();
    if n.q || w.quote {
        w.t("\"").b(&n.b).t("\"");
    } else {
        w.b(&n.b);
    }
    Ident { span_range: a..w.pos(), raw: own(&w.s[a..]), to_string: own(&n.b) }
}
/// schema.name
#[inline(never)]
pub fn qual(w: &mut W, s: &Option<Nm>, n: &Nm) -> (Range<usize>, Option<Ident>, Ident) {
    let a = w.pos();
    let s = match s {
        Some(s) => {
            let i = ident(w, s);
            w.t(".");
            Some(i)
        }
        None => None,
    };
    let n = ident(w, n);
    (a..w.pos(), s, n)
}

#[derive(Clone)]
pub enum Lit {
    /// 'x'
    S1(Vec<u8>),
    /// '''x'''
    S3(Vec<u8>),
    /// "x"
    Dq(Vec<u8>),
    /// `x`
    Bt(Vec<u8>),
    /// bare spelling and the value it denotes
    Raw(Vec<u8>, Value),
}
pub fn s1(x: &str) -> Lit {
    Lit::S1(x.as_bytes().to_vec())
}
pub fn bare(x: &str) -> Lit {
    Lit::Raw(x.as_bytes().to_vec(), Value::Enum(x.to_string()))
}
pub fn int(x: i64) -> Lit {
    Lit::Raw(x.to_string().into_bytes(), Value::Integer(x))
}
/// white space right after ' and ''' is not part of the value
fn untabbed(x: &[u8]) -> &[u8] {
    let mut i = 0;
    while i < x.len() && ((x[i] == b' ') | (x[i] == b'\t') | (x[i] == b'\n') | (x[i] == b'\r')) {
        i += 1;
    }
    &x[i..]
}
impl Lit {
    #[inline(never)]
    pub fn value(&self) -> Value {
        match self {
            Lit::S1(x) | Lit::S3(x) => Value::String(own(untabbed(x))),
            Lit::Dq(x) => Value::String(own(x)),
            Lit::Bt(x) => Value::Expr(own(x)),
            Lit::Raw(_, v) => v.clone(),
        }
    }
    /// the text the value is shown as
    #[inline(never)]
    pub fn shown(&self) -> String {
        match self {
            Lit::S1(x) | Lit::S3(x) => own(untabbed(x)),
            Lit::Dq(x) | Lit::Bt(x) => own(x),
            Lit::Raw(t, _) => own(t),
        }
    }
}
#[inline(never)]
pub fn lit(w: &mut W, l: &Lit) -> Literal {
    let a = w.pos();
    match l {
        Lit::S1(x) => w.t("'").b(x).t("'"),
        Lit::S3(x) => w.t("'''").b(x).t("'''"),
        Lit::Dq(x) => w.t("\"").b(x).t("\""),
        Lit::Bt(x) => w.t("`").b(x).t("`"),
        Lit::Raw(x, _) => w.b(x),
    };
    Literal { span_range: a..w.pos(), raw: own(&w.s[a..]), value: l.value() }
}

pub type At = (Vec<u8>, Option<Lit>);
pub fn at(k: &str, l: Option<Lit>) -> At {
    (k.as_bytes().to_vec(), l)
}
#[inline(never)]
pub fn key(w: &mut W, k: &[u8]) -> Ident {
    let a = w.pos();
    w.b(k);
    Ident { span_range: a..w.pos(), raw: own(k), to_string: own(k) }
}
#[inline(never)]
pub fn attr(w: &mut W, x: &At) -> Attribute {
    let a = w.pos();
    let key = key(w, &x.0);
    let value = match &x.1 {
        None => None,
        Some(l) => {
            w.g().t(":").sp();
            Some(lit(w, l))
        }
    };
    Attribute { span_range: a..w.pos(), key, value }
}
#[inline(never)]
pub fn attrs(w: &mut W, x: &[At]) -> (Range<usize>, Vec<Attribute>) {
    let a = w.pos();
    w.t("[").g();
    let mut v = Vec::new();
    for (i, y) in x.iter().enumerate() {
        if i > 0 {
            w.g().t(",").sp();
        }
        v.push(attr(w, y));
    }
    w.g().t("]");
    (a..w.pos(), v)
}

#[derive(Clone)]
pub struct Note {
    /// 0: Note: '..'   1: Note { '..' }
    pub form: u32,
    pub l: Lit,
}
#[inline(never)]
pub fn note(w: &mut W, n: &Note) -> NoteBlock {
    let a = w.pos();
    w.kw("Note");
    let value;
    if n.form == 0 {
        w.g().t(":").sp();
        value = lit(w, &n.l);
    } else {
        w.sp().t("{").sp();
        value = lit(w, &n.l);
        w.sp().t("}");
    }
    NoteBlock { span_range: a..w.pos(), value }
}

/// relation: 0 <, 1 >, 2 -, 3 <>
pub fn rel_txt(r: u32) -> &'static str {
    ["<", ">", "-", "<>"][r as usize]
}
pub fn rel_of(r: u32) -> Relation {
    match r {
        0 => Relation::One2Many,
        1 => Relation::Many2One,
        2 => Relation::One2One,
        _ => Relation::Many2Many,
    }
}
pub fn rel_flip(r: u32) -> u32 {
    match r {
        0 => 1,
        1 => 0,
        r => r,
    }
}
#[derive(Clone)]
pub struct End {
    pub s: Option<Nm>,
    pub t: Nm,
    pub c: Vec<Nm>,
    /// columns in parentheses even if there is one
    pub paren: bool,
}
pub fn end(t: &str, c: &str) -> End {
    End { s: None, t: nm(t), c: vec![nm(c)], paren: false }
}
pub fn ends(s: Option<&str>, t: &str, c: &[&str]) -> End {
    End { s: s.map(nm), t: nm(t), c: c.iter().map(|x| nm(x)).collect(), paren: false }
}
#[inline(never)]
pub fn rend(w: &mut W, e: &End) -> RefIdent {
    let a = w.pos();
    let schema = match &e.s {
        Some(s) => {
            let i = ident(w, s);
            w.t(".");
            Some(i)
        }
        None => None,
    };
    let table = ident(w, &e.t);
    w.t(".");
    let mut compositions = Vec::new();
    if e.c.len() == 1 && !e.paren {
        compositions.push(ident(w, &e.c[0]));
    } else {
        w.t("(").g();
        for (i, c) in e.c.iter().enumerate() {
            if i > 0 {
                w.g().t(",").sp();
            }
            compositions.push(ident(w, c));
        }
        w.g().t(")");
    }
    RefIdent { span_range: a..w.pos(), schema, table, compositions }
}

#[derive(Clone)]
pub struct Ty {
    pub schema: Option<Nm>,
    pub name: Vec<u8>,
    /// the whole type in double quotes
    pub q: bool,
    /// None: no parentheses
    pub args: Option<Vec<Lit>>,
    pub arrays: Vec<Option<u32>>,
    /// array dimensions inside the quotes
    pub arrays_in: bool,
}
pub fn ty(x: &str) -> Ty {
    tyb(x.as_bytes())
}
pub fn tyb(x: &[u8]) -> Ty {
    Ty { schema: None, name: x.to_vec(), q: false, args: None, arrays: Vec::new(), arrays_in: false }
}
#[inline(never)]
fn dims(w: &mut W, d: &[Option<u32>]) {
    for x in d {
        w.t("[");
        if let Some(n) = x {
            w.t(&n.to_string());
        }
        w.t("]");
    }
}
#[inline(never)]
pub fn ctype(w: &mut W, t: &Ty) -> ColumnType {
    let a = w.pos();
    let mut full = Vec::new();
    if let Some(s) = &t.schema {
        ident(w, s);
        w.t(".");
        full.extend_from_slice(&s.b);
        full.push(b'.');
    }
    full.extend_from_slice(&t.name);
    if t.q {
        w.t("\"");
    }
    w.b(&t.name);
    let mut args = Vec::new();
    w.inq = t.q;
    if let Some(v) = &t.args {
        w.t("(").g();
        for (i, l) in v.iter().enumerate() {
            if i > 0 {
                w.g().t(",").g();
            }
            args.push(lit(w, l).value);
        }
        w.g().t(")");
    }
    w.inq = false;
    if t.q {
        if t.arrays_in {
            dims(w, &t.arrays);
            w.t("\"");
        } else {
            w.t("\"");
            dims(w, &t.arrays);
        }
    } else {
        dims(w, &t.arrays);
    }
    ColumnType {
        span_range: a..w.pos(),
        raw: own(&w.s[a..]),
        type_name: ColumnTypeName::Raw(own(&full)),
        args,
        arrays: t.arrays.clone(),
    }
}

#[derive(Clone)]
pub enum Set {
    A(At),
    Ref(u32, End),
}
pub fn sa(k: &str) -> Set {
    Set::A(at(k, None))
}
pub fn sv(k: &str, l: Lit) -> Set {
    Set::A(at(k, Some(l)))
}
#[derive(Clone)]
pub struct Col {
    pub n: Nm,
    pub t: Ty,
    pub set: Option<Vec<Set>>,
}
pub fn col(n: &str, t: &str) -> Col {
    Col { n: nm(n), t: ty(t), set: None }
}
pub fn cols(n: &str, t: &str, s: Vec<Set>) -> Col {
    Col { n: nm(n), t: ty(t), set: Some(s) }
}
#[inline(never)]
pub fn rinline(w: &mut W, r: u32, e: &End) -> RefInline {
    let a = w.pos();
    w.t("ref").g().t(":").sp().t(rel_txt(r)).sp();
    let rhs = rend(w, e);
    RefInline { span_range: a..w.pos(), rel: rel_of(r), rhs }
}
#[inline(never)]
pub fn column(w: &mut W, c: &Col) -> TableColumn {
    let a = w.pos();
    let name = ident(w, &c.n);
    w.sp();
    let r#type = ctype(w, &c.t);
    let settings = match &c.set {
        None => None,
        Some(v) => {
            w.sp();
            let b = w.pos();
            w.t("[").g();
            let mut s = ColumnSettings::default();
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    w.g().t(",").sp();
                }
                match x {
                    Set::Ref(r, e) => s.refs.push(rinline(w, *r, e)),
                    Set::A(x) => {
                        let at = attr(w, x);
                        match &x.0[..] {
                            b"pk" | b"primary key" => s.is_pk = true,
                            b"unique" => s.is_unique = true,
                            b"null" => s.nullable = Some(Nullable::Null),
                            b"not null" => s.nullable = Some(Nullable::NotNull),
                            b"increment" => s.is_incremental = true,
                            b"note" => s.note = x.1.as_ref().map(|l| l.shown()),
                            b"default" => s.default = x.1.as_ref().map(|l| l.value()),
                            _ => {}
                        }
                        s.attributes.push(at);
                    }
                }
            }
            w.g().t("]");
            s.span_range = b..w.pos();
            Some(s)
        }
    };
    TableColumn { span_range: a..w.pos(), name, r#type, settings }
}

#[derive(Clone)]
pub enum Ix {
    C(Nm),
    E(Vec<u8>),
}
#[derive(Clone)]
pub struct IxDef {
    pub c: Vec<Ix>,
    pub paren: bool,
    pub set: Option<Vec<At>>,
}
pub fn ix(c: &[&str], s: Option<Vec<At>>) -> IxDef {
    IxDef { c: c.iter().map(|x| Ix::C(nm(x))).collect(), paren: c.len() != 1, set: s }
}
#[inline(never)]
pub fn indexes(w: &mut W, d: &[IxDef]) -> IndexesBlock {
    w.kw("Indexes").sp();
    let a = w.pos();
    w.t("{").nl();
    let mut out = IndexesBlock::default();
    for x in d {
        let b = w.pos();
        let mut def = IndexesDef::default();
        if x.paren {
            w.t("(").g();
        }
        for (i, y) in x.c.iter().enumerate() {
            if i > 0 {
                w.g().t(",").sp();
            }
            def.cols.push(match y {
                Ix::C(n) => IndexesColumnType::String(ident(w, n)),
                Ix::E(e) => {
                    let p = w.pos();
                    w.t("`").b(e).t("`");
                    IndexesColumnType::Expr(Literal { span_range: p..w.pos(), raw: own(&w.s[p..]), value: Value::String(own(e)) })
                }
            });
        }
        if x.paren {
            w.g().t(")");
        }
        if let Some(s) = &x.set {
            w.sp();
            let (span_range, attributes) = attrs(w, s);
            let mut st = IndexesSettings { span_range, attributes, ..Default::default() };
            for y in s {
                match &y.0[..] {
                    b"unique" => st.is_unique = true,
                    b"pk" => st.is_pk = true,
                    b"type" => {
                        st.r#type = match &y.1 {
                            Some(l) => match l.shown().as_str() {
                                "btree" => Some(IndexesType::BTree),
                                "gin" => Some(IndexesType::Gin),
                                "gist" => Some(IndexesType::Gist),
                                _ => Some(IndexesType::Hash),
                            },
                            None => None,
                        }
                    }
                    b"name" => st.name = y.1.as_ref().map(|l| l.shown()),
                    b"note" => st.note = y.1.as_ref().map(|l| l.shown()),
                    _ => {}
                }
            }
            def.settings = Some(st);
        }
        def.span_range = b..w.pos();
        out.defs.push(def);
        w.nl();
    }
    w.t("}");
    out.span_range = a..w.pos();
    out
}

#[derive(Clone)]
pub enum Member {
    C(Col),
    N(Note),
    I(Vec<IxDef>),
}
#[derive(Clone)]
pub struct Tab {
    pub s: Option<Nm>,
    pub n: Nm,
    pub alias: Option<Nm>,
    pub set: Option<Vec<At>>,
    pub m: Vec<Member>,
}
pub fn tab(n: &str, c: Vec<Col>) -> Tab {
    Tab { s: None, n: nm(n), alias: None, set: None, m: c.into_iter().map(Member::C).collect() }
}
#[inline(never)]
pub fn table(w: &mut W, t: &Tab) -> TableBlock {
    let a = w.pos();
    w.kw("Table ").g();
    let (sr, schema, name) = qual(w, &t.s, &t.n);
    let alias = match &t.alias {
        None => None,
        Some(n) => {
            w.sp().kw("as ").g();
            Some(ident(w, n))
        }
    };
    let settings = match &t.set {
        None => None,
        Some(v) => {
            w.sp();
            let (span_range, attributes) = attrs(w, v);
            Some(TableSettings { span_range, attributes })
        }
    };
    w.sp().t("{").nl();
    let mut out = TableBlock { ident: TableIdent { span_range: sr, name, schema, alias }, settings, ..Default::default() };
    for m in &t.m {
        w.t(" ");
        match m {
            Member::C(c) => out.cols.push(column(w, c)),
            Member::N(n) => out.note = Some(note(w, n)),
            Member::I(i) => out.indexes = Some(indexes(w, i)),
        }
        w.nl();
    }
    w.t("}");
    out.span_range = a..w.pos();
    out
}

#[derive(Clone)]
pub struct En {
    pub s: Option<Nm>,
    pub n: Nm,
    pub v: Vec<(Nm, Option<Vec<At>>)>,
}
pub fn en(n: &str, v: &[&str]) -> En {
    En { s: None, n: nm(n), v: v.iter().map(|x| (nm(x), None)).collect() }
}
#[inline(never)]
pub fn enumb(w: &mut W, e: &En) -> EnumBlock {
    let a = w.pos();
    w.kw("Enum ").g();
    let (sr, schema, name) = qual(w, &e.s, &e.n);
    w.sp().t("{").nl();
    let mut values = Vec::new();
    for (n, s) in &e.v {
        let b = w.pos();
        let value = ident(w, n);
        let settings = match s {
            None => None,
            Some(s) => {
                w.sp();
                let (span_range, attributes) = attrs(w, s);
                let mut note = None;
                for y in s {
                    if &y.0[..] == b"note" {
                        note = y.1.as_ref().map(|l| l.shown());
                    }
                }
                Some(EnumValueSettings { span_range, attributes, note })
            }
        };
        values.push(EnumValue { span_range: b..w.pos(), value, settings });
        w.nl();
    }
    w.t("}");
    EnumBlock { span_range: a..w.pos(), ident: EnumIdent { span_range: sr, schema, name }, values }
}

#[derive(Clone)]
pub struct Rf {
    pub n: Option<Nm>,
    pub block: bool,
    pub l: End,
    pub r: u32,
    pub rr: End,
    pub set: Option<Vec<At>>,
}
pub fn rf(l: End, r: u32, rr: End) -> Rf {
    Rf { n: None, block: false, l, r, rr, set: None }
}
fn action(l: &Option<Lit>) -> Option<ReferentialAction> {
    match l {
        Some(Lit::Raw(t, _)) => match &t[..] {
            b"no action" => Some(ReferentialAction::NoAction),
            b"cascade" => Some(ReferentialAction::Cascade),
            b"restrict" => Some(ReferentialAction::Restrict),
            b"set null" => Some(ReferentialAction::SetNull),
            _ => Some(ReferentialAction::SetDefault),
        },
        _ => None,
    }
}
#[inline(never)]
pub fn refb(w: &mut W, r: &Rf) -> RefBlock {
    w.kw("Ref");
    let name = match &r.n {
        None => None,
        Some(n) => {
            w.sp();
            Some(ident(w, n))
        }
    };
    if r.block {
        w.sp().t("{").nl();
    } else {
        w.g().t(":").sp();
    }
    let a = w.pos();
    let lhs = rend(w, &r.l);
    w.sp().t(rel_txt(r.r)).sp();
    let rhs = rend(w, &r.rr);
    let settings = match &r.set {
        None => None,
        Some(s) => {
            w.sp();
            let (span_range, attributes) = attrs(w, s);
            let mut x = RefSettings { span_range, attributes, ..Default::default() };
            for y in s {
                match &y.0[..] {
                    b"delete" => x.on_delete = action(&y.1),
                    b"update" => x.on_update = action(&y.1),
                    _ => {}
                }
            }
            Some(x)
        }
    };
    let span_range = a..w.pos();
    if r.block {
        w.nl().t("}");
    }
    RefBlock { span_range, name, rel: rel_of(r.r), lhs, rhs, settings }
}

#[derive(Clone)]
pub struct Gr {
    pub n: Nm,
    pub set: Option<Vec<At>>,
    /// Ok: item, Err: note
    pub items: Vec<Result<(Option<Nm>, Nm), Note>>,
}
pub fn gr(n: &str, items: &[&str]) -> Gr {
    Gr { n: nm(n), set: None, items: items.iter().map(|x| Ok((None, nm(x)))).collect() }
}
#[inline(never)]
pub fn group(w: &mut W, x: &Gr) -> TableGroupBlock {
    let a = w.pos();
    w.kw("TableGroup ").g();
    let id = ident(w, &x.n);
    let settings = match &x.set {
        None => None,
        Some(v) => {
            w.sp();
            let (span_range, attributes) = attrs(w, v);
            Some(TableGroupSettings { span_range, attributes })
        }
    };
    w.sp().t("{").nl();
    let mut out = TableGroupBlock { ident: id, settings, ..Default::default() };
    for i in &x.items {
        match i {
            Ok((s, n)) => {
                let (span_range, schema, ident_alias) = qual(w, s, n);
                out.items.push(TableGroupItem { span_range, schema, ident_alias });
            }
            Err(n) => out.note = Some(note(w, n)),
        }
        w.nl();
    }
    w.t("}");
    out.span_range = a..w.pos();
    out
}

#[derive(Clone)]
pub struct Pr {
    pub n: Nm,
    /// Ok: property, Err: note
    pub m: Vec<Result<(Vec<u8>, Lit), Note>>,
}
pub fn pr(n: &str) -> Pr {
    Pr { n: nm(n), m: Vec::new() }
}
#[inline(never)]
pub fn project(w: &mut W, x: &Pr) -> ProjectBlock {
    let a = w.pos();
    w.kw("Project ").g();
    let mut out = ProjectBlock { ident: ident(w, &x.n), ..Default::default() };
    w.sp().t("{").nl();
    for m in &x.m {
        match m {
            Ok((k, l)) => {
                let b = w.pos();
                let key = key(w, k);
                w.g().t(":").sp();
                let value = lit(w, l);
                if &k[..] == b"database_type" {
                    if let Value::String(s) = &value.value {
                        out.database_type = Some(if s.as_bytes() == b"PostgreSQL" { DatabaseType::PostgreSQL } else { DatabaseType::Unknown(s.clone()) });
                    }
                }
                out.properties.push(Property { span_range: b..w.pos(), key, value });
            }
            Err(n) => out.note = Some(note(w, n)),
        }
        w.nl();
    }
    w.t("}");
    out.span_range = a..w.pos();
    out
}

#[derive(Clone)]
pub enum Decl {
    P(Pr),
    T(Tab),
    E(En),
    R(Rf),
    G(Gr),
    N(Note),
}
#[inline(never)]
pub fn decl(w: &mut W, d: &Decl) -> TopLevelBlock {
    match d {
        Decl::P(x) => TopLevelBlock::Project(project(w, x)),
        Decl::T(x) => TopLevelBlock::Table(table(w, x)),
        Decl::E(x) => TopLevelBlock::Enum(enumb(w, x)),
        Decl::R(x) => TopLevelBlock::Ref(refb(w, x)),
        Decl::G(x) => TopLevelBlock::TableGroup(group(w, x)),
        Decl::N(x) => TopLevelBlock::Note(note(w, x)),
    }
}
#[inline(never)]
pub fn decls(w: &mut W, d: &[Decl]) -> Vec<TopLevelBlock> {
    let mut v = Vec::new();
    w.g();
    for x in d {
        v.push(decl(w, x));
        w.nl();
    }
    v
}
#[inline(never)]
pub fn unchecked(s: &[u8]) -> Option<SchemaBlock<'_>> {
    dbml_rs::parse_dbml_unchecked(st(s)).ok()
}
/// the whole tree must be the expected one, positions included
#[inline(never)]
pub fn expect(w: &W, want: &[TopLevelBlock], id: u32) {
    doc(&w.s);
    match unchecked(&w.s) {
        None => check(false, id),
        Some(a) => {
            let x = super::sig::spanned(&a.blocks, &w.s, &w.lay);
            let y = super::sig::spanned(want, &w.s, &w.lay);
            check(x == y, id + 1);
            check(a.input.as_bytes() == &w.s[..], id + 2);
        }
    }
}
