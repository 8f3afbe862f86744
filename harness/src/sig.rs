//! Serialises every public field of the tree, with or without spans, so that trees can be compared as one byte string.
use dbml_rs::ast::*;
use std::vec::Vec;

pub struct Sig<'a> {
    pub o: Vec<u8>,
    /// Some(text): spans are part of the signature, the end without trailing white space
    pub spans: Option<&'a [u8]>,
    /// stretches of layout other than white space, also trimmed from the ends of spans
    pub lay: &'a [(usize, usize)],
    /// trim the ends at all
    pub trim: bool,
    /// positions are counted from here
    pub base: usize,
    /// raw spelling of types and literals is part of the signature
    pub raws: bool,
}

impl<'a> Sig<'a> {
    fn t(&mut self, b: u8) {
        self.o.push(b)
    }
    fn n(&mut self, n: usize) {
        self.o.push(n as u8);
        self.o.push((n >> 8) as u8);
    }
    fn s(&mut self, s: &str) {
        self.n(s.len());
        self.o.extend_from_slice(s.as_bytes());
    }
    fn raw(&mut self, s: &str) {
        if self.raws {
            self.s(s)
        }
    }
    fn b(&mut self, b: bool) {
        self.o.push(b as u8)
    }
    fn so(&mut self, s: &Option<std::string::String>) {
        match s {
            None => self.t(0),
            Some(s) => {
                self.t(1);
                self.s(s)
            }
        }
    }
    fn span(&mut self, r: &core::ops::Range<usize>) {
        if let Some(text) = self.spans {
            self.n(r.start.wrapping_sub(self.base));
            let mut e = r.end;
            while self.trim && e > r.start && e <= text.len() {
                if let Some(x) = self.lay.iter().find(|x| x.0 < e && e <= x.1 && x.0 > r.start) {
                    e = x.0;
                } else if matches!(text[e - 1], b' ' | b'\n' | b'\t' | b'\r') {
                    e -= 1;
                } else {
                    break;
                }
            }
            self.n(e.wrapping_sub(self.base));
        }
    }
    pub fn ident(&mut self, i: &Ident) {
        self.span(&i.span_range);
        self.raw(&i.raw);
        self.s(&i.to_string);
    }
    fn ido(&mut self, i: &Option<Ident>) {
        match i {
            None => self.t(0),
            Some(i) => {
                self.t(1);
                self.ident(i)
            }
        }
    }
    pub fn value(&mut self, v: &Value) {
        match v {
            Value::Enum(s) => {
                self.t(1);
                self.s(s)
            }
            Value::String(s) => {
                self.t(2);
                self.s(s)
            }
            Value::Integer(i) => {
                self.t(3);
                self.o.extend_from_slice(&i.to_le_bytes())
            }
            Value::Decimal(d) => {
                self.t(4);
                self.o.extend_from_slice(&d.to_bits().to_le_bytes())
            }
            Value::Bool(b) => {
                self.t(5);
                self.b(*b)
            }
            Value::HexColor(s) => {
                self.t(6);
                self.s(s)
            }
            Value::Expr(s) => {
                self.t(7);
                self.s(s)
            }
            Value::Null => self.t(8),
        }
    }
    fn values(&mut self, v: &[Value]) {
        self.n(v.len());
        for x in v {
            self.value(x)
        }
    }
    fn lit(&mut self, l: &Literal) {
        self.span(&l.span_range);
        self.raw(&l.raw);
        self.value(&l.value);
    }
    fn attrs(&mut self, a: &[Attribute]) {
        self.n(a.len());
        for a in a {
            self.span(&a.span_range);
            self.ident(&a.key);
            match &a.value {
                None => self.t(0),
                Some(l) => {
                    self.t(1);
                    self.lit(l)
                }
            }
        }
    }
    fn note(&mut self, n: &Option<NoteBlock>) {
        match n {
            None => self.t(0),
            Some(n) => {
                self.t(1);
                self.note1(n)
            }
        }
    }
    fn note1(&mut self, n: &NoteBlock) {
        self.span(&n.span_range);
        self.lit(&n.value);
    }
    fn rel(&mut self, r: &Relation) {
        self.t(match r {
            Relation::Undef => 0,
            Relation::One2One => 1,
            Relation::One2Many => 2,
            Relation::Many2One => 3,
            Relation::Many2Many => 4,
        })
    }
    pub fn refident(&mut self, r: &RefIdent) {
        self.span(&r.span_range);
        self.ido(&r.schema);
        self.ident(&r.table);
        self.n(r.compositions.len());
        for c in &r.compositions {
            self.ident(c)
        }
    }
    fn coltype(&mut self, t: &ColumnType) {
        self.span(&t.span_range);
        self.raw(&t.raw);
        match &t.type_name {
            ColumnTypeName::Raw(s) => {
                self.t(1);
                self.s(s)
            }
            _ => self.t(0),
        }
        self.values(&t.args);
        self.n(t.arrays.len());
        for a in &t.arrays {
            match a {
                None => self.t(0),
                Some(n) => {
                    self.t(1);
                    self.o.extend_from_slice(&n.to_le_bytes())
                }
            }
        }
    }
    fn col(&mut self, c: &TableColumn) {
        self.span(&c.span_range);
        self.ident(&c.name);
        self.coltype(&c.r#type);
        match &c.settings {
            None => self.t(0),
            Some(s) => {
                self.t(1);
                self.span(&s.span_range);
                self.attrs(&s.attributes);
                self.b(s.is_pk);
                self.b(s.is_unique);
                self.t(match s.nullable {
                    None => 0,
                    Some(Nullable::Null) => 1,
                    Some(Nullable::NotNull) => 2,
                });
                self.b(s.is_incremental);
                self.so(&s.note);
                match &s.default {
                    None => self.t(0),
                    Some(v) => self.value(v),
                }
                self.n(s.refs.len());
                for r in &s.refs {
                    self.span(&r.span_range);
                    self.rel(&r.rel);
                    self.refident(&r.rhs);
                }
            }
        }
    }
    fn indexes(&mut self, x: &Option<IndexesBlock>) {
        let x = match x {
            None => return self.t(0),
            Some(x) => x,
        };
        self.t(1);
        self.span(&x.span_range);
        self.n(x.defs.len());
        for d in &x.defs {
            self.span(&d.span_range);
            self.n(d.cols.len());
            for c in &d.cols {
                match c {
                    IndexesColumnType::String(i) => {
                        self.t(1);
                        self.ident(i)
                    }
                    IndexesColumnType::Expr(l) => {
                        self.t(2);
                        self.lit(l)
                    }
                }
            }
            match &d.settings {
                None => self.t(0),
                Some(s) => {
                    self.t(1);
                    self.span(&s.span_range);
                    self.attrs(&s.attributes);
                    self.t(match s.r#type {
                        None => 0,
                        Some(IndexesType::BTree) => 1,
                        Some(IndexesType::Gin) => 2,
                        Some(IndexesType::Gist) => 3,
                        Some(IndexesType::Hash) => 4,
                    });
                    self.b(s.is_unique);
                    self.b(s.is_pk);
                    self.so(&s.note);
                    self.so(&s.name);
                }
            }
        }
    }
    pub fn project(&mut self, p: &ProjectBlock) {
        self.span(&p.span_range);
        self.n(p.properties.len());
        for q in &p.properties {
            self.span(&q.span_range);
            self.ident(&q.key);
            self.lit(&q.value);
        }
        self.ident(&p.ident);
        match &p.database_type {
            None => self.t(0),
            Some(DatabaseType::PostgreSQL) => self.t(1),
            Some(DatabaseType::Unknown(s)) => {
                self.t(2);
                self.s(s)
            }
        }
        self.note(&p.note);
    }
    pub fn table(&mut self, t: &TableBlock) {
        self.span(&t.span_range);
        self.span(&t.ident.span_range);
        self.ident(&t.ident.name);
        self.ido(&t.ident.schema);
        self.ido(&t.ident.alias);
        self.n(t.cols.len());
        for c in &t.cols {
            self.col(c)
        }
        self.note(&t.note);
        self.indexes(&t.indexes);
        match &t.settings {
            None => self.t(0),
            Some(s) => {
                self.t(1);
                self.span(&s.span_range);
                self.attrs(&s.attributes)
            }
        }
    }
    pub fn group(&mut self, g: &TableGroupBlock) {
        self.span(&g.span_range);
        self.ident(&g.ident);
        self.note(&g.note);
        self.n(g.items.len());
        for i in &g.items {
            self.span(&i.span_range);
            self.ido(&i.schema);
            self.ident(&i.ident_alias);
        }
        match &g.settings {
            None => self.t(0),
            Some(s) => {
                self.t(1);
                self.span(&s.span_range);
                self.attrs(&s.attributes)
            }
        }
    }
    fn action(&mut self, a: &Option<ReferentialAction>) {
        self.t(match a {
            None => 0,
            Some(ReferentialAction::NoAction) => 1,
            Some(ReferentialAction::Cascade) => 2,
            Some(ReferentialAction::Restrict) => 3,
            Some(ReferentialAction::SetNull) => 4,
            Some(ReferentialAction::SetDefault) => 5,
        })
    }
    pub fn refb(&mut self, r: &RefBlock) {
        self.span(&r.span_range);
        self.ido(&r.name);
        self.rel(&r.rel);
        self.refident(&r.lhs);
        self.refident(&r.rhs);
        match &r.settings {
            None => self.t(0),
            Some(s) => {
                self.t(1);
                self.span(&s.span_range);
                self.attrs(&s.attributes);
                self.action(&s.on_delete);
                self.action(&s.on_update);
            }
        }
    }
    pub fn enumb(&mut self, e: &EnumBlock) {
        self.span(&e.span_range);
        self.span(&e.ident.span_range);
        self.ido(&e.ident.schema);
        self.ident(&e.ident.name);
        self.n(e.values.len());
        for v in &e.values {
            self.span(&v.span_range);
            self.ident(&v.value);
            match &v.settings {
                None => self.t(0),
                Some(s) => {
                    self.t(1);
                    self.span(&s.span_range);
                    self.attrs(&s.attributes);
                    self.so(&s.note);
                }
            }
        }
    }
    pub fn block(&mut self, b: &TopLevelBlock) {
        match b {
            TopLevelBlock::Project(x) => {
                self.t(b'P');
                self.project(x)
            }
            TopLevelBlock::Table(x) => {
                self.t(b'T');
                self.table(x)
            }
            TopLevelBlock::TableGroup(x) => {
                self.t(b'G');
                self.group(x)
            }
            TopLevelBlock::Note(x) => {
                self.t(b'N');
                self.note1(x)
            }
            TopLevelBlock::Ref(x) => {
                self.t(b'R');
                self.refb(x)
            }
            TopLevelBlock::Enum(x) => {
                self.t(b'E');
                self.enumb(x)
            }
        }
    }
    pub fn blocks(&mut self, b: &[TopLevelBlock]) {
        self.n(b.len());
        for b in b {
            self.block(b)
        }
    }
}
fn make(b: &[TopLevelBlock], spans: Option<&[u8]>, raws: bool, lay: &[(usize, usize)], trim: bool) -> Vec<u8> {
    let mut s = Sig { o: Vec::with_capacity(4096), spans, raws, lay, trim, base: 0 };
    s.blocks(b);
    s.o
}
/// the tree with its exact positions
#[inline(never)]
pub fn exact(b: &[TopLevelBlock], text: &[u8]) -> Vec<u8> {
    make(b, Some(text), true, &[], false)
}
/// the tree with positions, ends without trailing layout
#[inline(never)]
pub fn spanned(b: &[TopLevelBlock], text: &[u8], lay: &[(usize, usize)]) -> Vec<u8> {
    make(b, Some(text), true, lay, true)
}
/// the tree with positions counted from `base`
#[inline(never)]
pub fn shifted(b: &[TopLevelBlock], text: &[u8], base: usize, trim: bool) -> Vec<u8> {
    let mut s = Sig { o: Vec::with_capacity(4096), spans: Some(text), raws: true, lay: &[], trim, base };
    s.blocks(b);
    s.o
}
/// the tree without positions and without the raw spelling of names, types and literals
#[inline(never)]
pub fn meaning(b: &[TopLevelBlock]) -> Vec<u8> {
    make(b, None, false, &[], false)
}
