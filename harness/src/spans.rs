//! Structural rules every span of a tree must obey, whatever the document.
use super::gen::*;
use super::sys::check;
use core::ops::Range;

struct K<'a> {
    s: &'a [u8],
}
fn layout_byte(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | b'\n' | b'\r')
}
impl<'a> K<'a> {
    fn edge(&self, i: usize) -> bool {
        i == self.s.len() || (self.s[i] & 0xc0) != 0x80
    }
    /// in the text, inside its parent, on character boundaries, starting at a character of its own
    fn span(&self, r: &Range<usize>, of: &Range<usize>) {
        check(r.start < r.end && r.end <= self.s.len() && r.start >= of.start && r.end <= of.end, 30);
        check(self.edge(r.start) && self.edge(r.end), 31);
        check(!layout_byte(self.s[r.start]), 32);
    }
    fn order(&self, prev: &mut usize, r: &Range<usize>) {
        check(*prev <= r.start, 33);
        *prev = r.end;
    }
    fn raw(&self, r: &Range<usize>, raw: &str) {
        let n = raw.len();
        check(r.end - r.start == n && &self.s[r.start..r.end] == raw.as_bytes(), 34);
    }
    fn ident(&self, i: &Ident, of: &Range<usize>) {
        self.span(&i.span_range, of);
        self.raw(&i.span_range, &i.raw);
        let (r, t) = (i.raw.as_bytes(), i.to_string.as_bytes());
        if r[0] == b'"' {
            check(r.len() == t.len() + 2 && r[r.len() - 1] == b'"' && &r[1..r.len() - 1] == t, 35);
        } else {
            check(r.len() == t.len() && r == t, 36);
        }
    }
    fn lit(&self, l: &Literal, of: &Range<usize>) {
        self.span(&l.span_range, of);
        self.raw(&l.span_range, &l.raw);
        let r = l.raw.as_bytes();
        let q = r[0];
        let inner = |n: usize, drop: bool| -> &[u8] {
            let mut a = n;
            while drop && a < r.len() - n && layout_byte(r[a]) {
                a += 1;
            }
            &r[a..r.len() - n]
        };
        let same = |s: &str, t: &[u8]| s.len() == t.len() && s.as_bytes() == t;
        match &l.value {
            Value::String(s) => {
                let t = if q == b'\'' && r.len() >= 6 && r[1] == q && r[2] == q { inner(3, true) } else { inner(1, q == b'\'') };
                check((q == b'\'' || q == b'"' || q == b'`') && same(s, t), 37)
            }
            Value::Expr(s) => check(q == b'`' && same(s, inner(1, false)), 38),
            Value::Enum(s) | Value::HexColor(s) => check(same(s, r), 39),
            Value::Bool(b) => check(r == if *b { &b"true"[..] } else { &b"false"[..] }, 40),
            Value::Null => check(r == b"null", 41),
            Value::Integer(_) | Value::Decimal(_) => check(q >= b'0' && q <= b'9', 42),
        }
    }
    fn closed(&self, r: &Range<usize>, a: u8, b: u8) {
        // the last character, trailing white space aside
        let mut e = r.end;
        while e > r.start && layout_byte(self.s[e - 1]) {
            e -= 1;
        }
        check(self.s[r.start] == a && self.s[e - 1] == b, 43);
    }
    fn head(&self, r: &Range<usize>, c: u8) {
        check(self.s[r.start] | 0x20 == c, 44);
    }
    fn attrs(&self, v: &[Attribute], r: &Range<usize>, of: &Range<usize>) {
        self.span(r, of);
        self.closed(r, b'[', b']');
        let mut p = r.start;
        for a in v {
            self.order(&mut p, &a.span_range);
            self.span(&a.span_range, r);
            self.ident(&a.key, &a.span_range);
            if let Some(l) = &a.value {
                self.lit(l, &a.span_range);
                check(a.key.span_range.end < l.span_range.start, 45);
            }
        }
    }
    fn note(&self, n: &NoteBlock, of: &Range<usize>) {
        self.span(&n.span_range, of);
        self.head(&n.span_range, b'n');
        self.lit(&n.value, &n.span_range);
    }
    fn end(&self, e: &RefIdent, of: &Range<usize>) {
        self.span(&e.span_range, of);
        let mut p = e.span_range.start;
        if let Some(s) = &e.schema {
            self.order(&mut p, &s.span_range);
            self.ident(s, &e.span_range);
        }
        self.order(&mut p, &e.table.span_range);
        self.ident(&e.table, &e.span_range);
        check(!e.compositions.is_empty(), 46);
        for c in &e.compositions {
            self.order(&mut p, &c.span_range);
            self.ident(c, &e.span_range);
        }
    }
    fn table(&self, t: &TableBlock, of: &Range<usize>) {
        let r = &t.span_range;
        self.span(r, of);
        self.head(r, b't');
        let mut p = t.ident.span_range.start;
        self.span(&t.ident.span_range, r);
        if let Some(s) = &t.ident.schema {
            self.order(&mut p, &s.span_range);
            self.ident(s, &t.ident.span_range);
        }
        self.order(&mut p, &t.ident.name.span_range);
        self.ident(&t.ident.name, &t.ident.span_range);
        if let Some(s) = &t.ident.alias {
            self.order(&mut p, &s.span_range);
            self.ident(s, r);
        }
        if let Some(s) = &t.settings {
            self.attrs(&s.attributes, &s.span_range, r);
            self.order(&mut p, &s.span_range);
        }
        for c in &t.cols {
            self.order(&mut p, &c.span_range);
            self.span(&c.span_range, r);
            let mut q = c.span_range.start;
            self.order(&mut q, &c.name.span_range);
            self.ident(&c.name, &c.span_range);
            self.order(&mut q, &c.r#type.span_range);
            self.span(&c.r#type.span_range, &c.span_range);
            self.raw(&c.r#type.span_range, &c.r#type.raw);
            if let Some(s) = &c.settings {
                self.order(&mut q, &s.span_range);
                self.attrs(&s.attributes, &s.span_range, &c.span_range);
                let mut p = s.span_range.start;
                for x in &s.refs {
                    self.order(&mut p, &x.span_range);
                    self.span(&x.span_range, &s.span_range);
                    self.head(&x.span_range, b'r');
                    self.end(&x.rhs, &x.span_range);
                }
            }
        }
        if let Some(n) = &t.note {
            self.note(n, r);
        }
        if let Some(x) = &t.indexes {
            self.span(&x.span_range, r);
            self.closed(&x.span_range, b'{', b'}');
            let mut p = x.span_range.start;
            for d in &x.defs {
                self.order(&mut p, &d.span_range);
                self.span(&d.span_range, &x.span_range);
                let mut q = d.span_range.start;
                for c in &d.cols {
                    match c {
                        IndexesColumnType::String(i) => {
                            self.order(&mut q, &i.span_range);
                            self.ident(i, &d.span_range)
                        }
                        IndexesColumnType::Expr(l) => {
                            self.order(&mut q, &l.span_range);
                            self.lit(l, &d.span_range)
                        }
                    }
                }
                if let Some(s) = &d.settings {
                    self.order(&mut q, &s.span_range);
                    self.attrs(&s.attributes, &s.span_range, &d.span_range);
                }
            }
        }
    }
    fn block(&self, b: &TopLevelBlock, of: &Range<usize>, prev: &mut usize) {
        let r = match b {
            TopLevelBlock::Project(x) => &x.span_range,
            TopLevelBlock::Table(x) => &x.span_range,
            TopLevelBlock::TableGroup(x) => &x.span_range,
            TopLevelBlock::Note(x) => &x.span_range,
            TopLevelBlock::Ref(x) => &x.span_range,
            TopLevelBlock::Enum(x) => &x.span_range,
        };
        self.order(prev, r);
        match b {
            TopLevelBlock::Project(x) => {
                self.span(r, of);
                self.head(r, b'p');
                self.closed(r, self.s[r.start], b'}');
                self.ident(&x.ident, r);
                let mut p = x.ident.span_range.end;
                for y in &x.properties {
                    self.order(&mut p, &y.span_range);
                    self.span(&y.span_range, r);
                    self.ident(&y.key, &y.span_range);
                    self.lit(&y.value, &y.span_range);
                    check(y.key.span_range.end < y.value.span_range.start, 45);
                }
                if let Some(n) = &x.note {
                    self.note(n, r);
                }
            }
            TopLevelBlock::Table(x) => {
                self.closed(r, self.s[r.start], b'}');
                self.table(x, of)
            }
            TopLevelBlock::TableGroup(x) => {
                self.span(r, of);
                self.head(r, b't');
                self.closed(r, self.s[r.start], b'}');
                self.ident(&x.ident, r);
                let mut p = x.ident.span_range.end;
                if let Some(s) = &x.settings {
                    self.order(&mut p, &s.span_range);
                    self.attrs(&s.attributes, &s.span_range, r);
                }
                for y in &x.items {
                    self.order(&mut p, &y.span_range);
                    self.span(&y.span_range, r);
                    let mut q = y.span_range.start;
                    if let Some(s) = &y.schema {
                        self.order(&mut q, &s.span_range);
                        self.ident(s, &y.span_range);
                    }
                    self.order(&mut q, &y.ident_alias.span_range);
                    self.ident(&y.ident_alias, &y.span_range);
                }
                if let Some(n) = &x.note {
                    self.note(n, r);
                }
            }
            TopLevelBlock::Note(x) => self.note(x, of),
            TopLevelBlock::Ref(x) => {
                self.span(r, of);
                let mut p = r.start;
                self.order(&mut p, &x.lhs.span_range);
                self.end(&x.lhs, r);
                self.order(&mut p, &x.rhs.span_range);
                self.end(&x.rhs, r);
                check(x.lhs.span_range.start == r.start, 47);
                if let Some(s) = &x.settings {
                    self.order(&mut p, &s.span_range);
                    self.attrs(&s.attributes, &s.span_range, r);
                }
                if let Some(n) = &x.name {
                    self.ident(n, of);
                    check(n.span_range.end <= r.start, 48);
                }
            }
            TopLevelBlock::Enum(x) => {
                self.span(r, of);
                self.head(r, b'e');
                self.closed(r, self.s[r.start], b'}');
                self.span(&x.ident.span_range, r);
                let mut p = x.ident.span_range.start;
                if let Some(s) = &x.ident.schema {
                    self.order(&mut p, &s.span_range);
                    self.ident(s, &x.ident.span_range);
                }
                self.order(&mut p, &x.ident.name.span_range);
                self.ident(&x.ident.name, &x.ident.span_range);
                for y in &x.values {
                    self.order(&mut p, &y.span_range);
                    self.span(&y.span_range, r);
                    self.ident(&y.value, &y.span_range);
                    if let Some(s) = &y.settings {
                        self.attrs(&s.attributes, &s.span_range, &y.span_range);
                        check(s.span_range.start >= y.value.span_range.end, 49);
                    }
                }
            }
        }
    }
}
/// every span of the tree
#[inline(never)]
pub fn walk(b: &SchemaBlock, s: &[u8]) {
    let k = K { s };
    let all = 0..s.len();
    check(b.span_range.start == 0 && b.span_range.end == s.len(), 50);
    let mut prev = 0;
    for x in &b.blocks {
        k.block(x, &all, &mut prev);
    }
}
