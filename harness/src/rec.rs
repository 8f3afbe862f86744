//! A recognizer for the language, written by hand from its description: which texts are sequences of complete,
//! well-formed declarations. It shares no code with the parser under test.

pub struct R<'a> {
    s: &'a [u8],
    i: usize,
    /// a number out of range, an unknown index type or an unknown referential action
    bad: bool,
    /// inside text without layout
    tight: bool,
}
type S = (usize, usize);

fn alpha(c: u8) -> bool {
    let c = c | 0x20;
    c >= b'a' && c <= b'z'
}
fn digit(c: u8) -> bool {
    c >= b'0' && c <= b'9'
}
fn word(c: u8) -> bool {
    alpha(c) || digit(c) || c == b'_'
}
fn hex(c: u8) -> bool {
    digit(c) || ((c | 0x20) >= b'a' && (c | 0x20) <= b'f')
}

impl<'a> R<'a> {
    fn at(&self, k: usize) -> Option<u8> {
        self.s.get(self.i + k).copied()
    }
    fn is(&self, c: u8) -> bool {
        self.at(0) == Some(c)
    }
    fn lit(&mut self, t: &str) -> bool {
        let b = t.as_bytes();
        if self.i + b.len() > self.s.len() {
            return false;
        }
        for k in 0..b.len() {
            if self.s[self.i + k] != b[k] {
                return false;
            }
        }
        self.i += b.len();
        true
    }
    /// a keyword in any letter case
    fn kw(&mut self, t: &str) -> bool {
        let b = t.as_bytes();
        if self.i + b.len() > self.s.len() {
            return false;
        }
        for k in 0..b.len() {
            let c = self.s[self.i + k];
            let ok = if alpha(b[k]) { alpha(c) && (c | 0x20) == (b[k] | 0x20) } else { c == b[k] };
            if !ok {
                return false;
            }
        }
        self.i += b.len();
        true
    }
    fn blank(&mut self) -> bool {
        match self.at(0) {
            Some(b' ') | Some(b'\t') | Some(b'\n') | Some(b'\r') => {
                self.i += 1;
                true
            }
            _ => false,
        }
    }
    fn layout(&mut self) {
        if self.tight {
            return;
        }
        loop {
            if self.blank() {
                continue;
            }
            if self.is(b'/') && self.at(1) == Some(b'/') {
                self.i += 2;
                while let Some(c) = self.at(0) {
                    if c == b'\n' || c == b'\r' {
                        break;
                    }
                    self.i += 1;
                }
                continue;
            }
            if self.is(b'/') && self.at(1) == Some(b'*') {
                let mut j = self.i + 2;
                let mut end = None;
                while j + 1 < self.s.len() {
                    if self.s[j] == b'*' && self.s[j + 1] == b'/' {
                        end = Some(j + 2);
                        break;
                    }
                    j += 1;
                }
                if let Some(e) = end {
                    self.i = e;
                    continue;
                }
            }
            return;
        }
    }
    fn tok(&mut self, t: &str) -> bool {
        self.layout();
        self.lit(t)
    }
    /// runs f; on failure goes back
    fn opt(&mut self, f: impl FnOnce(&mut Self) -> bool) -> bool {
        let i = self.i;
        if f(self) {
            true
        } else {
            self.i = i;
            false
        }
    }
    /// layout, then f; on failure goes back
    fn then(&mut self, f: impl FnOnce(&mut Self) -> bool) -> bool {
        self.opt(|r| {
            r.layout();
            f(r)
        })
    }
    fn list(&mut self, f: fn(&mut Self) -> bool) -> bool {
        if !self.opt(f) {
            return false;
        }
        while self.opt(|r| {
            r.layout();
            r.lit(",") && {
                r.layout();
                f(r)
            }
        }) {}
        true
    }

    fn quoted(&mut self, q: u8) -> bool {
        self.opt(|r| {
            if !r.is(q) {
                return false;
            }
            r.i += 1;
            loop {
                match r.at(0) {
                    None => return false,
                    Some(c) => {
                        r.i += 1;
                        if c == q {
                            return true;
                        }
                    }
                }
            }
        })
    }
    fn triple(&mut self) -> bool {
        self.opt(|r| {
            if !r.lit("'''") {
                return false;
            }
            loop {
                if r.lit("'''") {
                    return true;
                }
                if r.i >= r.s.len() {
                    return false;
                }
                r.i += 1;
            }
        })
    }
    fn string(&mut self) -> bool {
        self.triple() || self.quoted(b'\'')
    }
    fn var(&mut self) -> bool {
        match self.at(0) {
            Some(c) if alpha(c) => {}
            _ => return false,
        }
        self.i += 1;
        while let Some(c) = self.at(0) {
            if !word(c) {
                break;
            }
            self.i += 1;
        }
        true
    }
    fn words(&mut self) -> Option<S> {
        let a = self.i;
        match self.at(0) {
            Some(c) if alpha(c) => {}
            _ => return None,
        }
        self.i += 1;
        loop {
            match (self.at(0), self.at(1)) {
                (Some(c), _) if word(c) => self.i += 1,
                (Some(b' '), Some(c)) if word(c) => self.i += 2,
                _ => break,
            }
        }
        Some((a, self.i))
    }
    fn ident(&mut self) -> bool {
        self.var() || self.quoted(b'"')
    }
    fn number(&mut self, max: u128) -> bool {
        let a = self.i;
        let mut n: u128 = 0;
        let mut over = false;
        while let Some(c) = self.at(0) {
            if !digit(c) {
                break;
            }
            n = n * 10 + (c - b'0') as u128;
            if self.i - a > 24 {
                over = true;
                n = 0;
            }
            self.i += 1;
        }
        if self.i == a {
            return false;
        }
        if max > 0 && self.is(b'.') && max > u32::MAX as u128 {
            self.i += 1;
            while let Some(c) = self.at(0) {
                if !digit(c) {
                    break;
                }
                self.i += 1;
            }
        } else if over || n > max {
            self.bad = true;
        }
        true
    }
    fn value(&mut self) -> bool {
        if self.string() || self.quoted(b'`') {
            return true;
        }
        let named = self.opt(|r| (r.lit("true") || r.lit("false") || r.lit("null")) && !matches!(r.at(0), Some(c) if word(c)));
        if named || self.number(i64::MAX as u128) {
            return true;
        }
        self.opt(|r| {
            if !r.lit("#") {
                return false;
            }
            let mut n = 0;
            while n < 6 && matches!(r.at(n), Some(c) if hex(c)) {
                n += 1;
            }
            if n < 3 {
                return false;
            }
            r.i += if n == 6 { 6 } else { 3 };
            true
        })
    }
    /// key and value; what the value denotes if it is a bare word sequence, or a string
    fn attribute(&mut self) -> Option<(S, Option<(u8, S)>)> {
        let k = self.words()?;
        let mut v = None;
        self.opt(|r| {
            r.layout();
            if !r.lit(":") {
                return false;
            }
            r.layout();
            let a = r.i;
            if r.value() {
                v = Some((0, (a, r.i)));
                return true;
            }
            if let Some(w) = r.words() {
                v = Some((1, w));
                return true;
            }
            if r.quoted(b'"') {
                v = Some((0, (a, r.i)));
                return true;
            }
            false
        });
        Some((k, v))
    }
    fn eq(&self, s: S, t: &str) -> bool {
        let t = t.as_bytes();
        s.1 - s.0 == t.len() && &self.s[s.0..s.1] == t
    }
    fn settings(&mut self, f: fn(&mut Self) -> bool) -> bool {
        self.opt(|r| {
            if !r.lit("[") {
                return false;
            }
            r.layout();
            let i = r.i;
            if !r.list(f) {
                r.i = i;
            }
            r.tok("]")
        })
    }
    fn plain(&mut self) -> bool {
        self.attribute().is_some()
    }
    fn rel_attr(&mut self) -> bool {
        let (k, v) = match self.attribute() {
            None => return false,
            Some(x) => x,
        };
        if self.eq(k, "update") || self.eq(k, "delete") {
            if let Some((1, v)) = v {
                if !["no action", "cascade", "restrict", "set null", "set default"].iter().any(|t| self.eq(v, t)) {
                    self.bad = true;
                }
            }
        }
        true
    }
    fn idx_attr(&mut self) -> bool {
        let (k, v) = match self.attribute() {
            None => return false,
            Some(x) => x,
        };
        if self.eq(k, "type") {
            if let Some((_, mut v)) = v {
                // the text between the quotes, if any
                let q = self.s[v.0];
                if q == b'\'' {
                    let t = v.1 - v.0 >= 6 && self.s[v.0 + 1] == q && self.s[v.0 + 2] == q;
                    let n = if t { 3 } else { 1 };
                    v = (v.0 + n, v.1 - n);
                    while v.0 < v.1 && matches!(self.s[v.0], b' ' | b'\t' | b'\n' | b'\r') {
                        v.0 += 1;
                    }
                } else if q == b'"' || q == b'`' {
                    v = (v.0 + 1, v.1 - 1);
                }
                if !["btree", "gin", "gist", "hash"].iter().any(|t| self.eq(v, t)) {
                    self.bad = true;
                }
            }
        }
        true
    }
    fn relation(&mut self) -> bool {
        self.lit("<>") || self.lit("-") || self.lit(">") || self.lit("<")
    }
    fn endpoint(&mut self) -> bool {
        if !self.ident() || !self.tok(".") {
            return false;
        }
        self.layout();
        self.opt(|r| r.ident() && r.tok(".") && {
            r.layout();
            true
        });
        self.layout();
        if self.opt(|r| r.ident()) {
            return true;
        }
        self.opt(|r| r.lit("(") && {
            r.layout();
            r.list(|r| r.ident()) && r.tok(")")
        })
    }
    fn ref_inline(&mut self) -> bool {
        self.lit("ref") && self.tok(":") && {
            self.layout();
            self.relation()
        } && {
            self.layout();
            self.endpoint()
        }
    }
    fn col_attr(&mut self) -> bool {
        self.opt(|r| r.ref_inline()) || self.plain()
    }
    fn ref_stmt(&mut self) -> bool {
        if !self.endpoint() {
            return false;
        }
        self.layout();
        if !self.relation() {
            return false;
        }
        self.layout();
        if !self.endpoint() {
            return false;
        }
        self.then(|r| r.settings(Self::rel_attr));
        true
    }
    fn ref_decl(&mut self) -> bool {
        if !self.kw("ref") {
            return false;
        }
        self.then(|r| r.ident());
        self.layout();
        if self.lit("{") {
            self.layout();
            self.ref_stmt() && self.tok("}")
        } else {
            self.lit(":") && {
                self.layout();
                self.ref_stmt()
            }
        }
    }
    fn note(&mut self) -> bool {
        if !self.kw("note") {
            return false;
        }
        self.layout();
        if self.lit(":") {
            self.layout();
            self.string()
        } else {
            self.lit("{") && {
                self.layout();
                self.string() && self.tok("}")
            }
        }
    }
    fn block(&mut self, f: fn(&mut Self) -> bool) -> bool {
        self.opt(|r| {
            if !r.lit("{") {
                return false;
            }
            while r.then(f) {}
            r.tok("}")
        })
    }
    fn name(&mut self) -> bool {
        if !self.ident() {
            return false;
        }
        self.opt(|r| r.tok(".") && {
            r.layout();
            r.ident()
        });
        true
    }
    fn args(&mut self) -> bool {
        let t = self.tight;
        self.tight = false;
        let ok = self.opt(|r| {
            if !r.lit("(") {
                return false;
            }
            r.layout();
            let i = r.i;
            if !r.list(|r| r.value()) {
                r.i = i;
            }
            r.tok(")")
        });
        self.tight = t;
        ok
    }
    fn dims(&mut self) {
        while self.opt(|r| {
            r.lit("[") && {
                r.opt(|r| r.number(u32::MAX as u128));
                r.lit("]")
            }
        }) {}
    }
    fn ctype(&mut self) -> bool {
        self.tight = true;
        self.opt(|r| r.ident() && r.lit("."));
        let q = self.opt(|r| {
            if !r.lit("\"") || r.words().is_none() {
                return false;
            }
            r.args();
            r.dims();
            if !r.lit("\"") {
                return false;
            }
            r.dims();
            true
        });
        let ok = q || self.opt(|r| {
            if !r.var() {
                return false;
            }
            r.args();
            r.dims();
            true
        });
        self.tight = false;
        ok
    }
    fn column(&mut self) -> bool {
        if !self.ident() {
            return false;
        }
        self.layout();
        if !self.ctype() {
            return false;
        }
        self.then(|r| r.settings(Self::col_attr));
        true
    }
    fn index_col(&mut self) -> bool {
        self.ident() || self.quoted(b'`')
    }
    fn index(&mut self) -> bool {
        let ok = self.opt(|r| r.index_col())
            || self.opt(|r| {
                if !r.lit("(") {
                    return false;
                }
                r.layout();
                let i = r.i;
                if !r.list(|r| r.index_col()) {
                    r.i = i;
                }
                r.tok(")")
            });
        if ok {
            self.then(|r| r.settings(Self::idx_attr));
        }
        ok
    }
    fn indexes(&mut self) -> bool {
        self.kw("indexes") && {
            self.layout();
            self.block(Self::index)
        }
    }
    fn table(&mut self) -> bool {
        if !self.kw("table ") {
            return false;
        }
        self.layout();
        if !self.name() {
            return false;
        }
        self.then(|r| r.kw("as ") && {
            r.layout();
            r.ident()
        });
        self.then(|r| r.settings(Self::plain));
        self.layout();
        self.block(|r| r.opt(|r| r.column()) || r.opt(|r| r.note()) || r.opt(|r| r.indexes()))
    }
    fn enumd(&mut self) -> bool {
        self.kw("enum ") && {
            self.layout();
            self.name()
        } && {
            self.layout();
            self.block(|r| {
                if !r.ident() {
                    return false;
                }
                r.then(|r| r.settings(Self::plain));
                true
            })
        }
    }
    fn group(&mut self) -> bool {
        if !self.kw("tablegroup ") {
            return false;
        }
        self.layout();
        if !self.ident() {
            return false;
        }
        self.then(|r| r.settings(Self::plain));
        self.layout();
        self.block(|r| r.opt(|r| r.note()) || r.name())
    }
    fn project(&mut self) -> bool {
        self.kw("project ") && {
            self.layout();
            self.ident()
        } && {
            self.layout();
            self.block(|r| {
                r.opt(|r| r.note())
                    || r.opt(|r| {
                        r.words().is_some() && r.tok(":") && {
                            r.layout();
                            r.value() || r.words().is_some()
                        }
                    })
            })
        }
    }
    fn decl(&mut self) -> bool {
        self.opt(|r| r.project())
            || self.opt(|r| r.table())
            || self.opt(|r| r.enumd())
            || self.opt(|r| r.ref_decl())
            || self.opt(|r| r.group())
            || self.opt(|r| r.note())
    }
}
/// whether `s` is a sequence of complete, well-formed declarations
#[inline(never)]
pub fn well_formed(s: &[u8]) -> bool {
    let mut r = R { s, i: 0, bad: false, tight: false };
    while r.then(|r| r.decl()) {}
    r.layout();
    r.i == s.len() && !r.bad
}
