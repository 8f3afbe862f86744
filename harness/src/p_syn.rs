//! C01 - C13: entries over document texts.
use super::gen::*;
use super::sem::{l, n1, same_result};
use super::sys::*;

// ---------------------------------------------------------------- windows (C01, C02, C03, C13)
pub const DOCS: [&str; 9] = [
    "Project p { database_type: 'PostgreSQL' Note: 'n' }\nTable s.t as al [note: \"x\"] {\n id int [pk]\n}\n",
    "Project p {}\nTable t {\n a int [pk, default: 12, note: '''q''']\n b \"bit varying(3)\"[] [null, ref: > t.a]\n}",
    "Project p {}\nTable t { a int\n b int\n indexes {\n (a, b) [pk]\n `x*2` [type: hash, name: \"n\"]\n a [unique]\n}\n}",
    "Project p {}\nTable t { a int [pk] b int [unique] }\nRef n: t.b > t.a [delete: set null, update: cascade]\nref { public.t.(a) - t.b }",
    "Project p {}\nEnum s.e { x y [note: 'k'] \"z z\" }\nTable t { a s.e [default: x] }\nTableGroup g [k: 1] { t\n note { 'm' } }\nNote: 'w'",
    "// c\nProject p { /* d */ k: #fff }\nTable \"t t\" {\n a decimal(3, 2) [default: 1.5, not null]\n b bool[2] [default: true]\n}\n//",
    "",
    "Project p{}Table t{a char(3)[default:'abc']b varchar(4)[default:'abcd',note:`x`]c smallint[default:7]}",
    "Project p{}Table t as x{a int[pk]b int Indexes{(a,b)[unique]b}}Table y.u{c int}TableGroup g{x y.u}Ref:x.a<>y.u.c",
];
fn symbol(k: u64, out: &mut Vec<u8>) {
    match k {
        // any ASCII character
        0 => out.push(byte(0, 127)),
        // a character of two, three or four bytes
        1 => {
            out.push(0xc3);
            out.push(byte(0x80, 0xbf));
        }
        2 => {
            out.push(0xe2);
            out.push(byte(0x80, 0xbf));
            out.push(byte(0x80, 0xbf));
        }
        _ => {
            out.push(0xf0);
            out.push(0x9f);
            out.push(byte(0x80, 0xbf));
            out.push(byte(0x80, 0xbf));
        }
    }
}
pub fn judge(s: &[u8], what: u64) {
    doc(s);
    if what == 5 {
        return shown(s);
    }
    if what & 1 != 0 {
        // robustness: both parsers come back
        let u = dbml_rs::parse_dbml_unchecked(st(s)).is_ok();
        let c = dbml_rs::parse_dbml(st(s)).is_ok();
        cover(if u { 1 } else { 2 });
        if c {
            cover(3);
        }
        if u && !c {
            cover(4);
        }
    }
    if what & 2 != 0 {
        same_result(s);
    }
    if what & 4 != 0 {
        if let Ok(b) = dbml_rs::parse_dbml_unchecked(st(s)) {
            cover(1);
            super::spans::walk(&b, s);
        } else {
            cover(2);
        }
    }
    if what == 0 {
        slices(s);
    }
    if what & 8 != 0 {
        let want = super::rec::well_formed(s);
        match dbml_rs::parse_dbml_unchecked(st(s)) {
            Ok(_) => {
                cover(1);
                check(want, 60);
            }
            Err(e) => {
                cover(2);
                check(!want, 61);
                let (a, b) = match e.location {
                    pest::error::InputLocation::Pos(p) => (p, p),
                    pest::error::InputLocation::Span((a, b)) => (a, b),
                };
                let edge = |i: usize| i == s.len() || (i < s.len() && (s[i] & 0xc0) != 0x80);
                check(a <= b && b <= s.len() && edge(a) && edge(b), 62);
                check(dbml_rs::parse_dbml(st(s)).is_err(), 63);
            }
        }
    }
}
// ---------------------------------------------------------------- errors as users see them
/// an error can be printed, and its line and column are those of its location
pub fn shown(s: &[u8]) {
    use pest::error::{InputLocation, LineColLocation};
    let e = match dbml_rs::parse_dbml(st(s)) {
        Ok(_) => {
            cover(1);
            return;
        }
        Err(e) => e,
    };
    cover(2);
    let line_col = |p: usize| {
        let (mut l, mut c) = (1, 1);
        for i in 0..p.min(s.len()) {
            if s[i] == b'\n' {
                l += 1;
                c = 1;
            } else if (s[i] & 0xc0) != 0x80 {
                c += 1;
            }
        }
        (l, c)
    };
    match (&e.location, &e.line_col) {
        (InputLocation::Pos(p), LineColLocation::Pos(lc)) => check(*p <= s.len() && *lc == line_col(*p), 80),
        (InputLocation::Span((a, b)), LineColLocation::Span(x, y)) => {
            check(*a <= *b && *b <= s.len(), 81);
            check(*x == line_col(*a), 82);
            check(*y == line_col(*b) || *b > *a && s[*b - 1] == b'\n', 83);
        }
        _ => check(false, 84),
    }
    // the line shown with it is the line of the text
    let at = match &e.location {
        InputLocation::Pos(p) => *p,
        InputLocation::Span((a, _)) => *a,
    };
    let (mut i, mut j) = (at.min(s.len()), at.min(s.len()));
    while i > 0 && s[i - 1] != b'\n' {
        i -= 1;
    }
    while j < s.len() && s[j] != b'\n' {
        j += 1;
    }
    check(visible(e.line().as_bytes()) == visible(&s[i..j]), 86);
    let t = e.to_string();
    check(t.len() > 0, 85);
    cover(3);
}
/// without line breaks and their symbols
fn visible(s: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\r' || s[i] == b'\n' {
            i += 1;
        } else if i + 2 < s.len() && s[i] == 0xe2 && s[i + 1] == 0x90 && (s[i + 2] == 0x8a || s[i + 2] == 0x8d) {
            i += 3;
        } else {
            v.push(s[i]);
            i += 1;
        }
    }
    v
}
/// long names, values and lines in accepted and rejected texts; a: which, b: what is judged
pub fn long(a: u64, b: u64) {
    // n characters, the last but one of one to four bytes, after up to three others
    let mk = |n: usize| {
        let mut v = Vec::with_capacity(n + 8);
        let wide = pick(3);
        for i in 0..n {
            match wide {
                0 => v.push(b'm'),
                1 => v.extend_from_slice("é".as_bytes()),
                _ => v.extend_from_slice(if i % 2 == 0 { "漢".as_bytes() } else { b"a" }),
            }
        }
        let i = v.len();
        symbol(pick(4) as u64, &mut v);
        assume(v[i] != b'"' && v[i] != b'\'' && v[i] != b'`');
        v.push(b'z');
        v
    };
    let n = mk(LONG[pick(LONG.len() as u32) as usize]);
    let mut s = b"Project p {}\n".to_vec();
    let mut put = |x: &[&[u8]]| {
        for y in x {
            s.extend_from_slice(y);
        }
    };
    match a {
        // accepted: names and values
        0 => put(&[b"Table \"", &n, b"\" as \"x", &n, b"\" [k: '", &n, b"'] {\n \"", &n, b"\" int [default: `", &n, b"`]\n Note: '''", &n, b"'''\n}\nTableGroup g { \"x", &n, b"\" }"]),
        // rejected: the same column again
        1 => put(&[b"Table t {\n \"", &n, b"\" int\n \"", &n, b"\" int [note: 'b']\n}"]),
        // rejected: no such table, after a comment
        2 => put(&[b"Table t { a int [pk] } Ref: t.a > \"", &n, b"\".b // ", &[b'c'; 200]]),
        // rejected: the value is too long
        3 => put(&[b"Table t { a varchar(3) [default: '", &n, b"'] } Enum \"", &n, b"\" { a }"]),
        // rejected: types differ
        4 => put(&[b"Table t { \"", &n, b"\" int [pk] b text [ref: > t.\"", &n, b"\"] }"]),
        // rejected by the grammar, after and inside something long
        5 => put(&[b"Table \"", &n, b"\" { \"", &n, b"\" ] }"]),
        _ => put(&[b"Table t { a int [note: '", &n, b"', ] }"]),
    }
    judge(&s, b);
}
// ---------------------------------------------------------------- a declaration on its own
/// every declaration of an accepted text, cut out of it, reads the same
pub fn slices(s: &[u8]) {
    let x = match unchecked(s) {
        Some(x) => x,
        None => {
            cover(2);
            return;
        }
    };
    for b in &x.blocks {
        cover(1);
        let r = match b {
            TopLevelBlock::Project(y) => &y.span_range,
            TopLevelBlock::Table(y) => &y.span_range,
            TopLevelBlock::TableGroup(y) => &y.span_range,
            TopLevelBlock::Note(y) => &y.span_range,
            TopLevelBlock::Ref(y) => &y.span_range,
            TopLevelBlock::Enum(y) => &y.span_range,
        };
        check(r.start <= r.end && r.end <= s.len(), 70);
        let mut one = Vec::with_capacity(r.len() + 8);
        let mut b = b.clone();
        if let TopLevelBlock::Ref(y) = &mut b {
            // the span of a reference starts at its left endpoint
            one.extend_from_slice(b"Ref: ");
            y.name = None;
        }
        let k = one.len();
        one.extend_from_slice(&s[r.start..r.end]);
        let base = r.start;
        match unchecked(&one) {
            None => check(false, 71),
            Some(y) => {
                // the two bases differ by the keyword written here
                let want = super::sig::shifted(core::slice::from_ref(&b), s, base, true);
                check(want == super::sig::shifted(&y.blocks, &one, k, true), 72);
            }
        }
    }
}
/// a: generated document (6 and more: a sequence of a - 5 declarations), b: kind of layout at every gap or one
pub fn alone(a: u64, b: u64) {
    let mut w = W::new();
    if a < N_DOCS {
        let d = docs(a);
        decls(&mut w, &d);
        let n = w.gaps as u32;
        w = W::new();
        let at = pick(n + 1);
        w.gap_at = if at == n { EVERY } else { at as usize };
        w.gap_kind = b as u32;
        decls(&mut w, &d);
    } else {
        let d: Vec<Decl> = (0..a + 1 - N_DOCS).map(|i| one(pick(7), b'0' + i as u8)).collect();
        decls(&mut w, &d);
    }
    doc(&w.s);
    slices(&w.s);
}
/// two documents, one after the other; a: first, b: second (bits 0-3), what happens to the second (bits 4-5: 0 a symbol
/// inserted, 1 a symbol overwritten, 2 a stretch removed), exchanged (bit 6)
pub fn join(a: u64, b: u64) {
    let first = DOCS[a as usize].as_bytes();
    let t = DOCS[(b & 15) as usize].as_bytes();
    let mut s = Vec::with_capacity(t.len() + 8);
    let how = (b >> 4) & 3;
    let p = pick(t.len() as u32 + 1) as usize;
    s.extend_from_slice(&t[..p]);
    match how {
        0 => {
            symbol(0, &mut s);
            s.extend_from_slice(&t[p..]);
        }
        1 => {
            symbol(0, &mut s);
            s.extend_from_slice(&t[(p + 1).min(t.len())..]);
        }
        _ => s.extend_from_slice(&t[(p + 1 + pick(3) as usize).min(t.len())..]),
    }
    let turned = (b >> 6) & 1 == 1;
    let mut all = Vec::with_capacity(first.len() + s.len() + 8);
    let (x, y): (&[u8], &[u8]) = if turned { (&s, first) } else { (first, &s) };
    all.extend_from_slice(x);
    all.extend_from_slice(b"\n");
    all.extend_from_slice(y);
    doc(&all);
    let at = x.len() + 1;
    match (unchecked(x), unchecked(y), unchecked(&all)) {
        (Some(p), Some(q), Some(j)) => {
            cover(1);
            let n = p.blocks.len();
            check(j.blocks.len() == n + q.blocks.len(), 73);
            check(super::sig::shifted(&p.blocks, x, 0, true) == super::sig::shifted(&j.blocks[..n], &all, 0, true), 74);
            check(super::sig::shifted(&q.blocks, y, 0, true) == super::sig::shifted(&j.blocks[n..], &all, at, true), 75);
        }
        (Some(_), Some(_), None) => check(false, 76),
        // an unfinished text may be finished by what follows it, not by what precedes it
        (_, None, Some(_)) => check(turned, 77),
        (None, _, Some(_)) => check(turned, 78),
        _ => cover(2),
    }
}
/// a: document; b: what is judged (bits 0-3), symbols (bits 4-7), overwrite (bit 8), kind of symbol (bits 9-10),
/// cut the rest of the document (bit 11)
pub fn window(a: u64, b: u64) {
    let t = DOCS[a as usize].as_bytes();
    let n = ((b >> 4) & 15) as usize;
    let over = (b >> 8) & 1 == 1;
    let kind = (b >> 9) & 3;
    let p = pick(t.len() as u32 + 1) as usize;
    let mut s = Vec::with_capacity(t.len() + 24);
    s.extend_from_slice(&t[..p]);
    for _ in 0..n {
        symbol(kind, &mut s);
    }
    if (b >> 11) & 1 == 0 {
        let q = if over { (p + n).min(t.len()) } else { p };
        s.extend_from_slice(&t[q..]);
    }
    judge(&s, b & 15);
}
/// the document with one stretch of up to 3 characters removed, or one character doubled
pub fn cut(a: u64, b: u64) {
    let t = DOCS[a as usize].as_bytes();
    let p = pick(t.len() as u32) as usize;
    let mut s = Vec::with_capacity(t.len() + 8);
    s.extend_from_slice(&t[..p]);
    match pick(4) {
        0 => {
            s.push(t[p]);
            s.extend_from_slice(&t[p..]);
        }
        n => s.extend_from_slice(&t[(p + n as usize).min(t.len())..]),
    }
    judge(&s, b & 15);
}
/// a: number of symbolic characters of a text; b: what is judged
pub fn free(a: u64, b: u64) {
    let mut s = Vec::new();
    for _ in 0..a {
        symbol(0, &mut s);
    }
    judge(&s, b & 15);
}
/// the exact tree under layout: a: document, b: kind of layout
pub fn span_gap(a: u64, b: u64) {
    let d = docs(a);
    let mut w = W::new();
    decls(&mut w, &d);
    let n = w.gaps as u32;
    let mut w = W::new();
    let at = pick(n + 1);
    w.gap_at = if at == n { EVERY } else { at as usize };
    w.gap_kind = b as u32;
    let want = decls(&mut w, &d);
    expect(&w, &want, 64);
    if let Some(x) = unchecked(&w.s) {
        super::spans::walk(&x, &w.s);
    }
}

// ---------------------------------------------------------------- C01: types, arguments and defaults
/// a: kind of array, b: shape of the arguments
pub fn defaults_any(a: u64, b: u64) {
    use super::cases::{tyq, TYPES};
    let i = pick(TYPES.len() as u32 + 1) as usize;
    let mut t = if i == TYPES.len() { ty("some_enum") } else { tyq(TYPES[i].0) };
    let raw = |x: &str| Lit::Raw(x.as_bytes().to_vec(), Value::Null);
    let v = |k: u32| match k {
        0 => Lit::Raw(vec![byte(b'0', b'9')], Value::Null),
        1 => raw("2.5"),
        2 => s1(""),
        3 => Lit::S1(vec![0xc3, byte(0x80, 0xbf), b'x']),
        4 => raw("true"),
        5 => raw("null"),
        6 => Lit::Bt(b"f()".to_vec()),
        7 => raw("#abc"),
        8 => raw("9223372036854775807"),
        9 => raw("4294967296"),
        10 => bare("word"),
        _ => Lit::Dq(b"d".to_vec()),
    };
    match b {
        0 => {}
        1 => t.args = Some(vec![]),
        2 => t.args = Some(vec![v(pick(10))]),
        _ => t.args = Some(vec![v(0), v(pick(10))]),
    }
    match a {
        0 => {}
        1 => t.arrays = vec![None],
        _ => t.arrays = vec![Some(4294967295), None],
    }
    let mut c = Col { n: nm("a"), t, set: None };
    let k = pick(13);
    if k > 0 {
        c.set = Some(vec![sv("default", v(k - 1)), sa("null")]);
    }
    let d = [Decl::P(pr("p")), Decl::T(Tab { s: None, n: nm("t"), alias: None, set: None, m: vec![Member::C(c)] })];
    let mut w = W::new();
    decls(&mut w, &d);
    doc(&w.s);
    cover(if dbml_rs::parse_dbml_unchecked(w.text()).is_ok() { 1 } else { 2 });
    cover(if dbml_rs::parse_dbml(w.text()).is_ok() { 3 } else { 4 });
}

// ---------------------------------------------------------------- documents written by the generator
fn lraw(x: &str, v: Value) -> Lit {
    Lit::Raw(x.as_bytes().to_vec(), v)
}
/// small accepted documents that between them use every construct
pub fn docs(k: u64) -> Vec<Decl> {
    let p = Decl::P(pr("p"));
    match k {
        0 => {
            let mut x = pr("shop");
            x.m.push(Ok((b"database_type".to_vec(), s1("PostgreSQL"))));
            x.m.push(Err(Note { form: 0, l: s1("about") }));
            x.m.push(Ok((b"two words".to_vec(), bare("other words"))));
            x.m.push(Ok((b"k".to_vec(), lraw("#0fA", Value::HexColor("#0fA".to_string())))));
            vec![Decl::P(x), Decl::N(Note { form: 1, l: Lit::S3(b"free\n note".to_vec()) })]
        }
        1 => {
            let mut t = tab("t", vec![col("a", "int"), cols("b", "text", vec![sa("not null"), sv("note", s1("n")), sv("default", Lit::Bt(b"now()".to_vec()))])]);
            t.s = Some(nm("s"));
            t.alias = Some(nq("al x"));
            t.set = Some(vec![at("headercolor", Some(lraw("#fff", Value::HexColor("#fff".to_string())))), at("flag", None)]);
            t.m.insert(1, Member::N(Note { form: 0, l: s1("tn") }));
            vec![p, Decl::T(t)]
        }
        2 => {
            let mut c = cols("c", "decimal", vec![sv("default", lraw("1.5", Value::Decimal(1.5)))]);
            c.t.args = Some(vec![int(10), int(2)]);
            let mut d = cols("d", "character varying", vec![sa("pk")]);
            d.t.q = true;
            d.t.args = Some(vec![int(9)]);
            let mut e = col("e", "int");
            e.t.arrays = vec![None, Some(3)];
            vec![p, Decl::T(tab("t", vec![c, d, e]))]
        }
        3 => {
            let mut t = tab("t", vec![cols("a", "int", vec![sa("primary key"), Set::Ref(2, end("u", "x")), sa("increment")]), col("b", "int")]);
            t.m.push(Member::I(vec![
                ix(&["a", "b"], Some(vec![at("unique", None), at("name", Some(s1("i")))])),
                IxDef { c: vec![Ix::E(b"lower(b)".to_vec())], paren: false, set: Some(vec![at("type", Some(bare("btree")))]) },
                IxDef { c: vec![Ix::C(nm("b")), Ix::E(b"a*2".to_vec())], paren: true, set: None },
            ]));
            vec![p, Decl::T(t), Decl::T(tab("u", vec![cols("x", "int", vec![sa("unique")])]))]
        }
        4 => {
            let mut r = rf(ends(Some("s"), "u", &["x", "y"]), 1, ends(None, "t", &["a", "b"]));
            r.n = Some(nm("fk"));
            r.set = Some(vec![at("delete", Some(bare("no action"))), at("update", Some(bare("cascade")))]);
            let mut q = rf(end("t", "a"), 3, ends(Some("s"), "u", &["x"]));
            q.block = true;
            let mut t = tab("t", vec![cols("a", "int", vec![sa("unique")]), col("b", "int")]);
            t.m.push(Member::I(vec![ix(&["a", "b"], Some(vec![at("pk", None)]))]));
            let mut u = tab("u", vec![cols("x", "int", vec![sa("unique")]), col("y", "int")]);
            u.s = Some(nm("s"));
            vec![p, Decl::T(t), Decl::T(u), Decl::R(r), Decl::R(q)]
        }
        _ => {
            let mut e = en("kind", &["one", "two"]);
            e.s = Some(nm("s"));
            e.v.push((nq("three 3"), Some(vec![at("note", Some(s1("v"))), at("k", Some(int(1)))])));
            let mut t = tab("t", vec![]);
            let mut c = cols("k", "kind", vec![sv("default", s1("three 3"))]);
            c.t.schema = Some(nm("s"));
            t.m.push(Member::C(c));
            let mut g = gr("g", &["t"]);
            g.set = Some(vec![at("color", Some(s1("x")))]);
            g.items.push(Err(Note { form: 1, l: s1("gn") }));
            g.items.push(Ok((Some(nm("public")), nm("u"))));
            vec![p, Decl::E(e), Decl::T(t), Decl::T(tab("u", vec![col("a", "int")])), Decl::G(g)]
        }
    }
}
pub const N_DOCS: u64 = 6;

// ---------------------------------------------------------------- C04
/// sizes on both sides of the usual limits
const LONG: [usize; 10] = [8, 15, 16, 31, 33, 63, 64, 65, 129, 257];
/// a symbolic name; k: 0..2 unquoted of 1..3 characters, 3 quoted ASCII, 4 quoted non-ASCII, 5 keyword-like, 6 keyword-like with a suffix, 7 quoted with blanks and markers
fn name(k: u64) -> Nm {
    const KW: [&str; 36] = [
        "public", "Public", "default", "update", "delete", "TABLE", "ENUM", "REF", "PROJECT", "INDEXES", "schema", "group", "set", "type", "varchar", "id",
        "note", "Note", "NOTE", "ref", "Ref", "indexes", "Indexes", "table", "Table", "as", "As", "enum", "project", "tablegroup", "TableGroup", "pk", "unique", "null", "true", "int",
    ];
    let wordc = || {
        let b = byte(b'0', b'z');
        assume(((b >= b'0') & (b <= b'9')) | ((b >= b'A') & (b <= b'Z')) | (b == b'_') | ((b >= b'a') & (b <= b'z')));
        b
    };
    let first = || byte(b'A', b'Z') | (byte(0, 1) << 5);
    match k {
        0 => nb(&[first()]),
        1 => nb(&[first(), wordc()]),
        2 => nb(&[first(), wordc(), wordc()]),
        3 => {
            let mut v = Vec::new();
            for _ in 0..3 {
                let b = byte(0, 127);
                assume(b != b'"');
                v.push(b);
            }
            Nm { b: v, q: true }
        }
        4 => {
            let mut v = Vec::new();
            symbol(1 + pick(3) as u64, &mut v);
            v.push(l());
            symbol(1, &mut v);
            Nm { b: v, q: true }
        }
        5 => {
            let x = KW[pick(36) as usize];
            if flag() { nq(x) } else { nm(x) }
        }
        6 => {
            let mut v = KW[pick(36) as usize].as_bytes().to_vec();
            v.push(wordc());
            nb(&v)
        }
        8 => {
            // long names, free at the ends and in the middle
            let n = LONG[pick(LONG.len() as u32) as usize];
            let mut v = vec![b'm'; n];
            v[0] = first();
            v[n / 2] = wordc();
            v[n - 1] = wordc();
            Nm { b: v, q: flag() }
        }
        _ => nq(["", " a", "b ", " ", "//", "// c", "/* */", "\n", "a.b", "]", "{", "'", "`", "\\", "\t", "a\r\nb", "1", "1a", "-x", "a  b", "e\u{301}", "\u{feff}x", "\u{130}", "#fff", "(a)", "a,b", "a:b", "<>", "''", "Table x", "s.t.u", "a.", ".b", "\u{0}", "\\n", "%41", "x\u{a0}"][pick(37) as usize]),
    }
}
/// a: position, b: kind of name
pub fn ident_at(a: u64, b: u64) {
    let n = name(b);
    let mut d = vec![Decl::P(pr("p"))];
    let mut t = tab("t", vec![cols("x", "int", vec![sa("pk")]), col("y", "int")]);
    let plain = t.clone();
    match a {
        0 => d[0] = Decl::P(Pr { n, m: vec![Ok((b"k".to_vec(), s1("v")))] }),
        1 => {
            t.n = n;
            d.push(Decl::T(t));
        }
        2 => {
            t.s = Some(n);
            d.push(Decl::T(t));
        }
        3 => {
            t.alias = Some(n);
            d.push(Decl::T(t));
        }
        4 => {
            t.m.insert(1, Member::C(Col { n, t: ty("int"), set: if flag() { Some(vec![sa("unique")]) } else { None } }));
            d.push(Decl::T(t));
        }
        5 => {
            let mut e = en("x", &["v"]);
            e.n = n;
            d.push(Decl::E(e));
        }
        6 => {
            let mut e = en("x", &["v"]);
            e.s = Some(n);
            d.push(Decl::E(e));
        }
        7 => {
            let mut e = en("x", &["v", "w"]);
            e.v.insert(1, (n, if flag() { Some(vec![at("note", Some(s1("q")))]) } else { None }));
            d.push(Decl::E(e));
        }
        8 => {
            let mut e = end("t", "x");
            match pick(3) {
                0 => e.s = Some(n),
                1 => e.t = n,
                _ => e.c = vec![n],
            }
            let mut r = if flag() { rf(e, 1, end("t", "y")) } else { rf(end("t", "y"), 1, e) };
            r.block = flag();
            d.push(Decl::R(r));
        }
        9 => {
            let mut r = rf(end("t", "x"), 1, end("t", "y"));
            r.n = Some(n);
            r.block = flag();
            d.push(Decl::R(r));
        }
        10 => {
            let x = if flag() { IxDef { c: vec![Ix::C(n)], paren: false, set: None } } else { IxDef { c: vec![Ix::C(nm("y")), Ix::C(n)], paren: true, set: Some(vec![at("pk", None)]) } };
            t.m.push(Member::I(vec![x, ix(&["x"], None)]));
            d.push(Decl::T(t));
        }
        11 => {
            let mut g = gr("x", &["t"]);
            g.n = n;
            d.push(Decl::G(g));
        }
        12 => {
            let mut g = gr("g", &["t", "u"]);
            g.items.insert(1, Ok(if flag() { (None, n) } else if flag() { (Some(n), nm("t")) } else { (Some(nm("s")), n) }));
            d.push(Decl::G(g));
        }
        _ => {
            let mut e = ends(None, "u", &["x"]);
            match pick(3) {
                0 => e.s = Some(n),
                1 => e.t = n,
                _ => {
                    e.c.push(n);
                }
            }
            t.m.insert(1, Member::C(cols("z", "int", vec![sa("null"), Set::Ref(0, e)])));
            d.push(Decl::T(t));
        }
    }
    d.push(Decl::T(plain));
    let mut w = W::new();
    let want = decls(&mut w, &d);
    cover(1);
    expect(&w, &want, 70);
}
pub const N_IDENT: u64 = 14;

// ---------------------------------------------------------------- C05
fn content(q: u64, n: u64, wide: u64) -> Vec<u8> {
    let mut v = Vec::new();
    if wide > 0 {
        symbol(pick(4) as u64, &mut v);
        symbol(pick(4) as u64, &mut v);
    } else if n == 15 {
        let n = LONG[pick(LONG.len() as u32) as usize];
        v = vec![b'm'; n];
        v[0] = byte(0, 127);
        v[n / 2] = byte(0, 127);
        v[n - 1] = byte(0, 127);
    } else {
        for _ in 0..n {
            v.push(byte(0, 127));
        }
    }
    let quote = [b'\'', b'\'', b'"', b'`'][q as usize];
    if q == 1 {
        // the closing quotes are the first three in a row
        let mut x = v.clone();
        x.extend_from_slice(b"'''");
        for i in 0..v.len() {
            assume(!((x[i] == b'\'') & (x[i + 1] == b'\'') & (x[i + 2] == b'\'')));
        }
    } else {
        for c in &v {
            assume(*c != quote);
        }
        if q == 0 && v.len() == 0 {
            // '' followed by a quote is not written by any position below
        }
    }
    v
}
/// the literal and the content it must have
fn quoted(q: u64, v: &[u8]) -> Lit {
    match q {
        0 => Lit::S1(v.to_vec()),
        1 => Lit::S3(v.to_vec()),
        2 => Lit::Dq(v.to_vec()),
        _ => Lit::Bt(v.to_vec()),
    }
}
/// a: position + 16 * quote, b: number of characters (bits 0-3), non-ASCII (bit 4)
pub fn literal_at(a: u64, b: u64) {
    let (pos, q) = (a % 16, a / 16);
    let v = content(q, b & 15, b >> 4);
    // white space right after ' and ''' is not part of the value
    let x = quoted(q, &v);
    put_literal(pos, x);
}
/// a: as above; selected contents
pub fn literal_sel(a: u64, _b: u64) {
    let (pos, q) = (a % 16, a / 16);
    let c = [
        "//", "// a", "/* b */", "/*", "a // b", "{ }", "[x]", "a, b: c", "\n\nx\r\n", "x \n", "\"q\" `r`", "'s'", "it's", "''", "\\", "\\n", "\u{e9}\u{1F600}\u{6f22}", "#fff", "1", "null", "Table t {", "x  ", "\t", "", "a\n    b\n    c", "a\n\tb\n\tc", "a  \n  b  \n", "a\r\nb\r\n", "a\n\n\nb", "\\'", "\\\"", "\\t\\r\\0", "\\u00e9", "&amp;lt;", "%20%0A", "${x} {{y}}", "a\u{0}b",
        "\u{feff}a", "a\u{a0}b\u{2028}c", "e\u{301}", "0x1F", "1e5", "-5", "+1", "yes", "TRUE", "none", "public", "s.t", "now()", "A b C", "#FFAA00", "--", "a;b", "<>", "$1", "\u{130}\u{df}",
    ];
    let s = c[pick(c.len() as u32) as usize];
    let quote = ["'", "'''", "\"", "`"][q as usize];
    assume(!s.contains(quote) && !(q == 1 && s.ends_with('\'')));
    put_literal(pos, quoted(q, s.as_bytes()));
}
fn literal_doc(pos: u64, x: Lit) -> Vec<Decl> {
    let mut d = vec![Decl::P(pr("p"))];
    let mut t = tab("t", vec![col("y", "int")]);
    let dq = matches!(x, Lit::Dq(_));
    let bt = matches!(x, Lit::Bt(_));
    match pos {
        0 | 1 => {
            assume(!dq && !bt);
            t.m.push(Member::N(Note { form: pos as u32, l: x }));
            d.push(Decl::T(t));
        }
        2 => {
            assume(!dq && !bt);
            d.push(Decl::N(Note { form: pick(2), l: x }));
        }
        3 => {
            assume(!dq);
            d[0] = Decl::P(Pr { n: nm("p"), m: vec![Ok((b"k".to_vec(), s1("1"))), Ok((b"l".to_vec(), x)), Ok((b"m".to_vec(), int(1)))] });
        }
        4 => {
            t.m.push(Member::C(cols("z", "text", vec![sv("default", x), sa("null")])));
            d.push(Decl::T(t));
        }
        5 => {
            t.m.push(Member::C(cols("z", "text", vec![sa("null"), sv("note", x)])));
            d.push(Decl::T(t));
        }
        6 => {
            t.set = Some(vec![at("a", Some(x)), at("b", None)]);
            d.push(Decl::T(t));
        }
        7 => {
            let mut e = en("e", &["a"]);
            e.v.push((nm("b"), Some(vec![at("note", Some(x))])));
            d.push(Decl::E(e));
        }
        8 => {
            t.m.push(Member::I(vec![ix(&["y"], Some(vec![at("name", Some(x.clone())), at("note", Some(x))]))]));
            d.push(Decl::T(t));
        }
        9 => {
            let mut g = gr("g", &["t"]);
            if dq || bt || flag() {
                g.set = Some(vec![at("a", Some(x))]);
            } else {
                g.items.push(Err(Note { form: pick(2), l: x }));
            }
            d.push(Decl::G(g));
        }
        10 => {
            let mut r = rf(end("t", "y"), 1, end("t", "y"));
            r.set = Some(vec![at("color", Some(x)), at("k", None)]);
            d.push(Decl::R(r));
        }
        11 => {
            assume(!dq);
            let mut c = col("z", "foo");
            c.t.args = Some(vec![int(1), x]);
            t.m.push(Member::C(c));
            d.push(Decl::T(t));
        }
        12 => {
            assume(bt);
            if let Lit::Bt(x) = x {
                t.m.push(Member::I(vec![
                    IxDef { c: vec![Ix::E(x.clone())], paren: false, set: None },
                    IxDef { c: vec![Ix::C(nm("y")), Ix::E(x.clone())], paren: true, set: Some(vec![at("unique", None)]) },
                    IxDef { c: vec![Ix::E(x.clone()), Ix::C(nm("y")), Ix::E(x)], paren: true, set: Some(vec![at("pk", None)]) },
                ]));
            }
            d.push(Decl::T(t));
        }
        _ => {
            assume(!dq && !bt);
            d[0] = Decl::P(Pr { n: nm("p"), m: vec![Err(Note { form: pick(2), l: x }), Ok((b"m".to_vec(), int(1)))] });
        }
    }
    d
}
fn put_literal(pos: u64, x: Lit) {
    let d = literal_doc(pos, x);
    let mut w = W::new();
    let want = decls(&mut w, &d);
    cover(1);
    expect(&w, &want, 74);
}
pub const N_LIT: u64 = 14;

// ---------------------------------------------------------------- C06
/// puts a scalar where scalars are allowed; 0: column default, 1: project property, 2: type argument, 3: setting
fn put_scalar(pos: u32, x: Lit) -> Vec<Decl> {
    let mut d = vec![Decl::P(pr("p"))];
    match pos {
        0 => d.push(Decl::T(tab("t", vec![cols("a", "bigint", vec![sv("default", x), sa("null")])]))),
        1 => d[0] = Decl::P(Pr { n: nm("p"), m: vec![Ok((b"k".to_vec(), x)), Ok((b"note2".to_vec(), s1("y")))] }),
        2 => {
            let mut c = col("a", "foo");
            c.t.args = Some(vec![x.clone(), x]);
            d.push(Decl::T(tab("t", vec![c])));
        }
        _ => {
            let mut t = tab("t", vec![col("a", "int")]);
            t.set = Some(vec![at("u", None), at("k", Some(x))]);
            d.push(Decl::T(t));
        }
    }
    d
}
fn scalar(pos: u32, text: &[u8], v: Option<Value>) {
    let none = v.is_none();
    let d = put_scalar(pos, Lit::Raw(text.to_vec(), v.unwrap_or(Value::Null)));
    let mut w = W::new();
    let want = decls(&mut w, &d);
    if none {
        doc(&w.s);
        cover(2);
        check(unchecked(&w.s).is_none(), 83);
    } else {
        cover(1);
        expect(&w, &want, 80);
    }
}
/// a: number of digits; b: how many of the last ones are free (the others follow the largest value), 8: all free
pub fn integer(a: u64, b: u64) {
    let full = b"9223372036854775807123";
    let mut t = Vec::new();
    for i in 0..a {
        t.push(if i + b >= a { byte(b'0', b'9') } else { full[i as usize] });
    }
    let mut n: u128 = 0;
    for c in &t {
        n = n * 10 + (*c - b'0') as u128;
    }
    let fits = n <= i64::MAX as u128;
    let pos = pick(4);
    scalar(pos, &t, if fits { Some(Value::Integer(n as i64)) } else { None });
}
pub fn leading_zeros(_a: u64, _b: u64) {
    let z = ["0", "00", "0000000000000000000000", "000000000000000000009223372036854775807", "000000000000000000009223372036854775808"][pick(5) as usize];
    let mut t = z.as_bytes().to_vec();
    let mut v: Option<i64> = Some(match z.len() {
        39 => i64::MAX,
        _ => 0,
    });
    if z.ends_with("808") {
        v = None;
    }
    if z.len() < 30 {
        let c = byte(b'0', b'9');
        t.push(c);
        v = Some((c - b'0') as i64);
    }
    scalar(pick(4), &t, v.map(Value::Integer));
}
pub fn decimals(_a: u64, _b: u64) {
    macro_rules! list {
        ($($x:literal),* $(,)?) => { [$((stringify!($x), $x)),*] };
    }
    let v: [(&str, f64); 40] = list![
        0.0, 1.0, 1.5, 0.5, 0.1, 0.2, 0.3, 3.14159, 2.718281828459045, 10.0, 100.25, 12345.6789, 0.000001, 0.0000000001, 123456789.987654321, 4503599627370496.5, 9007199254740993.0,
        9007199254740992.0, 9223372036854775807.0, 9223372036854775808.0, 18446744073709551616.0, 1.7976931348623157, 0.1000000000000000055511151231257827, 0.30000000000000004, 16777217.0, 33554433.5,
        1.0000000000000002, 1.00000011920929, 99999999999999999999.9, 2147483648.5, 4294967296.25, 65536.0625, 0.015625, 7.0, 42.42, 255.255, 1000000.000001, 5.0e0, 8.25, 6.125
    ];
    let i = pick(42) as usize;
    let (t, x): (&str, f64) = match i {
        37 => ("5.", 5.0),
        40 => ("00012.50", 12.5),
        41 => ("340282366920938463463374607431768211456.0", 340282366920938463463374607431768211456.0),
        i => v[i],
    };
    scalar(pick(4), t.as_bytes(), Some(Value::Decimal(x)));
}
/// a: number of letters; bare words, and true, false, null
pub fn words(a: u64, b: u64) {
    if b == 5 {
        // words that mean something elsewhere, in three spellings, perhaps with something after it
        const W: [&str; 36] = [
            "none", "nil", "undefined", "yes", "no", "on", "off", "inf", "infinity", "nan", "true", "false", "null", "now", "current_timestamp", "e5", "x1f", "b01", "set null", "no action", "cascade", "not null", "primary key",
            "default", "empty", "t", "f", "y", "n", "void", "unknown", "auto increment", "default value", "date", "integer", "sysdate",
        ];
        let w = W[pick(W.len() as u32) as usize].as_bytes();
        let how = pick(3);
        let mut t: Vec<u8> = w.iter().enumerate().map(|(i, c)| if how == 1 || how == 2 && i == 0 { c.to_ascii_uppercase() } else { *c }).collect();
        for _ in 0..a {
            let c = byte(b'0', b'z');
            assume(((c >= b'A') & (c <= b'Z')) | ((c >= b'a') & (c <= b'z')) | ((c >= b'0') & (c <= b'9')) | (c == b'_'));
            t.push(c);
        }
        let v = match &t[..] {
            b"true" => Value::Bool(true),
            b"false" => Value::Bool(false),
            b"null" => Value::Null,
            _ => Value::Enum(own(&t)),
        };
        return scalar([0, 1, 3][pick(3) as usize], &t, Some(v));
    }
    let mut t: Vec<u8> = match b {
        0 => vec![],
        1 => b"true".to_vec(),
        2 => b"false".to_vec(),
        3 => b"null".to_vec(),
        _ => b"tru".to_vec(),
    };
    for i in 0..a {
        let c = if i == 0 && b == 0 { byte(b'A', b'z') } else { byte(b' ', b'z') };
        let last = i + 1 == a;
        let letter = ((c >= b'A') & (c <= b'Z')) | ((c >= b'a') & (c <= b'z'));
        if i == 0 && b == 0 {
            assume(letter);
        } else {
            // words separated by single blanks
            let sp = !last && !(t[t.len() - 1] == b' ');
            assume(letter | ((c >= b'0') & (c <= b'9')) | (c == b'_') | (sp & (c == b' ')));
        }
        t.push(c);
    }
    let pos = [0, 1, 3][pick(3) as usize];
    let is = |x: &str| t.len() == x.len() && t == x.as_bytes();
    let v = if is("true") {
        Value::Bool(true)
    } else if is("false") {
        Value::Bool(false)
    } else if is("null") {
        Value::Null
    } else {
        // true, false and null followed by more words are not a value
        let starts = |x: &str| t.len() > x.len() && &t[..x.len()] == x.as_bytes() && t[x.len()] == b' ';
        if starts("true") || starts("false") || starts("null") {
            if pos == 1 {
                // a property list would go on with the next word
                return;
            }
            return scalar(pos, &t, None);
        }
        Value::Enum(own(&t))
    };
    scalar(pos, &t, Some(v));
}
/// a: number of digits after #
pub fn hex(a: u64, _b: u64) {
    let mut t = vec![b'#'];
    for _ in 0..a {
        let c = byte(b'0', b'f');
        assume(((c >= b'0') & (c <= b'9')) | ((c >= b'a') & (c <= b'f')) | ((c >= b'A') & (c <= b'F')));
        t.push(c);
    }
    let pos = pick(4);
    if a == 3 || a == 6 {
        let v = own(&t);
        scalar(pos, &t, Some(Value::HexColor(v)));
    } else if pos != 1 || a < 3 {
        scalar(pos, &t, None);
    }
}

// ---------------------------------------------------------------- C07
fn tree(s: &[u8]) -> Option<Vec<u8>> {
    unchecked(s).map(|x| super::sig::meaning(&x.blocks))
}
/// a: document; b: kind of layout
pub fn layout(a: u64, b: u64) {
    let d = docs(a);
    let mut w = W::new();
    decls(&mut w, &d);
    let base = tree(&w.s);
    check(base.is_some(), 90);
    let ok = dbml_rs::parse_dbml(w.text()).is_ok();
    check(ok, 91);
    let n = w.gaps as u32;
    let mut w = W::new();
    let at = pick(n + 1);
    w.gap_at = if at == n { EVERY } else { at as usize };
    w.gap_kind = b as u32;
    decls(&mut w, &d);
    doc(&w.s);
    cover(1);
    let t = tree(&w.s);
    check(t.is_some(), 92);
    check(t == base, 93);
    check(dbml_rs::parse_dbml(w.text()).is_ok(), 94);
}
/// keywords in any letter case; b: which eighth of the keyword letters are free
pub fn case(a: u64, _b: u64) {
    let d = docs(a);
    let mut w = W::new();
    decls(&mut w, &d);
    let base = tree(&w.s);
    let mut w = W::new();
    w.case = 1;
    decls(&mut w, &d);
    doc(&w.s);
    cover(1);
    let t = tree(&w.s);
    check(t.is_some(), 95);
    check(t == base, 96);
    check(dbml_rs::parse_dbml(w.text()).is_ok(), 97);
}

// ---------------------------------------------------------------- C08
fn one(i: u32, tag: u8) -> Decl {
    let n = |p: &str| nb(&[p.as_bytes()[0], l(), l()]);
    match i {
        0 => {
            let mut p = pr("p");
            p.n = n("p");
            p.m.push(Ok((b"k".to_vec(), s1("v"))));
            Decl::P(p)
        }
        1 => {
            let mut t = tab("t", vec![col("a", "int")]);
            t.n = n("t");
            t.m.push(Member::C(Col { n: n("c"), t: ty("text"), set: None }));
            Decl::T(t)
        }
        2 => {
            let mut e = en("e", &["x"]);
            e.n = n("e");
            e.v.push((n("v"), None));
            Decl::E(e)
        }
        3 => {
            let mut r = rf(end("t", "a"), 1, end("u", "b"));
            r.n = Some(n("r"));
            r.block = tag == b'1';
            Decl::R(r)
        }
        4 => {
            let mut g = gr("g", &["t"]);
            g.n = n("g");
            g.items.push(Ok((Some(n("s")), n("u"))));
            Decl::G(g)
        }
        5 => Decl::N(Note { form: 0, l: Lit::S1(vec![b'n', l(), l()]) }),
        _ => Decl::R(rf(end("t", "a"), 3, end("u", "b"))),
    }
}
/// a: number of declarations
pub fn sequence(a: u64, _b: u64) {
    let mut d = Vec::new();
    for i in 0..a {
        d.push(one(pick(7), b'0' + i as u8));
    }
    sequence_of(&d);
}
fn sequence_of(d: &[Decl]) {
    let mut w = W::new();
    let want = decls(&mut w, d);
    cover(1);
    expect(&w, &want, 100);
    if let Some(x) = unchecked(&w.s) {
        check(x.blocks.len() == want.len(), 103);
        // the views
        let (mut p, mut t, mut g, mut r, mut e) = (0, 0, 0, 0, 0);
        let (vp, vt, vg, vr, ve) = (x.projects(), x.tables(), x.table_groups(), x.refs(), x.enums());
        for b in &x.blocks {
            let ok = match b {
                TopLevelBlock::Project(y) => {
                    p += 1;
                    p <= vp.len() && core::ptr::eq(vp[p - 1], y)
                }
                TopLevelBlock::Table(y) => {
                    t += 1;
                    t <= vt.len() && core::ptr::eq(vt[t - 1], y)
                }
                TopLevelBlock::TableGroup(y) => {
                    g += 1;
                    g <= vg.len() && core::ptr::eq(vg[g - 1], y)
                }
                TopLevelBlock::Ref(y) => {
                    r += 1;
                    r <= vr.len() && core::ptr::eq(vr[r - 1], y)
                }
                TopLevelBlock::Enum(y) => {
                    e += 1;
                    e <= ve.len() && core::ptr::eq(ve[e - 1], y)
                }
                TopLevelBlock::Note(_) => true,
            };
            check(ok, 104);
        }
        check(p == vp.len() && t == vt.len() && g == vg.len() && r == vr.len() && e == ve.len(), 105);
    }
}
/// the members of one declaration; a: 0 table, 1 enum, 2 group, 3 project; b: how many
pub fn members(a: u64, b: u64) {
    let d = match a {
        0 => {
            let mut t = tab("t", vec![]);
            if flag() {
                t.s = Some(n1("s"));
            }
            if flag() {
                t.alias = Some(n1("a"));
            }
            if flag() {
                t.set = Some(vec![at("k", Some(s1("v"))), at("j", None)]);
            }
            for _ in 0..b {
                let n = nb(&[b'c', l(), l()]);
                match pick(5) {
                    0 => t.m.push(Member::C(Col { n, t: ty("int"), set: None })),
                    1 => t.m.push(Member::C(Col { n, t: ty("text"), set: Some(vec![sa("unique"), sv("note", s1("n"))]) })),
                    2 => {
                        t.m.push(Member::N(Note { form: 0, l: Lit::S1(vec![l()]) }))
                    }
                    3 => {
                        t.m.push(Member::N(Note { form: 1, l: Lit::S1(vec![l()]) }))
                    }
                    _ => {
                        t.m.push(Member::I(vec![IxDef { c: vec![Ix::C(n)], paren: false, set: None }]))
                    }
                }
            }
            Decl::T(t)
        }
        1 => {
            let mut e = en("e", &[]);
            if flag() {
                e.s = Some(n1("s"));
            }
            for _ in 0..b {
                let n = nb(&[b'v', l(), l()]);
                e.v.push(match pick(3) {
                    0 => (n, None),
                    1 => (n, Some(vec![at("note", Some(s1("x")))])),
                    _ => (Nm { q: true, b: n.b }, Some(vec![at("k", None), at("note", Some(Lit::S3(vec![l()])))])),
                });
            }
            Decl::E(e)
        }
        2 => {
            let mut g = gr("g", &[]);
            if flag() {
                g.set = Some(vec![at("k", Some(s1("v")))]);
            }
            for _ in 0..b {
                let n = nb(&[b't', l(), l()]);
                match pick(4) {
                    0 => g.items.push(Ok((None, n))),
                    1 => g.items.push(Ok((Some(n1("s")), n))),
                    2 => g.items.push(Ok((None, Nm { q: true, b: n.b }))),
                    _ => {
                        g.items.push(Err(Note { form: pick(2), l: Lit::S1(vec![l()]) }))
                    }
                }
            }
            Decl::G(g)
        }
        _ => {
            let mut p = pr("p");
            for _ in 0..b {
                let k = vec![b'k', l(), l()];
                match pick(6) {
                    0 => p.m.push(Ok((k, Lit::S1(vec![l()])))),
                    1 => p.m.push(Ok((k, int(5)))),
                    2 => p.m.push(Ok((k, Lit::Bt(vec![l()])))),
                    3 => p.m.push(Ok((b"database_type".to_vec(), s1(["PostgreSQL", "MySQL"][pick(2) as usize])))),
                    4 => p.m.push(Ok((k, bare("some word")))),
                    _ => {
                        p.m.push(Err(Note { form: pick(2), l: Lit::S3(vec![l()]) }))
                    }
                }
            }
            Decl::P(p)
        }
    };
    let d = [Decl::E(en("before", &["x"])), d, Decl::T(tab("after", vec![col("a", "int")]))];
    let mut w = W::new();
    let want = decls(&mut w, &d);
    cover(1);
    expect(&w, &want, 106);
}

// ---------------------------------------------------------------- C09
fn col_set(i: u32) -> Set {
    match i {
        0 => sa("pk"),
        1 => sa("primary key"),
        2 => sa("unique"),
        3 => sa("null"),
        4 => sa("not null"),
        5 => sa("increment"),
        6 => sv("note", Lit::S1(vec![l()])),
        7 => sv("default", Lit::S1(vec![l(), l()])),
        8 => sv("default", Lit::Raw(vec![byte(b'1', b'9')], Value::Null)),
        9 => sv("default", Lit::Bt(vec![l()])),
        10 => Set::Ref(pick(4), End { s: None, t: n1("t"), c: vec![n1("c")], paren: false }),
        11 => Set::Ref(1, End { s: Some(n1("s")), t: n1("t"), c: vec![n1("c")], paren: false }),
        12 => sv("note", Lit::Dq(vec![l()])),
        // keys that only look like the ones with a meaning
        13 => sa(["pkx", "uniqueness", "nullable", "not nul", "notnull", "PK", "Unique", "auto increment", "primary", "key"][pick(10) as usize]),
        14 => sv(["notes", "defaults", "my default", "reference", "Note"][pick(5) as usize], s1("z")),
        15 => {
            let k = [l(), l(), l()];
            assume(!((k[0] == b'r') & (k[1] == b'e') & (k[2] == b'f')));
            Set::A((k.to_vec(), None))
        }
        16 => sv("pk", s1("x")),
        _ => sv("default", lraw("null", Value::Null)),
    }
}
fn fix_int(s: &mut Set) {
    if let Set::A((_, Some(Lit::Raw(t, v)))) = s {
        if t.len() == 1 && t[0] >= b'0' && t[0] <= b'9' {
            *v = Value::Integer((t[0] - b'0') as i64);
        }
    }
}
/// a: number of settings; b: 0 any, 1 no look-alikes, 2 any key with any value first
pub fn col_settings(a: u64, b: u64) {
    let mut s = Vec::new();
    for i in 0..a {
        if b == 2 && i == 0 {
            let k = ["note", "default", "null", "unique", "pk", "primary key", "increment", "not null", "other key"][pick(9) as usize];
            s.push(Set::A((k.as_bytes().to_vec(), any_value(pick(18)))));
            continue;
        }
        let mut x = col_set(pick(if b == 0 { 18 } else { 12 }));
        fix_int(&mut x);
        s.push(x);
    }
    let t = tab("t", vec![cols("before", "int", vec![sa("unique"), sv("note", s1("other"))]), Col { n: nm("c"), t: ty("text"), set: Some(s) }, col("after", "int")]);
    let mut w = W::new();
    let want = decls(&mut w, &[Decl::T(t)]);
    cover(1);
    expect(&w, &want, 110);
}

// ---------------------------------------------------------------- C10
/// a: shape of the name, b: 0 arguments, 1 dimensions, 2 both
pub fn types(a: u64, b: u64) {
    let mut t = match a {
        0 => {
            let c = byte(b'0', b'z');
            assume(((c >= b'0') & (c <= b'9')) | (c == b'_') | ((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')));
            tyb(&[byte(b'A', b'Z') | (byte(0, 1) << 5), c, b'x'])
        }
        1 => {
            let mut t = tyb(&[l(), b' ', l(), l()]);
            t.q = true;
            t
        }
        2 => ty(super::cases::TYPES[pick(super::cases::TYPES.len() as u32) as usize].0),
        _ => {
            let mut t = tyb(&[l(), l()]);
            t.q = flag();
            t
        }
    };
    if t.name.contains(&b' ') {
        t.q = true;
    }
    if a != 2 {
        t.schema = match pick(3) {
            0 => None,
            1 => Some(n1("s")),
            _ => Some(Nm { b: vec![l(), b' ', l()], q: true }),
        };
    }
    let dg = || byte(b'0', b'9');
    if b != 1 {
        let arg = |k: u32| match k {
            0 => {
                let c = dg();
                Lit::Raw(vec![c], Value::Integer((c - b'0') as i64))
            }
            1 => Lit::S1(vec![l()]),
            2 => lraw("2.5", Value::Decimal(2.5)),
            3 => lraw("true", Value::Bool(true)),
            4 => Lit::Bt(vec![l()]),
            _ => Lit::S3(b"a, b)".to_vec()),
        };
        t.args = match pick(4) {
            0 => None,
            1 => Some(vec![]),
            2 => Some(vec![arg(pick(6))]),
            _ => Some(vec![arg(pick(2)), arg(pick(6)), arg(0)]),
        };
    }
    if b != 0 {
        for _ in 0..pick(if b == 2 { 3 } else { 4 }) {
            t.arrays.push(match pick(3) {
                0 => None,
                1 => Some(pick(2)),
                _ => Some(4294967294 + pick(2)),
            });
        }
        t.arrays_in = t.q && flag();
    }
    let set = if flag() { Some(vec![sa("null")]) } else { None };
    let d = [Decl::T(tab("t", vec![col("a", "int"), Col { n: nm("b"), t, set }, col("c", "uuid")]))];
    let mut w = W::new();
    let want = decls(&mut w, &d);
    cover(1);
    expect(&w, &want, 114);
}
/// array dimensions: a digits, the last b of them free
pub fn dims(a: u64, b: u64) {
    let full = b"429496729512";
    let mut t = Vec::new();
    for i in 0..a {
        t.push(if i + b >= a { byte(b'0', b'9') } else { full[i as usize] });
    }
    let mut n: u64 = 0;
    for c in &t {
        n = n * 10 + (*c - b'0') as u64;
    }
    let q = flag();
    let mut s = b"Table t {\n a ".to_vec();
    s.extend_from_slice(if q { b"\"some type[" } else { b"int[" });
    s.extend_from_slice(&t);
    s.extend_from_slice(if q { b"]\"[][7]\n}" } else { b"][][7]\n}" });
    doc(&s);
    match unchecked(&s) {
        None => {
            cover(2);
            check(n > u32::MAX as u64, 118)
        }
        Some(x) => {
            cover(1);
            let tb = x.tables();
            let d = &tb[0].cols[0].r#type.arrays;
            check(n <= u32::MAX as u64 && d.len() == 3 && d[0] == Some(n as u32) && d[1].is_none() && d[2] == Some(7), 119);
        }
    }
}

// ---------------------------------------------------------------- C11
fn endpoint(k: u32) -> End {
    match k {
        0 => End { s: None, t: n1("t"), c: vec![n1("c")], paren: false },
        1 => End { s: Some(n1("s")), t: n1("t"), c: vec![n1("c")], paren: false },
        2 => End { s: None, t: n1("t"), c: vec![n1("c"), n1("d")], paren: true },
        3 => End { s: Some(n1("s")), t: n1("t"), c: vec![n1("c"), n1("d"), n1("e")], paren: true },
        4 => End { s: None, t: n1("t"), c: vec![n1("c")], paren: true },
        _ => End { s: Some(nq("a b")), t: nq("c.d"), c: vec![nq("(e)"), nq("f,g")], paren: true },
    }
}
/// a: 0 short, 1 block, 2 inline; b: 0 endpoints, 1 settings
pub fn references(a: u64, b: u64) {
    let r = pick(4);
    let acts = ["no action", "cascade", "restrict", "set null", "set default"];
    let d = if a == 2 {
        let e = endpoint(pick(6));
        let mut s = vec![Set::Ref(r, e)];
        if flag() {
            s.insert(0, sa("null"));
        }
        if flag() {
            s.push(Set::Ref(pick(4), endpoint(pick(2))));
        }
        let t = tab("t", vec![Col { n: nm("x"), t: ty("int"), set: Some(s) }]);
        vec![Decl::T(t)]
    } else {
        let mut x = if b == 0 { rf(endpoint(pick(6)), r, endpoint(pick(6))) } else { rf(endpoint(0), r, endpoint(1)) };
        x.block = a == 1;
        x.n = match pick(3) {
            0 => None,
            1 => Some(n1("r")),
            _ => Some(nq("a name")),
        };
        if b == 1 {
            let act = |k: &str| at(k, Some(bare(acts[pick(5) as usize])));
            x.set = match pick(7) {
                0 => None,
                1 => Some(vec![act("delete")]),
                2 => Some(vec![act("update")]),
                3 => Some(vec![act("delete"), act("update")]),
                4 => Some(vec![act("update"), act("delete")]),
                5 => Some(vec![at("color", Some(s1("x"))), act("update"), at("deleted", Some(bare("cascade"))), at("on update", Some(bare("restrict")))]),
                _ => Some(vec![act("delete"), at("note", Some(Lit::S1(vec![l()])))]),
            };
        }
        vec![Decl::R(x), Decl::N(Note { form: 0, l: s1("n") })]
    };
    let mut w = W::new();
    let want = decls(&mut w, &d);
    cover(1);
    expect(&w, &want, 120);
}
/// the three forms of one relation have the same endpoints and cardinality
pub fn same_forms(_a: u64, _b: u64) {
    let r = pick(4);
    let (t, c) = (n1("t"), n1("c"));
    let e = endpoint(pick(2));
    let left = End { s: None, t: t.clone(), c: vec![c.clone()], paren: false };
    let mut tb = tab("x", vec![Col { n: c, t: ty("int"), set: Some(vec![Set::Ref(r, e.clone())]) }]);
    tb.n = t;
    let mut b = rf(left.clone(), r, e.clone());
    b.block = true;
    let mut w = W::new();
    decls(&mut w, &[Decl::T(tb), Decl::R(rf(left, r, e)), Decl::R(b)]);
    doc(&w.s);
    let x = match unchecked(&w.s) {
        None => return check(false, 123),
        Some(x) => x,
    };
    let rs = x.refs();
    let ts = x.tables();
    check(rs.len() == 2 && ts.len() == 1, 124);
    let i = &ts[0].cols[0].settings.as_ref().unwrap().refs[0];
    let same = |p: &RefIdent, q: &RefIdent| {
        let eq = |a: &Ident, b: &Ident| a.to_string.len() == b.to_string.len() && a.to_string == b.to_string;
        let sch = match (&p.schema, &q.schema) {
            (None, None) => true,
            (Some(a), Some(b)) => eq(a, b),
            _ => false,
        };
        sch && eq(&p.table, &q.table) && p.compositions.len() == q.compositions.len() && p.compositions.iter().zip(q.compositions.iter()).all(|(a, b)| eq(a, b))
    };
    check(rs[0].rel == rs[1].rel && rs[0].rel == i.rel && i.rel == rel_of(r), 125);
    check(same(&rs[0].lhs, &rs[1].lhs) && same(&rs[0].rhs, &rs[1].rhs) && same(&rs[0].rhs, &i.rhs), 126);
    check(ts[0].ident.name.to_string == rs[0].lhs.table.to_string && ts[0].cols[0].name.to_string == rs[0].lhs.compositions[0].to_string, 127);
}

// ---------------------------------------------------------------- C12
fn idx_set(i: u32) -> At {
    match i {
        0 => at("pk", None),
        1 => at("unique", None),
        2 => at("type", Some(bare(["btree", "gin", "gist", "hash"][pick(4) as usize]))),
        3 => at("name", Some(Lit::S1(vec![l()]))),
        4 => at("note", Some(Lit::Dq(vec![l()]))),
        5 => at("type", Some(s1("gist"))),
        6 => at(["primary key", "Unique", "types", "named"][pick(4) as usize], None),
        _ => at("name", Some(bare("a name"))),
    }
}
/// a: number of definitions; b: number of settings of the last
pub fn index_defs(a: u64, b: u64) {
    let mut v = Vec::new();
    for i in 0..a {
        let c = |k: u32| match k {
            0 => Ix::C(nb(&[b'c', l()])),
            1 => Ix::E(vec![l(), b'*', byte(b'0', b'9')]),
            _ => Ix::C(nq("a col")),
        };
        let mut x = match pick(5) {
            0 => IxDef { c: vec![c(0)], paren: false, set: None },
            1 => IxDef { c: vec![c(1)], paren: false, set: None },
            2 => IxDef { c: vec![c(pick(3)), c(pick(3))], paren: true, set: None },
            3 => IxDef { c: vec![], paren: true, set: None },
            _ => IxDef { c: vec![c(0), c(1), c(2)], paren: true, set: None },
        };
        if i + 1 == a {
            if b > 0 {
                x.set = Some((0..b).map(|_| idx_set(pick(8))).collect());
            }
        } else if flag() {
            x.set = Some(vec![idx_set(pick(2)), idx_set(3)]);
        }
        v.push(x);
    }
    let mut t = tab("t", vec![col("c", "int")]);
    t.m.push(Member::I(v));
    t.m.push(Member::C(col("d", "int")));
    let mut w = W::new();
    let want = decls(&mut w, &[Decl::T(t)]);
    cover(1);
    expect(&w, &want, 130);
}

// ---------------------------------------------------------------- notes, properties and settings of everything but columns
fn any_value(k: u32) -> Option<Lit> {
    Some(match k {
        0 => return None,
        1 => Lit::S1(vec![l(), b' ', b'"']),
        2 => Lit::S3(vec![l(), b'\'', b'\n']),
        3 => Lit::Bt(vec![l(), b'\'']),
        4 => {
            let c = byte(b'1', b'9');
            Lit::Raw(vec![c], Value::Integer((c - b'0') as i64))
        }
        5 => lraw("10.25", Value::Decimal(10.25)),
        6 => lraw("true", Value::Bool(true)),
        7 => lraw("null", Value::Null),
        8 => lraw("#a0B1c2", Value::HexColor("#a0B1c2".to_string())),
        9 => {
            // not the beginning of a word with a meaning
            let t = vec![b'x', l(), b' ', l()];
            Lit::Raw(t.clone(), Value::Enum(own(&t)))
        }
        10 => lraw("false", Value::Bool(false)),
        11 => Lit::Dq(vec![l(), b' ', b'\'']),
        12 => Lit::S1(vec![]),
        13 => Lit::Bt(vec![]),
        14 => Lit::Dq(vec![]),
        15 => Lit::S3(vec![]),
        16 => lraw("0", Value::Integer(0)),
        _ => lraw("9223372036854775807", Value::Integer(i64::MAX)),
    })
}
/// a: position, b: unused; both parsers on every kind of value at every position
pub fn value_any(a: u64, b: u64) {
    let _ = b;
    let x = any_value(1 + pick(17)).unwrap();
    let mut d = match a {
        0..=13 => literal_doc(a, x),
        14 => vec![Decl::P(Pr { n: nm("p"), m: vec![Ok((b"database_type".to_vec(), x))] })],
        15 => {
            let mut t = tab("t", vec![col("y", "int")]);
            t.m.push(Member::I(vec![ix(&["y"], Some(vec![at(["type", "pk", "name", "note", "unique", "other"][pick(6) as usize], Some(x))]))]));
            vec![Decl::P(pr("p")), Decl::T(t)]
        }
        16 | 17 => {
            let mut r = rf(end("t", "y"), 1, end("t", "y"));
            r.set = Some(vec![at(if a == 16 { "update" } else { "delete" }, Some(x))]);
            vec![Decl::P(pr("p")), Decl::T(tab("t", vec![cols("y", "int", vec![sa("unique")])])), Decl::R(r)]
        }
        _ => vec![Decl::P(pr("p")), Decl::T(tab("t", vec![cols("y", "int", vec![Set::A((["pk", "unique", "null", "increment"][pick(4) as usize].as_bytes().to_vec(), Some(x)))])]))],
    };
    if flag() {
        d.push(Decl::N(Note { form: 0, l: s1("zz") }));
    }
    let mut w = W::new();
    decls(&mut w, &d);
    doc(&w.s);
    cover(if dbml_rs::parse_dbml_unchecked(w.text()).is_ok() { 1 } else { 2 });
    cover(if dbml_rs::parse_dbml(w.text()).is_ok() { 3 } else { 4 });
}
/// a: 0 table, 1 enum value, 2 group, 3 index, 4 reference, 5 project; b: how many settings
pub fn settings_of(a: u64, b: u64) {
    // every spelling only where the setting stands alone
    let pick1 = |n: u32| if b == 1 { pick(n) } else { 0 };
    let word = |i: u32| -> Vec<u8> {
        match i {
            0 => b"note".to_vec(),
            1 => vec![b'k', l()],
            2 => [&b"Note"[..], b"notes", b"my note", b"headercolor", b"NAME", b"default", b"ref", b"not null", b"database_type ", b"a_b c9"][pick1(10) as usize].trim_ascii_end().to_vec(),
            // keys with a meaning elsewhere only
            3 if a == 3 => b"name".to_vec(),
            3 if a == 4 => [&b"unique"[..], b"type", b"updates", b"on delete"][pick1(4) as usize].to_vec(),
            3 if a == 5 => b"database_type".to_vec(),
            _ => [&b"name"[..], b"type", b"pk", b"unique", b"delete", b"update"][if a == 3 { 0 } else { pick1(6) } as usize].to_vec(),
        }
    };
    let mut d = vec![];
    if a == 5 {
        let mut p = pr("p");
        for i in 0..b {
            if pick(6) == 5 {
                p.m.push(Err(Note { form: pick(2), l: any_value(1 + pick(2)).unwrap() }));
            } else {
                let k = word(pick(4));
                // a property cannot be in double quotes, and a note is not a property
                let v = any_value(if i == 0 { [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 17][pick(15) as usize] } else { 1 + pick(3) * 3 }).unwrap();
                assume(!k.eq_ignore_ascii_case(b"note") || !matches!(v, Lit::S1(_) | Lit::S3(_)));
                p.m.push(Ok((k, v)));
            }
        }
        d.push(Decl::P(p));
    } else {
        let mut s: Vec<At> = Vec::new();
        for i in 0..b {
            let k = word(pick(4));
            s.push((k, any_value(if i == 0 { pick(18) } else { [0, 1, 9, 11][pick(4) as usize] })));
        }
        let mut t = tab("t", vec![col("c", "int")]);
        match a {
            0 => t.set = Some(s.clone()),
            3 => t.m.push(Member::I(vec![ix(&["c"], None), ix(&["c", "d"], Some(s.clone())), ix(&["d"], Some(vec![at("note", Some(s1("other")))]))])),
            _ => {}
        }
        d.push(Decl::T(t));
        match a {
            1 => {
                let mut e = en("e", &["u", "v", "w"]);
                e.v[0].1 = Some(vec![at("note", Some(s1("other")))]);
                e.v[1].1 = Some(s);
                d.push(Decl::E(e));
            }
            2 => {
                let mut g = gr("g", &["t", "u"]);
                g.set = Some(s);
                g.items.push(Err(Note { form: pick(2), l: s1("gn") }));
                d.push(Decl::G(g));
            }
            4 => {
                let mut r = rf(end("t", "c"), 1, end("u", "c"));
                r.block = flag();
                r.set = Some(s);
                d.push(Decl::R(r));
            }
            _ => {}
        }
    }
    d.push(Decl::T(tab("after", vec![cols("a", "int", vec![sv("note", s1("an"))])])));
    let mut w = W::new();
    let want = decls(&mut w, &d);
    cover(1);
    expect(&w, &want, 86);
}

// ---------------------------------------------------------------- conversions between texts and the public types
fn known_as(w: &[&[u8]], t: &[u8]) -> Option<usize> {
    w.iter().position(|x| x.len() == t.len() && *x == t)
}
/// a text near one of the words: itself, one character replaced, dropped, inserted, or in the other case
fn near(w: &[&[u8]]) -> Vec<u8> {
    let x = w[pick(w.len() as u32) as usize];
    let mut t = x.to_vec();
    match pick(5) {
        0 => {}
        1 => {
            let p = pick(t.len() as u32) as usize;
            t[p] = byte(0x20, 0x7e);
        }
        2 => {
            t.remove(pick(x.len() as u32) as usize);
        }
        3 => t.insert(pick(x.len() as u32 + 1) as usize, byte(0x20, 0x7e)),
        _ => {
            let p = pick(t.len() as u32) as usize;
            t[p] ^= 0x20;
        }
    }
    // texts are ASCII
    for b in &t {
        assume(*b < 128);
    }
    t
}
/// a: the type; b: letters of a free text (0: a text near a known word)
pub fn conversions(a: u64, b: u64) {
    use core::str::FromStr;
    let free = || {
        let mut t = Vec::new();
        for _ in 0..b {
            t.push(byte(0, 127));
        }
        t
    };
    let get = |w: &[&[u8]]| if b == 0 { near(w) } else { free() };
    match a {
        0 => {
            let w: [&[u8]; 4] = [b"<", b">", b"-", b"<>"];
            let t = get(&w);
            doc(&t);
            let got = Relation::from_str(st(&t)).ok();
            let want = known_as(&w, &t).map(|i| rel_of(i as u32));
            cover(if want.is_some() { 1 } else { 2 });
            check(got == want, 90);
        }
        1 => {
            let w: [&[u8]; 5] = [b"no action", b"cascade", b"restrict", b"set null", b"set default"];
            let t = get(&w);
            doc(&t);
            let want = known_as(&w, &t);
            cover(if want.is_some() { 1 } else { 2 });
            match ReferentialAction::from_str(st(&t)) {
                Err(_) => check(want.is_none(), 91),
                Ok(x) => {
                    let i = match x {
                        ReferentialAction::NoAction => 0,
                        ReferentialAction::Cascade => 1,
                        ReferentialAction::Restrict => 2,
                        ReferentialAction::SetNull => 3,
                        ReferentialAction::SetDefault => 4,
                    };
                    check(want == Some(i), 91);
                    check(x.to_string().as_bytes() == &t[..], 92);
                }
            }
        }
        2 => {
            let w: [&[u8]; 4] = [b"btree", b"gin", b"gist", b"hash"];
            let t = get(&w);
            doc(&t);
            let got = IndexesType::from_str(st(&t)).ok();
            let want = known_as(&w, &t).map(|i| [IndexesType::BTree, IndexesType::Gin, IndexesType::Gist, IndexesType::Hash][i].clone());
            cover(if want.is_some() { 1 } else { 2 });
            check(got == want, 93);
        }
        3 => {
            let w: [&[u8]; 1] = [b"PostgreSQL"];
            let t = get(&w);
            doc(&t);
            let known = known_as(&w, &t).is_some();
            cover(if known { 1 } else { 2 });
            match DatabaseType::from_str(st(&t)) {
                Ok(DatabaseType::PostgreSQL) => check(known, 94),
                Ok(DatabaseType::Unknown(x)) => check(!known && x.as_bytes() == &t[..], 94),
                Err(_) => check(false, 94),
            }
        }
        4 => {
            let w: [&[u8]; 3] = [b"true", b"false", b"null"];
            let t = get(&w);
            doc(&t);
            let want = known_as(&w, &t).map(|i| [Value::Bool(true), Value::Bool(false), Value::Null][i].clone());
            cover(if want.is_some() { 1 } else { 2 });
            check(Value::from_str(st(&t)).ok() == want, 95);
            if let Some(v) = want {
                check(v.to_string().as_bytes() == &t[..], 96);
            }
        }
        5 => {
            // the names of types
            use super::cases::{type_of, TYPES};
            let names: Vec<&[u8]> = TYPES.iter().map(|x| x.0.as_bytes()).collect();
            let t = get(&names);
            doc(&t);
            let want = known_as(&names, &t).map(|i| type_of(TYPES[i].1));
            cover(if want.is_some() { 1 } else { 2 });
            check(ColumnTypeName::from_str(st(&t)).ok() == want, 97);
        }
        6 => {
            // texts of values
            let mut t: Vec<u8> = free();
            for b in &t {
                assume(*b < 128);
            }
            if flag() {
                t.extend_from_slice("\u{e9}\u{1F600}".as_bytes());
            }
            doc(&t);
            let s = own(&t);
            let v = match pick(4) {
                0 => Value::Enum(s),
                1 => Value::String(s),
                2 => Value::HexColor(s),
                _ => Value::Expr(s),
            };
            cover(1);
            check(v.to_string().as_bytes() == &t[..], 98);
        }
        7 if b == 0 => {
            let (v, t) = match pick(14) {
                0 => (Value::Integer(0), "0"),
                1 => (Value::Integer(-1), "-1"),
                2 => (Value::Integer(i64::MAX), "9223372036854775807"),
                3 => (Value::Integer(i64::MIN), "-9223372036854775808"),
                4 => (Value::Integer(1000), "1000"),
                5 => (Value::Integer(65536), "65536"),
                6 => (Value::Integer(4294967296), "4294967296"),
                7 => (Value::Decimal(1.5), "1.5"),
                8 => (Value::Decimal(10.0), "10"),
                9 => (Value::Decimal(0.1), "0.1"),
                10 => (Value::Decimal(123456.75), "123456.75"),
                11 => (Value::Bool(true), "true"),
                12 => (Value::Bool(false), "false"),
                _ => (Value::Null, "null"),
            };
            doc(t.as_bytes());
            cover(1);
            check(v.to_string() == t, 99);
        }
        _ => {
            // numbers in their shortest decimal notation
            let mut n = 0i64;
            let mut t = Vec::new();
            for i in 0..b {
                let c = byte(if i == 0 { b'1' } else { b'0' }, b'9');
                t.push(c);
                n = n * 10 + (c - b'0') as i64;
            }
            if flag() {
                n = -n;
                t.insert(0, b'-');
            }
            doc(&t);
            cover(1);
            check(Value::Integer(n).to_string().as_bytes() == &t[..], 99);
        }
    }
}

// ---------------------------------------------------------------- C13: words with a closed set of values
/// a: 0 index type, 1 referential action; b: letters
pub fn closed_word(a: u64, b: u64) {
    let mut k: Vec<u8> = Vec::new();
    let base: &[&str] = if a == 0 { &["btree", "gin", "gist", "hash"] } else { &["no action", "cascade", "restrict", "set null", "set default"] };
    if b < 8 {
        for i in 0..b {
            k.push(if i == 0 { l() } else { byte(b' ', b'z') });
        }
        for x in k.iter().skip(1) {
            let x = *x;
            assume(((x >= b'a') & (x <= b'z')) | ((x >= b'A') & (x <= b'Z')));
        }
    } else {
        // a known word with one character replaced, dropped, or added
        let w = base[pick(base.len() as u32) as usize].as_bytes();
        let p = pick(w.len() as u32) as usize;
        k.extend_from_slice(&w[..p]);
        match pick(3) {
            0 => {
                k.push(if flag() { l() } else { byte(b'A', b'Z') });
                k.extend_from_slice(&w[p + 1..]);
            }
            1 => k.extend_from_slice(&w[p + 1..]),
            _ => {
                k.push(l());
                k.extend_from_slice(&w[p..]);
            }
        }
        // blanks stand alone between words
        assume(k.len() > 0 && k[0] != b' ' && k[k.len() - 1] != b' ');
        for i in 1..k.len() {
            assume(!(k[i] == b' ' && k[i - 1] == b' '));
        }
    }
    let mut known = false;
    for x in base {
        if x.len() == k.len() && x.as_bytes() == k {
            known = true;
        }
    }
    let mut s = Vec::new();
    if a == 0 {
        s.extend_from_slice(b"Table t {\n c int\n indexes {\n c [type: ");
        s.extend_from_slice(&k);
        s.extend_from_slice(b"]\n }\n}\n");
    } else {
        s.extend_from_slice(if flag() { b"Ref: a.b > c.d [update: " } else { b"Ref: a.b > c.d [delete: " });
        s.extend_from_slice(&k);
        s.extend_from_slice(b"]\n");
    }
    doc(&s);
    let ok = unchecked(&s).is_some();
    cover(if ok { 1 } else { 2 });
    check(ok == known, 64);
}

// ---------------------------------------------------------------- many of a kind
/// a: what is repeated, b: how often; one of them, at any place, is not like the others
pub fn big(a: u64, b: u64) {
    let n = b as usize;
    let odd = pick(b as u32) as usize;
    let two = |c: u8| nb(&[c, l(), l()]);
    let d = match a {
        // columns
        0 => {
            let mut t = tab("t", vec![]);
            for i in 0..n {
                let c = if i == odd {
                    Col { n: Nm { q: true, b: vec![l(), b' ', l()] }, t: Ty { arrays: vec![None], args: Some(vec![int(7)]), ..tyb(&[l(), l()]) }, set: Some(vec![sa("unique"), sv("note", Lit::S1(vec![l()])), sa("null")]) }
                } else {
                    Col { n: two(b'c'), t: ty("int"), set: None }
                };
                t.m.push(Member::C(c));
            }
            Decl::T(t)
        }
        // enum values
        1 => {
            let mut e = en("e", &[]);
            for i in 0..n {
                e.v.push(if i == odd { (Nm { q: true, b: vec![l(), b'.', l()] }, Some(vec![at("k", None), at("note", Some(Lit::S1(vec![l()])))])) } else { (two(b'v'), None) });
            }
            Decl::E(e)
        }
        // group items
        2 => {
            let mut g = gr("g", &[]);
            for i in 0..n {
                g.items.push(if i == odd { Ok((Some(Nm { q: true, b: vec![l(), b' '] }), Nm { q: true, b: vec![l(), b'.', l()] })) } else { Ok((None, two(b't'))) });
            }
            Decl::G(g)
        }
        // properties
        3 => {
            let mut p = pr("p");
            for i in 0..n {
                p.m.push(if i == odd { Ok((vec![b'k', b' ', l()], Lit::S3(vec![b'\'', l()]))) } else { Ok((vec![b'k', l(), l()], Lit::S1(vec![l()]))) });
            }
            Decl::P(p)
        }
        // column settings
        4 => {
            let s = (0..n).map(|i| if i == odd { sv("default", Lit::Bt(vec![l(), l()])) } else { Set::A((vec![b'k', l(), l()], Some(Lit::S1(vec![l()])))) }).collect();
            Decl::T(tab("t", vec![cols("c", "int", s), col("d", "int")]))
        }
        // columns of an index
        5 => {
            let c = (0..n).map(|i| if i == odd { Ix::E(vec![l(), b'(', b')']) } else { Ix::C(two(b'c')) }).collect();
            let mut t = tab("t", vec![col("c", "int")]);
            t.m.push(Member::I(vec![IxDef { c, paren: true, set: Some(vec![at("unique", None)]) }]));
            Decl::T(t)
        }
        // index definitions
        6 => {
            let v = (0..n).map(|i| if i == odd { IxDef { c: vec![Ix::C(two(b'c')), Ix::E(vec![l()])], paren: true, set: Some(vec![at("pk", None), at("name", Some(Lit::S1(vec![l()])))]) } } else { IxDef { c: vec![Ix::C(two(b'd'))], paren: false, set: None } }).collect();
            let mut t = tab("t", vec![col("c", "int")]);
            t.m.push(Member::I(v));
            Decl::T(t)
        }
        // settings of a table, a value, a group, an index, a reference
        7 => {
            let s: Vec<At> = (0..n).map(|i| if i == odd { at("note", Some(Lit::Dq(vec![l(), l()]))) } else { (vec![b'k', l(), l()], if i % 2 == 0 { None } else { Some(bare("v w")) }) }).collect();
            let mut t = tab("t", vec![col("c", "int")]);
            match pick(5) {
                0 => {
                    t.set = Some(s);
                    Decl::T(t)
                }
                1 => {
                    let mut e = en("e", &["v"]);
                    e.v.push((nm("w"), Some(s)));
                    Decl::E(e)
                }
                2 => {
                    let mut g = gr("g", &["t"]);
                    g.set = Some(s);
                    Decl::G(g)
                }
                3 => {
                    t.m.push(Member::I(vec![ix(&["c"], Some(s))]));
                    Decl::T(t)
                }
                _ => {
                    let mut r = rf(end("t", "c"), 1, end("u", "c"));
                    r.set = Some(s);
                    Decl::R(r)
                }
            }
        }
        // columns of a reference
        8 => {
            let mut c = || (0..n).map(|i| if i == odd { Nm { q: true, b: vec![l(), b',', l()] } } else { two(b'c') }).collect::<Vec<Nm>>();
            let (x, y) = (c(), c());
            let e = |c| End { s: Some(n1("s")), t: n1("t"), c, paren: true };
            if flag() {
                Decl::R(rf(e(x), pick(4), e(y)))
            } else {
                Decl::T(tab("t", vec![cols("c", "int", vec![Set::Ref(pick(4), e(y))])]))
            }
        }
        // inline references of a column
        9 => {
            let s = (0..n).map(|i| Set::Ref(if i == odd { 3 } else { 1 }, End { s: if i == odd { Some(n1("s")) } else { None }, t: n1("t"), c: vec![n1("c")], paren: false })).collect();
            Decl::T(tab("t", vec![cols("c", "int", s), col("d", "int")]))
        }
        // arguments of a type
        10 => {
            let mut c = col("c", "foo");
            c.t.args = Some((0..n).map(|i| if i == odd { Lit::S1(vec![l(), b',', l()]) } else { let c = byte(b'0', b'9'); Lit::Raw(vec![c], Value::Integer((c - b'0') as i64)) }).collect());
            Decl::T(tab("t", vec![c, col("d", "int")]))
        }
        // dimensions of a type
        _ => {
            let mut c = col("c", "foo");
            c.t.arrays = (0..n).map(|i| if i == odd { Some(pick(3)) } else { None }).collect();
            Decl::T(tab("t", vec![c, col("d", "int")]))
        }
    };
    let d = [Decl::E(en("before", &["x"])), d, Decl::T(tab("after", vec![col("a", "int")]))];
    let mut w = W::new();
    let want = decls(&mut w, &d);
    cover(1);
    expect(&w, &want, 106);
}
/// b declarations of kind a (6: all kinds in turn), one at any place of another kind
pub fn big_sequence(a: u64, b: u64) {
    let odd = pick(b as u32) as u64;
    let other = pick(7);
    let d: Vec<Decl> = (0..b).map(|i| one(if i == odd { other } else if a == 7 { i as u32 % 7 } else { a as u32 }, b'0' + (i % 2) as u8)).collect();
    sequence_of(&d);
}
