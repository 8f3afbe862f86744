//! Semantic scenarios: families of documents with the verdict the language rules demand, and how a scenario is judged.
use super::gen::*;
use super::sys::*;
use pest::error::{ErrorVariant, InputLocation};

/// where an error may be reported
#[derive(Clone, Copy)]
pub enum Loc {
    Doc,
    D(usize),
    Col(usize, usize),
    Val(usize, usize),
    Idx(usize, usize),
    Item(usize, usize),
    /// an endpoint of a reference, false: the left one
    End(usize, bool),
}
/// a rule the document breaks: the beginning of the message, words the message must contain, and the culprits
#[derive(Clone)]
pub struct V {
    pub m: &'static str,
    pub w: Vec<Vec<u8>>,
    pub at: Vec<Loc>,
}
pub fn v(m: &'static str, at: &[Loc]) -> V {
    V { m, w: Vec::new(), at: at.to_vec() }
}
pub fn vw(m: &'static str, w: &[&[u8]], at: &[Loc]) -> V {
    V { m, w: w.iter().map(|x| x.to_vec()).collect(), at: at.to_vec() }
}
pub struct Case {
    pub d: Vec<Decl>,
    pub v: Vec<V>,
}
pub const OK: u32 = 1;
pub const BAD: u32 = 2;

pub const DUP_ATTR: &str = "Duplicate attribute key";
pub const DUP_PROP: &str = "Duplicate property key";
pub const DUP_PROJ: &str = "Duplicate project setting";
pub const NO_PROJ: &str = "Project setting not found";
pub const DUP_PK: &str = "Duplicate primary key";
pub const DUP_UNIQ: &str = "Duplicate unique key";
pub const DUP_IDX: &str = "Duplicate index key";
pub const DUP_TABLE: &str = "Duplicate table name";
pub const DUP_COL: &str = "Duplicate column name";
pub const DUP_ENUM: &str = "Duplicate enum name";
pub const DUP_EVAL: &str = "Duplicate enum value";
pub const DUP_GROUP: &str = "Duplicate table group name";
pub const DUP_ITEM: &str = "Duplicate table group item";
pub const DUP_ALIAS: &str = "Duplicate alias";
pub const CONFLICT: &str = "Conflict relation";
pub const NULL_PK: &str = "Nullable primary key";
pub const ARR_PK: &str = "Array primary key";
pub const BAD_IDX: &str = "Invalid indexes setting";
pub const NULL_CONF: &str = "Conflict nullable setting";
pub const EMPTY_IDX: &str = "Empty indexes block";
pub const BAD_ARGN: &str = "Invalid data type arguments";
pub const BAD_ARG: &str = "Invalid argument value";
pub const BAD_DEF: &str = "Invalid default value";
pub const DEF_NULL: &str = "Default null in non-nullable";
pub const EXCEED: &str = "Data type exceeded";
pub const NO_SCHEMA: &str = "Schema not found";
pub const NO_TABLE: &str = "Table not found";
pub const NO_COL: &str = "Column not found";
pub const NO_ENUM: &str = "Enum not found";
pub const NO_EVAL: &str = "Enum value not found";
pub const FK_TYPE: &str = "Mismatched foreign key type";
pub const FK_KEY: &str = "Invalid foreign key";
pub const FK_LEN: &str = "Mismatched composite foreign key";

/// how a scenario is judged
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// the verdict
    Verdict,
    /// the verdict after reordering declarations, columns, values, index definitions, sides
    Order,
    /// the verdict after respelling names
    Spell,
    /// message and location of the error
    Error,
    /// the checked tree equals the unchecked tree
    Same,
    /// the relation query
    Query,
    /// the verdict after an injective renaming
    Rename,
    /// the verdict after adding unrelated declarations and members
    Pad,
    PadMore,
    /// the verdict with layout at every place, or keywords in any case
    Layout,
    /// the error can be printed and has a true position
    Shown,
    /// both parsers come back
    Run,
    /// the same with names of dots, and of characters outside ASCII
    RunNamed,
}

/// a symbolic lower-case letter
pub fn l() -> u8 {
    byte(b'a', b'z')
}
/// a name with one symbolic letter
pub fn n1(p: &str) -> Nm {
    let mut b = p.as_bytes().to_vec();
    b.push(l());
    nb(&b)
}
/// one of the letters of `set`
pub fn of(lo: u8, hi: u8) -> Nm {
    nb(&[byte(lo, hi)])
}
#[inline(never)]
pub fn same(a: &Nm, b: &Nm) -> bool {
    a.b.len() == b.b.len() && a.b == b.b
}
#[inline(never)]
pub fn same_schema(a: &Option<Nm>, b: &Option<Nm>) -> bool {
    let d: &[u8] = b"public";
    let x = match a {
        Some(a) => &a.b[..],
        None => d,
    };
    let y = match b {
        Some(b) => &b.b[..],
        None => d,
    };
    x.len() == y.len() && x == y
}

fn contains(r: &core::ops::Range<usize>, a: usize, b: usize) -> bool {
    r.start <= a && b <= r.end
}
fn inside(e: &[TopLevelBlock], at: &Loc, n: usize, a: usize, b: usize) -> bool {
    let whole = |i: usize| match &e[i] {
        TopLevelBlock::Project(x) => x.span_range.clone(),
        TopLevelBlock::Table(x) => x.span_range.clone(),
        TopLevelBlock::TableGroup(x) => x.span_range.clone(),
        TopLevelBlock::Note(x) => x.span_range.clone(),
        TopLevelBlock::Ref(x) => x.span_range.clone(),
        TopLevelBlock::Enum(x) => x.span_range.clone(),
    };
    match *at {
        Loc::Doc => b <= n,
        Loc::D(i) => contains(&whole(i), a, b),
        Loc::Col(i, j) => match &e[i] {
            TopLevelBlock::Table(t) => contains(&t.cols[j].span_range, a, b),
            _ => false,
        },
        Loc::Val(i, j) => match &e[i] {
            TopLevelBlock::Enum(t) => contains(&t.values[j].span_range, a, b),
            _ => false,
        },
        Loc::Idx(i, j) => match &e[i] {
            TopLevelBlock::Table(t) => contains(&t.indexes.as_ref().unwrap().defs[j].span_range, a, b),
            _ => false,
        },
        Loc::End(i, right) => match &e[i] {
            TopLevelBlock::Ref(x) => contains(if right { &x.rhs.span_range } else { &x.lhs.span_range }, a, b),
            _ => false,
        },
        Loc::Item(i, j) => match &e[i] {
            TopLevelBlock::TableGroup(t) => contains(&t.items[j].span_range, a, b),
            _ => false,
        },
    }
}
#[inline(never)]
fn has(hay: &[u8], needle: &[u8]) -> bool {
    if needle.len() > hay.len() {
        return false;
    }
    let mut r = false;
    for i in 0..=hay.len() - needle.len() {
        r = r | (&hay[i..i + needle.len()] == needle);
    }
    r
}

/// reorders the members of tables and enums, and mirrors references
#[inline(never)]
fn shuffle(d: &mut Vec<Decl>, how: u32) {
    match how {
        0 => d.reverse(),
        1 => d.rotate_left(1),
        2 => d.rotate_right(1),
        3 => {
            let n = d.len();
            if n > 2 {
                d.swap(n - 1, n - 2)
            } else {
                d.reverse()
            }
        }
        4 => {
            for x in d.iter_mut() {
                match x {
                    Decl::T(t) => {
                        t.m.reverse();
                        for m in t.m.iter_mut() {
                            if let Member::I(i) = m {
                                i.reverse()
                            }
                        }
                    }
                    Decl::E(e) => e.v.reverse(),
                    Decl::G(g) => g.items.reverse(),
                    _ => {}
                }
            }
        }
        _ => {
            for x in d.iter_mut() {
                if let Decl::R(r) = x {
                    core::mem::swap(&mut r.l, &mut r.rr);
                    r.r = rel_flip(r.r);
                }
            }
        }
    }
}
fn table_of<'a>(d: &'a [Decl], e: &End) -> Option<&'a Tab> {
    for x in d {
        if let Decl::T(t) = x {
            if same(&t.n, &e.t) && same_schema(&t.s, &e.s) {
                return Some(t);
            }
        }
    }
    None
}
fn respell_end(d: &[Decl], e: &mut End, how: u32) {
    match how {
        1 => {
            // a missing schema means public, unless the name is an alias
            if e.s.is_none() && table_of(d, e).is_some() {
                e.s = Some(nm("public"));
            }
        }
        2 => {
            if let Some(t) = table_of(d, e) {
                let shadowed = |a: &Nm| d.iter().any(|x| matches!(x, Decl::T(t) if same(&t.n, a) && same_schema(&t.s, &None)));
                if let Some(a) = t.alias.as_ref().filter(|a| !shadowed(a)) {
                    e.t = a.clone();
                    e.s = None;
                }
            }
        }
        _ => {}
    }
}
/// 0: quote every name; 1: spell out public; 2: use aliases; 3: quote and spell out
#[inline(never)]
fn respell(d: &mut Vec<Decl>, how: u32) {
    let old = d.clone();
    for x in d.iter_mut() {
        match x {
            Decl::T(t) => {
                if how == 1 && t.s.is_none() {
                    t.s = Some(nm("public"));
                }
                for m in t.m.iter_mut() {
                    if let Member::C(c) = m {
                        if let Some(s) = &mut c.set {
                            for y in s.iter_mut() {
                                if let Set::Ref(_, e) = y {
                                    respell_end(&old, e, how)
                                }
                            }
                        }
                        if how == 1 && c.t.schema.is_none() && !c.t.q {
                            for y in old.iter() {
                                if let Decl::E(e) = y {
                                    if e.s.is_none() && e.n.b.len() == c.t.name.len() && e.n.b == c.t.name {
                                        c.t.schema = Some(nm("public"));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Decl::R(r) => {
                respell_end(&old, &mut r.l, how);
                respell_end(&old, &mut r.rr, how);
            }
            Decl::E(e) => {
                if how == 1 && e.s.is_none() {
                    e.s = Some(nm("public"));
                }
            }
            Decl::G(g) => {
                for i in g.items.iter_mut() {
                    if let Ok((s, n)) = i {
                        let mut e = End { s: s.clone(), t: n.clone(), c: Vec::new(), paren: false };
                        respell_end(&old, &mut e, how);
                        *s = e.s;
                        *n = e.t;
                    }
                }
            }
            _ => {}
        }
    }
}

/// an injective map on names; 0: the case of half of the letters, 1: punctuation and digits, 2: control characters
/// and blanks, 3: a long prefix, 4: non-ASCII letters
#[inline(never)]
fn map_name(n: &mut Nm, style: u32) {
    if n.b.len() == 6 && n.b[..] == b"public"[..] {
        return;
    }
    let b = core::mem::take(&mut n.b);
    match style {
        3 => n.b.extend_from_slice(b"a_prefix_that_makes_every_name_longer_than_the_sixty_three_bytes_some_databases_keep_"),
        5 => n.b.push(b'.'),
        _ => {}
    }
    for c in b {
        let low = (c >= b'a') & (c <= b'z');
        let late = low & (c > b'm');
        let pair = if late { c.wrapping_sub(13) } else { c };
        match style {
            // pairs that are told apart by upper and lower case only
            0 => {
                let up = (c >= b'A') & (c <= b'Z');
                let x = if late { pair } else { c.wrapping_sub(0x20) };
                let y = if c <= b'M' { c.wrapping_add(0x2d) } else { c };
                n.b.push(if low { x } else if up { y } else { c });
            }
            1 => n.b.push(c.wrapping_sub(low as u8 * 0x3a)),
            2 => n.b.push(c.wrapping_sub(low as u8 * 0x59)),
            // ... by a dot only
            3 => {
                n.b.push(if c == b'.' { b'~' } else { pair });
                if late {
                    n.b.push(b'.');
                }
            }
            // ... by a blank only
            4 => {
                n.b.push(0xc3);
                n.b.push(0x80 | (pair & 0x3f));
                n.b.push(if c == b' ' { b'~' } else { pair });
                if late {
                    n.b.push(b' ');
                }
            }
            _ => {
                n.b.push(c);
                n.b.push(b'.');
            }
        }
    }
    if style == 0 {
        n.b.extend_from_slice(b"Name");
    }
}
/// renames tables, aliases, columns, schemas, groups, values and references throughout
#[inline(never)]
fn rename(d: &mut Vec<Decl>, style: u32) {
    let end = |e: &mut End| {
        if let Some(s) = &mut e.s {
            map_name(s, style);
        }
        map_name(&mut e.t, style);
        for c in e.c.iter_mut() {
            map_name(c, style);
        }
    };
    let opt = |s: &mut Option<Nm>| {
        if let Some(s) = s {
            map_name(s, style);
        }
    };
    // the values of enums only if no default mentions them
    let mut defaults = false;
    for x in d.iter() {
        if let Decl::T(t) = x {
            for m in &t.m {
                if let Member::C(Col { set: Some(s), .. }) = m {
                    defaults |= s.iter().any(|x| matches!(x, Set::A((k, _)) if &k[..] == b"default"));
                }
            }
        }
    }
    for x in d.iter_mut() {
        match x {
            Decl::P(p) => map_name(&mut p.n, style),
            Decl::T(t) => {
                opt(&mut t.s);
                map_name(&mut t.n, style);
                opt(&mut t.alias);
                for m in t.m.iter_mut() {
                    match m {
                        Member::C(c) => {
                            map_name(&mut c.n, style);
                            opt(&mut c.t.schema);
                            for y in c.set.iter_mut().flatten() {
                                if let Set::Ref(_, e) = y {
                                    end(e)
                                }
                            }
                        }
                        Member::I(v) => {
                            for y in v.iter_mut() {
                                for z in y.c.iter_mut() {
                                    if let Ix::C(n) = z {
                                        map_name(n, style)
                                    }
                                }
                            }
                        }
                        Member::N(_) => {}
                    }
                }
            }
            Decl::E(e) => {
                opt(&mut e.s);
                if !defaults {
                    for y in e.v.iter_mut() {
                        map_name(&mut y.0, style)
                    }
                }
            }
            Decl::R(r) => {
                opt(&mut r.n);
                end(&mut r.l);
                end(&mut r.rr);
            }
            Decl::G(g) => {
                map_name(&mut g.n, style);
                for i in g.items.iter_mut() {
                    if let Ok((s, n)) = i {
                        opt(s);
                        map_name(n, style)
                    }
                }
            }
            Decl::N(_) => {}
        }
    }
}

fn num(p: &str, i: usize) -> Nm {
    let mut b = p.as_bytes().to_vec();
    b.push(b'0' + i as u8);
    nb(&b)
}
/// members with fresh names between the members of every declaration
#[inline(never)]
fn fill(d: &mut Vec<Decl>, n: usize) {
    let mut refs = 0usize;
    for x in d.iter_mut() {
        match x {
            Decl::T(t) => {
                let m = core::mem::take(&mut t.m);
                let mut k = 0;
                for y in m {
                    for _ in 0..n {
                        if k < 10 {
                            t.m.push(Member::C(Col { n: num("zzcol", k), t: ty(["uuid", "text", "zzpad_e0"][k % 3]), set: if k % 2 == 0 { Some(vec![sv("note", s1("zz")), sa("null")]) } else { None } }));
                        }
                        k += 1;
                    }
                    t.m.push(match y {
                        Member::C(mut c) => {
                            // where nothing is said about null, `not null` says nothing new
                            let free = |v: &Vec<Set>| !v.iter().any(|x| matches!(x, Set::A((k, _)) if matches!(&k[..], b"null" | b"not null" | b"default")));
                            if c.set.is_none() {
                                c.set = Some(vec![sa("increment"), sa("not null")]);
                            } else if let Some(v) = &mut c.set {
                                let last = free(v);
                                let had: Vec<Vec<u8>> = v.iter().filter_map(|x| if let Set::A((k, _)) = x { Some(k.clone()) } else { None }).collect();
                                let has = |w: &[u8]| had.iter().any(|k| k.len() == w.len() && &k[..] == w);
                                let mut out = Vec::new();
                                let mut j = 0;
                                for z in core::mem::take(v) {
                                    for _ in 0..n {
                                        if j < 10 {
                                            out.push(match j {
                                                0 if !has(b"increment") => sa("increment"),
                                                2 if !has(b"note") => sv("note", s1("zz")),
                                                _ => Set::A((num("zzkey", j).b, if j % 2 == 0 { Some(s1("zz")) } else { None })),
                                            });
                                        }
                                        j += 1;
                                    }
                                    out.push(z);
                                }
                                if last {
                                    out.push(sa("not null"));
                                }
                                *v = out;
                            }
                            Member::C(c)
                        }
                        Member::I(v) => {
                            let mut out = Vec::new();
                            let mut j = 0;
                            for mut z in v {
                                if let Some(s) = &mut z.set {
                                    more(s, n);
                                }
                                for _ in 0..n {
                                    if j < 10 {
                                        let mut e = b"zzexpr".to_vec();
                                        e.push(b'0' + j);
                                        out.push(IxDef { c: vec![Ix::E(e)], paren: false, set: if j % 2 == 0 { Some(vec![at("name", Some(s1("zz")))]) } else { None } });
                                    }
                                    j += 1;
                                }
                                out.push(z);
                            }
                            Member::I(out)
                        }
                        y => y,
                    });
                }
                if let Some(s) = &mut t.set {
                    more(s, n);
                } else {
                    t.set = Some(vec![at("headercolor", Some(s1("zz"))), at("note", Some(s1("zz")))]);
                }
                if !t.m.iter().any(|m| matches!(m, Member::N(_))) {
                    t.m.push(Member::N(Note { form: 0, l: s1("zz") }));
                }
            }
            Decl::E(e) => {
                let v = core::mem::take(&mut e.v);
                let mut k = 0;
                for mut y in v {
                    for _ in 0..n {
                        if k < 10 {
                            e.v.push((num("zzval", k), None));
                        }
                        k += 1;
                    }
                    if let Some(s) = &mut y.1 {
                        more(s, n);
                    } else {
                        y.1 = Some(vec![at("note", Some(s1("zz")))]);
                    }
                    e.v.push(y);
                }
            }
            Decl::G(g) => {
                let v = core::mem::take(&mut g.items);
                // this table exists: see surround
                g.items.push(Ok((None, nm("zzpad_t0"))));
                g.items.extend(v);
                if let Some(s) = &mut g.set {
                    more(s, n);
                } else {
                    g.set = Some(vec![at("color", Some(s1("zz")))]);
                }
                if !g.items.iter().any(|i| i.is_err()) {
                    g.items.push(Err(Note { form: 0, l: s1("zz") }));
                }
            }
            Decl::R(r) => {
                if let Some(s) = &mut r.set {
                    more(s, n);
                } else if refs % 2 == n % 2 || r.n.is_some() {
                    r.set = Some(vec![at("delete", Some(bare(["cascade", "set null"][refs % 2]))), at("color", Some(s1("zz")))]);
                }
                if refs % 2 == 0 && r.n.is_none() {
                    r.n = Some(num("zzref", refs % 10));
                    r.block = !r.block;
                }
                refs += 1;
            }
            Decl::P(p) => {
                let v = core::mem::take(&mut p.m);
                let mut k = 0;
                for y in v {
                    for _ in 0..n {
                        if k < 10 {
                            p.m.push(Ok((num("zzprop", k).b, s1("zz"))));
                        }
                        k += 1;
                    }
                    p.m.push(y);
                }
            }
            Decl::N(_) => {}
        }
    }
}
/// fresh keys around and between the settings of a list
fn more(s: &mut Vec<At>, n: usize) {
    let v = core::mem::take(s);
    let mut k = 0;
    for y in v {
        for _ in 0..n {
            if k < 10 {
                s.push((num("zzkey", k).b, if k % 2 == 0 { Some(s1("zz")) } else { None }));
            }
            k += 1;
        }
        s.push(y);
    }
}
/// unrelated, correct declarations between all declarations: tables with keys, relations, enums, groups
#[inline(never)]
fn surround(d: &mut Vec<Decl>, n: usize) {
    let mut pad: Vec<Decl> = Vec::new();
    for i in 0..n {
        let mut t = tab("x", vec![cols("zza", "int", vec![sa("pk")]), cols("zzb", "int", vec![sa("unique")]), col("zzc", "int")]);
        t.n = num("zzpad_t", i);
        if i % 2 == 1 {
            t.s = Some(nm("zzpad_s"));
        }
        if i % 3 != 2 {
            t.alias = Some(num("zzpad_a", i));
        }
        t.m.push(Member::I(vec![ix(&["zza", "zzb"], None), ix(&["zzb"], Some(vec![at("type", Some(bare("hash")))]))]));
        let me = End { s: t.s.clone(), t: t.n.clone(), c: vec![nm("zzc")], paren: false };
        let first = End { s: None, t: num("zzpad_t", 0), c: vec![nm("zza")], paren: false };
        let mut e = en("x", &["zzv", "zzw"]);
        e.n = num("zzpad_e", i);
        let mut g = gr("x", &["zzpad_t0"]);
        g.n = num("zzpad_g", i);
        pad.push(Decl::T(t));
        pad.push(match i % 4 {
            0 => Decl::E(e),
            1 => Decl::R(rf(me, 1, first)),
            2 => Decl::G(g),
            _ => Decl::N(Note { form: 0, l: s1("zz") }),
        });
    }
    let v = core::mem::take(d);
    let k = v.len();
    let total = pad.len();
    let mut pad = pad.into_iter();
    for (i, y) in v.into_iter().enumerate() {
        // spread over all places, the last ones after the last declaration
        let upto = total * (i + 1) / (k + 1) - total * i / (k + 1);
        for _ in 0..upto {
            if let Some(p) = pad.next() {
                d.push(p);
            }
        }
        d.push(y);
    }
    d.extend(pad);
}

/// checks one document of a scenario against its expected verdict
#[inline(never)]
pub fn judge(mut c: Case, mode: Mode) {
    let mut w = W::new();
    match mode {
        Mode::Order => shuffle(&mut c.d, pick(6)),
        Mode::Spell => {
            let how = pick(4);
            if how == 0 || how == 3 {
                w.quote = true;
            }
            if how == 0 {
                // types too
                for x in c.d.iter_mut() {
                    if let Decl::T(t) = x {
                        for m in t.m.iter_mut() {
                            if let Member::C(y) = m {
                                if y.t.args.is_none() {
                                    y.t.q = true;
                                }
                            }
                        }
                    }
                }
            }
            if how != 0 {
                respell(&mut c.d, if how == 3 { 1 } else { how });
            }
        }
        Mode::Rename => {
            let style = pick(5);
            w.quote = style != 0;
            rename(&mut c.d, style);
        }
        Mode::RunNamed => {
            let style = 4 + pick(2);
            w.quote = true;
            rename(&mut c.d, style);
        }
        Mode::Pad => {
            let how = pick(2) as usize;
            fill(&mut c.d, [3, 1][how]);
            surround(&mut c.d, [2, 6][how]);
        }
        Mode::PadMore => {
            let how = pick(4) as usize;
            if how > 0 {
                fill(&mut c.d, [0, 2, 5, 9][how]);
            }
            surround(&mut c.d, [9, 9, 3, 1][how]);
        }
        Mode::Layout => match pick(3) {
            0 => {
                w.gap_at = EVERY;
                w.gap_kind = 3;
            }
            1 => {
                w.gap_at = EVERY;
                w.gap_kind = 7;
            }
            _ => w.case = 1,
        },
        _ => {}
    }
    let want = decls(&mut w, &c.d);
    doc(&w.s);
    if mode == Mode::Same {
        return same_result(&w.s);
    }
    if mode == Mode::Run || mode == Mode::RunNamed {
        return super::p_syn::judge(&w.s, 1);
    }
    if mode == Mode::Shown {
        return super::p_syn::shown(&w.s);
    }
    if mode == Mode::Query {
        // without the hooks nothing is reached, which the witnesses report
        #[cfg(feature = "hooks")]
        super::query::query(&c.d, &w.s);
        return;
    }
    let r = dbml_rs::parse_dbml(w.text());
    match &r {
        Ok(_) => {
            cover(OK);
            check(c.v.is_empty(), 10);
        }
        Err(e) => {
            cover(BAD);
            check(!c.v.is_empty(), 11);
            if mode == Mode::Error {
                let (a, b) = match e.location {
                    InputLocation::Pos(p) => (p, p),
                    InputLocation::Span((a, b)) => {
                        // a span may take in the layout that follows its construct
                        let mut e = b;
                        while e > a + 1 && e <= w.s.len() && (w.s[e - 1] == b'\n' || w.s[e - 1] == b' ') {
                            e -= 1;
                        }
                        (a, e)
                    }
                };
                let msg: &[u8] = match &e.variant {
                    ErrorVariant::CustomError { message } => message.as_bytes(),
                    _ => b"",
                };
                let mut named = false;
                let mut worded = false;
                let mut there = false;
                for x in &c.v {
                    let m = x.m.as_bytes();
                    if msg.len() >= m.len() && &msg[..m.len()] == m {
                        named = true;
                        let mut ok = true;
                        for y in &x.w {
                            ok = ok & has(msg, y);
                        }
                        worded = worded | ok;
                        for y in &x.at {
                            if inside(&want, y, w.s.len(), a, b) && a <= b {
                                there = true;
                            }
                        }
                    }
                }
                check(named, 12);
                check(worded, 13);
                check(there, 14);
            }
        }
    }
}
/// checked and unchecked results agree, and repeat
#[inline(never)]
pub fn same_result(s: &[u8]) {
    let u = dbml_rs::parse_dbml_unchecked(st(s));
    let c = dbml_rs::parse_dbml(st(s));
    match (&u, &c) {
        (Ok(u), Ok(c)) => {
            cover(OK);
            check(super::sig::exact(&u.blocks, s) == super::sig::exact(&c.blocks, s), 20);
            check(u.span_range.start == c.span_range.start && u.span_range.end == c.span_range.end, 21);
            check(u.input.as_ptr() == c.input.as_ptr() && u.input.len() == c.input.len(), 22);
        }
        (Err(a), Err(b)) => {
            cover(BAD);
            check(a == b, 23)
        }
        (Ok(_), Err(a)) => {
            cover(3);
            // a document the unchecked parser accepts is only ever refused by a named semantic rule
            check(matches!(&a.variant, ErrorVariant::CustomError { .. }), 24);
        }
        (Err(_), Ok(_)) => check(false, 25),
    }
    let c2 = dbml_rs::parse_dbml(st(s));
    match (&c, &c2) {
        (Ok(a), Ok(b)) => check(super::sig::exact(&a.blocks, s) == super::sig::exact(&b.blocks, s), 26),
        (Err(a), Err(b)) => check(a == b, 27),
        _ => check(false, 28),
    }
}
